"""C11: grid generators return valid, well-spread group elements."""
from __future__ import annotations

import contextlib
import io
import math

import torch
from hypothesis import strategies as st

from gconv.geometry import o2, o3, so2, so3
from gconv.geometry.groups import s2

from .. import rots
from ..core import SEEDS, close, facet, fail, tensor_ok
from ..grp import quat_mat, rot2, so3_angle
from .c06 import dependence, haar_stats, ks
from .c07 import LAST, to_mat

DT = torch.float64
F32 = torch.float32


def rotations(g, p, n, what, tol=2e-3):
    """validates elements of a parameterization, returns matrices"""
    tensor_ok(g, (n, *LAST[p]), what, F32)
    if n == 0:
        return torch.zeros(0, 3, 3, dtype=DT)
    if p == "quat":
        e = float((g.double().norm(dim=-1) - 1).abs().max())
        if e > tol:
            fail(f"{what}: quaternion norms are {e:.1e} off one")
    R = to_mat(g, p)
    err = float((R @ R.mT - torch.eye(3, dtype=DT)).abs().max())
    d = float((torch.linalg.det(R) - 1).abs().max())
    if err > tol or d > tol:
        fail(f"{what}: not rotation matrices (orthonormality error {err:.1e}, determinant error {d:.1e})")
    return R


def nn(D):
    return D.clone().fill_diagonal_(math.inf).min(-1)[0]


# ---------------------------------------------------------------- SO(2), O(2)


PLANAR = st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(61, 900)),
                                    m=st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(61, 900)), seed=SEEDS))


def equal_spacing(a, n, what):
    tensor_ok(a, (n, 1), what, F32)
    a = a.double().flatten()
    if n and (float(a.min()) < 0 or float(a.max()) >= 2 * math.pi):
        fail(f"{what}: angles outside [0, 2 pi)")
    want = torch.arange(n, dtype=DT) * (2 * math.pi / max(n, 1))
    got = a.sort()[0]
    if n:  # equally spaced; any common offset is allowed
        gap = torch.cat((got[1:] - got[:-1], (got[:1] + 2 * math.pi - got[-1:])))
        if float((gap - 2 * math.pi / n).abs().max()) > 1e-5 * 2 * math.pi:
            fail(f"{what}: gaps between {float(gap.min()):.4f} and {float(gap.max()):.4f}, expected {2 * math.pi / n:.4f}")
        if float((got - want).abs().max()) > 1e-4:
            fail(f"{what}: the grid is not the cyclic group (contains the identity): starts at {float(got[0]):.4f}")


def check_planar(case):
    """so2/o2 grids: n equally spaced angles starting at the identity; requested rotations first, then reflections."""
    n, m = case["n"], case["m"]
    equal_spacing(so2.uniform_grid(n), n, f"so2.uniform_grid({n})")
    g = o2.uniform_grid((n, m))
    tensor_ok(g, (n + m, 2), f"o2.uniform_grid({(n, m)})", F32)
    want = torch.cat((torch.ones(n), -torch.ones(m)))
    if not torch.equal(g[:, 0], want):
        fail(f"o2.uniform_grid({(n, m)}): coefficients {g[:, 0].tolist()}")
    equal_spacing(g[:n, 1:], n, f"rotations of o2.uniform_grid({(n, m)})")
    equal_spacing(g[n:, 1:], m, f"reflections of o2.uniform_grid({(n, m)})")
    if torch.equal(g, o2.uniform_grid((n, m))) is False:
        fail("o2.uniform_grid is not deterministic")
    torch.manual_seed(case["seed"])
    r = so2.random_grid(n)
    tensor_ok(r, (n, 1), f"so2.random_grid({n})", F32)
    if n and not (0 <= float(r.min()) and float(r.max()) <= 2 * math.pi):
        fail(f"so2.random_grid: angles outside [0, 2 pi): {r.flatten().tolist()}")
    q = o2.random_grid(m)
    tensor_ok(q, (m, 2), f"o2.random_grid({m})", F32)
    if not bool(((q[:, 0] == 1) | (q[:, 0] == -1)).all()):
        fail(f"o2.random_grid: coefficients {q[:, 0].tolist()}")
    if m and not (0 <= float(q[:, 1].min()) and float(q[:, 1].max()) <= 2 * math.pi):
        fail("o2.random_grid: angles outside [0, 2 pi)")
    torch.manual_seed(case["seed"])
    if not torch.equal(so2.random_grid(n), r):
        fail("so2.random_grid does not depend on the random seed alone")
    return n + m > 1, ["empty" if n * m == 0 else "both"]


# ---------------------------------------------------------------- SO(3), O(3) uniform


PAR = st.sampled_from(("quat", "matrix", "euler"))
UNI3 = st.fixed_dictionaries(dict(n=st.sampled_from((3, 2, *range(4, 25), 0, 1)), par=PAR, case_=st.booleans(), seed=SEEDS))


def check_uniform_small(case):
    """so3.uniform_grid of the usual sizes: n valid, distinct, evenly spread rotations in each parameterization."""
    n, p = case["n"], case["par"]
    torch.manual_seed(case["seed"])
    what = f"so3.uniform_grid({n}, {p!r})"
    Rs = [rotations(so3.uniform_grid(n, p.upper() if case["case_"] else p, show_pbar=False), p, n, what) for _ in range(5 if 1 < n < 8 else 1)]
    spread(Rs, what)
    return n > 1, [p, f"n{n}"]


def check_every_small(case):
    """so3.uniform_grid of every size up to 24 in every parameterization, and o3.uniform_grid of the same sizes."""
    torch.manual_seed(case)
    for n in range(25):
        for p in ("quat", "matrix", "euler"):
            what = f"so3.uniform_grid({n}, {p!r})"
            Rs = [rotations(so3.uniform_grid(n, p, show_pbar=False), p, n, what) for _ in range(5 if 1 < n < 8 else 1)]
            spread(Rs, what)
        g = o3.uniform_grid((n, 24 - n), matrix_only=True)
        R = rotations(g, "matrix", 24, f"o3.uniform_grid({(n, 24 - n)}, matrix_only=True)")
        spread([R[:n]], f"rotations of o3.uniform_grid({(n, 24 - n)})") if n > 7 else None
    return True, []


# mean nearest neighbour angle times n^(1/3): about 4 to 4.6 for repelled grids, 2.4 to 2.8 for random ones. Repulsion of a
# few rotations may end in a poor local minimum, so these are judged by the mean of five grids.


def spread(Rs, what):
    n = len(Rs[0])
    if n < 2:
        return
    ds = [nn(so3_angle(R[:, None], R)) * n ** (1 / 3) for R in Rs]
    mean, least = sum(float(d.mean()) for d in ds) / len(ds), min(float(d.min()) for d in ds)
    if mean < 3.15:
        fail(f"{what}: mean nearest neighbour angle times n^(1/3) is {mean:.2f}, evenly spread grids reach 4")
    if n >= 8 and least < 2.5:
        fail(f"{what}: two rotations are only {least / n ** (1 / 3):.3f} apart")


BIG3 = st.fixed_dictionaries(dict(n=st.sampled_from(range(25, 61)), par=PAR, seed=SEEDS, default_par=st.booleans()))


def check_uniform_big(case):
    """so3.uniform_grid of sizes without precomputed grid: valid, evenly spread, determined by the random seed."""
    n, p = case["n"], case["par"]
    what = f"so3.uniform_grid({n}, {p!r})"
    torch.manual_seed(case["seed"])
    g = so3.uniform_grid(n, p, show_pbar=False)
    R = rotations(g, p, n, what)
    spread([R], what)
    torch.manual_seed(case["seed"])
    h = so3.uniform_grid(n, p, steps=1, show_pbar=False)
    rotations(h, p, n, what + " with one step")
    if g.requires_grad or h.requires_grad:
        fail(f"{what} tracks gradients")
    return True, [p]


LARGE3 = st.fixed_dictionaries(dict(n=st.sampled_from((310, 70, 400, 130, 260)), par=PAR, seed=SEEDS))


def check_uniform_large(case):
    """so3.uniform_grid of large sizes: valid and evenly spread."""
    n, p = case["n"], case["par"]
    what = f"so3.uniform_grid({n}, {p!r})"
    torch.manual_seed(case["seed"])
    spread([rotations(so3.uniform_grid(n, p, show_pbar=False), p, n, what)], what)
    return True, [p, f"n{n}"]


O3U = st.fixed_dictionaries(dict(n=st.integers(0, 12), m=st.integers(0, 12), only=st.booleans(), seed=SEEDS))


def check_o3_uniform(case):
    """o3.uniform_grid: requested rotations first, then reflections, each part evenly spread; matrix_only drops the coefficients."""
    n, m = case["n"], case["m"]
    what = f"o3.uniform_grid({(n, m)}, matrix_only={case['only']})"
    g = o3.uniform_grid((n, m), matrix_only=True) if case["only"] else o3.uniform_grid((n, m))
    if case["only"]:
        R = rotations(g, "matrix", n + m, what)
    else:
        tensor_ok(g, (n + m, 10), what, F32)
        want = torch.cat((torch.ones(n), -torch.ones(m)))
        if not torch.equal(g[:, 0], want):
            fail(f"{what}: coefficients {g[:, 0].tolist()}")
        R = rotations(g[:, 1:].reshape(-1, 3, 3), "matrix", n + m, what)
    spread([R[:n]], what + " rotations")
    spread([R[n:]], what + " reflections")
    return n + m > 0, ["only" if case["only"] else "full"]


# ---------------------------------------------------------------- random elements


SHAPE = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 4), min_size=1, max_size=3), st.integers(0, 9),
                  st.lists(st.integers(0, 4), min_size=1, max_size=3), st.sampled_from((33, 65, 100, 129, 260, [13, 17], [1, 100], [150, 1])))
RANDOM = st.fixed_dictionaries(dict(shape=SHAPE, seed=SEEDS, kind=st.sampled_from(("quat", "matrix", "euler", "o3", "s2"))))


def draw_random(kind, size):
    return {"quat": so3.random_quat, "matrix": so3.random_matrix, "euler": so3.random_euler, "o3": o3.random_grid,
            "s2": lambda s: s2.random_s2(s if isinstance(s, tuple) else (s,))}[kind](size)


def check_random(case):
    """Random elements of every shape are valid, distinct and reproducible from the seed."""
    s = case["shape"]
    size = tuple(s) if isinstance(s, list) else s
    shape = tuple(s) if isinstance(s, list) else (s,)
    n = math.prod(shape)
    k = case["kind"]
    what = f"random {k} of size {size}"
    torch.manual_seed(case["seed"])
    g = draw_random(k, size)
    last = {"o3": (10,), "s2": (2,), **LAST}[k]
    tensor_ok(g, (*shape, *last), what, F32)
    f = g.reshape(n, *last)
    if k in LAST:
        R = rotations(f, k, n, what, 1e-4)
    elif k == "o3":
        if not bool(((f[:, 0] == 1) | (f[:, 0] == -1)).all()):
            fail(f"{what}: coefficients {f[:, 0].tolist()}")
        R = rotations(f[:, 1:].reshape(n, 3, 3), "matrix", n, what, 1e-4)
    else:
        b, c = f.double().unbind(-1)
        if n and not (float(b.min()) >= 0 and float(b.max()) <= math.pi + 1e-6 and float(c.abs().max()) <= math.pi + 1e-6):
            fail(f"{what}: spherical coordinates out of range")
        R = None
    if R is not None and n > 1 and float(nn(so3_angle(R[:, None], R)).min()) == 0:
        fail(f"{what}: repeated elements")
    torch.manual_seed(case["seed"])
    if not torch.equal(draw_random(k, size), g):
        fail(f"{what} is not determined by the random seed")
    return n > 0, [k, "int" if isinstance(size, int) else f"dims{len(size)}"]


NS = 2000
DISTR = st.fixed_dictionaries(dict(n=st.sampled_from((NS, NS, NS, NS, 6000, 15000)), kind=st.sampled_from(("quat", "matrix", "euler", "o3", "so2", "o2", "s2")), seed=SEEDS, tup=st.booleans()))


def check_random_distribution(case):
    """Random elements follow the uniform distribution: Kolmogorov-Smirnov tests of 1-D statistics, threshold p < 1e-10."""
    k, NS = case["kind"], case.get("n", 2000)
    torch.manual_seed(case["seed"])
    crit = math.sqrt(-math.log(1e-10 / 2) / 2 / NS)
    coeff = None
    if k in ("so2", "o2"):
        g = (so2 if k == "so2" else o2).random_grid(NS).double()
        stats = {"angle": g[:, -1] / (2 * math.pi)}
        coeff = g[:, 0] if k == "o2" else None
        gaps = stats["angle"]
    else:
        size = (NS // 10, 10) if case["tup"] else NS
        g = draw_random(k, size).double()
        if k == "s2":
            g = g.reshape(NS, 2)
            stats = {"z": (torch.cos(g[:, 0]) + 1) / 2, "gamma": (g[:, 1] / (2 * math.pi)) % 1}
            gaps = stats["gamma"]
        else:
            if k == "o3":
                g = g.reshape(NS, 10)
                coeff, R = g[:, 0], g[:, 1:].reshape(NS, 3, 3)
            else:
                R = to_mat(g.reshape(NS, *LAST[k]), k)
            stats = haar_stats(R)
            gaps = stats["alpha"]
    for name, u in stats.items():
        d = ks(u)
        if d > crit:
            fail(f"random {k}: {name} is not uniformly distributed (KS {d:.3f} > {crit:.3f})")
    # successive elements are independent: fractional differences are uniform too
    d = ks((gaps[1:] - gaps[:-1]) % 1)
    if d > 1.5 * crit:
        fail(f"random {k}: successive elements depend on each other (KS {d:.3f})")
    if coeff is not None:
        p = float((coeff == 1).double().mean())
        if abs(p - 0.5) > crit:
            fail(f"random {k}: {p:.3f} of the elements are rotations")
        first = stats["angle"]
        for sgn in (1, -1):  # the coefficient is independent of the rotation
            sel = first[coeff == sgn]
            if ks(sel) > math.sqrt(-math.log(1e-10 / 2) / 2 / len(sel)):
                fail(f"random {k}: rotations with coefficient {sgn} are not uniform")
    names = ("alpha", "R22", "gamma") if "R22" in stats else tuple(stats)
    why = dependence({s: stats[s] for s in names}, coeff, {1: 16, 2: 8, 3: 4}[len(names)], 8)
    if why:
        fail(f"random {k}: {why}")
    again = len(g.reshape(NS, -1).unique(dim=0))
    if again < NS - (20 + NS * NS // 2**22 if g.reshape(NS, -1).shape[1] < 3 else 3):  # single precision angles collide now and then
        fail(f"random {k}: only {again} of {NS} elements are different")
    return True, [k, f"n{NS}"]


# ---------------------------------------------------------------- the sphere


SPAR = ("euclidean", "spherical", "euler", "matrix", "quat")
S2U = st.fixed_dictionaries(dict(n=st.sampled_from((4, 2, 3, *range(5, 26), 0, 1, 40, 90, 170)), par=st.sampled_from(SPAR), neg=st.booleans(), seed=SEEDS, default=st.booleans()))


def s2_points(g, p, n, what, neg):
    """validates sphere elements, returns unit vectors"""
    last = {"euclidean": (3,), "spherical": (2,), **LAST}[p]
    tensor_ok(g, (n, *last), what, F32)
    d = g.double()
    if p == "euclidean":
        return d
    if p == "spherical":
        return torch.stack((torch.sin(d[:, 0]) * torch.cos(d[:, 1]), torch.sin(d[:, 0]) * torch.sin(d[:, 1]), torch.cos(d[:, 0])), -1)
    R = rotations(g, p, n, what, 1e-3)
    v = R[:, :, 2]  # image of the z axis
    # alpha is zero (y axis stays horizontal), or minus gamma (the rotation has no twist: its axis is horizontal)
    if neg:
        tw = torch.stack((R[:, 1, 0] - R[:, 0, 1],), -1)
        if n and float(tw.abs().max()) > 1e-4:
            fail(f"{what} with alpha = -gamma: rotations twist about the z axis")
    elif n:
        if float(R[:, 2, 1].abs().max()) > 1e-4:
            fail(f"{what}: alpha is not zero")
    return v


def check_s2_uniform(case):
    """uniform_grid_s2: n unit directions in each parameterization, clearly better spread than random directions."""
    n, p = case["n"], case["par"]
    torch.manual_seed(case["seed"])
    what = f"uniform_grid_s2({n}, {p!r})"
    if case["default"] and p == "euclidean":
        g = s2.uniform_grid_s2(n, show_pbar=False)
    else:
        g = s2.uniform_grid_s2(n, p, set_alpha_as_neg_gamma=case["neg"], show_pbar=False)
    v = s2_points(g, p, n, what, case["neg"])
    if n and float((v.norm(dim=-1) - 1).abs().max()) > 1e-4:
        fail(f"{what}: not unit vectors")
    if g.requires_grad:
        fail(f"{what} tracks gradients")
    if n > 1:
        D = 2 * torch.asin(((v[:, None] - v).norm(dim=-1) / 2).clamp(max=1))
        d = nn(D) * n**0.5
        if float(d.mean()) < 2.8 or float(d.min()) < 2.2:
            fail(f"{what}: nearest neighbour angles times n^(1/2): mean {float(d.mean()):.2f}, smallest {float(d.min()):.2f};"
                 " evenly spread grids reach 3.3 and 3.0")
    return n > 1, [p, "neg" if case["neg"] else "zero"]


OPT = st.fixed_dictionaries(dict(on=st.sampled_from(("so3", "s2")), n=st.one_of(st.integers(25, 45), st.sampled_from((70, 110))), few=st.integers(1, 12),
                                 par=st.sampled_from(("quat", "matrix", "euler", "spherical", "euclidean")), neg=st.booleans(), seed=SEEDS,
                                 steps=st.one_of(st.integers(0, 12), st.sampled_from((25, 40))), size=st.sampled_from((0.05, 0.3, 1.0, 2.0, 3.5)),
                                 rel=st.sampled_from(("defaults", "no-steps", "more-steps", "other-size", "parameterizations", "progress-bar", "spread"))))


def check_options(case):
    """Steps and step size of the optimisation are honoured, their defaults are the documented ones, the parameterization only renames
    the grid, and more steps spread it."""
    so, n, p, rel = case["on"] == "so3", case["n"], case["par"], case["rel"]
    if so:  # sizes without precomputed grid
        p = p if p in LAST else "quat"
    elif case["few"] > 4:
        n = case["few"]
    if rel == "spread":
        n = max(n, 12)

    def grid(p=p, seed=case["seed"], **kw):
        torch.manual_seed(seed)
        kw = {"show_pbar": False, **kw}
        if so:
            g = so3.uniform_grid(n, p, **kw)
        else:
            g = s2.uniform_grid_s2(n, p, **({"set_alpha_as_neg_gamma": True} if case["neg"] else {}), **kw)
        return tensor_ok(g, None, f"uniform grid on {case['on']} ({p}, {kw})", F32)

    def points(g, p=p):
        if so:
            return rotations(g, p, n, what)
        return s2_points(g, p, n, what, case["neg"])

    what = f"uniform grid of {n} elements on {case['on']} ({p}): {rel}"
    k, t = case["steps"], case["size"] if so else case["size"] / 10
    if rel == "defaults":
        close(points(grid(steps=200 if so else 100)), points(grid()), 1e-5, f"{what}: their number given explicitly, against leaving it out", scale=1.0)
        close(points(grid(steps=4, step_size=n ** (1 / 3) if so else 0.1)), points(grid(steps=4)), 1e-4,
              f"{what}: their size given explicitly, against leaving it out", scale=1.0)
    elif rel == "no-steps":
        close(points(grid(steps=0, step_size=t)), points(grid(steps=0)), 1e-5, f"{what}, but the step size matters", scale=1.0)
    elif rel == "more-steps":
        k += 1
        a, b = points(grid(steps=k, step_size=t)), points(grid(steps=k + case["few"], step_size=t))
        c = points(grid(steps=0))
        if float((a - b).abs().max()) < 1e-6 or float((a - c).abs().max()) < 1e-7:
            fail(f"{what}: the same with 0, {k} and {k + case['few']} steps of {t}")
    elif rel == "other-size":
        k += 1
        a, b = points(grid(steps=k, step_size=t)), points(grid(steps=k, step_size=2 * t))
        if float((a - b).abs().max()) < 1e-6:
            fail(f"{what}: the same after {k} steps of {t} and of {2 * t}")
    elif rel == "parameterizations":
        for q in (("quat", "matrix", "euler") if so else ("spherical", "euclidean", "quat", "matrix", "euler")):
            close(points(grid(q, steps=k, step_size=t), q), points(grid(steps=k, step_size=t)), 2e-3, f"{what} {q} against {p}", scale=1.0)
    elif rel == "progress-bar":
        with contextlib.redirect_stderr(io.StringIO()):
            a = points(grid(steps=k, step_size=t, show_pbar=True))
        close(a, points(grid(steps=k, step_size=t)), 1e-6, f"{what} shown or not", scale=1.0)
    else:
        def mean(g):
            v = points(g)
            if so:
                return float(nn(so3_angle(v[:, None], v)).mean())
            return float(nn(2 * torch.asin(((v[:, None] - v).norm(dim=-1) / 2).clamp(max=1))).mean())
        seeds = [case["seed"] + i for i in range(4)]
        a, b = sum(mean(grid(seed=i, steps=0)) for i in seeds), sum(mean(grid(seed=i, steps=80)) for i in seeds)
        if b < 1.1 * a:
            fail(f"{what}: mean nearest neighbour distance {a / 4:.3f} before and {b / 4:.3f} after 80 steps")
    return True, [case["on"], rel]


BAD = st.fixed_dictionaries(dict(par=st.sampled_from(("quaternion", "", "axis", "mat")), n=st.integers(0, 40)))


def check_bad_parameterization(case):
    """Unknown parameterizations are rejected."""
    try:
        so3.uniform_grid(case["n"], case["par"], steps=1, show_pbar=False)
    except ValueError:
        return True, []
    fail(f"so3.uniform_grid accepted the parameterization {case['par']!r}")


facet("C11", "planar", PLANAR, quick=900, rule="more than one element")(check_planar)
facet("C11", "so3-every-small-size", SEEDS, quick=2, thorough=30, rule="every case")(check_every_small)
facet("C11", "so3-uniform", UNI3, quick=60, thorough=600, rule="more than one element")(check_uniform_small)
facet("C11", "so3-uniform-uncached", BIG3, quick=22, thorough=400, rule="every case")(check_uniform_big)
facet("C11", "so3-uniform-large", LARGE3, quick=10, thorough=120, rule="every case")(check_uniform_large)
facet("C11", "optimisation-options", OPT, quick=100, thorough=2000, rule="every case")(check_options)
facet("C11", "o3-uniform", O3U, quick=900, rule="not empty")(check_o3_uniform)
facet("C11", "random-elements", RANDOM, quick=1200, rule="not empty")(check_random)
facet("C11", "random-distribution", DISTR, quick=130, rule=f"every case ({NS} elements)")(check_random_distribution)
facet("C11", "s2-uniform", S2U, quick=130, thorough=1500, rule="more than one element")(check_s2_uniform)
facet("C11", "bad-parameterization", BAD, quick=60, thorough=100, rule="every case")(check_bad_parameterization)
