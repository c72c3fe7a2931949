"""C18: repulsion spreads points without corrupting them."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import repulsion, so2, so3
from gconv.geometry.groups import s2

from .. import rots
from ..core import SEEDS, close, facet, fail, gen, rand, randn, same, tensor_ok
from ..grp import quat_mat

DT = torch.float64
PI = math.pi


def euclid(x, y):
    return ((x - y) ** 2).sum(-1).clamp_min(1e-12).sqrt()


# the metrics of the library on their periodic parameterizations
SPACES = {
    "so3": (3, lambda n: dict(metric_fn=so3.geodesic_distance, transform_fn=so3.euler_to_quat, dist_normalization_constant=PI / 2,
                              step_size=max(n, 1) ** (1 / 3))),
    "s2": (2, lambda n: dict(metric_fn=s2.geodesic_distance_s2, transform_fn=s2.spherical_to_euclid, dist_normalization_constant=PI,
                             step_size=0.1)),
    "so2": (1, lambda n: dict(metric_fn=so2.geodesic_distance, dist_normalization_constant=PI, step_size=0.01)),
    "plane": (2, lambda n: dict(metric_fn=euclid, step_size=0.01)),
    "exp": (2, lambda n: dict(metric_fn=s2.geodesic_distance_s2, transform_fn=s2.spherical_to_euclid, energy_fn=lambda d: torch.exp(-d),
                              step_size=0.5)),
}


def start(space, n, seed, dt):
    """random points by independent reference sampling (never by the code under test)"""
    D = SPACES[space][0]
    if space == "so3":  # uniform rotations as z-y-z angles
        u = rand(seed, n, 3)
        return torch.stack((2 * PI * u[:, 0], torch.acos(1 - 2 * u[:, 1]), 2 * PI * u[:, 2]), -1).to(dt)
    if D == 2:
        u = rand(seed, n, 2)
        return torch.stack((torch.acos(1 - 2 * u[:, 0]), 2 * PI * u[:, 1]), -1).to(dt)
    return (2 * PI * rand(seed, n, 1)).to(dt)


def pairwise(space, g):
    """independently computed distances with infinite diagonal"""
    g = g.double()
    n = len(g)
    if space == "so3":
        # quaternion of z-y-z angles
        a, b, c = g.unbind(-1)
        q = torch.stack((torch.cos(b / 2) * torch.cos((a + c) / 2), torch.sin(b / 2) * torch.sin((c - a) / 2) * -1,
                         torch.sin(b / 2) * torch.cos((c - a) / 2), torch.cos(b / 2) * torch.sin((a + c) / 2)), -1)
        d = torch.acos((q @ q.T).abs().clamp(max=1))
    elif space == "so2":
        x = (g - g.T).abs() % (2 * PI)
        d = torch.minimum(x, 2 * PI - x)
    else:
        # polar and azimuthal angle in either order: read off the library's own documented map
        e = s2.spherical_to_euclid(g)
        d = torch.acos((e @ e.T).clamp(-1, 1))
    return d + torch.diag(torch.full((n,), math.inf, dtype=DT))


MODES = ("grad", "no_grad", "nested")


@st.composite
def runs(draw):
    space = draw(st.sampled_from(sorted(SPACES)))
    return dict(space=space, n=draw(st.one_of(st.integers(0, 4), st.integers(5, 40))), steps=draw(st.sampled_from((0, 1, 2, 5, 12))), seed=draw(SEEDS),
                in_place=draw(st.booleans()), f32=draw(st.booleans()), mode=draw(st.sampled_from(MODES)),
                layout=draw(st.sampled_from(("plain", "columns", "slice"))), dup=draw(st.integers(0, 4)) == 4,
                pbar=draw(st.booleans()), alpha=draw(st.sampled_from((0.001, 0.0, 0.1))))


def put(g, how):
    """the same points in another memory layout, and the tensor they live in"""
    if how == "columns":
        base = g.T.contiguous()
        return base.T, base
    if how == "slice":
        base = torch.full((len(g) + 3, g.shape[1]), 0.25, dtype=g.dtype)
        base[2:-1] = g
        return base[2:-1], base
    return g, g


def call(case, g, seed):
    D, kw = SPACES[case["space"]]
    torch.manual_seed(seed)
    args = dict(steps=case["steps"], alpha=case["alpha"], show_pbar=case["pbar"], in_place=case["in_place"], **kw(case["n"]))
    if case["mode"] == "no_grad":
        with torch.no_grad():
            return repulsion.repulse(g, **args)
    if case["mode"] == "nested":
        with torch.no_grad():
            with torch.enable_grad():
                with torch.no_grad():
                    return repulsion.repulse(g, **args)
    return repulsion.repulse(g, **args)


def check_run(case):
    """Count, dtype, finiteness, in-place contract, no gradient tracking, determinism, independence of mode and layout."""
    dt = torch.float32 if case["f32"] else DT
    n, D = case["n"], SPACES[case["space"]][0]
    pts = start(case["space"], n, case["seed"], dt)
    if case["dup"] and n > 2:
        pts[1] = pts[0]  # coinciding points
    g, base = put(pts.clone(), case["layout"])
    base0 = base.clone()
    what = f"repulse({n} points on {case['space']}, steps={case['steps']}, in_place={case['in_place']}, {case['mode']})"
    was = torch.is_grad_enabled()
    out = call(case, g, case["seed"])
    if torch.is_grad_enabled() != was:
        fail(f"{what}: gradient mode changed")
    tensor_ok(out, (n, D), what, dt)
    for name, t in (("output", out), ("input", g)):
        if t.requires_grad or t.grad_fn is not None:
            fail(f"{what}: {name} tracks gradients")
    if case["in_place"]:
        same(g, out, f"{what}: given tensor")
        if case["layout"] == "slice":
            same(torch.cat((base[:2], base[-1:])), torch.cat((base0[:2], base0[-1:])), f"{what}: memory around the given tensor")
        if case["steps"] > 1 and n > 2 and case["alpha"] > 0 and torch.equal(out, pts):
            fail(f"{what}: nothing was updated")
    else:
        same(base, base0, f"{what}: given tensor")
        with torch.no_grad():
            if n and case["steps"]:
                keep = base.clone()
                out.clone().add_(1)
                same(base, keep, f"{what}: given tensor")
    if case["steps"] == 0:
        same(out, pts, f"{what}: no steps")
    first = out.clone()
    # same input, same seed: same result, whatever the mode, progress bar or earlier calls
    g2, _ = put(pts.clone(), case["layout"])
    out2 = call(dict(case, mode="grad", pbar=not case["pbar"], in_place=not case["in_place"]), g2, case["seed"])
    same(out2, first, f"{what}: repeated from the same seed")
    if case["layout"] != "plain" and case["steps"] == 1 and not case["f32"] and not case["dup"] and n:
        # (sums may be rounded in another order in another memory layout)
        close(call(case, pts.clone(), case["seed"]), first, 1e-9, f"{what}: another memory layout",
              scale=max(1.0, float((first - pts).abs().max())))
    return n > 1 and case["steps"] > 0, [case["space"], case["mode"], case["layout"], f"n{min(n, 5)}", "in place" if case["in_place"] else "copy",
                                        "coinciding" if case["dup"] else ""]


def check_ownership(case):
    """Without in_place, later edits of the input do not reach the output and vice versa."""
    dt = torch.float32 if case["f32"] else DT
    g = start(case["space"], case["n"], case["seed"], dt)
    out = call(dict(case, in_place=False, pbar=False), g, case["seed"])
    keep = out.clone()
    g.fill_(7.0)
    same(out, keep, "output after editing the input")
    out.fill_(3.0)
    if case["n"] and not bool((g == 7).all()):
        fail("input changed by editing the output")
    # in place: no stale gradient is left behind, the tensor can be used and repelled again
    h = start(case["space"], case["n"], case["seed"], dt)
    for i in range(2):
        o = call(dict(case, in_place=True, pbar=False), h, case["seed"] + i)
        tensor_ok(o, h.shape, "second repulsion of the same tensor", dt)
        same(h, o, "tensor repelled twice in place")
    return case["n"] > 1, [case["space"]]


SP = st.fixed_dictionaries(dict(space=st.sampled_from(("so3", "s2")), n=st.one_of(st.integers(2, 12), st.integers(13, 40)),
                                steps=st.sampled_from((60, 100, 150)), seed=SEEDS, f32=st.booleans()))
REPS = 6


def check_spread(case):
    """Random points spread: over six draws the smallest distance grows and the Coulomb energy falls (geometric means)."""
    n, sp = case["n"], case["space"]
    dt = torch.float32 if case["f32"] else DT
    r, e = 0.0, 0.0
    for i in range(REPS):
        g = start(sp, n, case["seed"] + i, dt)
        torch.manual_seed(case["seed"] + i)
        out = repulsion.repulse(g, steps=case["steps"], show_pbar=False, **SPACES[sp][1](n))
        tensor_ok(out, g.shape, "repelled points", dt)
        a, b = pairwise(sp, g), pairwise(sp, out)
        r += math.log(float(b.min()) / float(a.min())) / REPS
        e += math.log(float((b**-2).sum() / (a**-2).sum())) / REPS
    what = f"repulsion of {n} random points on {sp}, {case['steps']} steps"
    lo, hi = (0.0, 0.0) if n == 2 else (0.12, -0.05)
    if not r > lo:
        fail(f"{what}: smallest distance changes by a factor {math.exp(r):.3f} on average")
    if not e < hi:
        fail(f"{what}: Coulomb energy changes by a factor {math.exp(e):.3f} on average")
    return True, [sp, f"n{min(n, 13)}", f"ratio>{math.floor(math.exp(r))}"]


EN = st.fixed_dictionaries(dict(shape=st.lists(st.integers(0, 4), max_size=3), k=st.one_of(st.none(), st.integers(1, 4)), seed=SEEDS))


def check_energy(case):
    """The Coulomb energy of distance d is d^-k (k = 2 by default)."""
    d = 0.05 + 3 * rand(case["seed"], *case["shape"])
    got = repulsion.columb_energy(d) if case["k"] is None else repulsion.columb_energy(d, case["k"])
    k = 2 if case["k"] is None else case["k"]
    want = torch.tensor([1.0 / float(v) ** k for v in d.flatten()], dtype=DT).reshape(d.shape)
    close(got, want, 1e-10, f"columb_energy with k={case['k']}")
    return d.numel() > 0, [f"k{case['k']}"]


# ------------------------------------------------------------------ what repulsion minimises, and what it commutes with
ENERGIES = {
    "coulomb": None,
    "fourth": lambda d: d**-4,
    "exp": lambda d: torch.exp(-d),
    "attract": lambda d: d,
    "spring": lambda d: (d - 0.3) ** 2,
    "log": lambda d: -torch.log(d),
    "far": lambda d: (d - 0.5).clamp(min=0) ** 3,
}
# per space: metric, transform, and the largest distance
PLACES = {
    "so3": (so3.geodesic_distance, so3.euler_to_quat, PI / 2),
    "s2": (s2.geodesic_distance_s2, s2.spherical_to_euclid, PI),
    "so2": (so2.geodesic_distance, None, PI),
    "plane": (euclid, None, 1.0),
    "halved plane": (euclid, lambda x: x / 2, 1.0),
    "line": (euclid, None, 1.0), "doubled line": (euclid, lambda x: 2 * x, 1.0),
    "space": (euclid, None, 1.0), "squeezed space": (euclid, lambda x: x * torch.tensor([1.0, 0.3, 2.0], dtype=DT), 1.0),
    "quaternions": (so3.geodesic_distance, lambda x: x / x.norm(dim=-1, keepdim=True), PI / 2),
    "four": (euclid, lambda x: x[..., :3] / (2 + x[..., 3:] ** 2), 1.0),
    "matrices": (lambda x, y: euclid(x.flatten(-2), y.flatten(-2)), lambda x: 0.5 * x.unflatten(-1, (2, 2)), 1.0),
    "five": (euclid, lambda x: x.cumsum(-1), 1.0), "nine": (euclid, lambda x: x.flip(-1)[..., :5], 1.0),
}
DIM = {"line": 1, "doubled line": 1, "space": 3, "squeezed space": 3, "quaternions": 4, "four": 4, "matrices": 4, "five": 5, "nine": 9}
FLAT = ("plane", "halved plane", "line", "doubled line", "space", "squeezed space", "matrices", "five", "nine")  # nothing changes under translation


@st.composite
def descents(draw):
    return dict(place=draw(st.sampled_from(sorted(PLACES))), energy=draw(st.sampled_from(sorted(ENERGIES))), n=draw(st.integers(2, 12)) if draw(st.integers(0, 5)) < 5 else draw(st.sampled_from((20, 40, 70, 101, 140))),
                steps=draw(st.sampled_from((1, 2, 5, 20))), const=draw(st.sampled_from((None, 0.5, 2.0))), seed=draw(SEEDS),
                pbar=draw(st.booleans()), in_place=draw(st.booleans()))


def total_energy(place, energy, const, g):
    """mean energy over all ordered pairs of different points, one pair at a time"""
    metric, transform, _ = PLACES[place]
    f = ENERGIES[energy] or (lambda d: d**-2)
    x = transform(g) if transform else g
    n = len(g)
    if n > 12:
        return f(metric(x[:, None], x)[~torch.eye(n, dtype=torch.bool)] / const).mean()
    return torch.stack([f(metric(x[i], x[j]) / const) for i in range(n) for j in range(n) if i != j]).mean()


def step_for(place, energy, const, g, reach):
    """step size with which the first step moves no point further than `reach` times the smallest gap"""
    h = g.clone().requires_grad_(True)
    with torch.enable_grad():
        grad, = torch.autograd.grad(total_energy(place, energy, const, h), h)
    metric, transform, _ = PLACES[place]
    x = transform(g) if transform else g
    d = metric(x[:, None], x)[~torch.eye(len(g), dtype=torch.bool)]
    room = float(d.min())
    if place in ("so3", "s2", "so2", "quaternions"):  # distances have a kink where they are largest
        room = min(room, PLACES[place][2] - float(d.max()))
    return reach * room / max(float(grad.norm(dim=-1).max()), 1e-30), float(grad.norm()), room


def options(place, energy, const, step, steps):
    metric, transform, _ = PLACES[place]
    o = dict(metric_fn=metric, step_size=step, steps=steps, dist_normalization_constant=const)
    if transform:
        o["transform_fn"] = transform
    if ENERGIES[energy]:
        o["energy_fn"] = ENERGIES[energy]
    return o


def draw_points(case):
    if case["place"] in ("so3", "s2"):
        return start(case["place"], case["n"], case["seed"], DT)
    if case["place"] == "so2":
        return 2 * PI * rand(case["seed"], case["n"], 1)
    return randn(case["seed"], case["n"], DIM.get(case["place"], 2))


@facet("C18", "given-energy-falls", descents(), quick=260, thorough=2500, budget=90, rule="more than two points, and the energy depends on them")
def given_energy(case):
    """Without noise and with small steps, the energy that was given (and no other), of the given metric, transform and
    normalisation, falls; the result does not depend on the seed, and relabelling the points relabels the result."""
    g = draw_points(case)
    const = case["const"] or PLACES[case["place"]][2]
    step, grad, gap = step_for(case["place"], case["energy"], const, g, 0.02 / case["steps"])
    if gap < 1e-3 or grad < 1e-4:
        return False, ["degenerate"]
    o = options(case["place"], case["energy"], const, step, case["steps"])
    torch.manual_seed(case["seed"])
    out = repulsion.repulse(g.clone(), alpha=0.0, show_pbar=case["pbar"], in_place=case["in_place"], **o)
    what = f"repulsion of {case['n']} points ({case['place']}) by the energy {case['energy']}, {case['steps']} steps"
    tensor_ok(out, g.shape, what, DT)
    a, b = (float(total_energy(case["place"], case["energy"], const, x)) for x in (g, out))
    if not b < a:  # near a minimum the step may reach beyond it: smaller ones tell
        for small in (1e-1, 1e-2, 1e-3, 1e-4):
            near = repulsion.repulse(g.clone(), alpha=0.0, show_pbar=False, **dict(o, step_size=small * step))
            if float(total_energy(case["place"], case["energy"], const, near)) < a:
                break
        else:
            fail(f"{what}: the energy goes from {a!r} to {b!r}")
    if case["steps"] == 1:  # along the gradient of just that energy
        h = g.clone().requires_grad_(True)
        with torch.enable_grad():
            d, = torch.autograd.grad(total_energy(case["place"], case["energy"], const, h), h)
        close((out - g) / (out - g).norm(), -d / d.norm(), 1e-6, f"{what}: direction of the first step")
    torch.manual_seed(case["seed"] + 1)
    close(repulsion.repulse(g.clone(), alpha=0.0, show_pbar=False, **o), out, 1e-9, f"{what}: another seed, without noise")
    p = torch.randperm(case["n"], generator=gen(case["seed"]))
    moved = float((out - g).abs().max())
    close(repulsion.repulse(g[p].clone(), alpha=0.0, show_pbar=False, **o) - g[p], (out - g)[p], 1e-6, f"{what}: displacements of relabelled points", scale=moved)
    if case["place"] in FLAT:
        t = randn(case["seed"] + 1, 1, g.shape[1])
        close(repulsion.repulse(g + t, alpha=0.0, show_pbar=False, **o) - t - g, out - g, 1e-6, f"{what}: displacements of translated points", scale=moved)
    return case["n"] > 2, [case["place"], case["energy"]]


for i in ("", "-b"):
    facet("C18", f"contract{i}", runs(), quick=500, rule="several points and steps", budget=90)(check_run)
    facet("C18", f"spread{i}", SP, quick=15, thorough=300, rule="all", budget=100)(check_spread)
facet("C18", "ownership", runs(), quick=300, rule="several points", budget=90)(check_ownership)
facet("C18", "energy", EN, quick=200, rule="not empty")(check_energy)
