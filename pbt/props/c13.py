"""C13: interpolation on groups reproduces and only mixes the signal."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import interpolation, o2, o3, so2, so3

from ..batch import LAYOUTS, lay
from ..core import SEEDS, close, facet, fail, gen, randn, same, tensor_ok
from ..grp import GRIDS, GROUPS, axis_angle, rand_rot3
from ..ref import gauss, rbf_matrix, sample_group
from ..rots import quat_ref

DT = torch.float64
AUTOGRAD = ("plain", "no_grad", "inference", "requires_grad")
SAMPLER = {"SE2": so2.grid_sample, "SE3": so3.grid_sample, "E2": o2.grid_sample, "E3": o3.grid_sample}


WANTS = st.sampled_from((1, 7, 1, 7, 2, 3, 4, 5, 6))  # which arguments require gradients


def wanted(args, mask):
    return [t.detach().requires_grad_(bool(mask >> i & 1)) for i, t in enumerate(args)]


@st.composite
def cases(draw):
    grp = draw(st.sampled_from(sorted(SAMPLER)))
    refl = GROUPS[grp].refl
    n = [draw(st.integers(1, 5)) for _ in range(2)] if refl else draw(st.integers(1, 8))
    if draw(st.integers(0, 9)) == 9:
        n = [draw(st.sampled_from((1, 6, 8, 9, 12, 17))) for _ in range(2)] if refl else draw(st.sampled_from((9, 12, 16, 17, 24, 33, 60)))
    nq = draw(st.integers(1, 7))
    big = draw(st.sampled_from((40, 129, 300, 520, 1030, 1500))) if draw(st.integers(0, 19)) == 19 else 0
    return dict(grp=grp, n=n, nq=nq, big=big, qk=draw(st.sampled_from(GRIDS)), S=draw(st.sampled_from((1, 2, 3, 4, 1, 2, 3, 4, 5, 8, 17, 33, 70, 130))),
                am=draw(st.sampled_from(AUTOGRAD)), lay=[draw(st.sampled_from(LAYOUTS[:-1])) for _ in range(3)], mode=draw(st.sampled_from(("rbf", "nearest"))),
                width=[draw(st.sampled_from((0.2, 0.5, 0.9, 1.3, 0.2, 0.5, 0.9, 1.3, 0.07, 2.2))) for _ in range(2)], on=[draw(st.booleans()) for _ in range(nq)],
                par=[draw(st.sampled_from(("matrix", "quat"))) for _ in range(2)], f32=draw(st.booleans()),
                wants=draw(WANTS), seed=draw(SEEDS), sort=draw(st.sampled_from(("mixed", "rotations", "reflections"))), defaults=draw(st.booleans()))


def setup(case):
    G = GROUPS[case["grp"]]
    s = case["seed"]
    g = G.ref_grid(s, case["n"])
    N = g.shape[0]
    nq = case["nq"] + case.get("big", 0)
    q = G.grid(s + 2, nq, case.get("qk", "random"))
    pick = torch.randint(N, (nq,), generator=gen(s + 3))
    on = torch.tensor(case["on"] * (1 + nq // case["nq"]))[:nq]
    q = torch.where(on[:, None] if q.ndim == 2 else on[:, None, None], g[pick], q)
    if G.refl and case["sort"] != "mixed":  # queries of one parity only
        q = q.clone()
        q[:, 0] = 1.0 if case["sort"] == "rotations" else -1.0
    sig = randn(s + 4, N, case["S"])
    return G, g, q, sig


def as_par(x, p, seed):
    if p == "matrix":
        return x
    q = quat_ref(x)
    sg = torch.sign(randn(seed, *q.shape[:-1], 1))
    return q * torch.where(sg == 0, 1.0, sg)


def sample(case, q, sig, g, dt=DT, mode=None, widths=None):
    grp = case["grp"]
    G = GROUPS[grp]
    mode = mode or case["mode"]
    w = widths or case["width"]
    if grp == "SE3":
        q, g = as_par(q, case["par"][0], case["seed"]), as_par(g, case["par"][1], case["seed"] + 1)
    a = [t.to(dt) for t in (q, sig, g)]
    a = [lay(t, 1, how) for t, how in zip(a, case.get("lay", ("plain",) * 3))]
    am = case.get("am", "plain")
    if am == "requires_grad":
        a = wanted(a, case.get("wants", 7))
    a0 = [t.detach().clone() for t in a]
    with {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(am, torch.enable_grad)():
        if G.refl:
            kw = dict(rotation_width=w[0], reflection_width=w[1])
            out = SAMPLER[grp](a[0], a[1], a[2], tuple(case["n"]), mode=mode, **kw)
        else:
            out = SAMPLER[grp](a[0], a[1], a[2], mode=mode, width=w[0])
    out, a = (out.detach().clone() if isinstance(out, torch.Tensor) else out), [t.detach() for t in a]
    for t, t0, nm in zip(a, a0, ("grid", "signal", "signal_grid")):
        if not torch.equal(t, t0):
            fail(f"{grp} grid_sample modified {nm}")
    tensor_ok(out, (q.shape[0], sig.shape[1]), f"{grp} sampled signal ({mode})", dt)
    return out.double()


def conditioning(case, g):
    """condition number of the reference interpolation problem"""
    G = GROUPS[case["grp"]]
    c = G.coeff(g)
    return max(float(torch.linalg.cond(rbf_matrix(case["grp"], g[c == s], w))) / min(1.0, w * w)
               for s, w in ((1.0, case["width"][0]), (-1.0, case["width"][1])) if bool((c == s).any()))


def labels(case):
    return [case["grp"], case["mode"], "many" if case.get("big") else "few", case.get("qk", "random")] + (["/".join(case["par"])] if case["grp"] == "SE3" else [])


def nearest_ok(case, G, g, q, sig, got):
    """every query gets the value of one of its closest grid elements (ties within rounding)"""
    eps = 3e-3 if case["f32"] else 2e-5
    D = G.dist(q, g)
    D = torch.where(G.coeff(q)[:, None] == G.coeff(g)[None], D, math.inf)
    # the clamped arc cosine cannot tell apart distances below its floor
    cand = D <= torch.maximum(D.min(-1, keepdim=True)[0] + eps, torch.tensor(2.5e-3))
    for i in range(len(q)):
        vals = sig[cand[i]]
        err = (vals - got[i]).abs().amax(-1)
        if float(err.min()) > (1e-5 if case["f32"] else 1e-12):
            fail(f"{case['grp']} nearest: query {i} got {got[i].tolist()}, its closest elements have {vals.tolist()}")


def check_reference(case):
    """Equals the Gaussian interpolant (solved independently) or a nearest value, in the order of the queries."""
    G, g, q, sig = setup(case)
    dt = torch.float32 if case["f32"] else DT
    got = sample(case, q, sig, g, dt)
    if case["mode"] == "nearest":
        nearest_ok(case, G, g, q, sig.to(dt).double(), got)
    else:
        want, cond = sample_group(case["grp"], q, sig, g, "rbf", case["width"])
        floor = 1e-3 if G.D == 3 else 1e-5  # numerical floor of the distances
        tol = cond * (2e-6 if case["f32"] else 1e-11) + 6 * cond * floor**2 * (0 if G.D == 2 else 1)
        if cond > 1e4 or tol > 0.05:
            return False, ["ill-conditioned"]
        close(got, want, tol + (2e-3 if case["f32"] else 1e-6) * min(cond, 10), f"{case['grp']} rbf interpolant, width {case['width']}", scale=max(1.0, float(want.abs().max())))
    return True, labels(case)


def check_reproduce(case):
    """Sampling on the signal grid itself returns the signal."""
    G, g, _, sig = setup(case)
    cond = conditioning(case, g) if case["mode"] == "rbf" else 1.0
    if cond > 1e6:
        return False, ["ill-conditioned"]
    p = torch.randperm(len(g), generator=gen(case["seed"] + 5))
    got = sample(case, g[p], sig, g)
    close(got, sig[p], 1e-12 * cond + 1e-10, f"{case['grp']} {case['mode']}: signal at its own grid", scale=max(1.0, float(sig.abs().max())))
    return len(g) > 1, labels(case)


def check_mixing(case):
    """Linear in the signal; queries and channels are independent; unchanged when queries and grid are moved together."""
    G, g, q, sig = setup(case)
    cond = conditioning(case, g) if case["mode"] == "rbf" else 1.0
    if cond > 1e5:
        return False, ["ill-conditioned"]
    got = sample(case, q, sig, g)
    sc = max(1.0, float(got.abs().max()))
    tol = 1e-11 * cond + 1e-10
    what = f"{case['grp']} {case['mode']}"
    s = case["seed"]
    other = randn(s + 8, *sig.shape)
    close(sample(case, q, 2.5 * sig - other, g), 2.5 * got - sample(case, q, other, g), tol, f"{what}: linearity in the signal", scale=10 * sc)
    sel = torch.randint(len(q), (4,), generator=gen(s + 9))
    close(sample(case, q[sel], sig, g), got[sel], tol, f"{what}: subset and order of the queries {sel.tolist()}", scale=sc)
    ch = torch.randint(sig.shape[1], (3,), generator=gen(s + 10))
    close(sample(case, q, sig[:, ch], g), got[:, ch], tol, f"{what}: channels", scale=sc)
    # reordering the grid together with its signal (within rotations and reflections)
    c = G.coeff(g)
    order = torch.cat([i[torch.randperm(len(i), generator=gen(s + 11))] for i in (torch.nonzero(c == 1)[:, 0], torch.nonzero(c == -1)[:, 0])])
    D = G.dist(q, g)
    D = torch.where(G.coeff(q)[:, None] == c[None], D, math.inf)
    two = D.sort(-1)[0]
    tie = case["mode"] == "nearest" and len(g) > 1 and bool(((two[:, 1] - two[:, 0]) < 5e-3).any() | (two[:, 1] < 5e-3).any())
    if not tie:
        close(sample(case, q, sig[order], g[order]), got, tol, f"{what}: order of the signal grid", scale=sc)
        h = G.elems(s + 12, 1)[0]
        if G.refl:
            h = h.clone()
            h[0] = 1.0  # keeps rotations in front of reflections
        floor = 5e-5 if G.D == 3 else 1e-8
        close(sample(case, G.mul(h, q), sig, G.mul(h, g)), got, tol + (floor * cond if case["mode"] == "rbf" else 0), f"{what}: common left multiplication", scale=sc)
    return len(g) > 1, labels(case) + (["tie"] if tie else [])


def check_refl_separate(case):
    """O(2)/O(3): rotations only see the signal of rotations and reflections only that of reflections."""
    G, g, q, sig = setup(case)
    a = case["n"][0]
    got = sample(case, q, sig, g)
    rot = G.coeff(q) == 1

    def unmoved(new, mask, width, what):
        cond = 1.0 if case["mode"] == "nearest" else conditioning(dict(case, width=width), g)
        if cond < 1e9:  # rounding may depend on what is solved together
            close(new[mask], got[mask], 1e-13 * cond, f"{case['grp']} {case['mode']}: {what}", scale=max(1.0, float(sig.abs().max())))

    for mask, part in ((rot, slice(a, None)), (~rot, slice(0, a))):
        s2 = sig.clone()
        s2[part] = randn(case["seed"] + 20, *s2[part].shape)
        unmoved(sample(case, q, s2, g), mask, case["width"], "samples after changing the signal of the other parity")
    if case["mode"] == "rbf":
        for mask, width, what in ((rot, [case["width"][0], 0.77], "rotations after changing the reflection width"),
                                  (~rot, [0.77, case["width"][1]], "reflections after changing the rotation width")):
            unmoved(sample(case, q, sig, g, widths=width), mask, width, what)
    return bool(rot.any()) and bool((~rot).any()), labels(case)


# ---------------------------------------------------------------- the generic functions


def euclid(x, y):
    return (x - y).norm(dim=-1)


def l1(x, y):
    return (x - y).abs().sum(-1)


@st.composite
def generic(draw):
    return dict(N=draw(st.integers(1, 3)), K=draw(st.integers(1, 5)), L=draw(st.integers(1, 6)), D=draw(st.integers(1, 5)), S=draw(st.integers(1, 3)),
                width=draw(st.sampled_from((0.3, 0.7, 1.5, 2.0))), dist=draw(st.sampled_from(("euclid", "l1"))), seed=draw(SEEDS),
                rbf=draw(st.booleans()), default=draw(st.booleans()), f32=draw(st.booleans()), alike=draw(st.sampled_from((0, 0, 1, 2, 3, 4, 5, 6, 7))), wants=draw(WANTS), unit=draw(st.sampled_from((1.0, 1.0, 1e-9, 1e9))),
                am=draw(st.sampled_from(AUTOGRAD)), lay=[draw(st.sampled_from(LAYOUTS[:-1])) for _ in range(3)])


@st.composite
def generic_large(draw):
    c = draw(generic())
    some = draw(st.integers(1, 15))
    for i, (k, v) in enumerate(dict(N=(4, 5, 8, 9, 17, 33), K=(6, 8, 17, 33, 65, 130), L=(7, 8, 12, 17, 33), S=(4, 5, 8, 17, 33, 65)).items()):
        if some >> i & 1:
            c[k] = draw(st.sampled_from(v))
    return c


def cauchy(x, width):
    return 1 / (1 + (x / width) ** 2)


def check_generic(case):
    """interpolate_RBF/NN on batches of vectors with any metric and basis function, against the definition."""
    N, K, L, D, S = (case[k] for k in "NKLDS")
    nodes, grid, sig = randn(case["seed"], N, K, D), 1.5 * randn(case["seed"] + 1, N, L, D), case["unit"] * randn(case["seed"] + 2, N, L, S)
    dt, u = torch.float32 if case["f32"] else DT, case["unit"]
    # all entries of the batch may have the same nodes, grid or signal
    nodes, grid, sig = (t[:1].repeat(N, 1, 1) if case.get("alike", 0) >> i & 1 else t for i, t in enumerate((nodes, grid, sig)))
    nodes, grid, sig = (t.to(dt) for t in (nodes, grid, sig))
    dist = euclid if case["dist"] == "euclid" else l1
    w = 2.0 if case["default"] else case["width"]
    kw = {} if case["default"] else dict(width=w)
    bases = [cauchy] if case["rbf"] else [lambda d, v: torch.exp(-0.69314718 * (d / v) ** 2), gauss]  # ln 2 as documented, and exactly
    if case["rbf"]:
        kw["rbf"] = cauchy
    nodes, grid, sig = (lay(t, 1, how) for t, how in zip((nodes, grid, sig), case.get("lay", ("plain",) * 3)))
    if case["f32"] and max(float(torch.linalg.cond(bases[0](dist(g[:, None], g[None]), w))) for g in grid.double()) > 1e5:
        return False, ["ill-conditioned"]  # singular in single precision
    mode = {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(case.get("am"), torch.enable_grad)
    if case.get("am") == "requires_grad":
        nodes, grid, sig = wanted((nodes, grid, sig), case["wants"])
    with mode():
        got = interpolation.interpolate_RBF(nodes, grid, sig, dist_fn=dist, **kw)
        nn_ = interpolation.interpolate_NN(nodes, grid, sig, dist_fn=dist)
    got, nn_, nodes, grid, sig = (t.detach().clone() if isinstance(t, torch.Tensor) else t for t in (got, nn_, nodes, grid, sig))
    tensor_ok(got, (N, K, S), "interpolate_RBF", dt)
    tensor_ok(nn_, (N, K, S), "interpolate_NN", dt)
    got, nn_, nodes, grid, sig = (t.double() for t in (got, nn_, nodes, grid, sig))
    nontrivial = False
    for b in range(N):
        d, e = dist(grid[b][:, None], grid[b][None]), dist(nodes[b][:, None], grid[b][None])
        cond = float(torch.linalg.cond(bases[0](d, w)))
        if cond > (1e3 if case["f32"] else 1e6):
            continue
        nontrivial = L > 1
        wants = [base(e, w) @ torch.linalg.solve(base(d, w), sig[b]) for base in bases]
        want = min(wants, key=lambda v: float((v - got[b]).abs().max()))
        close(got[b], want, (2e-6 if case["f32"] else 2e-13) * L * cond + (1e-6 if case["f32"] else 1e-9), f"interpolate_RBF batch {b}, width {w}", scale=max(u, float(want.abs().max())))
    for b in range(N):
        d = dist(nodes[b][:, None], grid[b][None])
        two = d.topk(min(2, L), largest=False)[0]
        sure = two[:, -1] - two[:, 0] > (1e-5 if case["f32"] else 1e-9) if L > 1 else torch.ones(K, dtype=torch.bool)
        same(nn_[b][sure], sig[b, d.argmin(-1)][sure], f"interpolate_NN batch {b}")
    x = lay((3 * randn(case["seed"] + 3, K, L)).to(dt), 1, case["lay"][0])
    r = interpolation.RBF_gauss(x, w)
    tensor_ok(r, (K, L), "RBF_gauss", dt)
    close(r, torch.exp2(-((x / w) ** 2)), 1e-6 if case["f32"] else 1e-7, "RBF_gauss: half height at the given width", scale=1.0)
    return nontrivial, [f"D{D}", f"alike{case.get('alike', 0)}", case["dist"], "cauchy" if case["rbf"] else "gauss"]


CLOSE = st.fixed_dictionaries(dict(grp=st.sampled_from((*sorted(SAMPLER), "vectors", "vectors")), n=st.integers(2, 9), nq=st.integers(1, 4), S=st.integers(1, 3),
                                   gap=st.sampled_from((1e-9, 1e-8, 1e-7, 1e-6, 1e-5)), seed=SEEDS, D=st.integers(1, 4), many=st.booleans(),
                                   par=st.lists(st.sampled_from(("matrix", "quat")), min_size=2, max_size=2)))


def check_close(case):
    """In double precision the nearest of grid elements whose distances differ in the last half of their digits is the nearest."""
    g, s, n, nq = case["grp"], case["seed"], case["n"] * (7 if case["many"] else 1), case["nq"]
    sig = randn(s + 4, n, case["S"])
    for k in range(nq):
        rank = torch.randperm(n, generator=gen(s + 10 * k))  # of the distances
        d = 0.4 + float(torch.rand(1, generator=gen(s + 10 * k + 1))) + case["gap"] * rank.double()
        best = int(rank.argmin())
        if g == "vectors":
            u = randn(s + 10 * k + 2, n, case["D"])
            q = randn(s + 10 * k + 3, 1, case["D"])
            got = interpolation.interpolate_NN(q[None], (q + d[:, None] * u / u.norm(dim=-1, keepdim=True))[None], sig[None], dist_fn=euclid)[0]
        else:
            G = GROUPS[g]
            if G.D == 2:
                q = G.elems(s + 10 * k + 3, 1)
                x = q[:, -1:] + torch.where(randn(s + 10 * k + 2, n, 1) < 0, -d[:, None], d[:, None])
                if G.refl:
                    x = torch.cat((torch.ones(n, 1, dtype=DT), x), -1)
            else:
                q = rand_rot3(s + 10 * k + 3, 1)
                u = randn(s + 10 * k + 2, n, 3)
                x = q @ axis_angle(u / u.norm(dim=-1, keepdim=True), d)
                if G.refl:
                    q, x = (torch.cat((torch.ones(len(t), 1, dtype=DT), t.flatten(-2)), -1) for t in (q, x))
            if G.refl:  # the elements of the other parity have another signal
                x = torch.cat((x, G.flip(x[:1])))
                q[:, 0] = 1.0
            v = sig if not G.refl else torch.cat((sig, sig[:1] + 1))
            got = sample(dict(case, n=[n, 1], am="plain", width=[0.5, 0.5]), q, v, x, mode="nearest")
        same(got, sig[best:best + 1], f"{g}: nearest of {n} elements at distances {case['gap']} apart")
    return True, [g, f"gap{case['gap']}"]


facet("C13", "close-to-ties", CLOSE, quick=800, rule="every case")(check_close)


@st.composite
def bcc(draw):
    N, K, L, S = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(3, 8)), draw(st.integers(1, 3))
    big = draw(st.integers(0, 7))
    N = draw(st.sampled_from((4, 5, 9, 17))) if big == 7 else N
    K = draw(st.sampled_from((5, 9, 17, 33))) if big == 6 else K
    L = draw(st.sampled_from((9, 17, 33))) if big == 5 else L
    S = draw(st.sampled_from((4, 9, 33))) if big == 4 else S
    return dict(N=N, K=K, L=L, D=draw(st.sampled_from((3, 3, 4, 5))), S=S,
                seed=draw(SEEDS), kind=draw(st.sampled_from(("inside", "random", "on"))), f32=draw(st.booleans()), wants=draw(WANTS),
                eps=draw(st.sampled_from((None, None, 1e-6, 1e-5, 1e-3))), alike=draw(st.sampled_from((0, 0, 1, 2, 3, 4, 5, 6, 7))), am=draw(st.sampled_from(AUTOGRAD)),
                lay=[draw(st.sampled_from(LAYOUTS[:-1])) for _ in range(3)])


def check_bcc(case):
    """Barycentric interpolation: a convex combination of the values at the three closest points, exact inside the simplex."""
    N, K, L, D, S = (case[k] for k in "NKLDS")
    s = case["seed"]
    grid = randn(s, N, L, D)
    grid = grid / grid.norm(dim=-1, keepdim=True)
    sig = randn(s + 1, N, L, S)
    alike = case.get("alike", 0)  # all entries of the batch may have the same nodes, grid or signal
    grid, sig = (t[:1].repeat(N, 1, 1) if alike >> i & 1 else t for i, t in enumerate((grid, sig)))
    if case["kind"] == "on":
        pick = torch.randint(L, (N, K), generator=gen(s + 2))
        nodes = torch.stack([grid[b, pick[b]] for b in range(N)])
    elif case["kind"] == "inside":
        w = torch.rand(N, K, 3, generator=gen(s + 3), dtype=DT) + 0.05
        nodes = torch.einsum("nki,nid->nkd", w / w.sum(-1, keepdim=True), grid[:, :3])
        nodes = nodes / nodes.norm(dim=-1, keepdim=True)
    else:
        nodes = randn(s + 4, N, K, D)
        nodes = nodes / nodes.norm(dim=-1, keepdim=True)
        nodes = nodes[:1].repeat(N, 1, 1) if alike & 4 else nodes
    dt, eps = torch.float32 if case["f32"] else DT, case["eps"] or 1e-6
    a = [lay(t.to(dt), 1, how) for t, how in zip((nodes, grid, sig), case["lay"])]
    if case["am"] == "requires_grad":
        a = wanted(a, case["wants"])
    with {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(case["am"], torch.enable_grad)():
        got = interpolation.interpolate_BCC(*a, dist_fn=euclid, **({} if case["eps"] is None else dict(eps=eps)))
    tensor_ok(got, (N, K, S), "interpolate_BCC", dt, finite=False)
    got, nodes, grid, sig = got.detach().double(), *(t.detach().double() for t in a)
    tol = 1e-4 if case["f32"] else 1e-7
    checked = 0
    for b in range(N):
        for k in range(K):
            d = torch.stack([euclid(nodes[b, k], y) for y in grid[b]])
            idx = d.argsort()[:3]
            lo = sig[b, idx].min(0)[0]
            hi = sig[b, idx].max(0)[0]
            A = grid[b, idx].T
            c = torch.linalg.pinv(A) @ nodes[b, k]
            cond = float(torch.linalg.cond(A))
            if cond > (1e2 if case["f32"] else 1e5) or 0.9 * eps < float(d.min()) < 1.1 * eps:
                continue
            two = d.sort()[0]
            if len(d) > 3 and float(two[3] - two[2]) < (1e-5 if case["f32"] else 1e-9):
                continue  # a tie for the third
            if float(d.min()) <= eps:
                c = torch.tensor([1.0, 0, 0], dtype=DT)
            c = c.clamp(min=0)
            if float(c.sum()) < (1e-2 if case["f32"] else 1e-6):
                continue  # the query is opposite to its closest points: no barycentric coordinates
            tensor_ok(got[b, k], None, "interpolate_BCC")
            if bool((got[b, k] < lo - tol).any()) or bool((got[b, k] > hi + tol).any()):
                fail(f"interpolate_BCC: {got[b, k].tolist()} is outside the range of the closest values")
            want = (c / c.sum()) @ sig[b, idx]
            close(got[b, k], want, tol, f"interpolate_BCC ({case['kind']}, batch {b}, query {k})", scale=max(1.0, float(sig.abs().max())))
            checked += 1
    return checked > 0, [case["kind"], f"D{D}"]


MODES = st.fixed_dictionaries(dict(mode=st.sampled_from(("linear", "", "rbf_gauss", "bilinear", "near", "nn")), grp=st.sampled_from(sorted(SAMPLER)), seed=SEEDS))


def check_bad_mode(case):
    """Unknown interpolation modes are rejected."""
    c = dict(grp=case["grp"], n=[2, 2] if GROUPS[case["grp"]].refl else 3, nq=4, S=2, mode=case["mode"], width=[0.5, 0.5], on=[False] * 4,
             par=["matrix", "quat"], f32=False, seed=case["seed"], sort="mixed", defaults=False)
    G, g, q, sig = setup(c)
    try:
        sample(c, q, sig, g)
    except ValueError:
        return True, [case["grp"]]
    fail(f"{case['grp']} grid_sample accepted mode {case['mode']!r}")


DEF = st.fixed_dictionaries(dict(grp=st.sampled_from(sorted(SAMPLER)), seed=SEEDS))


def check_defaults(case):
    """The documented defaults (rbf, width 0.5) equal passing them."""
    G = GROUPS[case["grp"]]
    c = dict(grp=case["grp"], n=[3, 2] if G.refl else 4, nq=5, S=2, mode="rbf", width=[0.5, 0.5], on=[False] * 5, par=["quat", "quat"], f32=False,
             seed=case["seed"], sort="mixed", defaults=True)
    G, g, q, sig = setup(c)
    want = sample(c, q, sig, g)
    if case["grp"] == "SE3":
        q, g = as_par(q, "quat", case["seed"]), as_par(g, "quat", case["seed"] + 1)
    args = (q, sig, g) + (((3, 2),) if G.refl else ())
    same(SAMPLER[case["grp"]](*args), want, f"{case['grp']} grid_sample with defaults")
    return True, [case["grp"]]


facet("C13", "reference", cases(), quick=1100, rule="interpolation problem well conditioned")(check_reference)
facet("C13", "reproduce", cases(), quick=900, rule="several grid elements, well conditioned")(check_reproduce)
facet("C13", "mixing", cases(), quick=800, rule="several grid elements, well conditioned")(check_mixing)
facet("C13", "parities", cases().filter(lambda c: GROUPS[c["grp"]].refl), quick=600, rule="queries of both parities")(check_refl_separate)
facet("C13", "generic", generic(), quick=700, rule="several grid points, well conditioned")(check_generic)
facet("C13", "generic-large", generic_large(), quick=600, rule="several grid points, well conditioned")(check_generic)
facet("C13", "barycentric", bcc(), quick=900, rule="some query with barycentric coordinates")(check_bcc)
facet("C13", "bad-mode", MODES, quick=60, thorough=100, rule="every case")(check_bad_mode)
facet("C13", "defaults", DEF, quick=200, rule="every case")(check_defaults)
