"""C06: returned group elements are the ones the features were computed on."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from ..core import SEEDS, close, facet, fail, pair_ok, randn, same, tensor_ok
from ..grp import GRIDS, GROUPS
from ..layers import BATCH, LAYERS, build, call, configs, fit, layer_kwargs, out_sizes


@st.composite
def strat(draw, grps=("SE2", "E2", "SE3", "E3")):
    c = draw(configs(grps=grps, aniso=True, wide=True))
    D = GROUPS[c["grp"]].D
    return dict(c=c, b=draw(BATCH), nin=draw(st.sampled_from((2, 1, 3, 2, 1, 3, 4, 6, 9))),
                nout=draw(st.sampled_from((3, 1, 2, 4, 3, 1, 2, 4, 5, 6, 8, 11, 25))),
                given=draw(st.booleans()), f32=draw(st.booleans()), train=draw(st.booleans()), grad=draw(st.sampled_from((True, False, "inference", "inputs"))),
                hk=draw(st.sampled_from(GRIDS)), outs=[draw(st.sampled_from((1, 2))) for _ in range(D)], seed=draw(SEEDS), tseed=draw(SEEDS))


def dtype_of(case):
    return torch.float32 if case["f32"] else torch.float64


def setup(case, permute, **over):
    c = case["c"]
    G = GROUPS[c["grp"]]
    dt = dtype_of(case)
    mod = build(c, permute=permute, dtype=dt, **over)
    mod.train(case["train"])
    Hin, Hout = (h.to(dt) for h in G.pair(case["seed"], case["nin"], case["nout"], case.get("hk", "random")))
    shape = [case["b"], c["cin"]] + ([case["nin"]] if c["kind"] != "lift" else []) + [fit(c, o, d=d) for d, o in enumerate(case["outs"])]
    x = randn(case["seed"] + 7, *shape, dtype=dt)
    return c, G, mod, x, Hin, (Hout if case["given"] else None)


def run(c, mod, x, Hin, Hout, grad):
    """evaluates the layer with or without recording gradients, in inference mode, or on inputs that want gradients"""
    if grad == "inference":
        with torch.inference_mode():  # (tensors made in this mode are told apart from others)
            y, H = run(c, mod, *(None if t is None else t.clone() for t in (x, Hin, Hout)), False)
        return y.clone(), H.clone()
    if grad == "inputs":
        x, Hin, Hout = (None if t is None else t.clone().requires_grad_() for t in (x, Hin, Hout))
        y, H = run(c, mod, x, Hin, Hout, True)
        return y.detach(), H.detach()
    with torch.set_grad_enabled(grad):
        if Hout is None:
            return pair_ok(mod(x) if c["kind"] == "lift" else mod(x, Hin))
        return pair_ok(call(mod, c, x, Hin, Hout))


def base_grid(c, mod, Hin, Hout):
    """the given grid, or the documented default"""
    if Hout is not None:
        return Hout
    if c["kind"] == "lift" or c["grp"] in ("E2", "E3"):
        return mod.kernel.grid_H
    return Hin


def labels(case):
    c = case["c"]
    return [c["kind"], c["grp"], "given" if case["given"] else "default", "f32" if case["f32"] else "f64",
            "train" if case["train"] else "eval", f"grad {case['grad']}"]


def check_valid(G, H, what, tol=1e-3):
    A = G.act(H.double())
    tensor_ok(A, None, what)
    err = float((A @ A.mT - torch.eye(G.D, dtype=A.dtype)).abs().max())
    if err > tol:
        fail(f"{what}: not orthogonal (error {err:.2e})")
    if G.refl and not bool(((H[:, 0] == 1) | (H[:, 0] == -1)).all()):
        fail(f"{what}: reflection coefficients {H[:, 0].tolist()}")


def mover(G, A, B):
    """B_0 A_0^-1 as linear maps"""
    return G.act(B.double())[0] @ torch.linalg.inv(G.act(A.double())[0])


def check_permuted(case):
    """Random permutation: returned grid = one group element times the base grid, and the features belong to it."""
    c, G, mod, x, Hin, Hout = setup(case, True)
    base = base_grid(c, mod, Hin, Hout).clone()
    torch.manual_seed(case["tseed"])
    y, H = run(c, mod, x, Hin, Hout, case["grad"])
    tensor_ok(H, base.shape, "returned grid", base.dtype)
    tensor_ok(y, (case["b"], c["cout"], base.shape[0], *out_sizes(c, x.shape[-G.D:])), "features", x.dtype)
    check_valid(G, H, "returned grid")
    P = mover(G, base, H)
    close(G.act(H.double()), P @ G.act(base.double()), 2e-3, f"{c['kind']} {c['grp']}: returned grid against g times the base grid, g={P.tolist()}", scale=1.0)
    if G.refl:
        s = H[:, 0].double() * base[:, 0].double()
        if not bool((s == s[0]).all()):
            fail(f"reflection coefficients of the base grid were not moved by a common element: {s.tolist()}")
    twin = setup(case, False)[2]
    y2, H2 = run(c, twin, x, Hin, H.detach(), case["grad"])
    tol = 1e-4 if case["f32"] else 1e-10
    close(y2, y, tol, f"{c['kind']} {c['grp']}: features re-evaluated on the returned grid", scale=max(0.1, float(y.abs().max())))
    return float(y.abs().max()) > 1e-6 and float((P - torch.eye(G.D)).abs().max()) > 1e-3, labels(case)


def check_plain(case):
    """Without random permutation the returned grid is the given or the default one, bit for bit."""
    c, G, mod, x, Hin, Hout = setup(case, False)
    base = base_grid(c, mod, Hin, Hout).clone()
    state = torch.get_rng_state()
    y, H = run(c, mod, x, Hin, Hout, case["grad"])
    same(H, base, f"{c['kind']} {c['grp']}: returned grid without permutation")
    if not torch.equal(state, torch.get_rng_state()):
        fail(f"{c['kind']} {c['grp']}: evaluation without permutation consumed random numbers")
    tensor_ok(y, (case["b"], c["cout"], base.shape[0], *out_sizes(c, x.shape[-G.D:])), "features", x.dtype)
    y2, _ = run(c, mod, x, Hin, base, case["grad"])
    close(y2.detach(), y.detach(), 1e-12 if y.dtype == torch.float64 else 1e-5, f"{c['kind']} {c['grp']}: default output grid against the same grid given explicitly")
    return float(y.abs().max()) > 1e-6, labels(case)


def check_fresh(case):
    """Every call draws a new element, reproducible from the seed; permutation is on by default."""
    c, G, mod, x, Hin, Hout = setup(case, True)
    if case["seed"] % 2:  # the documented default
        kw = layer_kwargs(c, dtype=dtype_of(case))
        kw.pop("permute_output_grid")
        twin = LAYERS[c["kind"], c["grp"]](**kw).to(dtype_of(case))
        twin.load_state_dict(mod.state_dict())
        mod = twin.train(case["train"])
    base = base_grid(c, mod, Hin, Hout).clone()
    out = []
    for s in (case["tseed"], None, None, case["tseed"], None):
        if s is not None:
            torch.manual_seed(s)
        y, H = run(c, mod, x, Hin, Hout, case["grad"])
        tensor_ok(H, base.shape, "returned grid")
        out.append((y.detach(), H.detach().clone()))
    for i, j in ((0, 1), (1, 2), (0, 2)):
        if torch.equal(out[i][1], out[j][1]):
            fail(f"{c['kind']} {c['grp']}: calls {i} and {j} used the same random group element (train={case['train']})")
    for i, j in ((0, 3), (1, 4)):
        same(out[j][1], out[i][1], f"{c['kind']} {c['grp']}: returned grid with the same random seed")
        same(out[j][0], out[i][0], f"{c['kind']} {c['grp']}: features with the same random seed")
    return True, labels(case)


DIST = st.fixed_dictionaries(dict(
    kind=st.sampled_from(("lift", "sep", "full")), grp=st.sampled_from(("SE2", "E2", "SE3", "E3")),
    train=st.booleans(), given=st.booleans(), seed=SEEDS, n=st.sampled_from((1, 1, 2, 3, 9))))
N_DIST = 300


def ks(u):
    """Kolmogorov-Smirnov statistic against the uniform distribution on [0, 1]"""
    u = u.double().sort()[0]
    n = len(u)
    i = torch.arange(n, dtype=torch.float64)
    return float(torch.maximum((u - i / n).abs(), (u - (i + 1) / n).abs()).max())


def uneven(cells, k):
    """How surprising the counts of n independent draws of k equally likely cells are, in standard deviations (chi-square,
    Wilson-Hilferty approximation)."""
    n, df = len(cells), k - 1
    e = n / k
    chi = float(((torch.bincount(cells, minlength=k).double() - e) ** 2 / e).sum())
    return ((chi / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))


def dependence(stats, coeff, b, bs):
    """Checks that [0,1]-uniform statistics which are independent of each other, and the sign, fill the whole product space evenly,
    each together with the others (b cells each) and with its successor (bs cells each); returns what is wrong."""
    n = len(next(iter(stats.values())))
    cell, k = torch.zeros(n, dtype=torch.long), 1
    for u in stats.values():
        cell, k = cell * b + (u * b).long().clamp(0, b - 1), k * b
    if coeff is not None:
        cell, k = cell * 2 + (coeff > 0).long(), k * 2
    if uneven(cell, k) > 9:
        return f"{', '.join(stats)}{' and sign' if coeff is not None else ''} depend on each other ({uneven(cell, k):.0f} sigma)"
    seq = dict(stats)
    if coeff is not None:
        seq["sign"] = (coeff > 0).double() * 0.9
    for name, u in seq.items():
        m = 2 if name == "sign" else bs
        c = (u * m).long().clamp(0, m - 1)
        for lag in (1, 2):
            s = uneven(c[lag:] * m + c[:-lag], m * m)
            if s > 9:
                return f"{name} of successive draws depend on each other (lag {lag}, {s:.0f} sigma)"
    return None


def haar_stats(R):
    """[0,1]-uniform statistics of Haar distributed rotations R (n, 3, 3)"""
    n = R.shape[0]
    tr = R.diagonal(dim1=-2, dim2=-1).sum(-1)
    ang = torch.acos(((tr - 1) / 2).clamp(-1, 1))
    st_ = {"angle": (ang - torch.sin(ang)) / math.pi}
    for i in range(3):
        for j in range(3):
            st_[f"R{i}{j}"] = (R[:, i, j].clamp(-1, 1) + 1) / 2  # entries of a uniform unit vector
    st_["alpha"] = (torch.atan2(R[:, 1, 2], R[:, 0, 2]) / (2 * math.pi)) % 1
    st_["gamma"] = (torch.atan2(R[:, 2, 1], -R[:, 2, 0]) / (2 * math.pi)) % 1
    return st_


def check_distribution(case):
    """Over many calls the element is distributed uniformly over the whole group (KS test, threshold p < 1e-10)."""
    G = GROUPS[case["grp"]]
    c = dict(kind=case["kind"], grp=case["grp"], groups=1, cin=1, cout=1, mask=False, k=1, stride=1, dilation=1, padding=0,
             pmode="zeros", bias=False, smode="bilinear", spad="border", gks=2, ref=None, gmode="rbf", width=0.5, seed=case["seed"])
    mod = build(c, permute=True).train(case["train"])
    n = case.get("n", 1)
    base = G.elems(case["seed"], n) if case["given"] else None
    Hin = G.elems(case["seed"] + 1, n)
    x = randn(1, *([1, 1] + ([n] if case["kind"] != "lift" else []) + [1] * G.D))
    b = base_grid(c, mod, Hin, base).clone()
    torch.manual_seed(case["seed"])
    gs, cs = [], []
    for _ in range(N_DIST):
        y, H = run(c, mod, x, Hin, base, False)
        gs.append(mover(G, b, H))
        if G.refl:
            cs.append(float(H[0, 0] * b[0, 0]))
    gs = torch.stack(gs)
    crit = math.sqrt(-math.log(1e-10 / 2) / 2 / N_DIST)
    if G.refl:
        p = sum(v == 1 for v in cs) / N_DIST
        if abs(p - 0.5) > crit:
            fail(f"{case['kind']} {case['grp']}: {p:.3f} of the random elements are rotations, expected about a half")
        gs = gs * torch.tensor(cs, dtype=torch.float64)[:, None, None]  # the rotation part c (c R)
    if G.D == 2:
        stats = {"angle": (torch.atan2(gs[:, 1, 0], gs[:, 0, 0]) / (2 * math.pi)) % 1}
    else:
        stats = haar_stats(gs)
    for k, u in stats.items():
        d = ks(u)
        if d > crit:
            fail(f"{case['kind']} {case['grp']}: {k} of the random group elements is not uniform (KS {d:.3f} > {crit:.3f})")
    why = dependence({k: stats[k] for k in ("angle",) if G.D == 2} or {k: stats[k] for k in ("alpha", "R22", "gamma")},
                     torch.tensor(cs) if G.refl else None, 4 if G.D == 2 else 2, 4)
    if why:
        fail(f"{case['kind']} {case['grp']}: random group elements: {why}")
    return True, [case["kind"], case["grp"], "train" if case["train"] else "eval", f"n{case.get('n', 1)}"]


for dims, grps in (("2d", ("SE2", "E2")), ("3d", ("SE3", "E3"))):
    facet("C06", f"permuted-{dims}", strat(grps), quick=700, rule="output not zero and random element not the identity")(check_permuted)
    facet("C06", f"plain-{dims}", strat(grps), quick=500, rule="output not zero")(check_plain)
    facet("C06", f"fresh-{dims}", strat(grps), quick=400, rule="every case (five calls)")(check_fresh)
facet("C06", "distribution", DIST, quick=40, thorough=600, rule=f"every case ({N_DIST} calls)")(check_distribution)
