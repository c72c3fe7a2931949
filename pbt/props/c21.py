"""C21: gradients of the convolutions are exact, finite and reach every parameter."""
from __future__ import annotations

import math

import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from gconv.geometry import interpolation, o2, o3, so2, so3
from gconv.gnn import modules as M

from .. import batch as geo
from ..core import SEEDS, close, facet, fail, pair_ok, rand, randn, same, tensor_ok
from ..grp import GROUPS
from ..layers import BATCH, build, call, configs, fit
from ..ref import sample_group
from . import c07, c08, c09, c10
from .c14 import LAYOUT, feats, grid, layout
from .c22 import args_of, base

DT = torch.float64
NH = st.sampled_from((1, 2, 3, 1, 2, 3, 4, 5, 7))


@st.composite
def cases(draw, **kw):
    c = draw(configs(nearest=True, aniso=True, **kw))
    if c["kind"] != "lift":  # (gradients are as accurate as the interpolation system is well conditioned)
        c["width"] = c["width"] or draw(st.sampled_from((0.3, 0.5)))
    return dict(c=c, freeze=draw(st.sampled_from((0, 0, 0, 1, 2, 3, 5, 6, 7))), xgrad=draw(st.sampled_from((True, True, False))), outs=draw(st.integers(1, 3)), batch=draw(BATCH), nin=draw(NH),
                nout=draw(st.one_of(st.none(), NH)), permute=draw(st.booleans()), train=draw(st.booleans()),
                seed=draw(SEEDS))


def setup(case, dtype=DT, **over):
    c = case["c"]
    G = GROUPS[c["grp"]]
    m = build(c, permute=case["permute"], dtype=dtype, **over).train(case["train"])
    x = randn(case["seed"], case["batch"], c["cin"], *([case["nin"]] if c["kind"] != "lift" else []),
              *[fit(c, case["outs"], d=d) for d in range(G.D)], dtype=dtype)
    Hin = G.elems(case["seed"] + 1, case["nin"]).to(dtype)
    Hout = None if case["nout"] is None else G.elems(case["seed"] + 2, case["nout"]).to(dtype)

    def run(x=x):
        torch.manual_seed(case["seed"])  # the random permutation is part of the function
        args = (x,) if c["kind"] == "lift" else (x, Hin)
        return pair_ok(m(*args) if Hout is None else m(*args, Hout))[0]

    return m, x, run


def labels(case):
    c = case["c"]
    return [c["kind"], c["grp"], "permuted" if case["permute"] else "fixed", c["smode"], c["gmode"]]


@facet("C21", "gradients-equal-finite-differences", cases(), quick=300, thorough=5000, budget=200,
       rule="some checked gradient of the random functional is non-zero, and that of the input if it is checked")
def gradients(case):
    """For a random linear functional of the output, the back-propagated gradient of the input and of every single parameter
    equals the central difference along random directions (exact, since the output is linear in each of them); gradients are
    finite, exist for every parameter, and add up over two backward passes. Freezing some parameters (or the input) leaves the
    gradients of the others as they are."""
    m, x, run = setup(case)
    P = sorted(m.named_parameters())
    frozen = {n for i, (n, _) in enumerate(P) if case["freeze"] >> (i % 3) & 1}
    xgrad = case["xgrad"] or len(frozen) == len(P)
    y0 = run().detach()
    if not bool(torch.isfinite(y0).all()):
        fail("output is not finite")
    r = randn(case["seed"] + 9, *y0.shape)
    xv = x.clone().requires_grad_(xgrad)
    m.zero_grad()
    for n, p in P:
        p.requires_grad_(n not in frozen)
    loss = (run(xv) * r).sum()
    if not loss.requires_grad:
        fail("the output is not differentiable")
    loss.backward()
    named = [("input", xv)] * xgrad + [(n, p) for n, p in P if n not in frozen]
    for n in frozen:
        if dict(P)[n].grad is not None:
            fail(f"{n} received a gradient although it is frozen")
    nonzero = []
    for i, (name, p) in enumerate(named):
        if p.grad is None:
            fail(f"{name} received no gradient")
        tensor_ok(p.grad, p.shape, f"gradient of {name}", p.dtype)
        nonzero.append(bool((p.grad != 0).any()))
        for t in range(2):
            # directions: dense noise, and a single coordinate
            d = randn(case["seed"] + 100 * i + t, *p.shape)
            if t and p.numel():
                j = int(case["seed"] + 7 * i) % p.numel()
                keep = torch.zeros(p.numel(), dtype=DT)
                keep[j] = 1
                d = d * keep.reshape(p.shape)
            with torch.no_grad():
                if name == "input":
                    fp, fm = (run(x + d) * r).sum(), (run(x - d) * r).sum()
                else:
                    old = p.detach().clone()
                    p.add_(d)
                    fp = (run() * r).sum()
                    p.sub_(2 * d)
                    fm = (run() * r).sum()
                    p.copy_(old)
            fd, an = float(fp - fm) / 2, float((p.grad * d).sum())
            scale = max(1.0, abs(float(fp)), abs(float(fm)), float((p.grad * d).abs().sum()))
            if not abs(fd - an) <= 1e-8 * scale:
                fail(f"derivative of the output along a direction of {name} is {fd:.9g}, its gradient gives {an:.9g}")
    g1 = {n: p.grad.clone() for n, p in named}
    (run(xv) * r).sum().backward()
    for n, p in named:
        close(p.grad, 2 * g1[n], 1e-10, f"gradient of {n} accumulated over two passes", scale=max(1.0, float(g1[n].abs().max())))
    return all(nonzero[:1]) and any(nonzero), [*labels(case), "frozen" if frozen else "trained"]


@st.composite
def large_cases(draw):
    case = draw(base(xl=True))
    if case["c"]["kind"] != "lift" and case["xl"] != "grid":  # (the default width suits the spacing of a large grid)
        case["c"]["width"] = case["c"]["width"] or draw(st.sampled_from((0.3, 0.5)))
    return dict(case, train=draw(st.booleans()))


@facet("C21", "gradients-of-large-layers", large_cases(), quick=200, thorough=2000, budget=120,
       rule="the gradient of the input and of every parameter is not zero")
def large_gradients(case):
    """With a size (grid, batch, image, channels, kernel) far beyond the usual: the input and every parameter receive a finite gradient
    that equals the central difference along a random direction."""
    c = case["c"]
    m = build(c).train(case["train"])
    x, Hin, Hout = args_of(case)
    cond = 1.0  # of the interpolation on the group
    if c["kind"] != "lift" and c["gmode"] == "rbf":
        H = m.kernel.grid_H.double()
        cond = sample_group(c["grp"], H, torch.ones(len(H), 1, dtype=DT), H, "rbf", (c["width"], c.get("width2", c["width"])))[1]
    if cond > 1e6:  # nothing can be said about the last digits
        return False, ["ill-conditioned"]

    def run(x):
        return pair_ok(call(m, c, x, Hin, Hout))[0]

    xv = x.clone().requires_grad_(True)
    y = run(xv)
    r = randn(case["seed"] + 9, *y.shape)
    if not bool(torch.isfinite(y).all()):
        fail("output is not finite")
    (y * r).sum().backward()
    nonzero = []
    for i, (name, p) in enumerate([("input", xv), *sorted(m.named_parameters())]):
        if p.grad is None:
            fail(f"{name} received no gradient")
        tensor_ok(p.grad, p.shape, f"gradient of {name}", p.dtype)
        nonzero.append(bool((p.grad != 0).any()))
        d = randn(case["seed"] + 100 * i, *p.shape)
        with torch.no_grad():
            old = p.detach().clone()
            p.add_(d)
            fp = (run(xv) * r).sum()
            p.sub_(2 * d)
            fm = (run(xv) * r).sum()
            p.copy_(old)
        fd, an = float(fp - fm) / 2, float((p.grad * d).sum())
        scale = max(1.0, abs(float(fp)), abs(float(fm)), float((p.grad * d).abs().sum()))
        if not abs(fd - an) <= 1e-7 * scale:
            fail(f"derivative of the output along a direction of {name} is {fd:.9g}, its gradient gives {an:.9g}")
    return all(nonzero), [c["kind"], c["grp"], "xl-" + case["xl"]]


@facet("C21", "gradient-steps-reduce-least-squares-loss", cases(), quick=120, thorough=2000, budget=200,
       rule="at least two steps were taken with a non-zero gradient")
def descent(case):
    """A history of optimiser steps on a least-squares loss, with evaluation, gradient-free and train/eval passes in between:
    each step changes the loss by what its gradient predicts; nothing but the step changes parameters or buffers."""
    m, x, run = setup(case)
    y0 = run().detach()
    target = randn(case["seed"] + 4, *y0.shape)
    opt = torch.optim.SGD(m.parameters(), lr=1.0)
    steps = 0
    for t in range(4):
        before = {k: v.clone() for k, v in m.state_dict().items()}
        opt.zero_grad()
        loss = ((run() - target) ** 2).sum()
        loss.backward()
        g2 = sum(float((p.grad**2).sum()) for p in m.parameters())
        with torch.no_grad():
            run()
        m.eval()
        run()
        m.train(case["train"])
        for k, v in m.state_dict().items():
            same(v, before[k], f"{k} after evaluating the layer")
        if g2 < 1e-12 or float(loss) < 1e-8:
            break
        lr = 1e-3 * float(loss) / g2
        for gp in opt.param_groups:
            gp["lr"] = lr
        opt.step()
        with torch.no_grad():
            new = float(((run() - target) ** 2).sum())
        drop, want = float(loss) - new, lr * g2
        if not drop > 0.2 * want:
            # where the gradient is small for its curvature the step overshoots: confirm with ever smaller ones before reporting
            at, small = lr, lr
            for _ in range(5):
                small /= 10
                with torch.no_grad():
                    for p in m.parameters():
                        if p.grad is not None:
                            p.add_((at - small) * p.grad)
                    new = float(((run() - target) ** 2).sum())
                at = small
                if float(loss) - new > 0.2 * small * g2:
                    break
            else:
                fail(f"a gradient step predicted to lower the loss by {small*g2:.3e} changed it by {float(loss)-new:.3e} of {float(loss):.3e}")
        steps += 1
        for k, v in m.named_buffers():
            if v is not None:
                same(v, before[k], f"buffer {k} after an optimiser step")
    return steps >= 2, labels(case)


@facet("C21", "re-initialisation", cases(), quick=150, thorough=2500, budget=150,
       rule="the layer has weights of at least eight entries in total")
def reinit(case):
    """Constructing or re-initialising a layer gives finite parameters of the documented shapes, none of them constant,
    which are a function of the random seed only (not of earlier values, dtype of the grid or calls) and differ between seeds;
    buffers are untouched; the layer stays trainable."""
    c = case["c"]
    m, x, run = setup(case)
    fresh = build(c, dtype=torch.float32, init="none")
    other = build(dict(c, seed=c["seed"] + 1), dtype=torch.float32, init="none")
    again = build(c, dtype=torch.float32, init="none")
    for (n, p), (_, q), (_, r) in zip(sorted(fresh.named_parameters()), sorted(other.named_parameters()), sorted(again.named_parameters())):
        tensor_ok(p.detach(), what=f"initial {n}")
        same(r.detach(), p.detach(), f"initial {n} under the same seed")
        if p.numel() > 3 and torch.equal(p, q):
            fail(f"initial {n} does not depend on the random seed")
    shapes = {n: p.shape for n, p in m.named_parameters()}
    bufs = {n: b.clone() for n, b in m.named_buffers() if b is not None}

    def reset(mod):
        torch.manual_seed(case["seed"] + 3)
        mod.reset_parameters()
        return {n: p.detach().clone() for n, p in sorted(mod.named_parameters())}

    a = reset(m)
    (run() ** 2).sum().backward()
    b = reset(m)
    d = reset(build(dict(c, seed=c["seed"] + 1), permute=case["permute"], dtype=DT))
    total = 0
    for n in a:
        tensor_ok(a[n], shapes[n], f"re-initialised {n}")
        same(b[n], a[n], f"{n} re-initialised again under the same seed")
        same(d[n], a[n], f"{n} re-initialised in another layer under the same seed")
        total += a[n].numel()
        v = a[n].reshape(-1)
        if v.numel() > 3 and float(v.std()) < 1e-3:
            fail(f"re-initialised {n} is (almost) constant: std {float(v.std()):.2e}")
        if float(v.abs().max()) > 30:
            fail(f"re-initialised {n} has entries up to {float(v.abs().max()):.3g}")
        # entries are independent draws: no two equal slices along any dimension
        w = a[n]
        for dim in range(w.ndim):
            if w.shape[dim] > 1 and w[:].numel() // w.shape[dim] > 1:
                s = w.movedim(dim, 0).flatten(1)
                if any(torch.equal(s[i], s[j]) for i in range(min(4, len(s))) for j in range(i)):
                    fail(f"re-initialised {n} repeats itself along dimension {dim}")
    for n, v in m.named_buffers():
        if v is not None:
            same(v, bufs[n], f"buffer {n} after re-initialisation")
    for n, p in m.named_parameters():
        if not p.requires_grad or not p.is_leaf:
            fail(f"{n} is no trainable leaf after re-initialisation")
    return total >= 8, labels(case)


# ------------------------------------------------------------------ whole networks


@st.composite
def net_cases(draw):
    return dict(grp=draw(st.sampled_from(("SE2", "E2", "SE3", "E3"))), kinds=draw(st.lists(st.sampled_from(("sep", "full")), min_size=1, max_size=2)),
                norm=draw(st.sampled_from((None, "batch", "instance", "layer"))), pool=draw(st.sampled_from((None, "avg", "max"))),
                end=draw(st.sampled_from(("avg-global", "max-global", "avg-group", "max-group"))), ch=draw(st.sampled_from((2, 3))),
                gks=draw(st.sampled_from((2, 3, 4))), seed=draw(SEEDS))


@facet("C21", "gradients-through-networks", net_cases(), quick=60, thorough=1000, budget=200,
       rule="all parameters received a non-zero gradient")
def networks(case):
    """Through lifting - convolution - normalisation - activation - pool - global pool, with randomly permuted grids, every
    parameter receives a finite gradient, and the directional derivative of all parameters together agrees with the central difference."""
    G = GROUPS[case["grp"]]
    D, g = G.D, case["grp"]
    torch.manual_seed(case["seed"])
    L = lambda k: getattr(M, {"lift": "GLiftingConv", "sep": "GSeparableConv", "full": "GConv"}[k] + g)
    ch = case["ch"]
    mods = [L("lift")(1, ch, 3, padding=1, group_kernel_size=case["gks"])]
    for k in case["kinds"]:
        mods.append(L(k)(ch, ch, 3, padding=1, group_kernel_size=case["gks"]))
        size = 4
        n = case["norm"]
        if n == "batch":
            mods.append(getattr(M, f"GBatchNorm{D}d")(ch))
        elif n == "instance":
            mods.append(getattr(M, f"GInstanceNorm{D}d")(ch, affine=True))
        elif n == "layer":
            mods.append(M.GLayerNorm([size] * D))
        mods.append(M.GGELU())  # smooth
    if case["pool"]:
        mods.append(getattr(M, ("GAvg" if case["pool"] == "avg" else "GMax") + f"SpatialPool{D}d")(2))
    end = {"avg-global": M.GAvgGlobalPool, "max-global": M.GMaxGlobalPool, "avg-group": M.GAvgGroupPool, "max-group": M.GMaxGroupPool}[case["end"]]()
    net = torch.nn.ModuleList(mods).double()
    x = randn(case["seed"], 2, 1, *[4] * D)

    def run():
        torch.manual_seed(case["seed"] + 5)
        h, H = x, None
        for i, mod in enumerate(net):
            h, H = mod(h) if i == 0 else mod(h, H)
        return end(h, H)

    y = run()
    r = randn(case["seed"] + 6, *y.shape)
    (y * r).sum().backward()
    P = sorted(net.named_parameters())
    dirs = [randn(case["seed"] + 50 + i, *p.shape) for i, (_, p) in enumerate(P)]
    an, nz = 0.0, True
    for (n, p), d in zip(P, dirs):
        if p.grad is None:
            fail(f"{n} received no gradient")
        tensor_ok(p.grad, p.shape, f"gradient of {n}")
        an += float((p.grad * d).sum())
        nz &= bool((p.grad != 0).any())
    old = [p.detach().clone() for _, p in P]

    def at(e):
        with torch.no_grad():
            for (_, p), o, d in zip(P, old, dirs):
                p.copy_(o + e * d)
            return float((run() * r).sum())

    # the maxima make it piecewise smooth, with kinks as near as single precision grids put them: accept agreement at any of several step sizes
    errs = []
    for e in (1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9):
        fd = (at(e) - at(-e)) / (2 * e)
        errs.append(abs(fd - an))
    at(0.0)
    scale = max(1.0, abs(an), sum(float((p.grad * d).abs().sum()) for (_, p), d in zip(P, dirs)))
    if not min(errs) <= 1e-4 * scale:
        fail(f"directional derivative of the network differs from its gradient {an:.6g} by {min(errs):.3e}")
    return nz, [g, *case["kinds"], str(case["norm"]), case["end"]]



# ---------------------------------------------------------------- the modules without sampled kernels

PLAIN = ("relu", "gelu", "gelu-tanh", "leaky", "wrap", "wrap-inner", "batch", "instance", "layer", "max", "avg", "amax", "aavg", "gmax", "gavg", "tmax", "tavg")


@st.composite
def plain(draw):
    D = draw(st.sampled_from((2, 3)))
    f = draw(feats(D, maxs=5 if D == 2 else 4))
    f = dict(f, mode="plain", layout=draw(st.sampled_from([v for v in LAYOUT if v != "expanded"])))
    kind = draw(st.sampled_from(PLAIN))
    if kind in ("batch", "instance") and f["layout"] != "offset":  # torch's own batch norm has wrong gradients for strides such as (2, 1, 2, 2) of (1, 2, 2, 1)
        f["layout"] = "contiguous"
    return dict(D=D, f=f, kind=kind, k=draw(st.integers(1, 3)), s=draw(st.integers(1, 2)), p=draw(st.integers(0, 1)),
                ceil=draw(st.booleans()), train=draw(st.booleans()), slope=draw(st.sampled_from((0.01, 0.3, -0.2, 2.0))), out=draw(st.integers(1, 3)),
                tail=draw(st.integers(1, 3)), params=draw(st.booleans()), withH=draw(st.booleans()))


def counterpart(case, x):
    """the module of the library and the function of the features and its parameters it stands for"""
    D, k = case["D"], case["kind"]
    N, C, G, *sp = x.shape
    slices = lambda fn: lambda v: fn(v.reshape(N * C * G, 1, *v.shape[3:])).unflatten(0, (N, C, G)).squeeze(3)
    o = dict(kernel_size=case["k"], stride=case["s"], padding=min(case["p"], case["k"] // 2), ceil_mode=case["ceil"])
    track = dict(affine=True, track_running_stats=True)
    joint = lambda fn: lambda v, *a: fn(v.reshape(N, C, -1), *a).reshape(v.shape)
    return {
        "relu": lambda: (M.GReLU(), F.relu), "gelu": lambda: (M.GGELU(), F.gelu),
        "gelu-tanh": lambda: (M.GGELU(approximate="tanh"), lambda v: F.gelu(v, approximate="tanh")),
        "leaky": lambda: (M.GLeakyReLU(case["slope"]), lambda v: F.leaky_relu(v, case["slope"])),
        "wrap": lambda: (M.GWrap(torch.nn.Softplus()), F.softplus),
        "wrap-inner": lambda: (M.GWrap(torch.nn.PReLU(1)), lambda v, w: torch.where(v >= 0, v, w * v)),
        "batch": lambda: (getattr(M, f"GBatchNorm{D}d")(C), joint(lambda v, b, w: F.batch_norm(v, torch.zeros(C, dtype=v.dtype), torch.ones(C, dtype=v.dtype), w, b, case["train"]))),
        "instance": lambda: (getattr(M, f"GInstanceNorm{D}d")(C, **track), joint(lambda v, b, w: F.instance_norm(v, torch.zeros(C, dtype=v.dtype), torch.ones(C, dtype=v.dtype), w, b, case["train"]))),
        "layer": lambda: (M.GLayerNorm(list(x.shape[-case["tail"]:])), lambda v, b, w: F.layer_norm(v, v.shape[-case["tail"]:], w, b)),
        "max": lambda: (getattr(M, f"GMaxSpatialPool{D}d")(**o), slices(lambda v: getattr(F, f"max_pool{D}d")(v, **o))),
        "avg": lambda: (getattr(M, f"GAvgSpatialPool{D}d")(**o), slices(lambda v: getattr(F, f"avg_pool{D}d")(v, **o))),
        "amax": lambda: (getattr(M, f"GAdaptiveMaxSpatialPool{D}d")(case["out"]), slices(lambda v: getattr(F, f"adaptive_max_pool{D}d")(v, case["out"]))),
        "aavg": lambda: (getattr(M, f"GAdaptiveAvgSpatialPool{D}d")(case["out"]), slices(lambda v: getattr(F, f"adaptive_avg_pool{D}d")(v, case["out"]))),
        "gmax": lambda: (M.GMaxGroupPool(), lambda v: v.amax(2)), "gavg": lambda: (M.GAvgGroupPool(), lambda v: v.sum(2) / G),
        "tmax": lambda: (M.GMaxGlobalPool(), lambda v: v.reshape(N, C, -1).amax(-1, keepdim=True)),
        "tavg": lambda: (M.GAvgGlobalPool(), lambda v: v.reshape(N, C, -1).sum(-1, keepdim=True) / v[0, 0].numel()),
    }[k]()


@facet("C21", "plain-modules", plain(), quick=1500, rule="some gradient of the input is not zero")
def plain_modules(case):
    """Activations, wrapped modules, normalisations and pools pass on the gradients of the ordinary modules, to the features and to
    their own parameters."""
    f, k = case["f"], case["kind"]
    sp = [max(s, case["k"]) for s in f["sp"]]
    if k in ("batch", "instance") and f["G"] * sp[0] * sp[-1] < 2:
        sp[0] = 2
    dt = torch.float32 if f["f32"] else DT
    x = layout(randn(f["seed"], f["N"], f["C"], f["G"], *sp).to(dt), f["layout"])
    H = grid(f, f["hshape"], dt)
    mod, fn = counterpart(case, x)
    mod = mod.to(dt).train(case["train"])
    P = [p for _, p in sorted(mod.named_parameters())]
    with torch.no_grad():
        for i, p in enumerate(P):
            p.copy_(randn(f["seed"] + 5 + i, *p.shape))
            p.requires_grad_(case["params"])
    a = x.detach().requires_grad_()
    group = k[0] in "gt" and k[1:] in ("max", "avg")
    y = mod(a, H) if not group or case["withH"] else mod(a)
    y = tensor_ok(y if group else pair_ok(y)[0], None, f"output of {type(mod).__name__}", dt, finite=False)
    b, Q = x.detach().double().requires_grad_(), [p.detach().double().requires_grad_(case["params"]) for p in P]
    want = fn(b, *Q)
    r = randn(f["seed"] + 9, *want.shape)
    if y.shape != want.shape:
        fail(f"{type(mod).__name__}: output of shape {tuple(y.shape)}, expected {tuple(want.shape)}")
    (torch.where(torch.isfinite(want), want, 0.0) * r).sum().backward()
    if not y.requires_grad:
        fail(f"{type(mod).__name__}: the output does not track gradients of the features")
    (torch.where(torch.isfinite(want).detach(), y, 0.0) * r.to(dt)).sum().backward()
    what = f"{type(mod).__name__} on {tuple(x.shape)} {f['layout']}, training={case['train']}"
    for name, p, q in [("features", a, b), *[(f"parameter {i}", p, q) for i, (p, q) in enumerate(zip(P, Q)) if case["params"]]]:
        if p.grad is None:
            fail(f"{what}: no gradient of the {name}")
        tensor_ok(p.grad, q.shape, f"{what}: gradient of the {name}", dt)
        close(p.grad, q.grad, 2e-4 if f["f32"] else 1e-9, f"{what}: gradient of the {name}", scale=max(400.0 if k in ("batch", "instance", "layer") else 1.0, float(q.grad.abs().max()) * (30 if f["f32"] else 1)))
    return bool((b.grad != 0).any()), [k, f"{case['D']}d", f["layout"]]


# ---------------------------------------------------------------- gradients with respect to group elements


def moved(G, H, e, d):
    """group elements moved by e along the tangent direction d"""
    if G.D == 2:
        return torch.cat((H[:, :-1], H[:, -1:] + e * d[:, :1]), -1)
    o = torch.zeros(len(d), dtype=DT)
    K = torch.stack((torch.stack((o, -d[:, 2], d[:, 1]), -1), torch.stack((d[:, 2], o, -d[:, 0]), -1), torch.stack((-d[:, 1], d[:, 0], o), -1)), -2)
    R = torch.linalg.matrix_exp(e * K) @ (G.rotpart(H) if G.refl else H)
    return torch.cat((H[:, :1], R.flatten(-2)), -1) if G.refl else R


def quotients(fn, an, what, scale, tol=1e-5, steps=(1e-4, 1e-5, 1e-6, 1e-7)):
    """the derivative at zero of a function of a number, smooth but for kinks, against difference quotients of several step sizes"""
    with torch.no_grad():
        fd = [(float(fn(torch.tensor(h, dtype=DT))) - float(fn(torch.tensor(-h, dtype=DT)))) / (2 * h) for h in steps]
    best = min(fd, key=lambda v: abs(v - an))
    if not abs(best - an) <= tol * max(scale, abs(best)):
        fail(f"{what}: back-propagation gives {an:.9g}, differences give {fd}")
    return best


@st.composite
def element_cases(draw):
    case = draw(cases())
    c = case["c"]
    c.update(smode="bilinear", gmode="rbf")
    if c["kind"] != "lift":
        c["width"] = draw(st.sampled_from((0.3, 0.5, 0.7)))
    return dict(case, nin=min(case["nin"], 4), nout=draw(st.integers(1, 3)), permute=False, which=draw(st.sampled_from(("in", "out", "both"))), on=draw(st.integers(0, 4)) == 4)


@facet("C21", "gradients-of-group-elements", element_cases(), quick=150, thorough=3000, budget=200, rule="the derivative is not zero")
def elements(case):
    """The output depends on the group elements of the input and of the output: the derivative of a random functional as they move along
    the group is what back-propagation gives, for one of the grids or both."""
    c, s = case["c"], case["seed"]
    G = GROUPS[c["grp"]]
    m = build(c).train(case["train"])
    x = randn(s, case["batch"], c["cin"], *([case["nin"]] if c["kind"] != "lift" else []), *[fit(c, case["outs"], d=d) for d in range(G.D)])
    Hin, Hout = G.elems(s + 1, case["nin"]), G.elems(s + 2, case["nout"])
    din, dout = randn(s + 3, case["nin"], 3), randn(s + 4, case["nout"], 3)
    which = case["which"] if c["kind"] != "lift" else "out"
    if c["kind"] != "lift":
        g = m.kernel.grid_H.double()
        if sample_group(c["grp"], g, torch.ones(len(g), 1, dtype=DT), g, "rbf", (c["width"], c.get("width2", c["width"])))[1] > 1e5:
            return False, ["ill-conditioned"]
    if case["on"]:  # relative elements on the reference grid, kernel positions on those of the weights: kinks, but finite
        Hin = m.kernel.grid_H.double()[:len(Hin)]
        Hout, x, din = Hin.clone(), x[:, :, :len(Hin)] if c["kind"] != "lift" else x, din[:len(Hin)]
        dout = randn(s + 4, len(Hout), 3)
    r = None

    def value(e):
        nonlocal r
        y = pair_ok(call(m, c, x, moved(G, Hin, e, din) if which != "out" else Hin, moved(G, Hout, e, dout) if which != "in" else Hout))[0]
        if r is None:
            r = randn(s + 9, *y.shape)
        return (y * r).sum()

    e = torch.zeros((), dtype=DT, requires_grad=True)
    v = value(e)
    dep = c["k"] != 1 or c["kind"] != "lift"
    if not v.requires_grad:
        fail("the output does not depend on its group elements for back-propagation")
    an = torch.autograd.grad(v, e, allow_unused=True)[0]
    if an is None:
        an = torch.zeros((), dtype=DT)
    tensor_ok(an, (), "derivative by the group elements")
    if case["on"]:
        return float(an) != 0, [c["kind"], c["grp"], "on the grid"]
    best = quotients(value, float(an), f"derivative of the output by the group elements ({which}) of {c['kind']} {c['grp']}", max(1.0, abs(float(v))))
    return dep and best != 0, [c["kind"], c["grp"], which]


SAMPLERS = {"SE2": so2.grid_sample, "SE3": so3.grid_sample, "E2": o2.grid_sample, "E3": o3.grid_sample}
SAMPLING = st.fixed_dictionaries(dict(grp=st.sampled_from(("SE2", "SE3", "E2", "E3", "vectors")), n=st.lists(st.integers(1, 4), min_size=2, max_size=2),
                                      nq=st.integers(1, 5), S=st.integers(1, 3), width=st.sampled_from((0.3, 0.5, 0.9)), seed=SEEDS,
                                      which=st.sampled_from(("queries", "signal", "grid", "all")), D=st.integers(1, 4), single=st.booleans()))


@facet("C21", "gradients-of-sampling", SAMPLING, quick=500, thorough=6000, budget=120, rule="the derivative is not zero")
def sampling(case):
    """Interpolated values change with the queries, the grid and the signal as back-propagation says."""
    g, s, nq, S, w, which = (case[k] for k in ("grp", "seed", "nq", "S", "width", "which"))
    if g == "vectors":
        q, x, n = randn(s, 2, nq, case["D"]), 1.5 * randn(s + 1, 2, case["n"][0], case["D"]), case["n"][0]
        dq, dx, sig, dsig = randn(s + 2, *q.shape), randn(s + 3, *x.shape), randn(s + 4, 2, n, S), randn(s + 5, 2, n, S)
        dist = lambda a, b: ((a - b) ** 2).sum(-1)
        at = lambda a, v, b: interpolation.interpolate_RBF(a, b, v, dist_fn=dist, width=w)
        move = lambda t, e, d: t + e * d
        cond = max(float(torch.linalg.cond(torch.exp(-0.69314718 * (dist(b[:, None], b[None]) / w) ** 2))) for b in x)
    else:
        G = GROUPS[g]
        x = G.ref_grid(s, case["n"] if G.refl else case["n"][0])
        if case["single"]:  # far from regular
            x = moved(G, x, 0.2, randn(s + 8, len(x), 3))
        q, n = G.elems(s + 1, nq), len(x)
        dq, dx, sig, dsig = randn(s + 2, nq, 3), randn(s + 3, n, 3), randn(s + 4, n, S), randn(s + 5, n, S)
        fn = SAMPLERS[g]
        at = (lambda a, v, b: fn(a, v, b, tuple(case["n"]), "rbf", w, w)) if G.refl else (lambda a, v, b: fn(a, v, b, "rbf", w))
        move = lambda t, e, d: moved(G, t, e, d)
        cond = sample_group(g, x, torch.ones(n, 1, dtype=DT), x, "rbf", (w, w))[1]
    if cond > 1e4:
        return False, ["ill-conditioned"]
    r = randn(s + 6, *at(q, sig, x).shape)

    def value(e):
        return (at(move(q, e, dq) if which in ("queries", "all") else q, sig + e * dsig if which in ("signal", "all") else sig,
                   move(x, e, dx) if which in ("grid", "all") else x) * r).sum()

    e = torch.zeros((), dtype=DT, requires_grad=True)
    v = value(e)
    if not v.requires_grad:
        fail(f"sampling on {g}: the values do not depend on the {which} for back-propagation")
    an, = torch.autograd.grad(v, e)
    tensor_ok(an, (), f"sampling on {g}: derivative by the {which}")
    best = quotients(value, float(an), f"sampling on {g}: derivative by the {which}", max(1.0, abs(float(v))), tol=1e-4)
    return abs(best) > 1e-9, [g, which]


GEOMETRY = {**c07.BATCH, **c08.BATCH, **c09.BATCH, **c10.BATCH}
GEO = st.fixed_dictionaries(dict(f=st.sampled_from(sorted(GEOMETRY)), n=st.integers(1, 5), m=st.integers(1, 3), seed=SEEDS, which=st.integers(1, 3),
                                 grid=st.lists(st.integers(1, 3), min_size=3, max_size=3), special=st.just(False)))
GEO_SPECIAL = st.fixed_dictionaries(dict(f=st.sampled_from(sorted(set(GEOMETRY) - {"quat_to_euler", "matrix_to_euler", "euclid_to_spherical"})), n=st.integers(1, 5),
                                         m=st.integers(1, 3), seed=SEEDS, which=st.integers(1, 3), grid=st.lists(st.integers(1, 3), min_size=3, max_size=3), special=st.just(True)))
R2 = 0.5**0.5
SPECIAL = torch.tensor([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, 0.5], [R2, R2, 0, 0], [R2, 0, R2, 0], [R2, 0, 0, -R2],
                        [0, R2, R2, 0], [0.0, 0, R2, -R2]], dtype=DT)


def chosen(rows, seed, n):
    return rows[(rand(seed, n) * len(rows)).long()]


@facet("C21", "gradients-of-geometry", GEO, quick=1200, thorough=15000, budget=120, rule="the derivative is not zero")
def geometry(case):
    """Conversions, products, inverses, actions, logarithms and distances change with their arguments as back-propagation says."""
    fn, kinds, mode, result = GEOMETRY[case["f"]]
    s, args, dirs, special = case["seed"], [], [], case["special"]
    for i, k in enumerate(kinds):
        n = case["m"] if mode == "pair" and i else case["n"]
        if mode == "grid" and i:
            D = int(k[-1])
            x = 2 * rand(s + 7, *case["grid"][:D], D) - 1
            mv = "line"
        elif k in ("quat", "q4", "mat", "generic", "o3"):  # away from half turns and poles
            q = geo.units(s + 5 * i, n, 4)
            q[:, 0] = q[:, 0].abs() + 0.3
            q = q / q.norm(dim=-1, keepdim=True)
            if special:
                q = chosen(SPECIAL, s + 5 * i, n)
            x, mv = q, k
        elif special and not k.startswith("unit3"):
            w = 2 if k == "spher" else 3 if k == "euler" else 1
            x, mv = 0.5 * math.pi * chosen(torch.arange(-2, 5, dtype=DT), s + 5 * i, n * w).reshape(n, w), {"unit2": "sphere", "rot2": "turn", "o2": "o2"}.get(k, "line")
            c = torch.where(rand(s + 2 + i, n, 1) < 0.5, -1.0, 1.0).to(DT)
            x = {"theta": lambda: x[:, 0], "o2": lambda: torch.cat((c, x), -1), "unit2": lambda: torch.cat((torch.cos(x), torch.sin(x)), -1),
                 "rot2": lambda: torch.stack((torch.cos(x), -torch.sin(x), torch.sin(x), torch.cos(x)), -1).reshape(n, 2, 2)}.get(k, lambda: x)()
        elif special:
            x, mv = chosen(torch.cat((torch.eye(3, dtype=DT), -torch.eye(3, dtype=DT))), s + 5 * i, n), "sphere"
        elif k == "spher":
            x, mv = 0.3 + 2.4 * rand(s + 5 * i, n, 2), "line"
        elif k == "euler":
            x, mv = 0.3 + 2.4 * rand(s + 5 * i, n, 3), "line"
        else:
            x, mv = geo.build(k, s + 5 * i, n, 0), {"unit2": "sphere", "unit3": "sphere", "rot2": "turn", "o2": "o2"}.get(k, "line")
        args.append((x, mv, torch.where(rand(s + 2 + i, n, 1) < 0.5, -1.0, 1.0).to(DT)))
        dirs.append(randn(s + 11 + i, *x.shape))
    which = case["which"] if len(args) > 1 else 1

    def arg(i, e):
        x, mv, c = args[i]
        y = x + (e if which >> i & 1 else 0) * dirs[i]
        if mv in ("quat", "q4", "mat", "generic", "o3"):
            y = y / y.norm(dim=-1, keepdim=True)
            return {"quat": lambda: y, "q4": lambda: 1.5 * y, "o3": lambda: torch.cat((c, geo.quat_mat(y).flatten(-2)), -1)}.get(mv, lambda: geo.quat_mat(y))()
        if mv == "sphere":
            return y / y.norm(dim=-1, keepdim=True)
        if mv == "o2":
            return torch.cat((x[:, :1], y[:, 1:]), -1)
        if mv == "turn":
            a = torch.atan2(x[:, 1, 0], x[:, 0, 0]) + (e if which >> i & 1 else 0) * dirs[i][:, 0, 0]
            return torch.stack((torch.cos(a), -torch.sin(a), torch.sin(a), torch.cos(a)), -1).unflatten(-1, (2, 2))
        return y

    r = None

    def value(e):
        nonlocal r
        y = geo.MEANING[result](fn(*(arg(i, e) for i in range(len(args)))))
        if r is None:
            r = randn(s + 9, *y.shape)
        return (y * r).sum()

    e = torch.zeros((), dtype=DT, requires_grad=True)
    v = value(e)
    what = f"{case['f']} of {case['n']} elements: derivative by argument {which}"
    if case["f"].endswith("det"):
        return False, [case["f"]]
    if not v.requires_grad:
        fail(f"{what}: the result does not depend on it for back-propagation")
    an = torch.autograd.grad(v, e, allow_unused=True)[0]
    if an is None:
        fail(f"{what}: none")
    tensor_ok(an, (), what)
    if special and ("distance" in case["f"] or case["f"] == "so3_log" and bool((args[0][0][:, 0] < 0.1).any())):  # kinks
        return float(an) != 0, [case["f"]]
    best = quotients(value, float(an), what, max(1.0, abs(float(v))), tol=1e-4)
    return abs(best) > 1e-9, [case["f"], f"which{which}"]


@facet("C21", "gradients-at-special-elements", GEO_SPECIAL, quick=800, thorough=8000, budget=120, rule="the derivative is not zero")
def geometry_special(case):
    """The same at identities, half and quarter turns and poles: derivatives where there are any, and always finite ones."""
    return geometry(case)
