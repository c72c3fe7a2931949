"""C14: pooling equals per-element pooling and is invariant where it should be."""
from __future__ import annotations

import math

import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from gconv.gnn import modules as M

from ..core import SEEDS, close, facet, fail, gen, pair_ok, rand, randn, same, tensor_ok

DT = torch.float64
LAYOUT = ("contiguous", "permuted", "strided", "expanded", "channels_last", "offset", "step")
MODES = ("plain", "no_grad", "inference", "requires_grad")


def layout(x, how):
    """the same values in another memory layout"""
    if how == "permuted":  # group dimension last in memory
        return x.movedim(2, -1).contiguous().movedim(-1, 2)
    if how == "strided":
        return torch.stack((x, -x), -1)[..., 0]
    if how == "expanded":
        return x[:, :, :1].expand(x.shape)
    if how == "channels_last":
        return x.movedim(1, -1).contiguous().movedim(-1, 1)
    if how == "offset":
        return torch.cat((torch.zeros_like(x[:1]) - 3, x))[1:]
    if how == "step":
        return torch.stack((-x, x), 3).flatten(2, 3)[:, :, 1::2]
    return x.contiguous()


def run(f, mod, *args, leaf=True):
    """the call in the case's autograd mode"""
    mode = f["mode"]
    if mode == "requires_grad" and leaf:
        args = (args[0].requires_grad_(),) + args[1:]
    with {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(mode, torch.enable_grad)():
        y = mod(*args)
    if mode == "requires_grad" and leaf:
        args[0].requires_grad_(False)
    if isinstance(y, torch.Tensor):
        return y.detach().clone()
    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], torch.Tensor):
        return y[0].detach().clone(), y[1]
    return y


SIZES = st.one_of(st.integers(1, 5), st.sampled_from((8, 9, 12, 17, 24, 33, 60, 64, 65, 100)))


@st.composite
def feats(draw, D, maxs=8, special=False):
    N, C, G = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(SIZES)
    big = draw(st.integers(0, 5))  # many samples or many channels
    if big == 5:
        N, G = draw(st.sampled_from((4, 5, 8, 16, 33, 70, 130))), min(G, 5)
    elif big == 4:
        C, G = draw(st.sampled_from((5, 8, 16, 17, 32, 33, 65, 130))), min(G, 5)
    return dict(D=D, N=N, C=C, G=G, mode=draw(st.sampled_from(MODES)),
                sp=[draw(st.integers(1, maxs)) for _ in range(D)], layout=draw(st.sampled_from(LAYOUT)), f32=draw(st.booleans()),
                seed=draw(SEEDS), neg=draw(st.booleans()), hkind=draw(st.sampled_from(HKINDS)),
                vals=draw(st.sampled_from(("any", "any", "any", "ties", "huge", "tiny") + (("inf", "nan") if special else ()))), hshape=draw(st.sampled_from(((1,), (2,), (3, 3), (10,), ()))))


def make(f):
    dt = torch.float32 if f["f32"] else DT
    x = randn(f["seed"], f["N"], f["C"], f["G"], *f["sp"], dtype=dt)
    if f["neg"]:
        x = -x.abs() - 0.5  # padding must not win a maximum
    return layout(values(x, f), f["layout"]), grid(f, f["hshape"], dt)


def values(x, f):
    if f["vals"] == "ties":
        x = x.round()
    elif f["vals"] in ("huge", "tiny"):
        x = x * (1e15 if f["vals"] == "huge" else 1e-15)
    elif f["vals"] in ("inf", "nan"):
        p = rand(f["seed"] + 3, *x.shape)
        x = x.masked_fill(p < 0.1, math.nan if f["vals"] == "nan" else math.inf).masked_fill(p > 0.9, -math.inf)
    return x


def unit(f):
    """the magnitude of the values"""
    return {"huge": 1e15, "tiny": 1e-15}.get(f["vals"], 1.0)


HKINDS = ("plain", "plain", "other", "integer", "transposed", "strided", "expanded", "gradient")


def grid(f, shape, dt):
    """a group grid of any dtype and layout: modules that do not look at it have to hand it through"""
    H, kind = randn(f["seed"] + 1, f["G"], *shape, dtype=dt), f["hkind"]
    if kind == "other":
        H = H.to(DT if dt == torch.float32 else torch.float32)
    elif kind == "integer":
        H = (3 * H).long()
    elif kind == "transposed":
        H = H.movedim(0, -1).contiguous().movedim(-1, 0)
    elif kind == "strided":
        H = torch.stack((-H, H), 1)[:, 1]
    elif kind == "expanded":
        H = H[:1].expand(H.shape)
    elif kind == "gradient":
        H.requires_grad_()
    return H


@st.composite
def pools(draw):
    D = draw(st.sampled_from((2, 3)))
    kind = draw(st.sampled_from(("Max", "Avg")))
    per = lambda lo, hi: draw(st.one_of(st.integers(lo, hi), st.lists(st.integers(lo, hi), min_size=D, max_size=D)))
    k = per(1, 4)
    ks = k if isinstance(k, list) else [k] * D
    stride = draw(st.one_of(st.none(), st.integers(1, 3), st.lists(st.integers(1, 3), min_size=D, max_size=D)))
    pad = [draw(st.integers(0, v // 2)) for v in ks] if draw(st.booleans()) else draw(st.integers(0, min(ks) // 2))
    o = dict(kernel_size=k, stride=stride, padding=pad, ceil_mode=draw(st.booleans()))
    if kind == "Max":
        o["dilation"] = per(1, 2)
    else:
        o["count_include_pad"] = draw(st.booleans())
        o["divisor_override"] = draw(st.sampled_from((None, None, None, 3, 1, 2, 50)))
    f = draw(feats(D, special=True))
    dil = o.get("dilation", 1)
    dl = dil if isinstance(dil, list) else [dil] * D
    pl = pad if isinstance(pad, list) else [pad] * D
    for i in range(D):  # at least one window
        need = dl[i] * (ks[i] - 1) + 1 - 2 * pl[i]
        f["sp"][i] = max(f["sp"][i], need, 1)
    f["sp"] = [min(s, 6) if D == 3 and s > 6 else s for s in f["sp"]]
    for i in range(D):
        f["sp"][i] = max(f["sp"][i], dl[i] * (ks[i] - 1) + 1 - 2 * pl[i])
        if kind == "Avg" and D == 3:  # torch's own requirement
            f["sp"][i] = max(f["sp"][i], ks[i])
    return dict(kind=kind, D=D, o=o, f=f, drop=draw(st.booleans()))


def tup(o):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in o.items()}


def per_slice(fn, x):
    """fn applied to every (sample, channel, group element) on its own"""
    N, C, G = x.shape[:3]
    return torch.stack([torch.stack([torch.stack([fn(x[n, c, g][None, None].contiguous())[0, 0] for g in range(G)]) for c in range(C)]) for n in range(N)])


def check_unchanged(x, x0, H, H0, out_H, what):
    same(torch.nan_to_num(x, nan=7.5), torch.nan_to_num(x0, nan=7.5), f"{what}: input after the call")
    same(H, H0, f"{what}: group grid after the call")
    same(out_H, H0, f"{what}: returned group grid")


def check_spatial(case):
    """Max/average pools with any option = the ordinary pool on every channel and group element; grid returned unchanged."""
    D, f = case["D"], case["f"]
    o = tup(case["o"])
    if case["drop"]:  # documented defaults of the ordinary pool
        o = {k: v for k, v in o.items() if k == "kernel_size"}
    cls = f"G{case['kind']}SpatialPool{D}d"
    mod = getattr(M, cls)(**o)
    if case["drop"]:
        ks = o["kernel_size"] if isinstance(o["kernel_size"], tuple) else (o["kernel_size"],) * D
        f = dict(f, sp=[max(s, k) for s, k in zip(f["sp"], ks)])
    x, H = make(f)
    x0, H0 = x.clone(), H.detach().clone()
    fn = getattr(F, f"{case['kind'].lower()}_pool{D}d")
    want = per_slice(lambda v: fn(v, **o), x)
    y, H2 = pair_ok(run(f, mod, x, H), cls)
    what = f"{cls}({o}) on {tuple(x.shape)} {f['layout']}"
    tensor_ok(y, want.shape, what, x.dtype, finite=False)
    odd = ~torch.isfinite(want)  # windows of padding only are -inf or nan in the ordinary pool
    same(torch.nan_to_num(y[odd], nan=7.0), torch.nan_to_num(want[odd], nan=7.0), what)
    want = want.masked_fill(odd, 0)
    close(y.masked_fill(odd, 0), want, 1e-6 if f["f32"] else 1e-12, what, scale=max(unit(f), float(want.abs().max())))
    check_unchanged(x, x0, H, H0, H2, what)
    same(torch.nan_to_num(pair_ok(run(f, mod.eval(), x, H))[0]), torch.nan_to_num(y), f"{what}: in eval mode")
    return f["G"] > 1 and want.numel() > 0, [cls, f["layout"]]


@st.composite
def adaptive(draw):
    D = draw(st.sampled_from((2, 3)))
    dim = st.one_of(st.integers(1, 4), st.none())
    out = draw(st.one_of(st.integers(1, 4), st.lists(dim, min_size=D, max_size=D)))
    return dict(kind=draw(st.sampled_from(("Max", "Avg"))), D=D, out=out, f=draw(feats(D, maxs=8 if D == 2 else 5, special=True)))


def check_adaptive(case):
    """Adaptive pools = the ordinary adaptive pool on every channel and group element."""
    D, f = case["D"], case["f"]
    out = tuple(case["out"]) if isinstance(case["out"], list) else case["out"]
    cls = f"GAdaptive{case['kind']}SpatialPool{D}d"
    mod = getattr(M, cls)(out)
    x, H = make(f)
    x0, H0 = x.clone(), H.detach().clone()
    size = [s if o is None else o for s, o in zip(f["sp"], out)] if isinstance(out, tuple) else [out] * D
    fn = getattr(F, f"adaptive_{case['kind'].lower()}_pool{D}d")
    want = per_slice(lambda v: fn(v, size), x)
    y, H2 = pair_ok(run(f, mod, x, H), cls)
    what = f"{cls}({out}) on {tuple(x.shape)} {f['layout']}"
    tensor_ok(y, (f["N"], f["C"], f["G"], *size), what, x.dtype, finite=False)
    odd = ~torch.isfinite(want)
    same(torch.nan_to_num(y[odd], nan=7.0), torch.nan_to_num(want[odd], nan=7.0), what)
    y, want = y.masked_fill(odd, 0), want.masked_fill(odd, 0)
    close(y, want, 1e-6 if f["f32"] else 1e-12, what, scale=max(unit(f), float(want.abs().max())))
    check_unchanged(x, x0, H, H0, H2, what)
    return f["G"] > 1, [cls, f["layout"]]


GP = st.fixed_dictionaries(dict(f=st.one_of(feats(2), feats(3, maxs=4)), kind=st.sampled_from(("Max", "Avg")), with_H=st.booleans()))


def check_group(case):
    """Group pools reduce the group dimension only, global pools group and space; both ignore order."""
    f = case["f"]
    x, H = make(f)
    x0, H0 = x.clone(), H.detach().clone()
    kind = case["kind"]
    a = (x, H) if case["with_H"] else (x,)
    g = getattr(M, f"G{kind}GroupPool")()
    w = getattr(M, f"G{kind}GlobalPool")()
    yg, yw = run(f, g, *a), run(f, w, *a)
    N, C, G, *sp = x.shape
    red = (lambda v: max(v)) if kind == "Max" else (lambda v: sum(v) / len(v))
    rows = x.double().reshape(N, C, G, -1)
    want = torch.stack([rows[:, :, i] for i in range(G)])
    want = want.max(0)[0] if kind == "Max" else want.sum(0) / G
    tol = 1e-5 if f["f32"] else 1e-12
    what = f"G{kind}GroupPool on {tuple(x.shape)} {f['layout']}"
    tensor_ok(yg, (N, C, *sp), what, x.dtype)
    close(yg.reshape(N, C, -1), want, tol, what, scale=unit(f))
    what = f"G{kind}GlobalPool on {tuple(x.shape)} {f['layout']}"
    tensor_ok(yw, None, what, x.dtype)
    if yw.numel() != N * C or tuple(yw.shape[:2]) != (N, C):
        fail(f"{what}: shape {tuple(yw.shape)}, expected one value per sample and channel")
    flat = [[red([float(v) for v in x[n, c].reshape(-1)]) for c in range(C)] for n in range(N)]
    close(yw.reshape(N, C), torch.tensor(flat, dtype=DT), tol, what, scale=unit(f))
    tensor_ok(yw, (N, C, 1), what)
    same(x, x0, "input after pooling")
    same(H, H0, "grid after pooling")
    # reorderings
    s = f["seed"]
    p = torch.randperm(G, generator=gen(s + 2))
    xp = x[:, :, p]
    b = (xp, H[p]) if case["with_H"] else (xp,)
    close(g(*b), yg, tol, f"{what}: group pool after reordering the group", scale=unit(f))
    q = torch.randperm(G * rows.shape[-1], generator=gen(s + 3))
    xq = x.reshape(N, C, -1)[:, :, q].reshape(x.shape)
    close(w(xq), yw, tol, f"{what}: global pool after rearranging all positions", scale=unit(f))
    return G > 1, [kind, f"{f['D']}d", f["layout"]]


facet("C14", "spatial", pools(), quick=2000, rule="several group elements")(check_spatial)
facet("C14", "spatial-2", pools(), quick=2000, rule="several group elements")(check_spatial)
facet("C14", "adaptive", adaptive(), quick=1800, rule="several group elements")(check_adaptive)
facet("C14", "group-global", GP, quick=2500, rule="several group elements")(check_group)


# ------------------------------------------------------------------ half precision
HALF = {"f16": (torch.float16, 3e4), "bf16": (torch.bfloat16, 1e30)}


@st.composite
def halves(draw):
    D = draw(st.sampled_from((2, 3)))
    k = draw(st.integers(1, 3))
    return dict(D=D, f=dict(draw(feats(D, maxs=5)), vals="any"), kind=draw(st.sampled_from(("Max", "Avg"))), pool=draw(st.sampled_from(("group", "global", "spatial", "adaptive"))),
                t=draw(st.sampled_from(sorted(HALF))), large=draw(st.booleans()), k=k, s=draw(st.integers(1, 3)), p=draw(st.integers(0, k // 2)), ceil=draw(st.booleans()),
                out=draw(st.integers(1, 3)))


def check_half(case):
    """Pools in half precision: the ordinary pool of half precision numbers on every slice, also for large numbers (whose sum is in range)."""
    f, D, kind, pool = case["f"], case["D"], case["kind"], case["pool"]
    dt, top = HALF[case["t"]]
    N, C, G = f["N"], f["C"], f["G"]
    sp = [max(s, case["k"]) for s in f["sp"]]
    x = randn(f["seed"], N, C, G, *sp)
    if case["large"]:
        if kind == "Avg" and pool in ("group", "global"):  # (how a mean is summed is not documented: the sum is in range)
            top = top / (G if pool == "group" else G * math.prod(sp))
        x = top * (0.5 + 0.5 * x.abs().clamp(max=1)) * torch.sign(randn(f["seed"] + 1, 1, C, 1, *[1] * D))
    x = layout(x.to(dt), f["layout"])
    x0, H = x.clone(), grid(f, f["hshape"], torch.float32)
    xd = x.double()
    o = dict(kernel_size=case["k"], stride=case["s"], padding=case["p"], ceil_mode=case["ceil"])
    if pool in ("group", "global"):
        mod = getattr(M, f"G{kind}{pool.capitalize()}Pool")()
        v = xd if pool == "group" else xd.reshape(N, C, -1)
        want = v.amax(2) if kind == "Max" else v.mean(2)
        args = (x, H)
    else:
        mod = getattr(M, f"G{kind}SpatialPool{D}d")(**o) if pool == "spatial" else getattr(M, f"GAdaptive{kind}SpatialPool{D}d")(case["out"])
        ordinary = getattr(F, f"{'adaptive_' if pool == 'adaptive' else ''}{kind.lower()}_pool{D}d")
        fn = (lambda v: ordinary(v, **o)) if pool == "spatial" else (lambda v: ordinary(v, case["out"]))
        want = fn(xd.reshape(N * C * G, 1, *sp))
        want = want.reshape(N, C, G, *want.shape[2:])
        args = (x, H)
        try:  # what the ordinary pool can do in this precision
            flat = fn(x.reshape(N * C * G, 1, *sp).contiguous())
        except RuntimeError:
            return False, ["not in torch"]
        if not bool(torch.isfinite(flat).all()) and bool(torch.isfinite(want).all()):
            return False, ["overflow in torch"]
    what = f"{type(mod).__name__} on {tuple(x.shape)} in {case['t']} {f['layout']}"
    y = run(f, mod, *args)
    y = y if isinstance(y, torch.Tensor) else pair_ok(y, what)[0]
    tensor_ok(y, None, what, dt, finite=bool(torch.isfinite(want).all()))
    if pool == "global":
        y = y.reshape(want.shape)
    odd = ~torch.isfinite(want)
    close(y.double().masked_fill(odd, 0), want.masked_fill(odd, 0), 4e-3 if case["t"] == "f16" else 3e-2, what, scale=max(1.0, float(xd.abs().max())))
    same(x, x0, f"{what}: input after the call")
    return G > 1, [kind, pool, case["t"], "large" if case["large"] else ""]


facet("C14", "half-precision", halves(), quick=900, rule="several group elements")(check_half)


# ------------------------------------------------------------------ missing and infinite values
@st.composite
def oddities(draw):
    c = draw(halves())
    return dict(c, f32=draw(st.booleans()), odd=draw(st.lists(st.tuples(st.sampled_from((float("nan"), float("inf"), float("-inf"))), SEEDS), min_size=1, max_size=3)))


def check_odd(case):
    """A value that is missing or infinite is passed on to exactly those outputs it is pooled into, as the ordinary pool does."""
    f, D, kind, pool = case["f"], case["D"], case["kind"], case["pool"]
    N, C, G = f["N"], f["C"], f["G"]
    sp = [max(s, case["k"]) for s in f["sp"]]
    x = randn(f["seed"], N, C, G, *sp)
    for v, s in case["odd"]:
        x.view(-1)[int(rand(s, 1) * x.numel())] = v
    dt = torch.float32 if case["f32"] else torch.float64
    x = layout(x.to(dt), f["layout"])
    H = grid(f, f["hshape"], dt)
    if pool in ("group", "global"):
        mod = getattr(M, f"G{kind}{pool.capitalize()}Pool")()
        v = x if pool == "group" else x.reshape(N, C, -1)
        odd = v.isnan().any(2) | ((v == math.inf).any(2) & (v == -math.inf).any(2) & (kind == "Avg"))
        want = (v.nan_to_num(nan=0.0, posinf=math.inf, neginf=-math.inf).amax(2) if kind == "Max" else v.sum(2) / v.shape[2]).masked_fill(odd, math.nan)
    else:
        o = dict(kernel_size=case["k"], stride=case["s"], padding=case["p"], ceil_mode=case["ceil"])
        mod = getattr(M, f"G{kind}SpatialPool{D}d")(**o) if pool == "spatial" else getattr(M, f"GAdaptive{kind}SpatialPool{D}d")(case["out"])
        ordinary = getattr(F, f"{'adaptive_' if pool == 'adaptive' else ''}{kind.lower()}_pool{D}d")
        flat = x.reshape(N * C * G, 1, *sp).contiguous()
        try:
            want = ordinary(flat, **o) if pool == "spatial" else ordinary(flat, case["out"])
        except RuntimeError:
            return False, ["not in torch"]
        want = want.reshape(N, C, G, *want.shape[2:])
    what = f"{type(mod).__name__} on {tuple(x.shape)} with {[v for v, _ in case['odd']]}"
    y = run(f, mod, x, H)
    y = y if isinstance(y, torch.Tensor) else pair_ok(y, what)[0]
    if pool == "global":
        y = y.reshape(want.shape)
    tensor_ok(y, want.shape, what, dt, finite=False)
    for name, is_ in (("missing", torch.isnan), ("infinite", torch.isposinf), ("minus infinite", torch.isneginf)):
        same(is_(y), is_(want), f"{what}: which outputs are {name}")
    odd = ~torch.isfinite(want)
    close(y.masked_fill(odd, 0), want.masked_fill(odd, 0), 1e-5 if case["f32"] else 1e-12, what, scale=1.0)
    return bool(odd.any()) and not bool(odd.all()), [kind, pool]


facet("C14", "missing-values", oddities(), quick=1500, rule="some outputs are finite and some are not")(check_odd)
