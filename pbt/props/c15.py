"""C15: normalisations and activations treat group elements alike."""
from __future__ import annotations

import copy
import math

import torch
import torch.nn as nn
from hypothesis import strategies as st

from gconv.gnn import modules as M

from ..core import SEEDS, close, facet, fail, gen, pair_ok, rand, randn, same, tensor_ok
from ..grp import FULL3, MIRROR2, ORDER, spatial
from .c14 import feats, grid, layout, run, unit, values

DT = torch.float64


def data(f, k, shape=None, dt=None):
    """k-th input of a history: channels have different offsets and scales"""
    dt = dt or (torch.float32 if f["f32"] else DT)
    shape = shape or (f["N"], f["C"], f["G"], *f["sp"])
    x = randn(f["seed"] + 17 * k, *shape)
    C = shape[1]
    per = lambda s, g: g.reshape(1, C, *[1] * (len(shape) - 2)) * s
    x = x * (0.5 + rand(f["seed"] + 17 * k + 1, C)).reshape(1, C, *[1] * (len(shape) - 2))
    x = x + per(2.0, randn(f["seed"] + 17 * k + 2, C))
    x = x + 0.7 * randn(f["seed"] + 17 * k + 3, 1, 1, shape[2], *[1] * (len(shape) - 3))  # group elements differ too
    H = grid(dict(f, G=shape[2]), f["hshape"], dt)
    return layout(x.to(dt), f["layout"]), H


def call(f, mod, x, H, what, inplace=False):
    x0, H0 = x.clone(), H.detach().clone()
    y, H2 = pair_ok(run(f, mod, x, H, leaf=not inplace), what)
    tensor_ok(y, x0.shape, what, x.dtype)
    if not inplace:
        same(x, x0, f"{what}: input after the call")
    same(H, H0, f"{what}: grid after the call")
    same(H2, H0, f"{what}: returned grid")
    return y


# ---------------------------------------------------------------- batch and instance norm histories


class Model:
    """Batch / instance normalisation by the textbook formulas, in double precision."""

    def __init__(self, kind, C, eps, momentum, affine, track):
        self.kind, self.C, self.eps, self.mom, self.track = kind, C, eps, momentum, track
        self.w, self.b = torch.ones(C, dtype=DT), torch.zeros(C, dtype=DT)
        self.affine = affine
        self.reset()
        self.training = True

    def reset(self):
        self.rm, self.rv, self.n = torch.zeros(self.C, dtype=DT), torch.ones(self.C, dtype=DT), 0

    def __call__(self, x):
        x = x.double()
        N, C = x.shape[:2]
        r = x.reshape(N, C, -1)
        if self.kind == "batch":
            flat = r.transpose(0, 1).reshape(C, -1)
            m, v = flat.mean(1), flat.var(1, unbiased=False)
            u = flat.var(1, unbiased=True) if flat.shape[1] > 1 else v
            m, v, rmean, rvar = m.expand(N, C), v.expand(N, C), m, u
        else:
            m, v = r.mean(-1), r.var(-1, unbiased=False)
            u = r.var(-1, unbiased=True)
            rmean, rvar = m.mean(0), u.mean(0)
        if self.track and not self.training:
            m, v = self.rm.expand(N, C), self.rv.expand(N, C)
        elif self.track:
            self.n += 1
            # instance norm has no cumulative average in torch
            a = self.mom if self.mom is not None else (1.0 / self.n)
            self.rm = (1 - a) * self.rm + a * rmean
            self.rv = (1 - a) * self.rv + a * rvar
        y = (r - m[..., None]) / torch.sqrt(v[..., None] + self.eps)
        if self.affine:
            y = y * self.w[None, :, None] + self.b[None, :, None]
        return y.reshape(x.shape)


OPS = ("call", "call", "call", "train", "eval", "affine", "reset", "save", "copy", "size")


@st.composite
def histories(draw):
    D = draw(st.sampled_from((2, 3)))
    kind = draw(st.sampled_from(("batch", "instance")))
    f = draw(feats(D, maxs=4 if D == 2 else 3))
    return dict(D=D, kind=kind, f=f, eps=draw(st.sampled_from((1e-5, 1e-3, 0.5))),
                momentum=draw(st.sampled_from((0.1, 0.5, 1.0, None) if kind == "batch" else (0.1, 0.5, 1.0))),
                affine=draw(st.booleans()), track=draw(st.booleans()), default=draw(st.integers(0, 3)) == 0,
                ops=draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=8)))


def check_history(case):
    """Any history of calls, mode switches, affine edits, resets, saves and copies agrees with the textbook formulas,
    with one statistic per channel (and per sample for instance norm) over group elements and positions."""
    D, f, kind = case["D"], dict(case["f"]), case["kind"]
    if f["G"] * math.prod(f["sp"]) < 2:  # torch asks for more than one value per statistic
        f["sp"] = [2] + f["sp"][1:]
    cls = f"G{kind.capitalize()}Norm{D}d"
    C = f["C"]
    kw = dict(eps=case["eps"], momentum=case["momentum"], affine=case["affine"], track_running_stats=case["track"])
    if case["default"]:
        kw = {}
        dflt = dict(batch=(1e-5, 0.1, True, True), instance=(1e-5, 0.1, False, False))[kind]
    else:
        dflt = (case["eps"], case["momentum"], case["affine"], case["track"])
    dt = torch.float32 if f["f32"] else DT
    mk = lambda: getattr(M, cls)(C, **kw).to(dt)
    mod, ref = mk(), Model(kind, C, *dflt)
    tol = 2e-4 if f["f32"] else 1e-9
    names = sorted(n for n, _ in mod.named_parameters())
    if names != (["bias", "weight"] if ref.affine else []):
        fail(f"{cls}({kw}) has parameters {names}")
    if sorted(n for n, _ in mod.named_buffers()) != (["num_batches_tracked", "running_mean", "running_var"] if ref.track else []):
        fail(f"{cls}({kw}) has buffers {[n for n, _ in mod.named_buffers()]}")
    k, calls, evals = 0, 0, 0
    shape = [f["N"], C, f["G"], *f["sp"]]
    for i, op in enumerate(case["ops"] + ["call"]):
        what = f"{cls}({kw}) after {case['ops'][:i]}"
        if op == "train":
            mod.train()
            ref.training = True
        elif op == "eval":
            mod.eval()
            ref.training = False
        elif op == "affine" and ref.affine:
            w, b = randn(f["seed"] + i, C), randn(f["seed"] + i + 1, C)
            with torch.no_grad():
                mod.weight.copy_(w)
                mod.bias.copy_(b)
            ref.w, ref.b = mod.weight.detach().double(), mod.bias.detach().double()
        elif op == "reset":
            mod.reset_running_stats()
            ref.reset()
        elif op == "save":
            new = mk()
            new.load_state_dict(mod.state_dict())
            new.train(mod.training)
            mod = new
        elif op == "copy":
            mod = copy.deepcopy(mod)
        elif op == "size":  # statistics do not depend on the size of the input
            shape[2] = 1 + (shape[2] + i) % 4
            shape[3] = 2 + (shape[3] + i) % 3
        else:
            k += 1
            x, H = data(f, k, shape)
            y = call(f, mod, x, H, what)
            want = ref(x)
            sc = max(1.0, float(want.abs().max()), float(ref.rm.abs().max()))
            close(y, want, tol, what, scale=sc)
            if ref.track:
                close(mod.running_mean, ref.rm, tol, f"{what}: running mean", scale=max(1.0, float(x.abs().max())))
                close(mod.running_var, ref.rv, tol, f"{what}: running variance", scale=max(1.0, float(x.abs().max()) ** 2))
            calls += 1
            evals += not ref.training
    return shape[2] > 1 and calls > 1, [cls, f["layout"], f"calls{min(calls, 4)}", "eval" if evals else "train only",
                                       "track" if ref.track else "no track", "affine" if ref.affine else "plain"]


# ---------------------------------------------------------------- layer norm


@st.composite
def lnorm(draw):
    D = draw(st.sampled_from((2, 3)))
    return dict(f=draw(feats(D, maxs=4)), last=draw(st.integers(1, D + 2)), eps=draw(st.sampled_from((1e-5, 0.1))),
                affine=draw(st.booleans()), bias=draw(st.booleans()), intshape=draw(st.booleans()))


def check_layer(case):
    """Layer normalisation normalises exactly the trailing dimensions, for every other index separately."""
    f, t = case["f"], case["last"]
    x, H = data(f, 1)
    tail = tuple(x.shape[-t:])
    shape = tail[0] if t == 1 and case["intshape"] else list(tail)
    dt = x.dtype
    mod = M.GLayerNorm(shape, eps=case["eps"], elementwise_affine=case["affine"], bias=case["bias"]).to(dt)
    P = dict(mod.named_parameters())
    if sorted(P) != (["weight"] if not case["bias"] else ["bias", "weight"]) * case["affine"]:
        fail(f"GLayerNorm parameters {sorted(P)}")
    with torch.no_grad():
        for i, n in enumerate(sorted(P)):
            P[n].copy_(randn(f["seed"] + 40 + i, *tail))
    what = f"GLayerNorm({shape}) on {tuple(x.shape)} {f['layout']}"
    y = call(f, mod, x, H, what)
    xd = x.double().reshape(-1, math.prod(tail))
    m = xd.sum(1, keepdim=True) / xd.shape[1]
    v = ((xd - m) ** 2).sum(1, keepdim=True) / xd.shape[1]
    want = ((xd - m) / torch.sqrt(v + case["eps"])).reshape(x.shape)
    if "weight" in P:
        want = want * P["weight"].double()
    if "bias" in P:
        want = want + P["bias"].double()
    close(y, want, 5e-4 if f["f32"] else 1e-9, what, scale=max(1.0, float(want.abs().max())))
    same(call(f, mod.eval(), x, H, what), y, f"{what}: in eval mode")
    return math.prod(tail) > 1, [f"last{t}", f["layout"]]


# ---------------------------------------------------------------- activations and wrapped modules

ACTS = ("relu", "gelu", "gelu-tanh", "leaky")


@st.composite
def acts(draw):
    return dict(f=draw(st.one_of(feats(2), feats(3, maxs=4))), act=draw(st.sampled_from(ACTS)), inplace=draw(st.booleans()),
                slope=draw(st.sampled_from((None, 0.0, 0.3, 1.5, -0.2))))


def check_act(case):
    """Activations act on every value of the features alone, by their formula."""
    f, a = case["f"], case["act"]
    x, H = data(f, 1)
    x = layout(values(x, f), f["layout"])
    inplace = case["inplace"] and f["layout"] != "expanded"
    if a == "relu":
        mod, fn = M.GReLU(inplace=inplace), lambda v: max(v, 0.0)
    elif a == "gelu":
        mod, fn = M.GGELU(), lambda v: 0.5 * v * (1 + math.erf(v / math.sqrt(2)))
        inplace = False
    elif a == "gelu-tanh":
        mod, fn = M.GGELU(approximate="tanh"), lambda v: 0.5 * v * (1 + math.tanh(math.sqrt(2 / math.pi) * (v + 0.044715 * v**3)))
        inplace = False
    else:
        s = 0.01 if case["slope"] is None else case["slope"]
        mod = M.GLeakyReLU(inplace=inplace) if case["slope"] is None else M.GLeakyReLU(s, inplace)
        fn = lambda v: v if v >= 0 else s * v
    want = torch.tensor([fn(v) for v in x.double().reshape(-1).tolist()], dtype=DT).reshape(x.shape)
    what = f"{type(mod).__name__} on {tuple(x.shape)}"
    x1 = x.clone()
    y = call(f, mod, x1, H, what, inplace)
    tol = 1e-5 if f["f32"] else 1e-12
    close(y, want, tol, what, scale=max(unit(f), float(want.abs().max())))
    if inplace:
        close(x1, want, tol, f"{what}: input of the in-place activation", scale=max(unit(f), float(want.abs().max())))
    same(call(f, mod.eval(), x.clone(), H, what, inplace), y, f"{what}: in eval mode")
    return bool((x < 0).any()), [a, "inplace" if inplace else "", f["layout"]]


WRAPS = {
    "tanh": lambda: nn.Tanh(), "prelu": lambda: nn.PReLU(), "dropout": lambda: nn.Dropout(0.4), "identity": lambda: nn.Identity(),
    "sequence": lambda: nn.Sequential(nn.Softplus(), nn.Dropout(0.2), nn.Hardtanh()), "linear": None,
    "sin": None,
}


class Scale(nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = nn.Parameter(torch.linspace(-1, 1, n))
        self.register_buffer("calls", torch.zeros(()))

    def forward(self, x):
        self.calls += 1
        return torch.sin(x * self.w)


WR = st.fixed_dictionaries(dict(f=st.one_of(feats(2), feats(3, maxs=4)), kind=st.sampled_from(sorted(WRAPS)), train=st.booleans(),
                                n=st.integers(1, 3)))


def check_wrap(case):
    """GWrap(m)(x, H) = (m(x), H) with m's own randomness, parameters, buffers and mode."""
    f, kind = case["f"], case["kind"]
    x, H = data(f, 1)
    last = x.shape[-1]
    torch.manual_seed(f["seed"])
    inner = nn.Linear(last, last) if kind == "linear" else Scale(last) if kind == "sin" else WRAPS[kind]()
    inner = inner.to(x.dtype)
    ref = copy.deepcopy(inner)
    mod = M.GWrap(inner).train(case["train"])
    ref.train(case["train"])
    for i in range(case["n"]):
        torch.manual_seed(f["seed"] + i)
        y = call(f, mod, x, H, f"GWrap({kind})")
        torch.manual_seed(f["seed"] + i)
        close(y, ref(x), 1e-12, f"GWrap({kind}) call {i}, training={case['train']}", scale=1.0)
    a, b = [p for p in mod.parameters()], [p for p in ref.parameters()]
    if len(a) != len(b) or any(not torch.equal(p, q) for p, q in zip(a, b)):
        fail(f"GWrap({kind}) does not expose the parameters of the wrapped module")
    a, b = [p for p in mod.buffers()], [p for p in ref.buffers()]
    if len(a) != len(b) or any(not torch.equal(p, q) for p, q in zip(a, b)):
        fail(f"GWrap({kind}) does not expose the buffers of the wrapped module")
    return True, [kind, "train" if case["train"] else "eval"]


# ---------------------------------------------------------------- symmetries

SYM = st.fixed_dictionaries(dict(D=st.sampled_from((2, 3)), f2=feats(2, maxs=5), f3=feats(3, maxs=4), g=st.integers(1, 47), train=st.booleans(),
                                 kind=st.sampled_from(("batch", "instance", "layer", "relu", "gelu", "leaky", "wrap")), stats=SEEDS))


def check_symmetry(case):
    """Permuting the group dimension and applying any lattice symmetry (mirrors, axis swaps) commutes with every such module."""
    D = case["D"]
    f = dict(case["f2"] if D == 2 else case["f3"])
    if f["G"] * math.prod(f["sp"]) < 2:
        f["sp"] = [2] + f["sp"][1:]
    x, H = data(f, 1)
    C, k = f["C"], case["kind"]
    mats = MIRROR2 if D == 2 else FULL3
    g = mats[case["g"] % len(mats)]
    p = torch.randperm(f["G"], generator=gen(f["seed"] + 9))
    if k == "layer":
        mk = lambda: M.GLayerNorm([C, f["G"], *f["sp"]], elementwise_affine=False)
    else:
        mk = {"batch": lambda: getattr(M, f"GBatchNorm{D}d")(C), "instance": lambda: getattr(M, f"GInstanceNorm{D}d")(C, affine=True, track_running_stats=True),
              "relu": M.GReLU, "gelu": M.GGELU, "leaky": M.GLeakyReLU, "wrap": lambda: M.GWrap(nn.ELU())}[k]
    mod = mk().to(x.dtype)
    with torch.no_grad():
        for i, (n, b) in enumerate(mod.named_parameters()):
            b.copy_(randn(case["stats"] + i, *b.shape))
        for i, (n, b) in enumerate(mod.named_buffers()):
            if b.is_floating_point():
                b.copy_(0.2 + rand(case["stats"] + 30 + i, *b.shape))
    mod.train(case["train"])
    mod2 = copy.deepcopy(mod)
    gx = spatial(g, x[:, :, p], ORDER[D])
    if k == "layer":
        mod2 = M.GLayerNorm(list(gx.shape[1:]), elementwise_affine=False).to(x.dtype)
    y = call(f, mod, x, H, k)
    y2 = call(f, mod2, layout(gx, f["layout"] if f["layout"] != "expanded" else "contiguous"), H[p], k)
    want = spatial(g, y[:, :, p], ORDER[D])
    close(y2, want, 1e-4 if f["f32"] else 1e-9, f"{k} ({D}D) on a transformed feature map", scale=max(1.0, float(want.abs().max())))
    return gx.shape != x.shape or not torch.equal(gx, x), [k, f"{D}d", "train" if case["train"] else "eval"]


facet("C15", "history", histories(), quick=1800, rule="several group elements, several calls")(check_history)
facet("C15", "history-2", histories(), quick=1800, rule="several group elements, several calls")(check_history)
facet("C15", "layer-norm", lnorm(), quick=1400, rule="more than one value normalised")(check_layer)
facet("C15", "activation", acts(), quick=1800, rule="some negative value")(check_act)
facet("C15", "wrap", WR, quick=1200, rule="all")(check_wrap)
facet("C15", "symmetry", SYM, quick=1800, rule="transformed input different from the input")(check_symmetry)


# ---------------------------------------------------------------- half precision
HALF = {"f16": torch.float16, "bf16": torch.bfloat16}
HALVES = st.fixed_dictionaries(dict(D=st.sampled_from((2, 3)), f2=feats(2, maxs=5), f3=feats(3, maxs=4), t=st.sampled_from(sorted(HALF)), train=st.booleans(), seed=SEEDS,
                                    kind=st.sampled_from(("batch", "instance", "layer", "relu", "gelu", "leaky", "wrap"))))


def check_half(case):
    """In half precision the modules give half precision features, and what they give in double precision up to half precision."""
    D, k, dt = case["D"], case["kind"], HALF[case["t"]]
    f = dict(case["f2"] if D == 2 else case["f3"])
    C, G, sp = f["C"], f["G"], f["sp"]
    if G * math.prod(sp) < 8:
        sp = [2, 4, *sp[2:]]
    x = layout((0.7 + randn(f["seed"], f["N"], C, G, *sp)).to(dt), f["layout"])
    mk = {"batch": lambda: getattr(M, f"GBatchNorm{D}d")(C), "instance": lambda: getattr(M, f"GInstanceNorm{D}d")(C, affine=True, track_running_stats=True),
          "relu": M.GReLU, "gelu": M.GGELU, "leaky": M.GLeakyReLU, "wrap": lambda: M.GWrap(nn.ELU()), "layer": lambda: M.GLayerNorm([C, G, *sp])}[k]
    mod, ref = mk().to(dt).train(case["train"]), mk().double().train(case["train"])
    with torch.no_grad():
        for i, (a, b) in enumerate(zip([*mod.parameters(), *mod.buffers()], [*ref.parameters(), *ref.buffers()])):
            if a.is_floating_point():
                a.copy_(0.3 + rand(case["seed"] + i, *a.shape))
                b.copy_(a)
    H = grid(f, f["hshape"], torch.float32)
    what = f"{type(mod).__name__} on {tuple(x.shape)} in {case['t']} {f['layout']}, training={case['train']}"
    try:  # what torch can do in this precision
        v = x.contiguous().flatten(2)
        {"batch": lambda: nn.BatchNorm1d(C).to(dt)(v), "instance": lambda: nn.InstanceNorm1d(C).to(dt)(v), "layer": lambda: nn.LayerNorm(v.shape[-1:]).to(dt)(v),
         "relu": lambda: nn.ReLU()(v), "gelu": lambda: nn.GELU()(v), "leaky": lambda: nn.LeakyReLU()(v), "wrap": lambda: nn.ELU()(v)}[k]()
    except RuntimeError:
        return False, [k, "not in torch"]
    y = call(f, mod, x, H, what)
    want = pair_ok(ref(x.double(), H))[0]
    flat = (x.double() - x.double().mean()).abs().max() < 1e-2  # constant input
    if not flat:
        err = (y.double() - want).abs()
        tol = 0.02 if case["t"] == "f16" else 0.15
        if not float(err.flatten().median()) <= tol * max(1.0, float(want.abs().max())):
            fail(f"{what}: the middle deviation from the result in double precision is {float(err.flatten().median()):.3g}")
    return G > 1, [k, case["t"], "train" if case["train"] else "eval"]


# ---------------------------------------------------------------- what is attached to a wrapped module
HOOKS = ("forward", "pre", "both", "with kwargs", "spectral", "weight-norm", "backward", "none")
HOOKED = st.fixed_dictionaries(dict(f=st.one_of(feats(2), feats(3, maxs=4)), hook=st.sampled_from(HOOKS), n=st.integers(1, 3), train=st.booleans(), outer=st.booleans(),
                                    remove=st.booleans(), kind=st.sampled_from(("linear", "sequence"))))


def check_hooks(case):
    """Hooks, parametrisations and later changes of a wrapped module work as on the module alone, and hooks on the wrapper see its call."""
    f = case["f"]
    x, H = data(f, 1)
    last = x.shape[-1]
    seen = []

    def make(tag):
        torch.manual_seed(f["seed"])
        lin = nn.Linear(last, last)
        h = []
        if case["hook"] == "spectral":
            lin = nn.utils.parametrizations.spectral_norm(lin)
        elif case["hook"] == "weight-norm":
            lin = nn.utils.parametrizations.weight_norm(lin)
        m = (lin if case["kind"] == "linear" else nn.Sequential(lin, nn.Tanh())).to(x.dtype)
        if case["hook"] in ("pre", "both"):
            h.append(m.register_forward_pre_hook(lambda mod, a: (seen.append((tag, "pre")), (a[0] * 2 + 1,))[1]))
        if case["hook"] in ("forward", "both"):
            h.append(m.register_forward_hook(lambda mod, a, out: (seen.append((tag, "post")), out * 3 - 1)[1]))
        if case["hook"] == "with kwargs":
            h.append(m.register_forward_hook(lambda mod, a, kw, out: (seen.append((tag, "kw")), out + len(a) + 10 * len(kw))[1], with_kwargs=True))
        if case["hook"] == "backward":
            h.append(m.register_full_backward_hook(lambda mod, gi, go: (seen.append((tag, "back")), tuple(None if g is None else 2 * g for g in gi))[1]))
        return m, h
    (inner, h1), (ref, h2) = make("wrapped"), make("alone")
    mod = M.GWrap(inner)
    if case["outer"]:
        mod.register_forward_hook(lambda mod, a, out: (seen.append(("wrapper", len(a))), out)[1])
    mod.train(case["train"])
    ref.train(case["train"])
    for i in range(case["n"]):
        what = f"GWrap of a module with {case['hook']} hooks, call {i}"
        if i == 2 and case["remove"]:
            for h in h1 + h2:
                h.remove()
        seen.clear()
        a, b = x.detach().clone().requires_grad_(), x.detach().clone().requires_grad_()
        y, H2 = pair_ok(mod(a, H), what)
        want = ref(b)
        close(y, want, 1e-12, what, scale=max(1.0, float(want.abs().max())))
        if H2 is not H:
            same(H2, H, f"{what}: grid")
        r = randn(f["seed"] + 3, *want.shape).to(x.dtype)
        (y * r).sum().backward()
        (want * r).sum().backward()
        close(a.grad, b.grad, 1e-12, f"{what}: gradient of the features", scale=max(1.0, float(b.grad.abs().max())))
        for (n, p), (_, q) in zip(inner.named_parameters(), ref.named_parameters()):
            close(p.grad, q.grad, 1e-12, f"{what}: gradient of {n}", scale=max(1.0, float(q.grad.abs().max())))
        if [k for t, k in seen if t == "wrapped"] != [k for t, k in seen if t == "alone"]:
            fail(f"{what}: hooks ran as {seen}")
        if case["outer"] and seen.count(("wrapper", 2)) != 1:
            fail(f"{what}: the hook of the wrapper saw {seen}")
    return case["hook"] != "none", [case["hook"], case["kind"]]


facet("C15", "half-precision", HALVES, quick=700, rule="several group elements")(check_half)
facet("C15", "hooks", HOOKED, quick=500, rule="something is attached to the wrapped module")(check_hooks)
