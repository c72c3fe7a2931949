"""C20: every documented option has its documented effect; invalid settings are rejected."""
from __future__ import annotations

import contextlib
import math

import torch
from hypothesis import strategies as st

import gconv.geometry as geo
import gconv.gnn.functional as gF
import gconv.gnn.kernels as gk

from ..core import SEEDS, close, facet, fail, pair_ok, randn, same, tensor_ok
from ..grp import GROUPS
from ..layers import (KERNELS, LAYERS, PMODES, SPADS, build, call, comp, configs, fit, gks_pair, layer_kwargs, min_size,
                      out_sizes, pad_of, ref_grid)
from ..ref import default_width, pad_ref

KINDS = ("lift", "sep", "full")
GRPS = ("SE2", "E2", "SE3", "E3")


def forward(m, c, x, Hin, Hout=None):
    if c["kind"] == "lift":
        return pair_ok(m(x) if Hout is None else m(x, Hout))
    return pair_ok(m(x, Hin) if Hout is None else m(x, Hin, Hout))


def n_elems(c):
    g = gks_pair(c)
    return sum(g) if isinstance(g, tuple) else g


# ------------------------------------------------------------------ documented parameters and shapes


@st.composite
def shape_cases(draw):
    c = draw(configs(nearest=True, aniso=True, split=True, wide=True))
    D = GROUPS[c["grp"]].D
    return dict(c=c, extra=draw(st.lists(st.integers(0, 5), min_size=D, max_size=D)), batch=draw(st.sampled_from((0, 1, 2, 3, 0, 1, 2, 3, 17))),
                nin=draw(st.sampled_from((1, 2, 3, 1, 2, 3, 12))), nout=draw(st.one_of(st.none(), st.integers(1, 4), st.just(13))),
                permute=draw(st.booleans()), f64=draw(st.booleans()))


@facet("C20", "documented-parameters-and-output-shapes", shape_cases(), quick=600, thorough=4000, budget=200,
       rule="at least two settings differ from their defaults, and the output is not empty")
def shapes(case):
    """Every valid combination of options constructs, has exactly the documented parameters
    (names, shapes, bias only if asked for, group dimension = requested or given grid) and
    returns features of the size given by the convolution formula with the grid they are on."""
    c, D = case["c"], GROUPS[case["c"]["grp"]].D
    dt = torch.float64 if case["f64"] else torch.float32
    kw = layer_kwargs(c, case["permute"], torch.float32)
    torch.manual_seed(c["seed"])
    m = LAYERS[c["kind"], c["grp"]](**kw)
    n, k, ig, co = n_elems(c), (c["k"],) * D, c["cin"] // c["groups"], c["cout"]
    want = {"lift": {"kernel.weight": (co, ig, *k)}, "full": {"kernel.weight": (n, co, ig, *k)},
            "sep": {"kernel.weight": (co, 1, *k), "kernel.weight_H": (n, co, ig)}}[c["kind"]]
    if c["bias"]:
        want["bias"] = (co, *[1] * (D + 1))
    got = {a: tuple(p.shape) for a, p in m.named_parameters()}
    if got != want:
        fail(f"parameters are {got}, documented {want}")
    for a, p in m.named_parameters():
        tensor_ok(p, dtype=torch.float32, what=a)
        if not p.requires_grad:
            fail(f"{a} is not trainable")
    es = {"SE2": (1,), "E2": (2,), "SE3": (3, 3), "E3": (10,)}[c["grp"]]
    tensor_ok(m.state_dict().get("kernel.grid_H"), (n, *es), "reference grid")
    r = ref_grid(c)
    if r is not None:
        close(m.state_dict()["kernel.grid_H"], r.float(), 1e-6, "reference grid given by the user")
    repr(m)
    m = m.to(dt)
    sizes = [max(min_size(c, d), comp(c["dilation"], d) * (c["k"] - 1) + 1 - pad_of(c, d)[0], 1) + e for d, e in enumerate(case["extra"])]
    G = GROUPS[c["grp"]]
    x = randn(c["seed"] + 5, case["batch"], c["cin"], *([case["nin"]] if c["kind"] != "lift" else []), *sizes, dtype=dt)
    Hin = G.elems(c["seed"] + 1, case["nin"]).to(dt)
    Hout = None if case["nout"] is None else G.elems(c["seed"] + 2, case["nout"]).to(dt)
    y, H = forward(m, c, x, Hin, Hout)
    if Hout is not None:
        no = case["nout"]
    elif c["kind"] == "lift" or c["grp"] in ("E2", "E3"):
        no = n
    else:
        no = case["nin"]
    outs = out_sizes(c, sizes)
    # an ill-conditioned interpolation of many elements in single precision may overflow: only shapes here
    tensor_ok(y, (case["batch"], co, no, *outs), "output", dt, finite=False)
    tensor_ok(H, (no, *es), "returned grid", dt)
    changed = sum((c["groups"] != 1, c["mask"] is False, c["stride"] != 1, c["dilation"] != 1, c["padding"] != 0,
                   c["pmode"] != "zeros", c["bias"], c["smode"] != "bilinear", c["spad"] != "border", c["ref"] is not None,
                   c["width"] != 0, c["gmode"] != "rbf"))
    return changed >= 2 and y.numel() > 0, [c["kind"], c["grp"], f"stride={c['stride'] if isinstance(c['stride'], int) else 'per-dimension'}", f"batch={case['batch']}",
                                            "k=even" if c["k"] % 2 == 0 else "k=odd"]


# ------------------------------------------------------------------ defaults

COMMON = dict(groups=(1, 2), stride=(1, 2), padding=(0, 1), dilation=(1, 2), padding_mode=("zeros", "circular"),
              bias=(False, True), mask=(True, False), permute_output_grid=(True, False), grid_H=(None, "own"))
LIFT = dict(sampling_mode=("bilinear", "nearest"), sampling_padding_mode=("border", "zeros"))
CONV = dict(spatial_sampling_mode=("bilinear", "nearest"), spatial_sampling_padding_mode=("border", "zeros"),
            group_sampling_mode=("rbf", "nearest"))
SE = dict(group_sampling_width=(0.0, 0.6))
EN = dict(group_rotation_sampling_width=(0.0, 0.6), group_reflection_sampling_width=(0.0, 0.6))
KERNEL_OPTS = ("groups", "mask", "grid_H", "group_kernel_size", *LIFT, *CONV, *SE, *EN)


def options(target, kind, grp):
    """name -> (documented default, another value)"""
    o = dict(COMMON)
    o.update(LIFT if kind == "lift" else CONV)
    refl = GROUPS[grp].refl
    if kind != "lift":
        o.update(EN if refl else SE)
    if refl:
        if kind == "lift":
            o["group_kernel_size"] = ((4, 4), (3, 2))
    elif target == "kernel" and grp == "SE2":
        o["group_kernel_size"] = (8, 5)
    else:
        o["group_kernel_size"] = (4, 5)
    if target == "kernel":
        o = {k: v for k, v in o.items() if k in KERNEL_OPTS}
    return o


@st.composite
def default_cases(draw):
    target, kind, grp = draw(st.sampled_from(("layer", "kernel"))), draw(st.sampled_from(KINDS)), draw(st.sampled_from(GRPS))
    opts = options(target, kind, grp)
    state = {k: draw(st.sampled_from(("default", "default", "other", "both-default"))) for k in sorted(opts)}
    return dict(target=target, kind=kind, grp=grp, opts=state, seed=draw(SEEDS), k=draw(st.sampled_from((3, 2, 5))))


@facet("C20", "omitted-equals-documented-default", default_cases(), quick=500, thorough=3000, budget=200,
       rule="at least two options were omitted in one and passed at their documented default in the other")
def defaults(case):
    """A layer or kernel built with some options omitted equals, bit for bit (parameters, buffers and outputs
    under the same random seed), the one built with their documented default passed explicitly, whatever the
    other options are."""
    kind, grp = case["kind"], case["grp"]
    G = GROUPS[grp]
    opts = options(case["target"], kind, grp)

    def val(name, i):
        v = opts[name][i]
        if v == "own":
            return G.ref_grid(case["seed"], (3, 2) if G.refl else 3).float()
        return v

    short, full = {}, {}
    for name, s in case["opts"].items():
        if s == "other":
            short[name] = full[name] = val(name, 1)
        else:
            full[name] = val(name, 0)
            if s == "both-default":
                short[name] = val(name, 0)
    if G.refl and kind != "lift":
        short["group_kernel_size"] = full["group_kernel_size"] = 2
    cls = (LAYERS if case["target"] == "layer" else KERNELS)[kind, grp]
    res = []
    for kw in (short, full):
        torch.manual_seed(case["seed"])
        m = cls(2, 4, case["k"], **kw)
        torch.manual_seed(case["seed"] + 1)
        Hin, Hout = G.elems(case["seed"] + 2, 2).float(), G.elems(case["seed"] + 3, 3).float()
        with torch.no_grad():
            if case["target"] == "kernel":
                o = m(Hout) if kind == "lift" else m(Hin, Hout)
                o = o if isinstance(o, tuple) else (o,)
            else:
                x = randn(case["seed"], 2, 2, *([2] if kind != "lift" else []), *[2 * case["k"]] * G.D, dtype=torch.float32)
                o = (*(m(x) if kind == "lift" else m(x, Hin)), *(m(x, Hout) if kind == "lift" else m(x, Hin, Hout)))
        res.append((m.state_dict(), o))
    (sa, oa), (sb, ob) = res
    if list(sa) != list(sb):
        fail(f"state has entries {list(sa)} with omitted options and {list(sb)} with the documented defaults")
    for k in sa:
        same(sa[k], sb[k], f"state entry {k} with omitted options and with the documented defaults")
    for a, b in zip(oa, ob):
        same(torch.nan_to_num(a), torch.nan_to_num(b), "output with omitted options and with the documented defaults")
    return sum(s == "default" for s in case["opts"].values()) >= 2, [case["target"], kind, grp]


# ------------------------------------------------------------------ effects of single options

RELS = ("valid", "same", "prepad", "gks-int", "width", "uniform-grid", "split-grid", "gks-ignored", "mask", "bias", "stride",
        "parity-width", "dilation")


@st.composite
def effect_cases(draw):
    rel = draw(st.sampled_from(RELS))
    kinds, grps = KINDS, GRPS
    if rel == "width":
        kinds = ("sep", "full")
    if rel in ("parity-width", "split-grid"):
        kinds, grps = ("sep", "full"), ("E2", "E3")
    if rel == "gks-int":
        grps = ("E2", "E3")
    c = draw(configs(kinds=kinds, grps=grps, nearest=rel not in ("width", "parity-width"), padstr=False))
    D = GROUPS[c["grp"]].D
    if rel == "split-grid":  # another number of rotations than of reflections
        a, b = draw(st.sampled_from(((1, 3), (3, 1), (2, 4), (4, 2), (1, 5), (5, 1), (3, 2), (2, 3), (1, 2), (2, 1))))
        c["gks"] = [a, b]
    return dict(rel=rel, c=c, extra=draw(st.lists(st.integers(0, 4), min_size=D, max_size=D)),
                nin=draw(st.integers(1, 3)), nout=draw(st.integers(1, 3)))


@facet("C20", "options-have-their-documented-effect", effect_cases(), quick=900, thorough=5000, budget=200,
       rule="the option makes a difference: the output is non-zero, and with the option at its neutral value it would differ")
def effects(case):
    """Metamorphic relations between two configurations of one layer: padding 'valid' = 0; 'same' = the explicit padding
    that keeps the size; padding = padding the input beforehand; int group kernel size = the pair; width 0 = 0.8 x mean
    nearest neighbour distance of each subgroup; a given grid equal to the default = no grid; the group kernel size is
    ignored when a grid is given; masked kernel = mask x kernel; bias is added; stride s = every s-th output; each
    interpolation width concerns its own subgroup only; dilation d = the kernel with d-1 zeros between its taps."""
    rel, c = case["rel"], dict(case["c"])
    G = GROUPS[c["grp"]]
    D = G.D
    Hin, Hout = G.elems(c["seed"] + 1, case["nin"]), G.elems(c["seed"] + 2, case["nout"])
    labels = [rel, c["kind"], c["grp"]]

    if rel == "same":
        c["stride"] = 1
        if (c["dilation"] * (c["k"] - 1)) % 2:  # asymmetric: compare with padding the input by hand
            c["pmode"] = c["pmode"] if c["pmode"] != "reflect" else "replicate"
    if rel == "stride" and c["stride"] == 1:
        c["stride"] = 2
    if rel == "dilation" and c["dilation"] == 1:
        c["dilation"] = 2
    if rel == "dilation":
        c["groups"], c["cin"], c["cout"], c["bias"] = 1, 2, 2, False
    if rel == "bias":
        c["bias"] = True
    if rel == "mask":
        c["mask"] = True
    if rel == "width":
        c["gmode"], c["width"] = "rbf", 0.0
        if G.refl:
            c["gks"] = [max(2, v) for v in ([c["gks"]] * 2 if isinstance(c["gks"], int) else c["gks"])]
        else:
            c["gks"] = max(2, c["gks"])
    if rel == "gks-int":
        c["gks"] = c["gks"] if isinstance(c["gks"], int) else c["gks"][0]
    if rel in ("uniform-grid", "split-grid", "gks-int"):
        c["ref"] = None
    if rel == "gks-ignored" and c["ref"] is None:
        c["ref"] = c["seed"]

    cp = dict(c, padding="same") if rel == "same" else c
    sizes = [max(min_size(cp), c["dilation"] * (c["k"] - 1) + 1) + e for e in case["extra"]]
    x = randn(c["seed"] + 5, 2, c["cin"], *([case["nin"]] if c["kind"] != "lift" else []), *sizes)

    def out(cfg, x=x, Hin=Hin, Hout=Hout, **over):
        m = build(cfg, **over)
        return forward(m, cfg, x, Hin, Hout)[0].detach()

    def kernel(cfg, Hin=Hin, Hout=Hout, **over):
        m = build(cfg, **over)
        o = m.kernel(Hout) if cfg["kind"] == "lift" else m.kernel(Hin, Hout)
        return [t.detach() for t in (o if isinstance(o, tuple) else (o,))]

    nontrivial = True
    if rel == "valid":
        a, b = out(dict(c, padding="valid")), out(dict(c, padding=0))
        scale_close(a, b, "padding='valid' and padding=0")
    elif rel == "same":
        a = out(cp)
        if list(a.shape[-D:]) != sizes:
            fail(f"padding='same' gives {tuple(a.shape[-D:])} for an input of size {tuple(sizes)}")
        t = c["dilation"] * (c["k"] - 1)
        b = out(dict(c, padding=0), x=pad_ref(x, t // 2, t - t // 2, c["pmode"], D))
        scale_close(a, b, "padding='same' and padding by hand")
        if t % 2 == 0:
            scale_close(a, out(dict(c, padding=t // 2)), "padding='same' and the explicit padding")
        nontrivial = t > 0
    elif rel == "prepad":
        c["padding"] = max(1, c["padding"])
        sz = [max(s, min_size(c)) for s in sizes]
        x = randn(c["seed"] + 5, 2, c["cin"], *([case["nin"]] if c["kind"] != "lift" else []), *sz)
        a = out(c, x=x)
        b = out(dict(c, padding=0), x=pad_ref(x, c["padding"], c["padding"], c["pmode"], D))
        scale_close(a, b, f"padding={c['padding']} ({c['pmode']}) and padding by hand")
    elif rel == "gks-int":
        a, b = build(c), build(dict(c, gks=[c["gks"]] * 2))
        for k in a.state_dict():
            same(b.state_dict()[k], a.state_dict()[k], f"{k} for an int and a pair of group kernel sizes")
        same(torch.nan_to_num(forward(a, c, x, Hin, Hout)[0]), torch.nan_to_num(forward(b, c, x, Hin, Hout)[0]),
             "group kernel size as int and as pair")
    elif rel == "width":
        m = build(c, dtype=torch.float32)
        g = m.state_dict()["kernel.grid_H"].double()
        cr = G.coeff(g)
        if G.refl:
            over = dict(group_rotation_sampling_width=default_width(c["grp"], g[cr > 0]),
                        group_reflection_sampling_width=default_width(c["grp"], g[cr < 0]))
        else:
            over = dict(group_sampling_width=default_width(c["grp"], g))
        # the interpolation matrix of many elements is ill conditioned: compare the kernels loosely
        a, b = kernel(c), kernel(c, **over)
        for p, q in zip(a, b):
            close(p, q, 2e-3, "kernel with width 0.0 and with 0.8 x the mean nearest neighbour distance")
    elif rel in ("uniform-grid", "split-grid"):
        g = {"SE2": geo.so2.uniform_grid, "E2": geo.o2.uniform_grid, "SE3": lambda n: geo.so3.uniform_grid(n, "matrix"),
             "E3": geo.o3.uniform_grid}[c["grp"]](gks_pair(c)).clone()
        # (for group sizes without a stored grid, the library generates one deterministically and caches it)
        same(torch.nan_to_num(out(c, grid_H=g)), torch.nan_to_num(out(c)), "the uniform grid given and generated")
    elif rel == "gks-ignored":
        other = (7, 1) if G.refl and c["seed"] % 2 else 6
        same(torch.nan_to_num(out(c, group_kernel_size=other)), torch.nan_to_num(out(c)),
             "a given grid with another group kernel size")
    elif rel == "mask":
        a, b = kernel(c), kernel(dict(c, mask=False))
        mask = (gF.create_spherical_mask_R2 if D == 2 else gF.create_spherical_mask_R3)(c["k"]).double()
        b[-1] = b[-1] * mask
        for p, q in zip(a, b):
            scale_close(p, q, "masked kernel and mask x kernel")
        nontrivial = bool((mask == 0).any())
    elif rel == "bias":
        m = build(c)
        a = forward(m, c, x, Hin, Hout)[0].detach()
        b0 = m.state_dict()["bias"].clone()
        m0 = build(dict(c, bias=False))
        m0.load_state_dict({k: v for k, v in m.state_dict().items() if k != "bias"})
        b = forward(m0, c, x, Hin, Hout)[0].detach()
        scale_close(a, b + b0.reshape(1, -1, *[1] * (D + 1)), "bias")
    elif rel == "stride":
        a, b = out(c), out(dict(c, stride=1))
        scale_close(a, b[(..., *[slice(None, None, c["stride"])] * D)], "stride and every s-th output of stride 1")
        nontrivial = max(a.shape[-D:]) > 1
    elif rel == "parity-width":
        c["gks"] = [max(2, v) for v in ([c["gks"]] * 2 if isinstance(c["gks"], int) else c["gks"])]
        c["gmode"] = "rbf"
        par = 1.0 if c["seed"] % 2 else -1.0
        Hout[:, 0], Hin[:, 0] = 1.0, par  # all relative elements of one parity
        w0 = dict(group_rotation_sampling_width=0.5, group_reflection_sampling_width=0.5)
        free, own = ("group_reflection_sampling_width", "group_rotation_sampling_width")[:: 1 if par > 0 else -1]
        a = kernel(c, Hin, Hout, **w0)
        b = kernel(c, Hin, Hout, **dict(w0, **{free: 1.1}))
        d = kernel(c, Hin, Hout, **dict(w0, **{own: 1.1}))
        for p, q in zip(a, b):
            scale_close(p, q, f"kernel of the other subgroup after changing {free}")
        if torch.equal(a[0], d[0]):
            fail(f"{own} has no effect")
    elif rel == "dilation":
        # x read with dilation d = the kernel with zeros in between, as an ordinary convolution
        d, k = c["dilation"], c["k"]
        K = kernel(c)
        a = out(dict(c, padding=0, stride=1))
        if c["kind"] == "sep":
            h = torch.einsum("oncm,bcm...->bon...", K[0].reshape(*K[0].shape[:4]), x)
            W = K[1][:, :, 0]
            eq = lambda v, w: torch.einsum("bon...,on->bon...", v, w)
        elif c["kind"] == "lift":
            h, W = x, K[0]
            eq = lambda v, w: torch.einsum("bc...,onc->bon...", v, w)
        else:
            h, W = x, K[0]
            eq = lambda v, w: torch.einsum("bcm...,oncm->bon...", v, w)
        b = 0
        osz = [s - d * (k - 1) for s in sizes]
        for off in torch.cartesian_prod(*[torch.arange(k)] * D).tolist():
            v = h[(..., *[slice(o * d, o * d + n) for o, n in zip(off, osz)])]
            b = b + eq(v, W[(..., *off)])
        scale_close(a, b, "dilated correlation")
        nontrivial = k > 1
    return nontrivial, labels


def scale_close(a, b, what):
    a, b = torch.nan_to_num(a), torch.nan_to_num(b)
    close(a, b, 1e-8, what, scale=max(1.0, float(b.abs().max()) if b.numel() else 1.0))


# ------------------------------------------------------------------ invalid settings

INVALID = ("in-channels", "out-channels", "groups-zero", "groups-negative", "gks-negative", "gks-empty", "gks-partly-negative",
           "padding-string", "same-stride", "padding-mode", "spatial-mode", "spatial-padding", "group-mode", "parameterization",
           "axis")
WORDS = st.sampled_from(("foo", "", "Same", "SAME", "full", "valid ", "bicubic-like", "zero", "reflection_", "linear", "none",
                         "RBF", "near", "gauss", "wrap", "constant", "symmetric", "quaternion", "angles", "w"))


@st.composite
def invalid_cases(draw):
    kind = draw(st.sampled_from(INVALID))
    kinds, grps = KINDS, GRPS
    if kind in ("gks-partly-negative",):
        grps = ("E2", "E3")
    if kind == "group-mode":
        kinds = ("sep", "full")
    c = draw(configs(kinds=kinds, grps=grps, padstr=False))
    D = GROUPS[c["grp"]].D
    return dict(bad=kind, c=c, word=draw(WORDS), n=draw(st.integers(1, 4)), nin=draw(st.integers(1, 3)),
                nout=draw(st.integers(1, 4)), g=draw(st.integers(2, 4)), ci=draw(st.integers(1, 4)), co=draw(st.integers(1, 4)))


@facet("C20", "invalid-settings-raise", invalid_cases(), quick=600, thorough=4000, budget=200,
       rule="every case (one setting of an otherwise valid configuration is invalid)")
def invalid(case):
    """Each invalid setting of an otherwise valid configuration raises an error on construction or at the latest on the first use,
    and nothing is computed from it."""
    bad, c, w, n = case["bad"], dict(case["c"]), case["word"], case["n"]
    G = GROUPS[c["grp"]]
    over = {}
    if bad == "parameterization":
        return expect(lambda: geo.so3.uniform_grid(n, w), f"so3.uniform_grid({n}, {w!r})", bad)
    if bad == "axis":
        return expect(lambda: geo.so3.cyclic(n, w), f"so3.cyclic({n}, {w!r})", bad)
    if bad == "in-channels":
        g = case["g"]
        over = dict(groups=g, in_channels=g * case["ci"] + 1 + n % (g - 1), out_channels=g * case["co"])
    elif bad == "out-channels":
        g = case["g"]
        over = dict(groups=g, in_channels=g * case["ci"], out_channels=g * case["co"] + 1 + n % (g - 1))
    elif bad == "groups-zero":
        over = dict(groups=0)
    elif bad == "groups-negative":
        over = dict(groups=-n)
    elif bad == "gks-negative":
        over = dict(group_kernel_size=(-n, -n) if G.refl and n % 2 else -n, grid_H=None)
    elif bad == "gks-empty":
        over = dict(group_kernel_size=(0, 0) if G.refl and n % 2 else 0, grid_H=None)
    elif bad == "gks-partly-negative":
        over = dict(group_kernel_size=(5, -n) if case["nin"] % 2 else (-n, 5), grid_H=None)
    elif bad == "padding-string":
        over = dict(padding=w)
    elif bad == "same-stride":
        s = [1] * G.D
        s[case["nout"] % G.D] = 1 + n  # in one dimension only
        over = dict(padding="same", stride=tuple(s) if case["nin"] > 1 else 1 + n)
    elif bad == "padding-mode":
        over = dict(padding_mode=w, padding=case["n"])
    elif bad == "spatial-mode":
        over = {("" if c["kind"] == "lift" else "spatial_") + "sampling_mode": w}
    elif bad == "spatial-padding":
        over = {("" if c["kind"] == "lift" else "spatial_") + "sampling_padding_mode": w}
    elif bad == "group-mode":
        over = dict(group_sampling_mode=w)
    kw = layer_kwargs(c, False, torch.float64)
    kw.update(over)
    if over.get("grid_H", 1) is None:
        kw.pop("grid_H", None)
    size = 8 + c["dilation"] * (c["k"] - 1)
    x = randn(3, 2, kw["in_channels"], *([case["nin"]] if c["kind"] != "lift" else []), *[size] * G.D)
    Hin, Hout = G.elems(c["seed"] + 1, case["nin"]), G.elems(c["seed"] + 2, case["nout"])

    def use():
        m = LAYERS[c["kind"], c["grp"]](**kw).to(torch.float64)
        return call(m, c, x, Hin, Hout)

    return expect(use, f"{c['kind']} {c['grp']} with {over}", bad)


def expect(fn, what, label):
    try:
        fn()
    except Exception:  # noqa: BLE001  (any error will do)
        return True, [label]
    fail(f"{what} raises no error")
