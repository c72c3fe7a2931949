"""Generation and construction of convolution layers and their inputs."""
from __future__ import annotations

import torch
from hypothesis import strategies as st

import gconv.gnn.modules as gm
import gconv.gnn.kernels as gk

from . import ref
from .core import SEEDS, rand, randn
from .grp import GROUPS, PAIRS

LAYERS = {
    ("lift", "SE2"): gm.GLiftingConvSE2, ("sep", "SE2"): gm.GSeparableConvSE2, ("full", "SE2"): gm.GConvSE2,
    ("lift", "SE3"): gm.GLiftingConvSE3, ("sep", "SE3"): gm.GSeparableConvSE3, ("full", "SE3"): gm.GConvSE3,
    ("lift", "E2"): gm.GLiftingConvE2, ("sep", "E2"): gm.GSeparableConvE2, ("full", "E2"): gm.GConvE2,
    ("lift", "E3"): gm.GLiftingConvE3, ("sep", "E3"): gm.GSeparableConvE3, ("full", "E3"): gm.GConvE3,
}
KERNELS = {
    ("lift", "SE2"): gk.GLiftingKernelSE2, ("sep", "SE2"): gk.GSeparableKernelSE2, ("full", "SE2"): gk.GKernelSE2,
    ("lift", "SE3"): gk.GLiftingKernelSE3, ("sep", "SE3"): gk.GSeparableKernelSE3, ("full", "SE3"): gk.GKernelSE3,
    ("lift", "E2"): gk.GLiftingKernelE2, ("sep", "E2"): gk.GSeparableKernelE2, ("full", "E2"): gk.GKernelE2,
    ("lift", "E3"): gk.GLiftingKernelE3, ("sep", "E3"): gk.GSeparableKernelE3, ("full", "E3"): gk.GKernelE3,
}

SPADS = ("border", "zeros", "reflection")
PMODES = ("zeros", "circular", "reflect", "replicate")
BATCH = st.sampled_from((1, 2, 1, 2, 1, 2, 3, 4))
COUNT = {2: st.sampled_from((2, 1, 3, 4, 2, 1, 3, 4, 5, 6, 8)), 3: st.sampled_from((2, 1, 3, 2, 1, 3, 4, 5, 6))}  # group elements


@st.composite
def configs(draw, kinds=("lift", "sep", "full"), grps=("SE2", "E2", "SE3", "E3"), nearest=False,
            padstr=True, widths=True, max_gks=None, aniso=False, split=False, wide=False):
    """A valid layer configuration, as a JSON-able dict. Simplest values first."""
    c = {}
    c["kind"] = draw(st.sampled_from(kinds))
    c["grp"] = draw(st.sampled_from(grps))
    D = GROUPS[c["grp"]].D
    refl = GROUPS[c["grp"]].refl
    c["groups"] = draw(st.sampled_from((1, 1, 2, 3)))
    c["cin"] = c["groups"] * draw(st.integers(1, 2 if c["groups"] > 1 else 3))
    c["cout"] = c["groups"] * draw(st.integers(1, 2 if c["groups"] > 1 else 3))
    c["mask"] = draw(st.booleans())
    if D == 2:
        ks = (3, 5, 1, 2, 4, 6)
    else:
        ks = (3, 1, 2, 4, 3, 1, 2, 4, 5)
    c["k"] = draw(st.sampled_from(ks))
    c["stride"] = draw(st.sampled_from((1, 1, 2, 3)))
    c["dilation"] = draw(st.sampled_from((1, 1, 2, 1, 1, 2, 3)))
    c["padding"] = draw(st.sampled_from((0, 1, 2, 3)))
    if padstr and draw(st.integers(0, 4)) == 4:
        c["padding"] = draw(st.sampled_from(("valid", "same")))
        if c["padding"] == "same":
            c["stride"] = 1
    if aniso and draw(st.integers(0, 2)) == 2:  # one value per dimension
        per = lambda *v: draw(st.lists(st.sampled_from(v), min_size=D, max_size=D))
        if isinstance(c["padding"], int) and draw(st.booleans()):
            c["padding"] = per(0, 1, 2, 3)
        if c["padding"] != "same" and draw(st.booleans()):
            c["stride"] = per(1, 2, 3)
        if draw(st.booleans()):
            c["dilation"] = per(1, 2)
    c["pmode"] = draw(st.sampled_from(PMODES))
    c["bias"] = draw(st.booleans())
    c["smode"] = draw(st.sampled_from(("bilinear", "nearest"))) if nearest else "bilinear"
    c["spad"] = draw(st.sampled_from(SPADS))
    hi = max_gks or (8 if D == 2 else 9)
    if refl:
        c["gks"] = draw(
            st.one_of(st.integers(1, 5), st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list))
        )
    else:
        c["gks"] = draw(st.integers(1, hi))
    c["ref"] = draw(st.one_of(st.none(), SEEDS))  # a user-provided reference grid
    c["gmode"] = "rbf"
    c["width"] = 0.0
    if c["kind"] != "lift":
        if nearest:
            c["gmode"] = draw(st.sampled_from(("rbf", "nearest")))
        if widths:
            c["width"] = draw(st.sampled_from((0.0, 0.0, 0.3, 0.7)))
            if split and refl and draw(st.booleans()):
                c["width2"] = draw(st.sampled_from((0.0, 0.4, 0.6)))  # of the reflections
    c["seed"] = draw(SEEDS)
    if wide and draw(st.integers(0, 7)) == 7:
        widen(draw, c, D)
    return c


def widen(draw, c, D):
    """one setting far beyond its usual range, the costs of the others kept low"""
    what = draw(st.sampled_from(("k", "channels", "groups", "stride", "dilation", "padding")))
    if what == "k":
        c["k"] = draw(st.sampled_from((7, 8, 9, 11) if D == 2 else (5, 6, 7)))
        c.update(cin=c["groups"], cout=c["groups"])
        if D == 3:
            c["gks"] = min(c["gks"], 3) if isinstance(c["gks"], int) else [min(v, 2) for v in c["gks"]]
    elif what == "channels":
        c["groups"] = draw(st.sampled_from((1, 2, 3)))
        c["cin"], c["cout"] = (c["groups"] * draw(st.sampled_from((1, 5, 8, 11))) for _ in range(2))
    elif what == "groups":
        c["groups"] = draw(st.sampled_from((4, 5, 8, 12)))
        c["cin"], c["cout"] = (c["groups"] * draw(st.integers(1, 2)) for _ in range(2))
    elif what == "stride":
        if c["padding"] != "same":
            c["stride"] = draw(st.sampled_from((4, 5, 7)))
    elif what == "dilation":
        c["dilation"] = draw(st.sampled_from((3, 4, 5)))
        c["k"] = min(c["k"], 3)
    elif c["padding"] not in ("same", "valid"):
        c["padding"] = draw(st.sampled_from((4, 5, 7)))
    if what in ("channels", "groups"):
        c["k"] = min(c["k"], 3)
        if D == 3:
            c["gks"] = min(c["gks"], 3) if isinstance(c["gks"], int) else [min(v, 2) for v in c["gks"]]


def large(draw, case, D, c):
    """one size of the arguments far beyond its usual range"""
    what = draw(st.sampled_from(("batch", "nin", "nout", "outs", "both")))
    if what in ("batch", "outs"):
        if what == "batch":
            case["batch"] = draw(st.sampled_from((5, 8, 17, 33)))
        else:
            case["outs"] = list(case["outs"])
            case["outs"][draw(st.integers(0, D - 1))] = draw(st.sampled_from((9, 17, 33) if D == 2 else (7, 12, 17)))
        return
    if what in ("nin", "both"):
        case["nin"] = draw(st.sampled_from((6, 9, 16, 33) if D == 2 else (6, 9, 13)))
    if what in ("nout", "both"):
        case["nout"] = draw(st.sampled_from((6, 9, 16, 33) if D == 2 else (6, 9, 13)))
    c.update(cin=c["groups"], cout=c["groups"], k=min(c["k"], 3))


XL = ("nin", "nout", "both", "batch", "image", "channels", "groups", "kernel", "grid", "many")


def enlarge(draw, case, D, c):
    """one or two sizes an order of magnitude beyond the usual, everything else as cheap as it can be"""
    G = GROUPS[c["grp"]]
    what = draw(st.sampled_from(XL))
    pick = lambda *v: draw(st.sampled_from(v))
    small = pick(1, 2)
    c.update(groups=small, cin=small * pick(1, 2), cout=small * pick(1, 2), k=min(c["k"], 3))
    if not (c["gmode"] == "nearest"):
        c["width"] = 0.0
        c.pop("width2", None)
    c["gks"] = [pick(1, 2, 4), pick(1, 2, 3)] if G.refl else pick(1, 2, 4)
    for n in ("stride", "dilation", "padding"):
        if isinstance(c[n], list):
            c[n] = [min(v, 2) for v in c[n]]
    if what == "nin":
        case["nin"] = pick(41, 65, 100, 129, 257, 300)
    elif what == "nout":
        case["nout"] = pick(41, 65, 100, 129, 257, 300)
    elif what == "both":
        case["nin"], case["nout"] = pick(20, 41, 65, 100), pick(20, 41, 65, 100)
        if D == 3:
            c["k"] = min(c["k"], 2)
    elif what == "batch":
        case["batch"] = pick(64, 65, 100, 129, 257, 513)
    elif what == "image" and "outs" in case:
        case["outs"] = list(case["outs"])
        for d in draw(st.permutations(range(D)))[: pick(1, 2)]:
            case["outs"][d] = pick(33, 50, 65, 129) if D == 2 else pick(17, 20, 33)
        case["batch"] = pick(1, 3)
    elif what == "channels":
        c["groups"] = pick(1, 1, 2)
        c["cin"], c["cout"] = c["groups"] * pick(1, 16, 33, 65), c["groups"] * pick(1, 16, 33, 65)
    elif what == "groups":
        c["groups"] = pick(16, 17, 32, 33, 65)
        c["cin"], c["cout"] = c["groups"] * pick(1, 2), c["groups"] * pick(1, 2)
    elif what == "kernel":
        c.update(k=pick(9, 11, 13, 15, 16, 21, 33) if D == 2 else pick(7, 8, 9, 11), groups=1, cin=1, cout=pick(1, 2))
    elif what == "grid":
        n = pick(12, 16, 24, 33, 48, 65)
        c["gks"] = [n, pick(1, 2, 17)] if G.refl else n
        if G.refl and pick(0, 1):
            c["gks"].reverse()
        if D == 3 and c["ref"] is None:  # the library optimises grids it has no table of
            c["ref"] = draw(SEEDS)
    else:  # every size somewhat larger at once
        case.update(nin=pick(7, 12, 20), nout=pick(7, 12, 20), batch=pick(4, 9))
        c.update(groups=1, cin=pick(3, 5, 8), cout=pick(3, 5, 8))
    if case.get("hk") == "same" and case["nin"] != case["nout"]:
        if what == "nin":
            case["nin"] = case["nout"] = min(case["nin"], 100)
        elif what == "nout":
            case["nin"] = case["nout"] = min(case["nout"], 100)
        else:
            case["nin"] = case["nout"]
    case["xl"] = what
    return case


def gks_pair(c):
    g = c["gks"]
    if GROUPS[c["grp"]].refl:
        return (g, g) if isinstance(g, int) else tuple(g)
    return g


def ref_grid(c):
    if c.get("ref") is None:
        return None
    return GROUPS[c["grp"]].ref_grid(c["ref"], gks_pair(c))


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def comp(v, d):
    """the setting of dimension d"""
    return v[d] if isinstance(v, (list, tuple)) else v


def layer_kwargs(c, permute=False, dtype=torch.float64):
    g = GROUPS[c["grp"]]
    kw = dict(
        in_channels=c["cin"], out_channels=c["cout"], kernel_size=c["k"],
        group_kernel_size=c["gks"] if isinstance(c["gks"], int) else tuple(c["gks"]),
        groups=c["groups"], stride=tup(c["stride"]), padding=tup(c["padding"]), dilation=tup(c["dilation"]),
        padding_mode=c["pmode"], permute_output_grid=permute, bias=c["bias"], mask=c["mask"],
    )
    r = ref_grid(c)
    if r is not None:
        kw["grid_H"] = r.to(dtype)
    if c["kind"] == "lift":
        kw.update(sampling_mode=c["smode"], sampling_padding_mode=c["spad"])
    else:
        kw.update(group_sampling_mode=c["gmode"], spatial_sampling_mode=c["smode"],
                  spatial_sampling_padding_mode=c["spad"])
        if g.refl:
            kw.update(group_rotation_sampling_width=c["width"], group_reflection_sampling_width=c.get("width2", c["width"]))
        else:
            kw.update(group_sampling_width=c["width"])
    return kw


def randomize(mod, seed, scale=0.5):
    """Replaces every parameter by reproducible normal noise."""
    with torch.no_grad():
        for i, (n, p) in enumerate(sorted(mod.named_parameters())):
            p.copy_(scale * randn(seed + 31 * i, *p.shape, dtype=p.dtype))
    return mod


def build(c, permute=False, dtype=torch.float64, init="random", **over):
    kw = layer_kwargs(c, permute, dtype)
    kw.update(over)
    torch.manual_seed(c["seed"])
    mod = LAYERS[c["kind"], c["grp"]](**kw).to(dtype)
    if init == "random":
        randomize(mod, c["seed"])
    return mod


# ------------------------------------------------------------------ spatial sizes


def pad_of(c, d=0):
    """(total padding, left padding) of dimension d"""
    if c["padding"] == "same":
        t = comp(c["dilation"], d) * (c["k"] - 1)
        return t, t // 2
    if c["padding"] == "valid":
        return 0, 0
    p = comp(c["padding"], d)
    return 2 * p, p


def out_size(c, n, d=0):
    t, _ = pad_of(c, d)
    return (n + t - comp(c["dilation"], d) * (c["k"] - 1) - 1) // comp(c["stride"], d) + 1


def out_sizes(c, ns):
    return [out_size(c, n, d) for d, n in enumerate(ns)]


def min_size(c, d=0):
    """smallest input the padding mode accepts"""
    t, left = pad_of(c, d)
    right = t - left
    m = max(left, right)
    if c["pmode"] == "reflect":
        return m + 1
    if c["pmode"] == "circular":
        return max(m, 1)
    return 1


def fit(c, o, exact=True, d=0):
    """An input size with at least o outputs, for which (if exact) the output
    positions are symmetric on the lattice, i.e. the stride leaves no rest."""
    t, _ = pad_of(c, d)
    base = comp(c["dilation"], d) * (c["k"] - 1) + 1 - t
    while True:
        n = (o - 1) * comp(c["stride"], d) + base
        if n >= min_size(c, d) and n >= 1:
            return n
        o += 1


def symmetric(c):
    """padding must be the same on both sides for lattice symmetry"""
    t, left = pad_of(c)
    return t - left == left


def input_for(c, outs, nin=None, batch=1, seed=0, dtype=torch.float64, slack=0):
    shape = [batch, c["cin"]]
    if c["kind"] != "lift":
        shape.append(nin)
    shape += [fit(c, o) + slack for o in outs]
    return randn(seed, *shape, dtype=dtype)


def call(mod, c, x, Hin, Hout):
    """Evaluates a layer; Hin is ignored by lifting layers."""
    if c["kind"] == "lift":
        return mod(x, Hout)
    return mod(x, Hin, Hout)


def nearest_margin(c, Hin, Hout, gridH):
    """Smallest gap between nearest and second nearest reference element over all pairs."""
    g = GROUPS[c["grp"]]
    rel = g.rel(Hout, Hin).flatten(0, 1)
    gap = 10.0
    cr, cg = g.coeff(rel), g.coeff(gridH)
    for s in (1.0, -1.0):
        A, B = rel[cr == s], gridH[cg == s]
        if A.shape[0] and B.shape[0] > 1:
            d = g.dist(A, B).sort(dim=-1)[0]
            gap = min(gap, float((d[:, 1] - d[:, 0]).min()))
    return gap


def spatial_tie(c, Hout):
    """a nearest neighbour query of a spatial kernel halfway between two pixels"""
    return c["smode"] == "nearest" and any(ref.near_tie((c["k"],) * GROUPS[c["grp"]].D, ref.spatial_coords(c, o)) for o in Hout)


def pick_H(c, seed, nin, nout, gridH, need_margin, kind="random"):
    """Input and output grids; for nearest group sampling, re-drawn until no query is close to a tie."""
    g = GROUPS[c["grp"]]
    for t in range(60):
        Hin, Hout = g.pair(seed + 101 * t, nin, nout, kind, 50)
        if kind != "random" and spatial_tie(c, Hout):
            return None, None
        if not need_margin or nearest_margin(c, Hin, Hout, gridH) > 0.02:
            return Hin, Hout
    return None, None
