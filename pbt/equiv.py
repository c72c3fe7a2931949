"""Equivariance facets shared by C01 (lifting), C02 (full), C03 (separable)."""
from __future__ import annotations

import torch
from hypothesis import strategies as st

from .core import SEEDS, close, facet, fail, pair_ok, randn, same, tensor_ok
from .grp import GROUPS, PAIRS, spatial
from .layers import BATCH, COUNT, build, call, configs, enlarge, fit, gks_pair, input_for, large, nearest_margin, out_size, pick_H, symmetric


def cases(kind, grps, nearest=False, xl=False, **kw):
    D = GROUPS[grps[0]].D

    @st.composite
    def strat(draw):
        c = draw(configs(kinds=(kind,), grps=grps, nearest=nearest, split=True, wide=True, **kw))
        omax = 4 if D == 2 else 3
        outs = [draw(st.sampled_from((2, 3, 1, 4)[: omax])) for _ in range(D)]
        case = dict(
            c=c, outs=outs,
            nin=draw(COUNT[D]), nout=draw(COUNT[D]),
            g=draw(st.integers(1, GROUPS[c["grp"]].nlat - 1)), batch=draw(BATCH), seed=draw(SEEDS),
            hk=draw(st.sampled_from(PAIRS)),
        )
        if case["hk"] == "same":
            case["nin"] = case["nout"]
        if xl:
            enlarge(draw, case, D, c)
        elif draw(st.integers(0, 9)) == 9:
            large(draw, case, D, c)
        return case

    return strat()


def fix_c(c):
    """'same' padding with an odd total is asymmetric: no lattice symmetry there."""
    if not symmetric(c):
        c = dict(c, dilation=2 if c["k"] % 2 == 0 else c["dilation"])
    return c


def labels_of(case, c):
    t = lambda v: "-per-dimension" if isinstance(v, (list, tuple)) else v
    return [
        c["grp"], f"stride{t(c['stride'])}", f"dil{t(c['dilation'])}", f"pad-{t(c['padding'])}", c["pmode"], f"k{c['k']}",
        f"groups{c['groups']}", c["spad"], "mask" if c["mask"] else "nomask", "refgrid" if c["ref"] is not None else "defgrid",
        f"g{case['g'] if case['g'] < 4 else '>=4'}", c["smode"], c["gmode"],
        "large" if max(case["nin"], case["nout"], case["batch"], *case.get("outs", [1])) > 4 else "small",
        "wide" if c["k"] > 6 or max(c["cin"], c["cout"]) > 6 else "usual",
        "xl-" + case["xl"] if "xl" in case else "ordinary", "grid-" + case.get("hk", "random"), "ninEQnout" if case["nin"] == case["nout"] else "ninNEnout",
    ]


def lattice_check(case, tol=1e-7, dtype=torch.float64):
    c = fix_c(case["c"])
    if c["k"] > 6:  # the coordinate grid is stored in single precision, and its steps round
        tol = 5e-6
    G = GROUPS[c["grp"]]
    mod = build(c, dtype=dtype)
    Hin, Hout = pick_H(c, case["seed"], case["nin"], case["nout"], grid_of(c), c["gmode"] == "nearest", case.get("hk", "random"))
    if Hin is None:
        return False, ["tie"]
    x = input_for(c, case["outs"], case["nin"], case["batch"], case["seed"] + 7)
    gH, M = G.lat(case["g"])
    cast = lambda t: t.to(dtype)
    y, H1 = pair_ok(call(mod, c, cast(x), cast(Hin), cast(Hout)))
    gHin = cast(G.mul(gH, Hin))
    gHout = gHin if Hin is Hout and case["seed"] % 2 else cast(G.mul(gH, Hout))
    y2, H2 = pair_ok(call(mod, c, spatial(M, cast(x), G.order()), gHin, gHout))
    n = [out_size(c, s) for s in x.shape[-G.D:]]
    tensor_ok(y, (case["batch"], c["cout"], case["nout"], *n), "features")
    want = spatial(M, y, G.order())
    close(y2, want, tol, f"{c['kind']} {c['grp']} layer on input transformed by lattice symmetry {case['g']}",
          scale=max(float(y.abs().max()), float(x.abs().max()) * 0.1))
    gx = spatial(M, x, G.order())
    nontrivial = float(y.abs().max()) > 1e-6 and not (gx.shape == x.shape and torch.equal(gx, x))
    return nontrivial, labels_of(case, c)


def grid_of(c):
    """the reference grid the layer interpolates on, by construction or by the documented default"""
    from .layers import ref_grid
    import gconv.geometry as geo

    r = ref_grid(c)
    if r is not None:
        return r
    if c["gmode"] != "nearest":
        return None
    lib = {"SE2": geo.so2, "E2": geo.o2, "SE3": geo.so3, "E3": geo.o3}[c["grp"]]
    n = gks_pair(c)
    return (lib.uniform_grid(n, "matrix") if c["grp"] == "SE3" else lib.uniform_grid(n)).double()


def translation_check(case):
    """Valid convolution of a crop equals the crop of the output: shifting by whole steps."""
    c = dict(case["c"], padding=0)
    G = GROUPS[c["grp"]]
    D = G.D
    mod = build(c)
    Hin, Hout = G.pair(case["seed"], case["nin"], case["nout"], case.get("hk", "random"))
    x = input_for(c, [o + s for o, s in zip(case["outs"], case["shift"])], case["nin"], case["batch"], case["seed"] + 7,
                  slack=case["slack"])
    y, _ = pair_ok(call(mod, c, x, Hin, Hout))
    lo = [s * c["stride"] for s in case["shift"]]
    crop = x[(..., *[slice(a, None) for a in lo])]
    y2, _ = pair_ok(call(mod, c, crop, Hin, Hout))
    want = y[(..., *[slice(a, None) for a in case["shift"]])]
    close(y2, want, 1e-9, f"{c['kind']} {c['grp']} layer on input translated by {lo}")
    return any(lo) and float(y.abs().max()) > 1e-6, [c["grp"], f"stride{c['stride']}", f"dil{c['dilation']}"]


def circular_check(case):
    """With circular padding and unit stride, rolling the input rolls the output."""
    c = dict(case["c"], pmode="circular", stride=1, padding="same")
    G = GROUPS[c["grp"]]
    D = G.D
    mod = build(c)
    Hin, Hout = G.pair(case["seed"], case["nin"], case["nout"], case.get("hk", "random"))
    x = input_for(c, case["outs"], case["nin"], case["batch"], case["seed"] + 7)
    dims = tuple(range(-D, 0))
    y, _ = pair_ok(call(mod, c, x, Hin, Hout))
    y2, _ = pair_ok(call(mod, c, torch.roll(x, case["shift"], dims), Hin, Hout))
    close(y2, torch.roll(y, case["shift"], dims), 1e-9, f"{c['kind']} {c['grp']} layer with circular padding on rolled input")
    return float(y.abs().max()) > 1e-6 and any(s % n for s, n in zip(case["shift"], x.shape[-D:])), [c["grp"]]


def shift_cases(kind, grps, slack=True):
    D = GROUPS[grps[0]].D

    @st.composite
    def strat(draw):
        case = draw(cases(kind, grps))
        case["shift"] = [draw(st.integers(0, 2)) for _ in range(D)]
        case["slack"] = draw(st.integers(0, 2))
        return case

    return strat()


def float32_check(case):
    """Out of the box: float32, default initialisation, default grids and widths."""
    c = fix_c(dict(case["c"], ref=None, width=0.0, gmode="rbf", smode="bilinear"))
    G = GROUPS[c["grp"]]
    mod = build(c, dtype=torch.float32, init="default")
    x = input_for(c, case["outs"], case["nin"], case["batch"], case["seed"] + 7, dtype=torch.float32)
    gH, M = G.lat(case["g"])
    if c["kind"] == "lift":
        y, H = pair_ok(mod(x))
        y2, H2 = pair_ok(mod(spatial(M, x, G.order()), G.mul(gH, H.double()).float()))
    else:
        Hin = G.grid(case["seed"], case["nin"], case.get("hk", "random"))
        y, H = pair_ok(mod(x, Hin.float()))
        y2, H2 = pair_ok(mod(spatial(M, x, G.order()), G.mul(gH, Hin).float(), G.mul(gH, H.double()).float()))
    want = spatial(M, y, G.order())
    tensor_ok(y, None, "features", torch.float32)
    # the bound follows the conditioning of the Gaussian interpolation
    close(y2, want, 3e-3, f"{c['kind']} {c['grp']} float32 layer on input transformed by symmetry {case['g']}",
          scale=max(float(want.abs().max()), 0.05))
    return float(y.abs().max()) > 1e-5, labels_of(case, c)


def register(prop, kind):
    rule_l = ("output not identically zero, transformed input different from the input")
    for dims, grps, q in (("2d", ("SE2", "E2"), 1500), ("3d", ("SE3", "E3"), 1200)):
        facet(prop, f"lattice-{dims}", cases(kind, grps), quick=q, budget=110,
              about="layer(g.x, g.H) == g.layer(x, H) for lattice symmetries g, metamorphic, float64", rule=rule_l)(lattice_check)
        facet(prop, f"lattice-nearest-{dims}", cases(kind, grps, nearest=True), quick=q // 2, budget=60,
              about="the same with nearest neighbour kernel/group sampling (queries away from ties)", rule=rule_l)(lattice_check)
        facet(prop, f"lattice-xl-{dims}", cases(kind, grps, xl=True), quick=500 if dims == "2d" else 400, budget=60,
              about="the same with a size (grid, batch, image, channels, kernel) far beyond the usual", rule=rule_l)(lattice_check)
        facet(prop, f"translation-{dims}", shift_cases(kind, grps), quick=q // 3, budget=60,
              about="crop of the input gives crop of the output (whole output steps)", rule="shift not zero, output not zero")(translation_check)
        facet(prop, f"circular-{dims}", shift_cases(kind, grps), quick=q // 4, budget=60,
              about="rolling the input rolls the output under circular 'same' padding", rule="shift not a multiple of the size")(circular_check)
        facet(prop, f"float32-default-{dims}", cases(kind, grps), quick=q // 3, budget=60,
              about="lattice equivariance of float32 layers as constructed, with default weights, grids and widths", rule="output not zero")(float32_check)
