"""C04: layers compute the defined group correlation of their weights."""
from __future__ import annotations

import torch
from hypothesis import strategies as st

from ..core import SEEDS, close, facet, fail, pair_ok, randn, tensor_ok
from ..equiv import cases, labels_of
from ..grp import GROUPS, PAIRS
from ..layers import BATCH, COUNT, build, call, configs, enlarge, fit, large, out_sizes
from .. import ref


@st.composite
def strat(draw, kinds, grps, nearest=True, need_ref=False, xl=False):
    c = draw(configs(kinds=kinds, grps=grps, nearest=nearest, aniso=True, split=True, wide=True))
    if need_ref and c["ref"] is None:
        c["ref"] = draw(SEEDS)
    D = GROUPS[c["grp"]].D
    case = dict(
        c=c, outs=[draw(st.sampled_from((2, 1, 3))) for _ in range(D)],
        slack=[draw(st.integers(0, 2)) for _ in range(D)],
        nin=draw(COUNT[D]), nout=draw(COUNT[D]), batch=draw(BATCH),
        seed=draw(SEEDS), g=0, hk=draw(st.sampled_from(PAIRS)),
    )
    if case["hk"] == "same":
        case["nin"] = case["nout"]
    if xl:
        enlarge(draw, case, D, c)
    elif draw(st.integers(0, 9)) == 9:
        large(draw, case, D, c)
    return case


def setup(case):
    c = case["c"]
    G = GROUPS[c["grp"]]
    mod = build(c)
    Hin, Hout = G.pair(case["seed"], case["nin"], case["nout"], case.get("hk", "random"))
    shape = [case["batch"], c["cin"]] + ([case["nin"]] if c["kind"] != "lift" else [])
    shape += [fit(c, o, d=d) + s for d, (o, s) in enumerate(zip(case["outs"], case["slack"]))]
    return c, G, mod, Hin, Hout, randn(case["seed"] + 7, *shape)


def bias_of(mod):
    b = [p.detach() for n, p in mod.named_parameters() if n.split(".")[-1] == "bias"]
    return b[0].reshape(-1) if b else None


def kernel_of(c, mod, Hin, Hout):
    return mod.kernel(Hout) if c["kind"] == "lift" else mod.kernel(Hin, Hout)


def check_conv(case):
    """Output equals the naive correlation with the sampled kernel (index arithmetic, no torch convolution)."""
    c, G, mod, Hin, Hout, x = setup(case)
    with torch.no_grad():
        K = kernel_of(c, mod, Hin, Hout)
        if c["kind"] == "sep":
            K = (K[0].reshape(c["cout"], case["nout"], c["cin"] // c["groups"], case["nin"]), K[1])
        y, H = pair_ok(call(mod, c, x, Hin, Hout))
    want = ref.ref_conv(c, K, x, bias_of(mod))
    assert list(want.shape[3:]) == out_sizes(c, x.shape[-G.D:])
    close(y, want, 1e-9, f"{c['kind']} {c['grp']} layer against the naive correlation", scale=max(1e-2, float(want.abs().max())))
    return float(y.abs().max()) > 1e-6, labels_of(case, c)


def check_end_to_end(case):
    """Output equals the reference model computed from parameters, input and grids alone."""
    c, G, mod, Hin, Hout, x = setup(case)
    from ..layers import ref_grid, nearest_margin

    gridH = ref_grid(c)
    if c["kind"] != "lift" and c["gmode"] == "nearest" and nearest_margin(c, Hin, Hout, gridH) < 0.01:
        return False, ["tie"]
    K, cond, tie = ref.ref_kernel(c, ref.params(mod), gridH, Hin, Hout)
    if tie or cond > 3e4:
        return False, ["tie" if tie else "ill-conditioned"]
    with torch.no_grad():
        y, H = pair_ok(call(mod, c, x, Hin, Hout))
    want = ref.ref_conv(c, K, x, bias_of(mod))
    close(y, want, 1e-6 + 2e-6 * cond, f"{c['kind']} {c['grp']} layer against the reference model",
          scale=max(1e-1, float(want.abs().max())))
    return float(y.abs().max()) > 1e-6, labels_of(case, c)


def check_linear(case):
    """layer(a x + b z) - bias = a (layer(x) - bias) + b (layer(z) - bias); layer(0) = bias."""
    c, G, mod, Hin, Hout, x = setup(case)
    z = randn(case["seed"] + 99, *x.shape)
    a, b = (float(v) for v in randn(case["seed"] + 5, 2))
    with torch.no_grad():
        f = lambda v: pair_ok(call(mod, c, v, Hin, Hout))[0]
        y0, yx, yz, ys = f(torch.zeros_like(x)), f(x), f(z), f(a * x + b * z)
    n = out_sizes(c, x.shape[-G.D:])
    tensor_ok(y0, (case["batch"], c["cout"], case["nout"], *n), "features")
    bias = bias_of(mod)
    if (bias is not None) != bool(c["bias"]):
        fail(f"bias requested: {c['bias']}, bias parameter present: {bias is not None}")
    want0 = torch.zeros_like(y0) if bias is None else bias.reshape(1, -1, *[1] * (G.D + 1)).expand_as(y0)
    close(y0, want0, 1e-12, f"{c['kind']} {c['grp']} layer on the zero input (bias {c['bias']})", scale=1.0)
    close(ys - y0, a * (yx - y0) + b * (yz - y0), 1e-9, f"{c['kind']} {c['grp']} layer linearity",
          scale=max(1e-2, float(yx.abs().max()), float(yz.abs().max())))
    return float(yx.abs().max()) > 1e-6, labels_of(case, c)


RULE = "output not identically zero (and no nearest tie / ill-conditioned interpolation, which are not judged)"
for dims, grps, q in (("2d", ("SE2", "E2"), 1.0), ("3d", ("SE3", "E3"), 0.6)):
    for kind in ("lift", "sep", "full"):
        facet("C04", f"conv-{kind}-{dims}", strat((kind,), grps), quick=int(600 * q), rule=RULE, budget=100)(check_conv)
    facet("C04", f"conv-xl-{dims}", strat(("lift", "sep", "full"), grps, xl=True), quick=int(400 * q), rule=RULE, budget=60,
          about="the same with a size (grid, batch, image, channels, kernel) far beyond the usual")(check_conv)
    facet("C04", f"end-to-end-{dims}", strat(("lift", "sep", "full"), grps, need_ref=True), quick=int(700 * q), rule=RULE,
          budget=100)(check_end_to_end)
    facet("C04", f"linear-{dims}", strat(("lift", "sep", "full"), grps), quick=int(600 * q), rule=RULE, budget=100)(check_linear)
