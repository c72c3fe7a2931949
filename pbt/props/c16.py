"""C16: networks of group layers are invariant end to end."""
from __future__ import annotations

import math

import torch
import torch.nn as nn
from hypothesis import strategies as st

import gconv.geometry as geo
from gconv.gnn import modules as M

from ..core import SEEDS, close, facet, fail, gen, pair_ok, rand, randn, tensor_ok
from ..grp import GROUPS, spatial
from ..layers import BATCH, LAYERS, layer_kwargs, randomize, min_size

DT = torch.float64
FINITE = {"SE2": (4, 8, 2, 1, 12), "E2": (4, 2, 8), "SE3": (4, 24, 12, 3, 2), "E3": (4, 3, 12, 2)}


@st.composite
def conv_block(draw, kinds, grp, cin):
    D = GROUPS[grp].D
    cout = draw(st.integers(1, 3))
    gs = [g for g in (1, 2, 3) if cin % g == 0 and cout % g == 0]
    k = draw(st.sampled_from((3, 3, 1, 2) if D == 3 else (3, 5, 1, 4, 2)))
    c = dict(type="conv", kind=draw(st.sampled_from(kinds)), grp=grp, groups=draw(st.sampled_from(gs)), cin=cin, cout=cout, k=k,
             mask=draw(st.booleans()), stride=draw(st.sampled_from((1, 1, 2))), dilation=draw(st.sampled_from((1, 1, 1, 2))),
             padding=draw(st.sampled_from((0, 1, 2))), pmode=draw(st.sampled_from(("zeros", "circular", "reflect", "replicate"))),
             bias=draw(st.booleans()), smode="bilinear", spad=draw(st.sampled_from(("border", "zeros", "reflection"))),
             gks=draw(st.integers(1, 5)), ref=draw(st.one_of(st.none(), SEEDS)), gmode="rbf", width=0.0, seed=draw(SEEDS))
    return c


@st.composite
def nets(draw, dims, finite):
    grp = draw(st.sampled_from(("SE2", "E2") if dims == 2 else ("SE3", "E3")))
    D = dims
    cin = draw(st.integers(1, 2))
    blocks = [draw(conv_block(("lift",), grp, cin))]
    n = draw(st.integers(1, 5 if D == 2 else 4))
    for _ in range(n):
        c = next(b for b in reversed(blocks) if b["type"] == "conv")["cout"]
        t = draw(st.sampled_from(("conv", "norm", "act", "pool", "conv")))
        if t == "conv" and sum(b["type"] == "conv" for b in blocks) < (4 if D == 2 else 3):
            blocks.append(draw(conv_block(("sep", "full"), grp, c)))
        elif t == "norm":
            blocks.append(dict(type="norm", kind=draw(st.sampled_from(("batch", "instance"))), C=c, seed=draw(SEEDS)))
        elif t == "act":
            blocks.append(dict(type="act", kind=draw(st.sampled_from(("relu", "leaky", "gelu", "wrap")))))
        elif t == "pool":
            k = draw(st.sampled_from((2, 3)))
            blocks.append(dict(type="pool", kind=draw(st.sampled_from(("Max", "Avg"))), k=k, stride=draw(st.sampled_from((1, 2))),
                               padding=draw(st.sampled_from((0, 0, 1)))))
    if draw(st.integers(0, 3)) == 3:
        blocks.append(dict(type="adaptive", kind=draw(st.sampled_from(("Max", "Avg"))), out=draw(st.integers(1, 3))))
    net = dict(grp=grp, D=D, blocks=blocks, final=draw(st.sampled_from(("Avg", "Max", "GAvg", "GMax"))), g=draw(st.integers(1, 47)),
               sizes=[draw(st.integers(1, 3 if D == 2 else 2)) for _ in range(D)], batch=draw(BATCH), seed=draw(SEEDS),
               train=draw(st.booleans()))
    if finite:
        net["F"] = draw(st.sampled_from(FINITE[grp]))
        net["how"] = draw(st.sampled_from(("default", "order")))
    else:
        net["ns"] = [draw(st.integers(1, 4 if D == 2 else 3)) for _ in blocks]
    return net


def in_sizes(net):
    """input sizes for which every stride divides, found backwards from the output sizes"""
    D = net["D"]
    for extra in range(12):
        s = [v + extra for v in net["sizes"]]
        ok = True
        for b in reversed(net["blocks"]):
            if b["type"] == "adaptive":
                continue
            if b["type"] == "conv":
                s = [(v - 1) * b["stride"] + b["dilation"] * (b["k"] - 1) + 1 - 2 * b["padding"] for v in s]
                ok &= all(v >= max(1, min_size(b)) for v in s)
            elif b["type"] == "pool":
                s = [(v - 1) * b["stride"] + b["k"] - 2 * b["padding"] for v in s]
                ok &= all(v >= max(1, b["k"] - b["padding"]) for v in s) and (D == 2 or all(v >= b["k"] for v in s))
            if not ok:
                break
        if ok:
            return s
    return None


def build(net, refF=None):
    D, mods = net["D"], []
    for b in net["blocks"]:
        if b["type"] == "conv":
            kw = layer_kwargs(b)
            if refF is not None:
                kw["grid_H"] = refF
            torch.manual_seed(b["seed"])
            m = randomize(LAYERS[b["kind"], b["grp"]](**kw).to(DT), b["seed"], 0.3)
        elif b["type"] == "norm":
            m = getattr(M, f"G{b['kind'].capitalize()}Norm{D}d")(b["C"], eps=1e-2, affine=True, track_running_stats=True).to(DT)
            with torch.no_grad():
                for i, (n, t) in enumerate((*m.named_parameters(), *m.named_buffers())):
                    if t.is_floating_point():
                        t.copy_((0.3 + rand(b["seed"] + i, *t.shape)) if "var" in n else randn(b["seed"] + i, *t.shape))
        elif b["type"] == "act":
            m = {"relu": M.GReLU, "leaky": lambda: M.GLeakyReLU(0.2), "gelu": M.GGELU, "wrap": lambda: M.GWrap(nn.Softplus())}[b["kind"]]()
        elif b["type"] == "pool":
            m = getattr(M, f"G{b['kind']}SpatialPool{D}d")(b["k"], b["stride"], b["padding"])
        else:
            m = getattr(M, f"GAdaptive{b['kind']}SpatialPool{D}d")(b["out"])
        mods.append(m.train(net["train"]))
    return mods


def run(net, mods, x, grids):
    """grids: one per block (used by convolutions), or None for the defaults"""
    H = None
    for i, (b, m) in enumerate(zip(net["blocks"], mods)):
        g = None if grids is None else grids[i]
        if b["type"] == "conv" and b["kind"] == "lift":
            x, H = pair_ok(m(x) if g is None else m(x, g))
        elif b["type"] == "conv":
            x, H = pair_ok(m(x, H) if g is None else m(x, H, g))
        else:
            x, H = pair_ok(m(x, H))
    f = net["final"]
    p = getattr(M, f"G{f.replace('G', '')}{'Group' if f.startswith('G') else 'Global'}Pool")()(x, H)
    return x, H, p


def names(net):
    t = [b["type"] if b["type"] != "conv" else b["kind"] for b in net["blocks"]]
    return [net["grp"], f"layers{len(t)}", *sorted(set(t)), net["final"], "train" if net["train"] else "eval"]


def compare(net, y, p, y2, p2, g, order, perm, what):
    sc = max(float(y.abs().max()), 1e-2)
    want = spatial(g, y, order)
    if perm is not None:
        want = want[:, :, perm]
    close(y2, want, 1e-6, f"{what}: features", scale=sc)
    sc = max(float(p.abs().max()), 1e-2)
    if net["final"] in ("Avg", "Max"):
        close(p2, p, 1e-6, f"{what}: output after the global pool", scale=sc)
    else:
        close(p2, spatial(g, p, order), 1e-6, f"{what}: output after the group pool", scale=sc)


def sample(net):
    s = in_sizes(net)
    if s is None or math.prod(s) > (40**2 if net["D"] == 2 else 11**3):
        return None
    return randn(net["seed"], net["batch"], net["blocks"][0]["cin"], *s)


def check_moved(net):
    """Arbitrary grids, every layer's grid moved by the symmetry: rotated features, invariant global pool."""
    x = sample(net)
    if x is None:
        return False, ["too large"]
    G = GROUPS[net["grp"]]
    # torch wants more than one value per channel in training mode
    grids = [G.elems(net["seed"] + 3 * i, max(n, 2) if net["train"] else n) for i, n in enumerate(net["ns"])]
    gH, A = G.lat(1 + net["g"] % (G.nlat - 1))
    y, _, p = run(net, build(net), x, grids)
    y2, _, p2 = run(net, build(net), spatial(A, x, G.order()), [G.mul(gH, H) for H in grids])
    compare(net, y, p, y2, p2, A, G.order(), None, "network on the transformed input and grids")
    return float(y.std() if y.numel() > 1 else y.abs().max()) > 1e-6, names(net)


def library_group(net, F):
    """the finite group, as the library itself hands it out where it does"""
    if net["grp"] == "SE2" and net["seed"] % 2:
        return geo.so2.uniform_grid(net["F"]).double(), 1e-5
    if net["grp"] == "SE3" and net["F"] in (4, 12, 24) and net["seed"] % 2:
        q = {4: geo.so3.klein_group, 12: geo.so3.tetrahedral, 24: geo.so3.octahedral}[net["F"]]()
        return geo.so3.quat_to_matrix(q).double(), 1e-5
    return F, 1e-9


def dist(G, A, B):
    """distances of all pairs of stored elements, with the coefficient"""
    return G.dist(A, B) + (G.coeff(A)[:, None] - G.coeff(B)[None]).abs()


def check_finite(net):
    """Every grid a finite group containing the symmetry: permuted and rotated features, invariant global pool."""
    x = sample(net)
    if x is None:
        return False, ["too large"]
    G = GROUPS[net["grp"]]
    F, tolF = library_group(net, G.finite(net["F"]))
    default = net["how"] == "default"
    cand = [i for i in range(1, G.nlat) if float(dist(G, G.lat(i)[0][None], F).min()) < 1e-3]
    if not cand:
        return False, ["trivial group"]
    gH, A = G.lat(cand[net["g"] % len(cand)])
    if default:
        grids, last = None, F
    else:
        grids = [F[torch.randperm(len(F), generator=gen(net["seed"] + i))] for i in range(len(net["blocks"]))]
        last = next(g for b, g in reversed(list(zip(net["blocks"], grids))) if b["type"] == "conv")
    ref = F if default else None
    y, H, p = run(net, build(net, ref), x, grids)
    y2, H2, p2 = run(net, build(net, ref), spatial(A, x, G.order()), grids)
    tensor_ok(H, last.shape, "grid returned by the network")
    if float(dist(G, H.double(), last).diagonal().max()) > 1e-4:
        fail("grid returned by the network is not the one its last convolution was evaluated on")
    # y2 on element last[j] is the transformed y on element last[i] with g last[i] = last[j]
    d = dist(G, last, G.mul(gH, last))
    perm = d.argmin(1)
    assert float(d.min(1)[0].max()) < 1e-3 and len(set(perm.tolist())) == len(last)
    if tolF > 1e-6:  # single precision group elements
        sc = max(float(y.abs().max()), 1e-2)
        close(y2, spatial(A, y, G.order())[:, :, perm], 2e-3, "network on the transformed input, library group: features", scale=sc)
        if net["final"] in ("Avg", "Max"):
            close(p2, p, 2e-3, "network on the transformed input, library group: output after the global pool", scale=sc)
    else:
        compare(net, y, p, y2, p2, A, G.order(), perm, f"network on group of order {len(F)} ({net['how']}) on the transformed input")
    return len(F) > 1 and float(y.abs().max()) > 1e-6, names(net) + [f"order{len(F)}", net["how"]]


for D, q in ((2, 650), (3, 420)):
    for part in ("", "-b"):
        facet("C16", f"moved-{D}d{part}", nets(D, False), quick=q, rule="output not constant")(check_moved)
        facet("C16", f"finite-{D}d{part}", nets(D, True), quick=q, rule="non-trivial group, output not zero")(check_finite)
