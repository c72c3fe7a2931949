"""C05: sampled kernels depend only on relative pose."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

import gconv.gnn.kernels as gk

from .. import ref
from ..core import SEEDS, close, facet, fail, randn, tensor_ok
from ..grp import GROUPS, PAIRS, quat_mat, rand_rot3, so3_angle, spatial, spread_rots
from ..layers import COUNT, KERNELS, build, configs, enlarge, gks_pair, layer_kwargs, nearest_margin, randomize, ref_grid


@st.composite
def strat(draw, kinds=("lift", "sep", "full"), grps=("SE2", "E2", "SE3", "E3"), need_ref=False, nearest=True, maxn=4, big=False, xl=False, **kw):
    c = draw(configs(kinds=kinds, grps=grps, nearest=nearest, split=True, wide=True, **kw))
    if need_ref and c["ref"] is None:
        c["ref"] = draw(SEEDS)
    few = st.sampled_from((2, 3, 1)) if maxn == 3 else COUNT[GROUPS[c["grp"]].D]
    nin, nout = draw(few), draw(few)
    if big and draw(st.integers(0, 3)) == 3:  # more elements, of a cheap layer
        nin, nout = draw(st.sampled_from((1, 5, 12, 24, 33))), draw(st.sampled_from((1, 7, 12, 25, 40)))
        c.update(groups=1, cin=min(2, c["cin"]), cout=min(2, c["cout"]), k=c["k"] if GROUPS[c["grp"]].D == 2 else min(c["k"], 3))
    hk = draw(st.sampled_from(PAIRS))
    if hk == "same":
        nin = nout
    far = dict(nin=nin, nout=nout, hk=hk)
    if xl:
        enlarge(draw, far, GROUPS[c["grp"]].D, c)
        far.pop("batch", None)
        nin, nout = far["nin"], far["nout"]
    return dict(far, c=c, seed=draw(SEEDS), direct=draw(st.booleans()), g=draw(st.integers(1, 47)),
                idx=draw(st.lists(st.integers(0, nin - 1), min_size=1, max_size=5)),
                jdx=draw(st.lists(st.integers(0, nout - 1), min_size=1, max_size=5)))


def kernel_module(c, direct, **over):
    """The kernel class used directly, or as part of a layer."""
    if not direct:
        return build(c, **over).kernel
    kw = layer_kwargs(c)
    for n in ("stride", "padding", "dilation", "padding_mode", "permute_output_grid", "bias"):
        kw.pop(n)
    kw.update(over)
    return randomize(KERNELS[c["kind"], c["grp"]](**kw).double(), c["seed"])


def weights(c, kern, Hin, Hout):
    """(group part or None, spatial part or None) with canonical shapes"""
    G = GROUPS[c["grp"]]
    ks = (c["k"],) * G.D
    co, ig, no = c["cout"], c["cin"] // c["groups"], Hout.shape[0]
    if c["kind"] == "lift":
        K = kern(Hout)
        tensor_ok(K, (co, no, ig, *ks), "lifting kernel")
        return None, K
    ni = Hin.shape[0]
    K = kern(Hin, Hout)
    if c["kind"] == "sep":
        if not (isinstance(K, tuple) and len(K) == 2):
            fail("separable kernel did not return (group weights, spatial weights)")
        tensor_ok(K[0], (co, no, ig, ni, *[1] * G.D), "group part of the separable kernel")
        tensor_ok(K[1], (co, no, 1, *ks), "spatial part of the separable kernel")
        return K[0].reshape(co, no, ig, ni), K[1]
    tensor_ok(K, (co, no, ig, ni, *ks), "group kernel")
    return None, K


def lab(c):
    return [c["kind"], c["grp"], c["gmode"], c["smode"], c["spad"], f"k{c['k']}", "mask" if c["mask"] else "nomask"]


def grids(case, c):
    G = GROUPS[c["grp"]]
    return G.pair(case["seed"], case["nin"], case["nout"], case.get("hk", "random"))


def tie(c, kern, Hin, Hout):
    G = GROUPS[c["grp"]]
    if c["smode"] == "nearest" and any(ref.near_tie((c["k"],) * G.D, ref.spatial_coords(c, o)) for o in Hout):
        return True
    if c["kind"] != "lift" and c["gmode"] == "nearest":
        return nearest_margin(c, Hin, Hout, kern.grid_H) < 0.02
    return False


def check_reference(case):
    """Kernel equals the interpolation of the stored weights at o^-1 h and o^-1 p, masked, by the reference model."""
    c = case["c"]
    kern = kernel_module(c, case["direct"])
    Hin, Hout = grids(case, c)
    gridH = ref_grid(c)
    if tie(c, kern, Hin, Hout):
        return False, ["tie"]
    want, cond, _ = ref.ref_kernel(c, ref.params(kern), gridH, Hin, Hout)
    if cond > 3e4:
        return False, ["ill-conditioned"]
    A, B = weights(c, kern, Hin, Hout)
    tol = 1e-6 + 2e-6 * cond
    if c["kind"] == "sep":
        close(A, want[0], tol, f"group part of the {c['grp']} separable kernel", scale=max(0.1, float(want[0].abs().max())))
        want = want[1]
        tol = 1e-6
    close(B, want, tol, f"{c['kind']} {c['grp']} kernel against the reference model", scale=max(0.1, float(want.abs().max())))
    return float(want.abs().max()) > 1e-6, lab(c)


def check_local(case):
    """Entry (o, h) of the kernel is the same whatever else is in the grids: sub-lists, repeats, reorderings."""
    c = case["c"]
    kern = kernel_module(c, case["direct"])
    Hin, Hout = grids(case, c)
    idx = [i % case["nin"] for i in case["idx"]]
    jdx = [j % case["nout"] for j in case["jdx"]]
    if tie(c, kern, Hin, Hout):
        return False, ["tie"]
    A, B = weights(c, kern, Hin, Hout)
    A2, B2 = weights(c, kern, Hin[idx], Hout[jdx])
    s = max(1.0, float(B.abs().max()), float(A.abs().max()) if A is not None else 0)
    if A is not None:
        close(A2, A[:, jdx][..., idx], 1e-9, f"group part of the kernel for elements {idx}, {jdx} of the grids", scale=s)
    want = B[:, jdx]
    if c["kind"] == "full":
        want = want[:, :, :, idx]
    close(B2, want, 1e-9, f"{c['kind']} {c['grp']} kernel for elements {idx} (in), {jdx} (out) of the grids", scale=s)
    return (len(idx) != case["nin"] or len(jdx) != case["nout"] or idx != sorted(idx) or jdx != sorted(jdx)), lab(c)


def check_left_invariant(case):
    """Left-multiplying both grids by any g leaves the group part alone; a lattice g transforms the spatial part."""
    c = case["c"]
    G = GROUPS[c["grp"]]
    kern = kernel_module(c, case["direct"])
    Hin, Hout = grids(case, c)
    if tie(c, kern, Hin, Hout):
        return False, ["tie"]
    A, B = weights(c, kern, Hin, Hout)
    s = max(1.0, float(B.abs().max()), float(A.abs().max()) if A is not None else 0)
    if c["kind"] == "sep" or c["k"] == 1:  # any group element
        u = G.elems(case["seed"] + 9, 1)[0]
        A2, B2 = weights(c, kern, G.mul(u, Hin), G.mul(u, Hout))
        if A is not None:
            close(A2, A, 2e-6, f"group part of the {c['grp']} kernel for both grids moved by {u.tolist()}", scale=s)
        else:
            close(B2, B, 2e-6, f"{c['kind']} {c['grp']} kernel of size 1 for both grids moved by {u.tolist()}", scale=s)
    g, M = G.lat(case["g"])
    A2, B2 = weights(c, kern, G.mul(g, Hin), G.mul(g, Hout))
    if A is not None:
        close(A2, A, 2e-6, f"group part of the {c['grp']} kernel for both grids moved by a lattice symmetry", scale=s)
    close(B2, spatial(M, B, G.order()), 2e-6, f"{c['kind']} {c['grp']} kernel for both grids moved by lattice symmetry {case['g']}", scale=s)
    return float(B.abs().max()) > 1e-6 and case["g"] % G.nlat != 0, lab(c)


def check_nodes(case):
    """At the elements of the reference grid (and o = e) the stored weights themselves are sampled."""
    c = dict(case["c"], k=1, mask=False)
    G = GROUPS[c["grp"]]
    kern = kernel_module(c, case["direct"])
    H = kern.grid_H.double()
    e = G.finite(1)[:1]
    P = ref.params(kern)
    W = P["weight_H"] if c["kind"] == "sep" else P["weight"]
    n = H.shape[0]
    if c["gmode"] == "rbf" and n > 1:
        cond = 1.0
        co = G.coeff(H)
        for s in (1.0, -1.0):
            S = H[co == s]
            if len(S) > 1:
                w = (c["width"] if s > 0 else c.get("width2", c["width"])) or ref.default_width(c["grp"], S)
                cond = max(cond, float(torch.linalg.cond(ref.rbf_matrix(c["grp"], S, w))) / min(1, w * w))
    else:
        cond = 1.0
    if cond > 3e4:
        return False, ["ill-conditioned"]
    A, B = weights(c, kern, H, e)
    got = (A if A is not None else B).reshape(c["cout"], c["cin"] // c["groups"], n)
    want = W.reshape(n, c["cin"] // c["groups"], c["cout"]).permute(2, 1, 0)
    close(got, want, 1e-6 + 2e-6 * cond, f"{c['kind']} {c['grp']} kernel at its own reference grid", scale=max(0.1, float(want.abs().max())))
    return n > 1, lab(c)


def check_mask(case):
    """A masked kernel is the unmasked one times the ball indicator, channel by channel."""
    c = case["c"]
    G = GROUPS[c["grp"]]
    k0, k1 = kernel_module(c, case["direct"], mask=False), kernel_module(c, case["direct"], mask=True)
    Hin, Hout = grids(case, c)
    if tie(c, k0, Hin, Hout):
        return False, ["tie"]
    A0, B0 = weights(c, k0, Hin, Hout)
    A1, B1 = weights(c, k1, Hin, Hout)
    m = ref.ball(c["k"], G.D)
    s = max(1.0, float(B0.abs().max()))
    close(B1, B0 * m, 1e-12, f"masked {c['kind']} {c['grp']} kernel", scale=s)
    if A0 is not None:
        close(A1, A0, 1e-12, "group part of the masked kernel", scale=s)
    return float(m.sum()) not in (0.0, float(m.numel())), lab(c)


def check_subgroup(case):
    """The SO(3) subgroup kernel equals its reference interpolation and is left invariant."""
    g, co, ig, n = case["groups"], case["cout"] * case["groups"], case["cin"], case["n"]
    H = spread_rots(case["seed"], n)
    kw = {} if case["grid"] == 0 else dict(grid_H=H)
    k = gk.GSubgroupKernelSO3(ig * g, co, n, groups=g, sampling_mode=case["mode"], sampling_width=case["width"],
                              **kw)
    k = randomize(k.double(), case["seed"])
    Hin, Hout = rand_rot3(case["seed"] + 1, case["nin"]), rand_rot3(case["seed"] + 2, case["nout"])
    if case["grid"]:
        ref_H = H
    else:
        ref_H = None
    if case["mode"] == "nearest":
        grid = ref_H if ref_H is not None else k.grid_H
        if grid.ndim == 2:  # the default reference grid is stored as quaternions
            grid = quat_mat(grid)
        rel = (Hout.mT[:, None] @ Hin[None]).reshape(-1, 3, 3)
        d = so3_angle(rel[:, None], grid[None]).sort(-1)[0]
        if n > 1 and float((d[:, 1] - d[:, 0]).min()) < 0.02:
            return False, ["tie"]
    W = k(Hin, Hout)
    tensor_ok(W, (co, case["nout"], ig, case["nin"], 1, 1, 1), "subgroup kernel")
    u = rand_rot3(case["seed"] + 3, 1)[0]
    close(k(u @ Hin, u @ Hout), W, 2e-6, "subgroup kernel with both grids moved", scale=max(1.0, float(W.abs().max())))
    if ref_H is not None:
        rel = (Hout.mT[:, None] @ Hin[None]).reshape(-1, 3, 3)
        S, cond = ref.sample_group("SE3", rel, ref.params(k)["weight"].reshape(n, -1), ref_H, case["mode"], (case["width"],) * 2)
        if cond > 3e4:
            return False, ["ill-conditioned"]
        want = S.reshape(case["nout"], case["nin"], ig, co).permute(3, 0, 2, 1)
        close(W.reshape(want.shape), want, 1e-6 + 2e-6 * cond, "subgroup kernel against the reference model",
              scale=max(0.1, float(want.abs().max())))
    return n > 1, [case["mode"], f"n{n}", f"groups{g}", "refgrid" if case["grid"] else "defgrid"]


SUB = st.fixed_dictionaries(dict(
    groups=st.integers(1, 3), cout=st.integers(1, 3), cin=st.integers(1, 3), n=st.integers(1, 8), nin=st.sampled_from((1, 2, 3, 4, 20)),
    nout=st.sampled_from((1, 2, 3, 4, 15)), mode=st.sampled_from(("rbf", "nearest")), width=st.sampled_from((0.0, 0.3, 0.6)),
    grid=st.integers(0, 1), seed=SEEDS))

R = "kernel not identically zero; ties of nearest sampling and ill-conditioned interpolation are not judged"
for dims, grps, f in (("2d", ("SE2", "E2"), 1.0), ("3d", ("SE3", "E3"), 0.7)):
    facet("C05", f"reference-{dims}", strat(grps=grps, need_ref=True), quick=int(900 * f), rule=R)(check_reference)
    facet("C05", f"locality-{dims}", strat(grps=grps, big=True), quick=int(900 * f), rule="the sub-list is not the whole grid in order")(check_local)
    facet("C05", f"reference-xl-{dims}", strat(grps=grps, need_ref=True, xl=True), quick=int(300 * f), rule=R, budget=60,
          about="the same with a size (grids, channels, kernel) far beyond the usual")(check_reference)
    facet("C05", f"locality-xl-{dims}", strat(grps=grps, xl=True), quick=int(400 * f), rule="the sub-list is not the whole grid in order", budget=60,
          about="the same with a size (grids, channels, kernel) far beyond the usual")(check_local)
    facet("C05", f"left-invariance-{dims}", strat(grps=grps, big=True), quick=int(900 * f), rule=R)(check_left_invariant)
    facet("C05", f"nodes-{dims}", strat(kinds=("sep", "full"), grps=grps), quick=int(300 * f), rule="more than one reference element")(check_nodes)
    facet("C05", f"mask-{dims}", strat(grps=grps), quick=int(300 * f), rule="mask neither empty nor full")(check_mask)
facet("C05", "subgroup-so3", SUB, quick=400, rule="more than one reference element")(check_subgroup)
