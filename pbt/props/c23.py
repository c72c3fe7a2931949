"""C23: base convolutions and kernels with user-defined groups."""
from __future__ import annotations

import itertools
import math

import torch
from hypothesis import strategies as st

import gconv.gnn as gnn
import gconv.gnn.functional as gF
import gconv.gnn.kernels as gk

from ..core import SEEDS, close, facet, fail, gen, pair_ok, rand, randn, same, tensor_ok
from ..grp import FULL3, MIRROR2, ORDER, ROT3, quat_mat, quat_mul, rand_quat, rand_rot3, rot2, spatial
from ..ref import coord_grid, pad_ref

DT = torch.float64


# ------------------------------------------------------------------ user-defined groups
# All of them are linear maps; ``mats`` is their ground truth for the oracles only.


class MatGroup:
    """(n, D, D) invertible matrices with prod = matmul."""

    @property
    def scales(self):
        return self.name[:3] in ("sim", "GL(", "sca", "log")

    def __init__(self, name, D, make, lattice):
        self.name, self.D, self._make, self.lattice = name, D, make, lattice

    def elems(self, seed, n):
        return self.from_mats(self._make(seed, n), seed)

    def stretch(self, H, seed):
        """the same elements times scalings, in groups that contain them"""
        if not self.scales:
            return H
        return self.from_mats(self.mats(H) * (5.6 * rand(seed + 8, H.shape[0]) - 2.8).exp()[:, None, None], seed)

    def from_mats(self, M, seed=0):
        return M

    def mats(self, H):
        return H

    def lat(self, i):
        M = self.lattice[i % len(self.lattice)]
        return self.from_mats(M[None], i)[0], M

    def inverse(self, H):
        return torch.linalg.inv(H)

    def prod(self, A, B):
        return A[:, None] @ B[None]

    def act(self, H, grid):
        M = self.mats(H)
        n, D = M.shape[0], self.D
        return torch.einsum("nij,pj->npi", M, grid.reshape(-1, D)).reshape(n, *grid.shape)

    def det(self, H):
        return torch.linalg.det(self.mats(H))


class FlatMat(MatGroup):
    """the same as (n, D*D) vectors"""

    def from_mats(self, M, seed=0):
        return M.flatten(-2)

    def mats(self, H):
        return H.unflatten(-1, (self.D, self.D))

    def inverse(self, H):
        return torch.linalg.inv(self.mats(H)).flatten(-2)

    def prod(self, A, B):
        return (self.mats(A)[:, None] @ self.mats(B)[None]).flatten(-2)


class Angle(MatGroup):
    """rotations of the plane by (n, 1) angles, as in the tutorial"""

    def __init__(self):
        super().__init__("angle", 2, None, [rot2(k * math.pi / 2).round() for k in range(4)])

    def elems(self, seed, n):
        return 2 * math.pi * rand(seed, n, 1)

    def from_mats(self, M, seed=0):
        return torch.atan2(M[:, 1, 0], M[:, 0, 0])[:, None] % (2 * math.pi)

    def mats(self, H):
        return rot2(H[:, 0])

    def inverse(self, H):
        return -H

    def prod(self, A, B):
        return (A[:, None] + B) % (2 * math.pi)

    def det(self, H):
        return torch.ones_like(H)


class LogPolar(MatGroup):
    """scaled rotations of the plane stored as (log scale, angle, mirror flag)"""

    def __init__(self):
        super().__init__("log-polar", 2, None, MIRROR2)

    def elems(self, seed, n):
        return torch.stack((rand(seed, n) - 0.5, 2 * math.pi * rand(seed + 1, n), (rand(seed + 2, n) > 0.5).double()), -1)

    def from_mats(self, M, seed=0):
        f = (torch.linalg.det(M) < 0).double()
        R = M.clone()
        R[:, :, 1] = R[:, :, 1] * (1 - 2 * f)[:, None]
        return torch.stack((torch.linalg.det(R).log() / 2, torch.atan2(R[:, 1, 0], R[:, 0, 0]), f), -1)

    def mats(self, H):
        F = torch.diag_embed(torch.stack((torch.ones_like(H[:, 2]), 1 - 2 * H[:, 2]), -1))
        return H[:, 0].exp()[:, None, None] * rot2(H[:, 1]) @ F

    def inverse(self, H):
        # (s R F)^-1 = s^-1 F R^-1 = s^-1 R(+-a) F
        return torch.stack((-H[:, 0], torch.where(H[:, 2] > 0.5, H[:, 1], -H[:, 1]), H[:, 2]), -1)

    def prod(self, A, B):
        A, B = A[:, None].expand(-1, B.shape[0], -1), B[None].expand(A.shape[0], -1, -1)
        ang = A[..., 1] + (1 - 2 * A[..., 2]) * B[..., 1]
        return torch.stack((A[..., 0] + B[..., 0], ang, (A[..., 2] - B[..., 2]).abs()), -1)

    def det(self, H):
        return (2 * H[:, 0]).exp() * (1 - 2 * H[:, 2])


class Scale(MatGroup):
    """positive scalings of R^D, elements are plain numbers of shape (n,)"""

    def __init__(self, D):
        super().__init__(f"scale{D}", D, None, [torch.eye(D, dtype=DT)])

    def elems(self, seed, n):
        return (rand(seed, n) - 0.5).exp()

    def from_mats(self, M, seed=0):
        return M[:, 0, 0]

    def mats(self, H):
        return H[:, None, None] * torch.eye(self.D, dtype=H.dtype)

    def inverse(self, H):
        return 1 / H

    def prod(self, A, B):
        return A[:, None] * B[None]

    def det(self, H):
        return H**self.D


class Quat(MatGroup):
    """rotations of space by (n, 4) unit quaternions of either sign"""

    def __init__(self):
        super().__init__("quaternion", 3, None, ROT3)

    def elems(self, seed, n):
        return rand_quat(seed, n)

    def from_mats(self, M, seed=0):
        out = []
        for R in M:  # the lattice rotations only: search among the 24 Hurwitz-type quaternions
            best = min(_HQ, key=lambda q: float((quat_mat(q[None])[0] - R).abs().max()))
            out.append(best)
        return torch.stack(out)

    def mats(self, H):
        return quat_mat(H)

    def inverse(self, H):
        return H * torch.tensor([1.0, -1, -1, -1], dtype=H.dtype)

    def prod(self, A, B):
        return quat_mul(A[:, None].expand(-1, B.shape[0], -1), B[None].expand(A.shape[0], -1, -1))


_HQ = [torch.tensor(v, dtype=DT) / torch.tensor(v, dtype=DT).norm()
       for v in itertools.product((-1, 0, 1), repeat=4) if sum(a * a for a in v) in (1, 2, 4)]


class Index(MatGroup):
    """a finite group of lattice symmetries as integers with a multiplication table"""

    def __init__(self, name, D, mats, column):
        super().__init__(name, D, None, mats)
        self.M = torch.stack(mats)
        self.column = column
        flat = self.M.flatten(1)
        find = lambda A: int((flat - A.flatten()).abs().sum(1).argmin())
        self.table = torch.tensor([[find(A @ B) for B in mats] for A in mats])
        self.inv = torch.tensor([find(A.T) for A in mats])

    def _wrap(self, i):
        return i[..., None] if self.column else i

    def _un(self, H):
        return (H[..., 0] if self.column else H).long()

    def elems(self, seed, n):
        return self._wrap(torch.randint(0, len(self.M), (n,), generator=gen(seed)))

    def from_mats(self, M, seed=0):
        return self._wrap(torch.tensor([int((self.M - m).abs().flatten(1).sum(1).argmin()) for m in M]))

    def mats(self, H):
        return self.M[self._un(H)]

    def inverse(self, H):
        return self._wrap(self.inv[self._un(H)])

    def prod(self, A, B):
        return self._wrap(self.table[self._un(A)[:, None], self._un(B)[None]])


def _orth2(seed, n):
    F = torch.diag_embed(torch.stack((torch.ones(n, dtype=DT), torch.where(rand(seed + 5, n) > 0.5, 1.0, -1.0).double()), -1))
    return rot2(2 * math.pi * rand(seed, n)) @ F


def _sim(make):
    return lambda seed, n: (rand(seed + 9, n) * 0.9 + 0.6)[:, None, None] * make(seed, n)


def _gl(D):
    def make(seed, n):
        M = torch.eye(D, dtype=DT) + 0.4 * (2 * rand(seed, n, D, D) - 1) / D
        S = torch.stack(MIRROR2 if D == 2 else FULL3)
        return S[torch.randint(0, len(S), (n,), generator=gen(seed + 3))] @ M

    return make


def _orth3(seed, n):
    return torch.where(rand(seed + 5, n) > 0.5, 1.0, -1.0).double()[:, None, None] * rand_rot3(seed, n)


USER = {g.name: g for g in (
    MatGroup("O(2)", 2, _orth2, MIRROR2), Angle(), MatGroup("sim(2)", 2, _sim(_orth2), MIRROR2), LogPolar(),
    MatGroup("GL(2)", 2, _gl(2), MIRROR2), FlatMat("O(2)-flat", 2, _orth2, MIRROR2), Scale(2),
    Index("D4-index", 2, MIRROR2, False), Index("D4-column", 2, MIRROR2, True),
    MatGroup("O(3)", 3, _orth3, FULL3), Quat(), MatGroup("sim(3)", 3, _sim(_orth3), FULL3), MatGroup("GL(3)", 3, _gl(3), FULL3),
    FlatMat("O(3)-flat", 3, _orth3, FULL3), Scale(3), Index("Oh-index", 3, FULL3, False),
)}
NAMES = list(USER)


def grids(case, G):
    """Input and output grid of a case: elements that recur, far from the identity, or one tensor for both."""
    nin, nout, s, kind = case["nin"], case["nout"], case["seed"], case.get("hk", "random")

    def one(n, s):
        H = G.elems(s, n)
        if kind == "repeat":
            return H[torch.randint(0, n, (n,), generator=gen(s))]
        if kind == "lattice":
            return torch.stack([G.lat((s + 7 * i) % len(G.lattice))[0] for i in range(n)])
        if kind == "extreme":
            H = G.stretch(H, s)
        return H

    Hout = one(nout, s + 32)
    if case["kind"] == "lift":
        return None, Hout
    return (Hout if kind == "same" and nin == nout else one(nin, s + 31)), Hout


# ------------------------------------------------------------------ user-defined sampling


def sampler_H(G, kind):
    """(grid, signal, signal_grid, **kw) -> samples; depends on the linear maps only"""

    def dist(grid, ref):
        # a sign-invariant distance for quaternions comes for free: compare the maps
        return (G.mats(grid)[:, None] - G.mats(ref)[None]).flatten(-2).norm(dim=-1)

    def smooth(grid, signal, signal_grid, width=0.7):
        return torch.exp(-((dist(grid, signal_grid) / width) ** 2)).to(signal) @ signal

    def weighted(grid, signal, signal_grid, power=1.0, gain=1.0):
        w = 1 / (0.3 + dist(grid, signal_grid)) ** power
        return gain * (signal.T @ (w / w.sum(-1, keepdim=True)).T.to(signal)).T  # not contiguous

    def lookup(grid, signal, signal_grid):
        return signal[dist(grid, signal_grid).argmin(-1)]

    return {"smooth": smooth, "weighted": weighted, "lookup": lookup}[kind]


def poly_sample(D, k):
    """(weight (B, C, *k), coords (B, *k, D), **kw) -> (B, C, *k): the weights as bumps on the reference positions"""

    def sample(weight, coords, sharp=2.0):
        B, C = weight.shape[:2]
        ref = grid_of(k, D).reshape(-1, D).to(coords)
        w = torch.exp(-sharp * torch.cdist(coords.reshape(B, -1, D), ref[None].expand(B, -1, -1)) ** 2).to(weight)
        return torch.einsum("bpr,bcr->bcp", w, weight.flatten(2)).reshape(B, C, *coords.shape[1:-1])

    return sample


def grid_of(k, D):
    """(*k, D) positions; component i belongs to dim i in 2D and to dim 2 - i in 3D"""
    ax = [torch.zeros(1, dtype=DT) if n == 1 else torch.linspace(-1, 1, n, dtype=DT) for n in k]
    g = torch.stack(torch.meshgrid(*ax, indexing="ij"), -1)
    return g if D == 2 else g.flip(-1)


# ------------------------------------------------------------------ cases


@st.composite
def cases(draw, square=False, kinds=("lift", "sep", "full", "sub")):
    # scalings far from 1 only exist in some of the groups, and only show with a determinant
    hk = draw(st.sampled_from(("random", "extreme", "random", "repeat", "extreme", "lattice", "same")))
    name = draw(st.sampled_from([n for n in NAMES if USER[n].scales] if hk == "extreme" else NAMES))
    D = USER[name].D
    kind = draw(st.sampled_from(kinds))
    g = draw(st.sampled_from((1, 1, 2)))
    kk = st.sampled_from((3, 1, 2, 4)) if D == 3 else st.sampled_from((3, 5, 1, 2, 4))
    one = draw(kk)
    k = [one] * D if square or draw(st.booleans()) else draw(st.lists(kk if D == 2 else st.sampled_from((1, 2, 3)), min_size=D, max_size=D))
    if kind == "sub":
        k = [1] * D
    ints = lambda s: s if square else st.one_of(s, st.lists(s, min_size=D, max_size=D))
    return dict(
        group=name, kind=kind, groups=g, cin=g * draw(st.integers(1, 3)), cout=g * draw(st.integers(1, 3)), k=k,
        stride=draw(ints(st.sampled_from((1, 2, 3)))), dilation=draw(ints(st.sampled_from((1, 2)))),
        padding=draw(st.one_of(ints(st.sampled_from((0, 1, 2))), st.sampled_from(("valid",)))),
        pmode=draw(st.sampled_from(("zeros", "circular", "reflect", "replicate"))), bias=draw(st.booleans()),
        nref=draw(st.integers(1, 5)), nin=draw(st.sampled_from((1, 2, 3, 1, 2, 3, 8))), nout=draw(st.sampled_from((1, 2, 3, 1, 2, 3, 9, 17))),
        det=draw(st.sampled_from((True, True, False) if hk == "extreme" else (True, False))),
        mask=draw(st.sampled_from((None, "ball", "random"))),
        samp=draw(st.sampled_from(("smooth", "weighted", "lookup"))), kwargs=draw(st.booleans()),
        hk=hk, batch=draw(st.sampled_from((2, 1, 2, 3, 9))),
        spatial=draw(st.sampled_from(("bilinear", "bumps", "nearest", "zeros"))), outs=draw(st.lists(st.integers(1, 3), min_size=D, max_size=D)),
        contiguous=draw(st.booleans()), seed=draw(SEEDS))


def tup(v, D):
    return [v] * D if isinstance(v, int) else list(v)


def never(name):
    def f(*a, **k):
        fail(f"{name} was called although this kind of convolution does not need it")

    return f


def odd_layout(f, on):
    """the user's function may return a tensor of any memory layout"""
    if on:
        return f

    def g(*a):
        t = f(*a)
        return t.movedim(0, -1).contiguous().movedim(-1, 0)

    return g


def make(case, dtype=DT):
    """(module or None, kernel, user functions)"""
    G = USER[case["group"]]
    D, kind, k = G.D, case["kind"], tuple(case["k"])
    ref = G.elems(case["seed"] + 70, case["nref"])
    grid = grid_of(k, D)
    mask = None
    if case["mask"] == "ball":
        mask = (grid.norm(dim=-1) < 1.3).double()
    elif case["mask"] == "random":
        mask = rand(case["seed"] + 3, *k)
    fH = sampler_H(G, case["samp"])
    if case["spatial"] == "bumps":
        fR, kwR = poly_sample(D, k), ({"sharp": 1.5} if case["kwargs"] else {})
    else:
        fR = gF.grid_sample
        kwR = {"mode": "nearest" if case["spatial"] == "nearest" else "bilinear",
               "padding_mode": "zeros" if case["spatial"] == "zeros" else "border", "align_corners": bool(case["kwargs"])}
    kwH = {"smooth": {"width": 1.1}, "weighted": {"power": 2.0, "gain": 0.5}, "lookup": {}}[case["samp"]] if case["kwargs"] else {}
    kw = dict(groups=case["groups"], inverse_H=G.inverse, grid_H=ref)
    if kind != "sub":
        kw.update(grid_Rn=grid, left_apply_to_Rn=odd_layout(G.act, case["contiguous"]), sample_Rn=fR)
        if kwR:
            kw["sample_Rn_kwargs"] = kwR
        if mask is not None:
            kw["mask"] = mask
    if case["det"]:
        kw["det_H"] = G.det if kind != "sub" else never("det_H")
    if kind != "lift":
        kw.update(left_apply_to_H=odd_layout(G.prod, case["contiguous"]), sample_H=fH)
        if kwH:
            kw["sample_H_kwargs"] = kwH
    cls = {"lift": gk.GLiftingKernel, "sep": gk.GSeparableKernel, "full": gk.GKernel, "sub": gk.GSubgroupKernel}[kind]
    pos = [case["cin"], case["cout"], k, (case["nref"],)]
    if case["kwargs"] and kind != "sub":  # as in the tutorial
        pos += [kw.pop("grid_H"), kw.pop("grid_Rn"), kw.pop("groups")]
    kernel = cls(*pos, **kw)
    conv = getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "full": "GConv", "sub": "GConv"}[kind] + f"{D}d")
    par = lambda v: tuple(v) if isinstance(v, list) else v
    m = conv(case["cin"], case["cout"], k if len(set(k)) > 1 else k[0], case["nref"], kernel, groups=case["groups"],
             stride=par(case["stride"]), padding=par(case["padding"]), dilation=par(case["dilation"]), padding_mode=case["pmode"],
             bias=case["bias"]).to(dtype)
    with torch.no_grad():
        for i, (_, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(randn(case["seed"] + 11 * i, *p.shape))
    return m, dict(G=G, ref=ref, grid=grid, mask=mask, fH=fH, fR=fR, kwH=kwH, kwR=kwR)


def in_sizes(case, D):
    s, d = tup(case["stride"], D), tup(case["dilation"], D)
    p = [0] * D if case["padding"] == "valid" else tup(case["padding"], D)
    out = []
    for i in range(D):
        o = case["outs"][i]
        while True:
            n = (o - 1) * s[i] + d[i] * (case["k"][i] - 1) + 1 - 2 * p[i]
            if n >= 1 and (case["pmode"] != "reflect" or n > p[i]) and (case["pmode"] != "circular" or n >= p[i]):
                break
            o += 1
        out.append(n)
    return out


def reference(case, u, P, Hin, Hout):
    """kernel and output from the user's functions, one pair of elements at a time"""
    G, D, kind, k = u["G"], u["G"].D, case["kind"], case["k"]
    ig, co, no = case["cin"] // case["groups"], case["cout"], Hout.shape[0]
    ni = 0 if Hin is None else Hin.shape[0]
    mask = 1.0 if u["mask"] is None else u["mask"]
    det = torch.linalg.det(G.mats(Hout)).abs() if case["det"] and kind != "sub" else torch.ones(no, dtype=DT)

    def spat(W, o):  # W (C, *k) -> (C, *k)
        A = torch.linalg.inv(G.mats(Hout[o : o + 1])[0])
        x = u["grid"].reshape(-1, D) @ A.T
        return u["fR"](W[None], x.reshape(1, *k, D), **u["kwR"])[0] * mask / det[o]

    def group(W, o, h):  # W (nref, S)
        rel = G.from_rel(Hout, Hin, o, h)
        return u["fH"](rel, W, u["ref"], **u["kwH"])[0]

    W = P["kernel.weight"]
    if kind == "lift":
        K = torch.zeros(co, no, ig, *k, dtype=DT)
        for o in range(no):
            for c in range(co):
                K[c, o] = spat(W[c], o)
        return (K,)
    if kind == "sep":
        A, B = torch.zeros(co, no, ig, ni, dtype=DT), torch.zeros(co, no, 1, *k, dtype=DT)
        V = P["kernel.weight_H"].reshape(case["nref"], -1)
        for o in range(no):
            for c in range(co):
                B[c, o] = spat(W[c], o)
            for h in range(ni):
                A[:, o, :, h] = group(V, o, h).reshape(ig, co).T
        return A, B
    K = torch.zeros(co, no, ig, ni, *k, dtype=DT)
    V = W.reshape(case["nref"], -1)
    for o in range(no):
        for h in range(ni):
            S = group(V, o, h).reshape(ig * co, *k)
            if kind == "full":
                S = spat(S, o)
            K[:, o, :, h] = S.reshape(ig, co, *k).transpose(0, 1)
    return (K,)


def _from_rel(self, Hout, Hin, o, h):
    return self.prod(self.inverse(Hout[o : o + 1]), Hin[h : h + 1]).reshape(1, *Hin.shape[1:])


MatGroup.from_rel = _from_rel


def correlate(case, D, x, K):
    """sum over input channels of the channel group and kernel positions; x (b, cin, [ni], *S)"""
    g, k = case["groups"], case["k"]
    ig, og = case["cin"] // g, case["cout"] // g
    s, d = tup(case["stride"], D), tup(case["dilation"], D)
    p = [0] * D if case["padding"] == "valid" else tup(case["padding"], D)

    def windows(t):
        for i in range(D):  # dimension by dimension
            t = t.movedim(t.ndim - D + i, -1)
            t = pad_ref(t, p[i], p[i], case["pmode"], 1)
            t = t.movedim(-1, t.ndim - D + i)
        n = [(t.shape[t.ndim - D + i] - d[i] * (k[i] - 1) - 1) // s[i] + 1 for i in range(D)]
        for off in itertools.product(*[range(q) for q in k]):
            yield off, t[(..., *[slice(o * d[i], o * d[i] + (n[i] - 1) * s[i] + 1, s[i]) for i, o in enumerate(off)])]

    if case["kind"] == "sep":
        h = torch.stack([torch.einsum("ncm,bcm...->bn...", K[0][c], x[:, c // og * ig : (c // og + 1) * ig]) for c in range(case["cout"])], 1)
        y = 0
        for off, v in windows(h):
            y = y + v * K[1][(slice(None), slice(None), 0, *off)].reshape(1, *K[1].shape[:2], *[1] * D)
        return y
    outs = []
    for c in range(case["cout"]):
        y = 0
        for off, v in windows(x[:, c // og * ig : (c // og + 1) * ig]):
            w = K[0][c][(slice(None), slice(None), *([slice(None)] if case["kind"] != "lift" else []), *off)]
            y = y + (torch.einsum("nc,bc...->bn...", w, v) if case["kind"] == "lift" else torch.einsum("ncm,bcm...->bn...", w, v))
        outs.append(y)
    return torch.stack(outs, 1)


def nearest_tie(case, u, Hin, Hout):
    """lookups and nearest sampling are ambiguous close to ties"""
    G, D = u["G"], u["G"].D
    if case["kind"] != "sub" and case["spatial"] == "nearest":
        for o in range(Hout.shape[0]):
            x = u["grid"].reshape(-1, D) @ torch.linalg.inv(G.mats(Hout[o : o + 1])[0]).T
            for c in range(D):
                n = case["k"][D - 1 - c]
                p = (x[:, c] + 1) / 2 * (n - 1) if u["kwR"]["align_corners"] else ((x[:, c] + 1) * n - 1) / 2
                if bool(((p - p.floor() - 0.5).abs() < 1e-5).any()):
                    return True
    if case["kind"] != "lift" and case["samp"] == "lookup" and case["nref"] > 1:
        rel = torch.cat([G.from_rel(Hout, Hin, o, h) for o in range(Hout.shape[0]) for h in range(Hin.shape[0])])
        d = (G.mats(rel)[:, None] - G.mats(u["ref"])[None]).flatten(-2).norm(dim=-1).sort(-1)[0]
        if bool(((d[:, 1] - d[:, 0]) < 1e-6).any()):
            return True
    return False


def run(m, case, x, Hin, Hout):
    return pair_ok(m(x, Hout) if case["kind"] == "lift" else m(x, Hin, Hout))


def labels(case):
    return [case["group"], case["kind"], case["spatial"], "det" if case["det"] else "no-det", case.get("hk", "random")]


@facet("C23", "user-groups-compute-the-correlation", cases(), quick=1300, thorough=12000, budget=200,
       rule="the output is not zero and at least two of: several output elements, determinant, mask, rectangular kernel, non-default stride, padding or dilation")
def definition(case):
    """For generated user-defined groups (orthogonal, scaled, general linear, quaternion, log-polar, finite as table; elements of any
    shape and integer or floating type), user samplers with keyword arguments and any memory layout, kernels and outputs of the base
    modules equal a naive evaluation, one pair of elements and one weight at a time. Functions a kind of convolution does not need
    are not supplied."""
    m, u = make(case)
    G = u["G"]
    D = G.D
    x = randn(case["seed"] + 1, case.get("batch", 2), case["cin"], *([case["nin"]] if case["kind"] != "lift" else []), *in_sizes(case, D))
    Hin, Hout = grids(case, G)
    if nearest_tie(case, u, Hin, Hout):
        return False, ["tie"]
    Hi0, Ho0, x0 = None if Hin is None else Hin.clone(), Hout.clone(), x.clone()
    P = {n: p.detach() for n, p in m.named_parameters()}
    with torch.no_grad():
        K = m.kernel(Hout) if case["kind"] == "lift" else m.kernel(Hin, Hout)
        K = K if isinstance(K, tuple) else (K,)
        R = reference(case, u, P, Hin, Hout)
        for a, b in zip(K, R):
            a = a.reshape(b.shape) if a.numel() == b.numel() else a
            tensor_ok(a, b.shape, "sampled kernel", DT)
            for o in range(b.shape[1]):  # determinants give the elements different magnitudes
                close(a[:, o], b[:, o], 1e-8, f"sampled kernel of output element {o}", scale=float(b[:, o].abs().max()) + 1e-9)
        y, H = run(m, case, x, Hin, Hout)
        want = correlate(case, D, x, R)
        if case["bias"]:
            want = want + P["bias"].reshape(1, -1, *[1] * (D + 1))
        tensor_ok(y, want.shape, "output", DT)
        for o in range(want.shape[2]):
            close(y[:, :, o], want[:, :, o], 1e-8, f"output of element {o}", scale=float(want[:, :, o].abs().max()) + 1e-9)
    same(H, Ho0, "returned grid")
    same(Hout, Ho0, "output grid")
    same(x, x0, "input")
    if Hin is not None:
        same(Hin, Hi0, "input grid")
    extra = (case["nout"] > 1, case["det"], case["mask"] is not None, len(set(case["k"])) > 1, tup(case["stride"], D) != [1] * D,
             case["padding"] not in (0, "valid"), tup(case["dilation"], D) != [1] * D)
    return float(y.abs().max()) > 0 and sum(extra) >= 2, labels(case)


@st.composite
def equi_cases(draw):
    c = draw(cases(square=True))
    c["lat"] = draw(st.integers(0, 47))
    c["kwargs"] = draw(st.booleans())
    return c


@facet("C23", "user-groups-are-equivariant", equi_cases(), quick=1300, thorough=12000, budget=200,
       rule="the lattice symmetry is not the identity and the output is not constant")
def equivariance(case):
    """Transforming the input by a lattice symmetry contained in the user's group (true mirror reflections, rotations, in a group that
    also scales or shears) and left-multiplying both grids by it transforms the output accordingly."""
    if case["mask"] == "random":
        case = dict(case, mask="ball")  # a mask that is no function of the distance is not symmetric
    m, u = make(case)
    G = u["G"]
    D = G.D
    if case.get("hk") == "same":
        case = dict(case, nin=case["nout"])
    g, M = G.lat(case["lat"])
    x = randn(case["seed"] + 1, case.get("batch", 2), case["cin"], *([case["nin"]] if case["kind"] != "lift" else []), *in_sizes(case, D))
    Hin, Hout = grids(case, G)
    gl = lambda H: None if H is None else G.prod(g[None], H)[0]
    order = ORDER[D]
    # a symmetry permutes the axes of a batch of any shape, and needs the stride to leave no rest
    if nearest_tie(case, u, Hin, Hout) or nearest_tie(case, u, gl(Hin), gl(Hout)):
        return False, ["tie"]
    with torch.no_grad():
        y, H = run(m, case, x, Hin, Hout)
        gy, gH = run(m, case, spatial(M, x, order), gl(Hin), gl(Hout))
        close(G.mats(gH), M[None] @ G.mats(H), 1e-9, "returned grid of the transformed input")
        want = spatial(M, y, order)
        close(gy, want, 1e-8, f"output of the transformed input (group {case['group']}, symmetry {M.int().tolist()})", scale=max(1.0, float(want.abs().max())))
    return not torch.equal(M, torch.eye(D, dtype=DT)) and float(y.std()) > 0 if y.numel() > 1 else False, labels(case)
