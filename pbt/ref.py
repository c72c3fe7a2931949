"""Reference model of the layers: kernel sampling and convolution, written naively.

Nothing here calls the code under test, grid_sample or a torch convolution.
"""
from __future__ import annotations

import itertools
import math

import torch

from .grp import GROUPS

DT = torch.float64


# ------------------------------------------------------------------ coordinates and spatial sampling


def linspace(k):
    return torch.zeros(1, dtype=DT) if k == 1 else torch.linspace(-1, 1, k, dtype=DT)


def coord_grid(k, D):
    """(k,)*D + (D,) coordinates; 2D component i belongs to dim i, 3D component c to dim 2-c"""
    x = linspace(k)
    g = torch.stack(torch.meshgrid(*[x] * D, indexing="ij"), -1)
    return g if D == 2 else g.flip(-1)


def ball(k, D):
    """positions inside the ball of radius 1.1; all of them for size 2, which has only corners"""
    return (coord_grid(k, D).norm(dim=-1) < (2.0 if k == 2 else 1.1 - 1e-6)).to(DT)


def sample_spatial(W, coords, mode, pad):
    """Samples W (C, *S) at coords (P, D), whose last component belongs to the first
    spatial dimension; pixel centres at ((2 i + 1) / n - 1), i.e. align_corners=False."""
    C, *S = W.shape
    D = len(S)
    pos = []
    for d in range(D):
        n = S[d]
        p = ((coords[:, D - 1 - d] + 1) * n - 1) / 2
        if pad == "border":
            p = p.clamp(0, n - 1)
        elif pad == "reflection":
            period = 2.0 * n
            q = torch.remainder(p + 0.5, period)
            p = torch.where(q < n, q, period - q) - 0.5
            p = p.clamp(0, n - 1)
        pos.append(p)
    out = torch.zeros(C, coords.shape[0], dtype=W.dtype)
    if mode == "nearest":
        idx = [p.round().long() for p in pos]
        ok = torch.ones(coords.shape[0], dtype=torch.bool)
        lin = torch.zeros(coords.shape[0], dtype=torch.long)
        for d in range(D):
            ok &= (idx[d] >= 0) & (idx[d] < S[d])
            lin = lin * S[d] + idx[d].clamp(0, S[d] - 1)
        return W.flatten(1)[:, lin] * ok
    for corner in itertools.product((0, 1), repeat=D):
        w = torch.ones(coords.shape[0], dtype=W.dtype)
        ok = torch.ones(coords.shape[0], dtype=torch.bool)
        lin = torch.zeros(coords.shape[0], dtype=torch.long)
        for d in range(D):
            lo = pos[d].floor()
            i = lo + corner[d]
            f = pos[d] - lo
            w = w * (f if corner[d] else 1 - f)
            ok &= (i >= 0) & (i <= S[d] - 1)
            lin = lin * S[d] + i.clamp(0, S[d] - 1).long()
        out = out + W.flatten(1)[:, lin] * (w * ok)
    return out


def near_tie(W_shape, coords, margin=1e-4):
    """nearest sampling is ambiguous for coordinates half way between two pixels"""
    D = len(W_shape)
    for d in range(D):
        n = W_shape[d]
        p = ((coords[:, D - 1 - d] + 1) * n - 1) / 2
        f = (p - p.floor() - 0.5).abs()
        if bool((f < margin).any()):
            return True
    return False


# ------------------------------------------------------------------ group sampling


def half_angle(grp):
    """the library measures SO(3) by half the rotation angle"""
    return 0.5 if GROUPS[grp].D == 3 else 1.0


def gauss(d, w):
    return torch.exp(-math.log(2.0) * (d / w) ** 2)


def default_width(grp, gridH):
    G = GROUPS[grp]
    d = half_angle(grp) * G.dist(gridH, gridH)
    d = d + torch.diag(torch.full((d.shape[0],), math.inf, dtype=d.dtype))
    return 0.8 * float(d.min(-1)[0].mean())


def rbf_matrix(grp, gridH, width):
    return gauss(half_angle(grp) * GROUPS[grp].dist(gridH, gridH), width)


def sample_group(grp, rel, W, gridH, mode, widths):
    """W (n, S) signal on gridH (n); returns its values at rel (q), (q, S)."""
    G = GROUPS[grp]
    out = torch.full((rel.shape[0], W.shape[1]), math.nan, dtype=W.dtype)
    cr, cg = G.coeff(rel), G.coeff(gridH)
    cond = 1.0
    for s, w in ((1.0, widths[0]), (-1.0, widths[1])):
        iq, ig = torch.nonzero(cr == s)[:, 0], torch.nonzero(cg == s)[:, 0]
        if not len(iq):
            continue
        A, B, V = rel[iq], gridH[ig], W[ig]
        d = half_angle(grp) * G.dist(A, B)
        if mode == "nearest":
            out[iq] = V[d.argmin(-1)]
        else:
            if w == 0.0:
                w = default_width(grp, B) if len(ig) > 1 else None
            if w is None:  # a single element: density is infinite, the Gaussian constant
                out[iq] = V.expand(len(iq), -1)
                continue
            M = rbf_matrix(grp, B, w)
            cond = max(cond, float(torch.linalg.cond(M)) / min(1.0, w * w))
            out[iq] = gauss(d, w) @ torch.linalg.solve(M, V)
    return out, cond


# ------------------------------------------------------------------ kernels


def params(mod):
    return {n.split(".")[-1]: p.detach() for n, p in mod.named_parameters()}


def spatial_coords(c, o):
    """(P, D) kernel positions transformed by o^-1"""
    G = GROUPS[c["grp"]]
    A = torch.linalg.inv(G.act(o[None])[0])
    g = coord_grid(c["k"], G.D).reshape(-1, G.D)
    return g @ A.T


def ref_kernel(c, P, gridH, Hin, Hout):
    """The kernel(s) defined by parameters P: lifting (out, no, in/g, *k), full
    (out, no, in/g, ni, *k), separable ((out, no, in/g, ni), (out, no, 1, *k)).
    Also returns the conditioning of the group interpolation and whether a nearest tie occurs."""
    G = GROUPS[c["grp"]]
    D, k = G.D, c["k"]
    ig, co = c["cin"] // c["groups"], c["cout"]
    no = Hout.shape[0]
    ks = (k,) * D
    mask = ball(k, D) if c["mask"] else torch.ones(ks, dtype=DT)
    coords = [spatial_coords(c, o) for o in Hout]
    tie = c["smode"] == "nearest" and any(near_tie(ks, x) for x in coords)
    samp = lambda W, n: sample_spatial(W, coords[n], c["smode"], c["spad"]).reshape(W.shape[0], *ks) * mask
    if c["kind"] == "lift":
        W = P["weight"]
        K = torch.stack([samp(W.reshape(co * ig, *ks), n).reshape(co, ig, *ks) for n in range(no)], 1)
        return K, 1.0, tie
    ni = Hin.shape[0]
    rel = G.rel(Hout, Hin).flatten(0, 1)
    w = (c["width"], c.get("width2", c["width"]))
    if c["kind"] == "sep":
        WH = P["weight_H"].reshape(gridH.shape[0], -1)
        S, cond = sample_group(c["grp"], rel, WH, gridH, c["gmode"], w)
        WHs = torch.empty(co, no, ig, ni, dtype=DT)
        for n in range(no):
            for m in range(ni):
                WHs[:, n, :, m] = S[n * ni + m].reshape(ig, co).T
        W = P["weight"]  # (co, 1, *ks)
        K = torch.stack([samp(W.reshape(co, *ks), n).reshape(co, 1, *ks) for n in range(no)], 1)
        return (WHs, K), cond, tie
    W = P["weight"].reshape(gridH.shape[0], -1)
    S, cond = sample_group(c["grp"], rel, W, gridH, c["gmode"], w)
    K = torch.empty(co, no, ig, ni, *ks, dtype=DT)
    for n in range(no):
        for m in range(ni):
            Ws = samp(S[n * ni + m].reshape(ig * co, *ks), n)
            K[:, n, :, m] = Ws.reshape(ig, co, *ks).transpose(0, 1)
    return K, cond, tie


# ------------------------------------------------------------------ convolution


def pad_ref(x, lefts, rights, mode, D):
    """pads the last D dimensions by explicit index arithmetic"""
    for d in range(x.ndim - D, x.ndim):
        left, right = (v[d - x.ndim + D] if isinstance(v, (list, tuple)) else v for v in (lefts, rights))
        n = x.shape[d]
        i = torch.arange(-left, n + right)
        if mode == "zeros":
            ok = (i >= 0) & (i < n)
            j = i.clamp(0, n - 1)
        else:
            ok = torch.ones_like(i, dtype=torch.bool)
            if mode == "circular":
                j = i % n
            elif mode == "replicate":
                j = i.clamp(0, n - 1)
            else:  # reflect, without repeating the edge
                j = i.abs()
                j = torch.where(j > n - 1, 2 * (n - 1) - j, j)
        x = x.index_select(d, j)
        shape = [1] * x.ndim
        shape[d] = -1
        x = x * ok.to(x.dtype).reshape(shape)
    return x


def paddings(c, D):
    """(left, right) padding of every dimension"""
    if c["padding"] == "same":
        t = [v * (c["k"] - 1) for v in per_dim(c["dilation"], D)]
        return [v // 2 for v in t], [v - v // 2 for v in t]
    p = per_dim(0 if c["padding"] == "valid" else c["padding"], D)
    return p, p


def per_dim(v, D):
    return list(v) if isinstance(v, (list, tuple)) else [v] * D


def windows(c, x, D):
    """yields (kernel offset, input values seen by it at every output position)"""
    x = pad_ref(x, *paddings(c, D), c["pmode"], D)
    dil, strd = per_dim(c["dilation"], D), per_dim(c["stride"], D)
    n = [(s - dil[d] * (c["k"] - 1) - 1) // strd[d] + 1 for d, s in enumerate(x.shape[-D:])]
    for off in itertools.product(range(c["k"]), repeat=D):
        sl = tuple(slice(o * dil[d], o * dil[d] + (n[d] - 1) * strd[d] + 1, strd[d]) for d, o in enumerate(off))
        yield off, x[(..., *sl)]


def ref_conv(c, K, x, bias=None):
    """The correlation a layer with sampled kernel(s) K computes."""
    D = GROUPS[c["grp"]].D
    g = c["groups"]
    co, ig = c["cout"], c["cin"] // g
    og = co // g
    outs = []
    if c["kind"] == "sep":
        WH, W = K
        h = []
        for o in range(co):
            q = o // og
            h.append(torch.einsum("ncm,bcm...->bn...", WH[o].reshape(WH.shape[1], ig, -1), x[:, q * ig : (q + 1) * ig]))
        h = torch.stack(h, 1)
        y = 0
        for off, v in windows(c, h, D):
            y = y + v * W[(slice(None), slice(None), 0, *off)].reshape(1, co, -1, *[1] * D)
    else:
        for o in range(co):
            q = o // og
            y = 0
            for off, v in windows(c, x[:, q * ig : (q + 1) * ig], D):
                if c["kind"] == "lift":
                    y = y + torch.einsum("nc,bc...->bn...", K[(o, slice(None), slice(None), *off)], v)
                else:
                    y = y + torch.einsum(
                        "ncm,bcm...->bn...", K[(o, slice(None), slice(None), slice(None), *off)], v
                    )
            outs.append(y)
        y = torch.stack(outs, 1)
    if bias is not None:
        y = y + bias.reshape(1, co, *[1] * (D + 1))
    return y
