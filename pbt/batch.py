"""Large, oddly laid out batches: an elementwise function of tensors gives for every batch what it gives element by element.

The other facets of C07 to C10 judge values on small contiguous batches; this one extends them to batches of any size, shape,
memory layout and autograd mode by comparing with the evaluation of a few elements at a time.
"""
from __future__ import annotations

import math
import warnings

import torch
from hypothesis import strategies as st

from .core import SEEDS, close, fail, rand, randn, tensor_ok
from .grp import quat_mat

DT = torch.float64
SIZES = (3, 1, 2, 4, 5, 7, 9, 17, 33, 65, 130, 400, 1200)
SHAPES = ((), (2, 3), (3, 1), (1, 70), (3, 1, 4), (2, 2, 2, 3), (40, 30), (3, 20), (4, 5, 7), (1, 1, 1, 2))


def units(seed, n, d):
    v = randn(seed, n, d)
    return v / v.norm(dim=-1, keepdim=True)


def special_quats(seed, n):
    q = units(seed, n, 4)
    for i, s in enumerate(((1.0, 0, 0, 0), (0, 1.0, 0, 0), (0.5, 0.5, -0.5, 0.5), (math.sqrt(0.5), 0, math.sqrt(0.5), 0))):
        j = (seed >> 3) % 97 + 11 * i
        if j < n:
            q[j] = torch.tensor(s, dtype=DT)
    return q


def angles(seed, n, d, how):
    a = rand(seed, n, d)
    if how == 1:  # all negative, several turns
        return -40 * a - 0.1
    if how == 2:  # all tiny
        return 1e-4 * (a - 0.5)
    if how == 3:  # whole numbers of radians
        return (20 * a).round() - 10
    if how == 4:
        return (a * 8).floor() * (math.pi / 4)
    return (a - 0.5) * 2 * math.pi


def build(kind, seed, n, how):
    """n elements of a kind, double precision"""
    if kind == "quat":
        return special_quats(seed, n)
    if kind == "q4":
        return special_quats(seed, n) * torch.exp(randn(seed + 1, n, 1))
    if kind == "mat":
        return quat_mat(special_quats(seed, n))
    if kind == "generic":  # no half turns, whose logarithm has two values
        q = units(seed, n, 4)
        q[:, 0] += torch.sign(q[:, 0]) * 0.05
        return quat_mat(q / q.norm(dim=-1, keepdim=True))
    if kind == "euler":
        return angles(seed, n, 3, how)
    if kind == "theta":
        return angles(seed, n, 1, how)[:, 0]
    if kind == "angle":
        return angles(seed, n, 1, how)
    c = torch.where(rand(seed + 2, n, 1) < 0.5, -1.0, 1.0).to(DT) if how != 1 else -torch.ones(n, 1, dtype=DT)
    if kind == "o2":
        return torch.cat((c, angles(seed, n, 1, how)), -1)
    if kind == "o3":
        return torch.cat((c, quat_mat(special_quats(seed, n)).flatten(-2)), -1)
    if kind == "rot2":
        a = angles(seed, n, 1, how)[:, 0]
        return torch.stack((torch.cos(a), -torch.sin(a), torch.sin(a), torch.cos(a)), -1).unflatten(-1, (2, 2))
    if kind == "unit2":
        return units(seed, n, 2)
    if kind == "unit3":
        return units(seed, n, 3)
    if kind == "spher":
        a = angles(seed, n, 2, how)
        return a
    raise ValueError(kind)


def zyz(g):
    c, s = torch.cos(g), torch.sin(g)
    o, z = torch.ones_like(c[..., 0]), torch.zeros_like(c[..., 0])

    def rz(i):
        return torch.stack((c[..., i], -s[..., i], z, s[..., i], c[..., i], z, z, z, o), -1).unflatten(-1, (3, 3))
    ry = torch.stack((c[..., 1], z, s[..., 1], z, o, z, -s[..., 1], z, c[..., 1]), -1).unflatten(-1, (3, 3))
    return rz(2) @ ry @ rz(0)


MEANING = {
    "raw": lambda x: x,
    "quat": lambda q: q[..., :, None] * q[..., None, :],
    "euler": zyz,
    "angle": lambda a: torch.cat((torch.cos(a), torch.sin(a)), -1),
    "o2": lambda x: torch.cat((x[..., :1], torch.cos(x[..., 1:]), torch.sin(x[..., 1:])), -1),
    "spher": lambda g: torch.stack((torch.sin(g[..., 0]) * torch.cos(g[..., 1]), torch.sin(g[..., 0]) * torch.sin(g[..., 1]), torch.cos(g[..., 0])), -1),
}
LAYOUTS = ("plain", "transposed", "offset", "step", "wide", "expanded")


def lay(x, nb, how):
    """the same values in another memory layout; nb batch dimensions"""
    if how == "transposed" and x.ndim > 1:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "offset":
        y = torch.cat((x.reshape(1, *x.shape).new_zeros(1, *x.shape), x[None]))
        return y[1]
    if how == "step" and nb:
        y = x.new_zeros(2 * x.shape[0] + 1, *x.shape[1:])
        y[1::2] = x
        return y[1::2]
    if how == "wide" and x.ndim > nb:
        y = x.new_zeros(*x.shape[:-1], x.shape[-1] + 2)
        y[..., 1:-1] = x
        return y[..., 1:-1]
    if how == "expanded" and nb:
        return x[:1].expand_as(x)
    return x.contiguous()


def strategy(funcs):
    names = list(funcs)

    @st.composite
    def strat(draw):
        f = draw(st.sampled_from(names))
        mode = funcs[f][2]
        many = draw(st.booleans())
        if mode == "elem" and not many:
            shape = draw(st.sampled_from(SHAPES))
        else:
            shape = (draw(st.sampled_from(SIZES)),)
        if mode == "elem" and draw(st.integers(0, 60)) == 60:
            shape = (draw(st.sampled_from((12500, 26000))),)
        return dict(f=f, shape=list(shape), m=draw(st.sampled_from(SIZES[:-2])), seed=draw(SEEDS), how=draw(st.integers(0, 4)),
                    f32=draw(st.booleans()), lay=[draw(st.sampled_from(LAYOUTS)) for _ in range(2)],
                    mode=draw(st.sampled_from(("plain", "no_grad", "inference", "requires_grad"))), same=draw(st.integers(0, 4)) == 0,
                    grid=[draw(st.sampled_from((1, 2, 3, 5, 7))) for _ in range(3)])
    return strat()


def checker(funcs, slack=(1e-10, 2e-5)):
    def check(case):
        """A function of a batch of any size, shape, memory layout and autograd mode gives what it gives for a few elements at a time."""
        fn, kinds, mode, result = funcs[case["f"]]
        seed, how = case["seed"], case["how"]
        dt = torch.float32 if case["f32"] else DT
        shape, tol = tuple(case["shape"]), slack[case["f32"]]
        n = math.prod(shape)
        args, ls = [], list(case["lay"])
        for i, k in enumerate(kinds):
            if i and case["same"] and kinds[0] == k and mode in ("elem", "pair"):
                args.append(args[0])
                continue
            if mode == "grid" and i:
                D = int(k[-1])
                x = (2 * rand(seed + 7, *case["grid"][:D], D) - 1).to(dt)
                args.append(lay(x, D, ls[i] if ls[i] != "expanded" else "plain"))
                continue
            cnt = case["m"] if mode == "pair" and i else n
            x = build(k, seed + 5 * i, cnt, how).to(dt)
            x = x.reshape((*(shape if not (mode == "pair" and i) else (cnt,)), *x.shape[1:]))
            nb = len(shape) if not (mode == "pair" and i) else 1
            if ls[i] == "expanded" and nb and x.shape[0] > 1 and cnt > 400:
                ls[i] = "plain"
            args.append(lay(x, nb, ls[i]))
        if case["mode"] == "requires_grad":
            done = {}
            args = [done.setdefault(id(a), a.detach().requires_grad_()) for a in args]
        before = [a.detach().clone() for a in args]
        what = f"{case['f']} of shapes {[tuple(a.shape) for a in args]} ({case['mode']}, {ls[:len(args)]}, {'f32' if case['f32'] else 'f64'})"
        ctx = {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(case["mode"], torch.enable_grad)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with ctx():
                y = fn(*args)
            y = tensor_ok(y, None, what, dt).detach().clone()
            for a, b in zip(args, before):
                if not torch.equal(a.detach(), b):
                    fail(f"{what}: modified its arguments")
            M = MEANING[result]

            def compare(got, want, at):
                close(M(got.double()), M(want.double()), tol, f"{what}: elements {at} against themselves alone", scale=max(1.0, float(M(want.double()).abs().max()) if want.numel() else 1.0))

            pick = torch.randperm(n, generator=torch.Generator().manual_seed(seed)).tolist()
            idx = sorted({*range(min(n, 4)), *range(max(0, n - 4), n), *pick[:40]})
            if mode in ("elem", "one"):
                flat = [b.reshape((n, *b.shape[len(shape):])) for b in before]
                if y.shape[:len(shape)] != shape:
                    fail(f"{what}: result has shape {tuple(y.shape)}")
                yf = y.reshape(n, *y.shape[len(shape):])
                for c in range(0, len(idx), 3):
                    ix = idx[c:c + 3]
                    compare(yf[ix], fn(*(b[ix].clone() for b in flat)), ix)
            elif mode == "pair":
                A, B = before
                m = B.shape[0]
                if y.shape[:2] != (n, m):
                    fail(f"{what}: result has shape {tuple(y.shape)}")
                jdx = sorted({0, m - 1, *torch.randperm(m, generator=torch.Generator().manual_seed(seed + 1)).tolist()[:7]})
                for c in range(0, len(idx), 3):
                    ix = idx[c:c + 3]
                    compare(y[ix][:, jdx], fn(A[ix].clone(), B[jdx].clone()), (ix, jdx))
            else:
                A, G = before
                if y.shape != (n, *G.shape):
                    fail(f"{what}: result has shape {tuple(y.shape)}")
                gx = sorted({0, G.shape[0] - 1})
                for c in range(0, len(idx), 3):
                    ix = idx[c:c + 3]
                    compare(y[ix][:, gx], fn(A[ix].clone(), G[gx].clone()), (ix, gx))
        return n > 3, [case["f"], case["mode"], *ls[:len(args)]]
    return check


# ------------------------------------------------------------------ half precision
HALF = {"f16": torch.float16, "bf16": torch.bfloat16}


def half_strategy(funcs):
    names = list(funcs)
    return st.fixed_dictionaries(dict(f=st.sampled_from(names), n=st.sampled_from((1, 2, 5, 9, 40)), m=st.sampled_from((1, 3, 9)), seed=SEEDS,
                                      t=st.sampled_from(sorted(HALF)), lay=st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=2),
                                      mode=st.sampled_from(("plain", "no_grad", "requires_grad")), grid=st.lists(st.sampled_from((1, 2, 3, 5)), min_size=3, max_size=3)))


def half_checker(funcs):
    def check(case):
        """Half precision in, half precision out: what double precision gives for the same numbers, up to the half precision of the result."""
        fn, kinds, mode, result = funcs[case["f"]]
        seed, n, dt = case["seed"], case["n"], HALF[case["t"]]
        args = []
        for i, k in enumerate(kinds):
            nb = 1
            if mode == "grid" and i:
                D = int(k[-1])
                x, nb = 2 * rand(seed + 7, *case["grid"][:D], D) - 1, D
            elif k in ("quat", "q4", "mat", "generic", "o3"):  # no special elements, where small errors of the input are large ones of the output
                q = units(seed + 5 * i, case["m"] if mode == "pair" and i else n, 4)
                q[:, 0] = q[:, 0].abs() + 0.3
                q = q / q.norm(dim=-1, keepdim=True)
                c = torch.where(rand(seed + 2 + i, len(q), 1) < 0.5, -1.0, 1.0).to(DT)
                x = {"quat": q, "q4": 1.5 * q, "o3": torch.cat((c, quat_mat(q).flatten(-2)), -1)}.get(k, quat_mat(q))
            else:
                x = build(k, seed + 5 * i, case["m"] if mode == "pair" and i else n, 0)
            x = x.to(dt)
            how = case["lay"][i]
            args.append(lay(x, nb, how if how != "expanded" or not (mode == "grid" and i) else "plain"))
        if case["mode"] == "requires_grad":
            args = [a.detach().requires_grad_() for a in args]
        what = f"{case['f']} of shapes {[tuple(a.shape) for a in args]} in {case['t']}"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = fn(*(a.detach().double() for a in args))
            with torch.no_grad() if case["mode"] == "no_grad" else torch.enable_grad():
                try:
                    y = fn(*args)
                except (RuntimeError, NotImplementedError) as e:
                    if "not implemented for" in str(e):  # nothing torch can do in this precision
                        return False, [case["f"], "not in torch"]
                    raise
        y = tensor_ok(y, want.shape, what, dt).detach()
        a, b = MEANING[result](y.double()), MEANING[result](want)
        err = (a - b).abs().flatten()
        if n > 4:  # (single results may be where acos and atan2 lose half the digits)
            med = float(err.median()) / max(1.0, float(b.abs().max()))
            if not med <= (0.03 if case["t"] == "f16" else 0.15):
                fail(f"{what}: the middle deviation from the result in double precision is {med:.3g}")
        return n > 1, [case["f"], case["t"], case["mode"]]
    return check
