"""C22: layers are pure functions of their arguments and parameters, sample by sample and group by group."""
from __future__ import annotations

import copy
import sys
import threading
import warnings

import torch
import torch.utils.checkpoint
from hypothesis import strategies as st

from ..core import SEEDS, close, facet, fail, pair_ok, randn, same, tensor_ok
from ..grp import GROUPS, PAIRS
from ..layers import BATCH, COUNT, KERNELS, build, call, configs, enlarge, fit, gks_pair, large, nearest_margin, pick_H, spatial_tie
from ..ref import near_tie, spatial_coords

DT = torch.float64
LAYOUTS = ("transposed", "strided", "offset", "flipped", "channels-last", "expanded")


@st.composite
def base(draw, nearest=True, xl=False, **kw):
    c = draw(configs(nearest=nearest, aniso=True, wide=True, **kw))
    D = GROUPS[c["grp"]].D
    case = dict(c=c, outs=draw(st.lists(st.integers(1, 3), min_size=D, max_size=D)), batch=draw(BATCH),
                nin=draw(COUNT[D]), nout=draw(COUNT[D]), seed=draw(SEEDS), hk=draw(st.sampled_from(PAIRS)))
    if case["hk"] == "same":
        case["nin"] = case["nout"]
    if xl:
        enlarge(draw, case, D, c)
    elif draw(st.integers(0, 9)) == 9:
        large(draw, case, D, c)
    return case


def args_of(case, dtype=DT, batch=None):
    c = case["c"]
    G = GROUPS[c["grp"]]
    x = randn(case["seed"], batch or case["batch"], c["cin"], *([case["nin"]] if c["kind"] != "lift" else []),
              *[fit(c, o, d=d) for d, o in enumerate(case["outs"])]).to(dtype)
    Hin, Hout = G.pair(case["seed"] + 1, case["nin"], case["nout"], case.get("hk", "random"))
    return x, Hin.to(dtype), Hout.to(dtype)


def run(m, c, x, Hin, Hout):
    return pair_ok(call(m, c, x, Hin, Hout))


def labels(case):
    c = case["c"]
    return [c["kind"], c["grp"]]


def equal(a, b, what, tol=1e-9):
    a, b = torch.nan_to_num(a.detach()), torch.nan_to_num(b.detach())
    close(a, b, tol, what, scale=max(1.0, float(b.abs().max()) if b.numel() else 1.0))


def layout(t, how):
    """a view with the same values and another memory layout"""
    if how == "transposed":
        return t.movedim(-1, 0).contiguous().movedim(0, -1)
    if how == "strided":
        big = torch.full((*t.shape[:-1], 2 * t.shape[-1]), 7.0, dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if how == "offset":
        big = torch.full((t.shape[0] + 2, *t.shape[1:]), 7.0, dtype=t.dtype)
        big[1:-1] = t
        return big[1:-1]
    if how == "flipped":  # permuted leading dimensions
        return t.permute(*reversed(range(t.ndim))).contiguous().permute(*reversed(range(t.ndim)))
    if how == "channels-last" and t.ndim in (4, 5):
        return t.contiguous(memory_format=torch.channels_last if t.ndim == 4 else torch.channels_last_3d)
    return t.clone()


# ------------------------------------------------------------------ purity over histories

OPS = ("same", "other-input", "other-grids", "train", "eval", "no_grad", "inference", "backward", "default-grid", "deepcopy",
       "kernel", "repr", "state_dict", "requires_grad", "edit-grids", "edit-input", "edit-parameters", "replace-parameters",
       "aliased", "round-trip", "permuted", "permuted-default")


@st.composite
def pure_cases(draw):
    c = draw(base())
    c["ops"] = draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=6))
    return c


@facet("C22", "pure-over-call-histories", pure_cases(), quick=1000, thorough=6000, budget=200,
       rule="at least two different operations before the last evaluation, and the output is not constant")
def purity(case):
    """Evaluating a layer with fixed grids gives bit-identical results whatever was called before (other inputs, other grids, train/eval
    switches, gradient-free or inference mode, backward passes, copies), and none of it changes the arguments, parameters or buffers."""
    c = case["c"]
    G = GROUPS[c["grp"]]
    m = build(c)
    x, Hin, Hout = args_of(case)
    x0, Hi0, Ho0 = x.clone(), Hin.clone(), Hout.clone()
    state = {k: v.clone() for k, v in m.state_dict().items()}
    y0, H0 = run(m, c, x, Hin, Hout)
    y0 = y0.detach().clone()
    same(H0, Ho0, "returned grid")

    def unchanged(what):
        for t, o, n in ((x, x0, "input"), (Hin, Hi0, "input grid"), (Hout, Ho0, "output grid")):
            same(t.detach(), o, f"{n} after {what}")
        now = m.state_dict()
        if set(now) != set(state):
            fail(f"state entries changed from {sorted(state)} to {sorted(now)} after {what}")
        for k, v in state.items():
            same(now[k], v, f"{k} after {what}")

    unchanged("the first evaluation")
    for i, op in enumerate(case["ops"]):
        y = None
        if op == "same":
            y = run(m, c, x, Hin, Hout)[0]
        elif op == "other-input":
            a = args_of(dict(case, seed=case["seed"] + 17 + i, batch=2, outs=[o + 1 for o in case["outs"]]))
            equal(run(m, c, *a)[0], run(build(c), c, *a)[0], "output for another input, against a new layer")
        elif op == "other-grids":  # of the same or of another size
            d = (case["seed"] + i) % 3 // 2
            a = args_of(dict(case, seed=case["seed"] + 23 + i, nin=case["nin"] + d, nout=case["nout"] + d))
            with torch.set_grad_enabled(bool(i % 2)):
                equal(run(m, c, *a)[0], run(build(c), c, *a)[0], "output for other grids, against a new layer")
        elif op in ("train", "eval"):
            m.train(op == "train")
            y = run(m, c, x, Hin, Hout)[0]
        elif op == "no_grad":
            with torch.no_grad():
                y = run(m, c, x, Hin, Hout)[0]
            if y.requires_grad:
                fail("output requires a gradient under no_grad")
        elif op == "inference":
            with torch.inference_mode():
                y = run(m, c, x, Hin, Hout)[0].clone()
            y = torch.tensor(y.tolist(), dtype=DT).reshape(y.shape)
        elif op == "backward":
            y = run(m, c, x, Hin, Hout)[0]
            y.sum().backward()
            m.zero_grad()
        elif op == "requires_grad":
            y = run(m, c, x.clone().requires_grad_(True), Hin, Hout)[0]
        elif op == "default-grid":
            with torch.no_grad():
                m(x) if c["kind"] == "lift" else m(x, Hin)
        elif op in ("permuted", "permuted-default"):  # the random grid is the only thing that is new
            m.permute_output_grid = True
            first = [] if op == "permuted-default" and c["kind"] == "lift" else [Hout] if c["kind"] == "lift" else [Hin] if op == "permuted-default" else [Hin, Hout]
            torch.manual_seed(case["seed"] + i)
            with torch.set_grad_enabled(bool(i % 2)):
                a, Ha = m(x, *first)
            unchanged(op)
            torch.manual_seed(case["seed"] + i)
            with torch.no_grad():
                b, Hb = m(x, *first)
            m.permute_output_grid = False
            same(Ha.detach(), Hb, "randomly permuted grid from the same seed")
            equal(a, b, "output on a randomly permuted grid from the same seed", 1e-11)
        elif op == "deepcopy":
            y = run(copy.deepcopy(m), c, x, Hin, Hout)[0]
        elif op == "kernel":
            m.kernel(Hout) if c["kind"] == "lift" else m.kernel(Hin, Hout)
        elif op == "repr":
            repr(m)
        elif op in ("edit-grids", "edit-input"):  # the tensors of an earlier call changed in place
            a = [t.clone() for t in (x, Hin, Hout)]
            if Hin is Hout:
                a[2] = a[1]
            b = args_of(dict(case, seed=case["seed"] + 41 + i))
            with torch.set_grad_enabled(bool(i % 2)):
                run(m, c, *a)
                for t, n in list(zip(a, b))[:1] if op == "edit-input" else list(zip(a, b))[1:]:
                    t.copy_(n)
                got = run(m, c, *a)[0].detach()
                want = run(build(c), c, *[t.clone() for t in a])[0].detach()
            equal(got, want, f"output after {op} in place, against a new layer")
        elif op in ("edit-parameters", "replace-parameters"):
            other = build(dict(c, seed=c["seed"] + 5 + i))
            with torch.no_grad():
                if op == "edit-parameters":
                    for p, n in zip(m.parameters(), other.parameters()):
                        p.copy_(n)
                elif i % 2:
                    for p, n in zip(m.parameters(), other.parameters()):
                        p.data = n.detach().clone()
                else:
                    m.load_state_dict({k: v.clone() for k, v in other.state_dict().items()})
                equal(run(m, c, x, Hin, Hout)[0], run(other, c, x, Hin, Hout)[0], f"output after {op}, against a new layer")
                m.load_state_dict(state)
        elif op == "aliased" and c["kind"] != "lift":  # input and output grid are one tensor, or equal tensors
            H = Hin.clone()
            with torch.no_grad():
                a = run(m, c, x, H, H)[0]
                b = run(m, c, x, H.clone(), H.clone())[0]
            equal(a, b, "output for one tensor as input and output grid")
        elif op == "round-trip":  # to another precision and back
            m.float()
            m.double()
            m.load_state_dict(state)
        elif op == "state_dict":
            m.load_state_dict(m.state_dict())
        if y is not None:
            equal(y, y0, f"output ({op})", 1e-11)
        unchanged(op)
    y, H = run(m, c, x, Hin, Hout)
    same(torch.nan_to_num(y.detach()), torch.nan_to_num(y0), f"output after {case['ops']}")
    same(H, Ho0, "returned grid")
    # the output is a fresh tensor: editing it changes nothing
    with torch.no_grad():
        y.mul_(3.0).add_(1.0)
    unchanged("editing the output")
    same(torch.nan_to_num(run(m, c, x, Hin, Hout)[0].detach()), torch.nan_to_num(y0), "output after editing an earlier output")
    return len(set(case["ops"])) >= 2 and y0.numel() > 1 and float(y0.std()) > 0, labels(case) + list(set(case["ops"]))


# ------------------------------------------------------------------ memory layout


@st.composite
def layout_cases(draw):
    c = draw(base())
    for k in ("lx", "li", "lo", "lw"):
        c[k] = draw(st.sampled_from(LAYOUTS))
    return c


@facet("C22", "memory-layout", layout_cases(), quick=500, thorough=6000, budget=200,
       rule="the input or a grid is not contiguous")
def layouts(case):
    """Strided, permuted, offset, channels-last and expanded views of input and grids, and non-contiguous parameters, give
    the result of their contiguous copies, which stay as they were."""
    c = case["c"]
    m = build(c)
    x, Hin, Hout = args_of(case)
    if case["lx"] == "expanded":
        xv = x[:1].expand(x.shape)
        x = xv.clone()
    else:
        xv = layout(x, case["lx"])
    if case["li"] == "expanded":
        iv = Hin[:1].expand(Hin.shape)
        Hin = iv.clone()
    else:
        iv = layout(Hin, case["li"])
    if case["lo"] == "expanded":
        ov = Hout[:1].expand(Hout.shape)
        Hout = ov.clone()
    else:
        ov = layout(Hout, case["lo"])
    if spatial_tie(c, Hout) or (c["kind"] != "lift" and c["gmode"] == "nearest" and nearest_margin(c, Hin, Hout, m.kernel.grid_H) < 1e-3):
        return False, ["tie"]  # vectorised and plain loops may round differently
    y0 = run(m, c, x, Hin, Hout)[0].detach()
    with torch.no_grad():
        y, H = run(m, c, xv, iv, ov)
    equal(y, y0, "output of views")
    close(H, Hout, 0.0, "returned grid of views")
    for v, o, n in ((xv, x, "input"), (iv, Hin, "input grid"), (ov, Hout, "output grid")):
        same(v, o, f"{n} view after evaluation")
    for p in m.parameters():
        if case["lw"] != "expanded" and p.ndim > 1:
            p.data = layout(p.data, case["lw"])
    with torch.no_grad():
        equal(run(m, c, x, Hin, Hout)[0], y0, "output with non-contiguous parameters")
    nc = not (xv.is_contiguous() and iv.is_contiguous() and ov.is_contiguous())
    return nc, labels(case) + [case["lx"]]


# ------------------------------------------------------------------ batches, channel groups, linearity


@st.composite
def batch_cases(draw):
    c = draw(base())
    c["n"] = draw(st.sampled_from((2, 3, 4, 5, 9, 20, 40)))
    c["pick"] = draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))
    c["hot"] = draw(st.sampled_from((None, "nan", "inf", "huge")))
    return c


@facet("C22", "samples-are-independent", batch_cases(), quick=500, thorough=6000, budget=200,
       rule="the batch has at least two different samples")
def batches(case):
    """The result of each sample is the same alone, in any sub-batch or order, or next to samples that contain NaN, infinity
    or huge values; an empty batch gives an empty result."""
    c, n = case["c"], case["n"]
    m = build(c)
    x, Hin, Hout = args_of(case, batch=n)
    with torch.no_grad():
        y = run(m, c, x, Hin, Hout)[0]
        idx = [i % n for i in case["pick"]]
        equal(run(m, c, x[idx], Hin, Hout)[0], y[idx], f"samples {idx} of a batch of {n}")
        for i in range(n):
            equal(run(m, c, x[i : i + 1], Hin, Hout)[0], y[i : i + 1], f"sample {i} alone")
        if case["hot"]:
            z = x.clone()
            z[n - 1] = {"nan": float("nan"), "inf": float("inf"), "huge": 1e200}[case["hot"]]
            yz = run(m, c, z, Hin, Hout)[0]
            equal(yz[: n - 1], y[: n - 1], f"other samples next to one of {case['hot']}")
        e = run(m, c, x[:0], Hin, Hout)[0]
        tensor_ok(e, (0, *y.shape[1:]), "result of an empty batch", y.dtype)
    return True, labels(case) + [str(case["hot"])]


@st.composite
def far_cases(draw):
    case = draw(base(nearest=False, xl=True))
    case["pick"] = draw(st.lists(st.integers(0, 600), min_size=1, max_size=3))
    case["lx"] = draw(st.sampled_from(LAYOUTS))
    return case


@facet("C22", "large", far_cases(), quick=400, budget=60, rule="output not identically zero")
def far(case):
    """With a size (grid, batch, image, channels, kernel) far beyond the usual: deterministic, independent of the memory layout, the
    mode and the other samples, without effect on arguments or state; single precision agrees."""
    c = case["c"]
    m = build(c)
    x, Hin, Hout = args_of(case)
    before = [t.clone() for t in (x, Hin, Hout, *m.state_dict().values())]
    with torch.no_grad():
        y = run(m, c, x, Hin, Hout)[0]
        same(run(m, c, x, Hin, Hout)[0], y, "second call")
        m.eval()
        equal(run(m, c, layout(x, case["lx"]) if case["lx"] != "expanded" else x, layout(Hin, "strided"), layout(Hout, "offset"))[0], y,
              f"eval mode, layout {case['lx']}")
        idx = [i % case["batch"] for i in case["pick"]]
        equal(run(m, c, x[idx], Hin, Hout)[0], y[idx], f"samples {idx} of a batch of {case['batch']}")
    equal(run(m, c, x, Hin, Hout)[0], y, "with gradients enabled")
    for a, b, n in zip((x, Hin, Hout, *m.state_dict().values()), before, ("input", "input grid", "output grid", *m.state_dict())):
        same(a, b, f"{n} after the calls")
    return float(y.abs().max()) > 1e-6, labels(case) + ["xl-" + case["xl"]]


@st.composite
def group_cases(draw):
    c = draw(base())
    g = draw(st.sampled_from((2, 3, 4)))
    c["c"]["groups"] = g
    c["c"]["cin"], c["c"]["cout"] = g * draw(st.integers(1, 2)), g * draw(st.integers(1, 2))
    return c


@facet("C22", "channel-groups-are-independent", group_cases(), quick=500, thorough=6000, budget=200,
       rule="at least two channel groups with different outputs")
def channel_groups(case):
    """A layer with g channel groups equals g single-group layers holding the respective slices of its parameters, applied to the
    respective input channels; with g groups, a change in one group of input channels changes no other group's output."""
    c = case["c"]
    g = c["groups"]
    m = build(c)
    x, Hin, Hout = args_of(case)
    i, o = c["cin"] // g, c["cout"] // g
    with torch.no_grad():
        y = run(m, c, x, Hin, Hout)[0]
        for q in range(g):
            c1 = dict(c, groups=1, cin=i, cout=o)
            m1 = build(c1)
            sd = {}
            for k, v in m.state_dict().items():
                if k == "kernel.weight_H" or (k == "kernel.weight" and c["kind"] == "full"):
                    # stored per group element as (in / g, out, *k), whatever the two shapes are called
                    n, _, _, *ks = v.shape
                    v = v.reshape(n, i, g * o, *ks)[:, :, q * o : (q + 1) * o].reshape(n, o, i, *ks)
                elif k in ("kernel.weight", "bias"):
                    v = v[q * o : (q + 1) * o]
                sd[k] = v
            m1.load_state_dict(sd)
            y1 = run(m1, c1, x[:, q * i : (q + 1) * i], Hin, Hout)[0]
            equal(y[:, q * o : (q + 1) * o], y1, f"channel group {q} of {g}")
        z = x.clone()
        q = case["seed"] % g
        z[:, q * i : (q + 1) * i] += 1.0
        yz = run(m, c, z, Hin, Hout)[0]
        keep = [k for k in range(c["cout"]) if k // o != q]
        equal(yz[:, keep], y[:, keep], f"other channel groups after changing group {q}")
    return float((y[:, :o] - y[:, o : 2 * o]).abs().max()) > 0, labels(case) + [f"g={g}"]


@st.composite
def linear_cases(draw):
    c = draw(base())
    c["a"] = draw(st.sampled_from((2.0, -1.0, 0.0, 0.5, -3.0)))
    c["b"] = draw(st.sampled_from((1.0, -2.0, 0.25)))
    return c


@facet("C22", "linear-in-the-input", linear_cases(), quick=400, thorough=4000, budget=150,
       rule="the linear part of the output is not zero")
def linear(case):
    """Up to the bias the layer is linear in its input: L(a x + b z) = a L(x) + b L(z), and a zero input gives the bias."""
    c, a, b = case["c"], case["a"], case["b"]
    m = build(c)
    x, Hin, Hout = args_of(case)
    z = args_of(dict(case, seed=case["seed"] + 9))[0]
    f = lambda t: run(m, c, t, Hin, Hout)[0].detach()
    zero = f(torch.zeros_like(x))
    want = m.state_dict().get("bias")
    D = GROUPS[c["grp"]].D
    want = torch.zeros(1, dtype=DT) if want is None else want.reshape(1, -1, *[1] * (D + 1))
    equal(zero, want.expand_as(zero), "output of a zero input")
    fx, fz = f(x) - zero, f(z) - zero
    equal(f(a * x + b * z) - zero, a * fx + b * fz, "linearity in the input")
    return float(fx.abs().max()) > 0, labels(case)


# ------------------------------------------------------------------ dtypes


@st.composite
def dtype_cases(draw):
    c = draw(base(nearest=True))
    cc = c["c"]
    if cc["kind"] != "lift":  # widths that keep the interpolation well conditioned in single precision
        cc["width"] = draw(st.sampled_from((0.3, 0.4))) if GROUPS[cc["grp"]].D == 2 else 0.3
    cc["ref"] = cc["ref"] if cc["ref"] is not None else 5
    if isinstance(cc["gks"], int):
        cc["gks"] = min(cc["gks"], 6)
    c["default"] = draw(st.booleans())
    return c


@facet("C22", "single-and-double-precision-agree", dtype_cases(), quick=300, thorough=4500, budget=200,
       rule="no query is close to a tie of nearest neighbour sampling, and the output is not zero")
def dtypes(case):
    """The same parameters and arguments in single precision give the double precision result up to rounding; output and returned
    grid have the dtype of the module, also when the default dtype is double or the module is converted back and forth."""
    c = case["c"]
    G = GROUPS[c["grp"]]
    m = build(c)
    x, Hin, Hout = args_of(case)
    g = m.state_dict()["kernel.grid_H"]
    if c["kind"] != "lift" and c["gmode"] == "nearest":
        Hin, Hout = pick_H(c, case["seed"], case["nin"], case["nout"], g, True)
        if Hin is None:
            return False, ["tie"]
    if c["smode"] == "nearest" and any(near_tie((c["k"],) * G.D, spatial_coords(c, o), 1e-3) for o in Hout):
        return False, ["tie"]
    m32 = copy.deepcopy(m).float()
    x32, i32, o32 = x.float(), Hin.float(), Hout.float()
    with torch.no_grad():
        y, _ = run(m, c, x, Hin, Hout)
        if case["default"]:
            torch.set_default_dtype(torch.float64)
        y32, H32 = run(m32, c, x32, i32, o32)
        torch.set_default_dtype(torch.float32)
        tensor_ok(y32, y.shape, "single precision output", torch.float32)
        tensor_ok(H32, Hout.shape, "returned single precision grid", torch.float32)
        tensor_ok(y, what="double precision output", dtype=DT)
        # rounding: inputs ~1e-7, interpolation amplifies; a wrong value is off by its own size
        close(y32, y, 2e-3, "single precision output", scale=max(1.0, float(y.abs().max())))
        m.float().double()
        yb, Hb = run(m, c, x, Hin, Hout)
        tensor_ok(yb, y.shape, "output after a round trip through float", DT)
        close(yb, y, 2e-3, "output after a round trip through float", scale=max(1.0, float(y.abs().max())))
    return float(y.abs().max()) > 0, labels(case) + [c["gmode"], c["smode"]]


# ------------------------------------------------------------------ other threads, functional transforms


@st.composite
def thread_cases(draw):
    c = draw(base())
    c["jobs"] = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), SEEDS), min_size=2, max_size=4))
    c["reps"] = draw(st.integers(3, 8))
    c["other"] = draw(configs(nearest=True, kinds=(c["c"]["kind"],), grps=(c["c"]["grp"],)))
    return c


@facet("C22", "concurrent-evaluations", thread_cases(), quick=250, thorough=3000, budget=120,
       rule="at least two threads evaluate one and the same layer on different inputs or grids")
def concurrent(case):
    """Several threads that evaluate one layer, or another layer of the same kind, with their own inputs and grids at the same time each
    get the results they get alone, forwards and backwards."""
    layers = [build(case["c"]), build(case["other"])]
    jobs = []
    for which, d, seed in case["jobs"]:
        c = case["other"] if which else case["c"]
        d = 0 if case["hk"] == "same" else d // 2
        a = args_of(dict(case, c=c, seed=seed, nin=case["nin"] + d, nout=case["nout"] + d, outs=case["outs"]))
        jobs.append((which, c, a))

    def work(which, c, a):
        x = a[0].clone().requires_grad_(True)
        y = run(layers[which], c, x, *a[1:])[0]
        g, = torch.autograd.grad(torch.nan_to_num(y).sum(), x)
        return y.detach(), g

    alone = [work(*j) for j in jobs]
    wrong, gate = [], threading.Barrier(len(jobs))

    def thread(i):
        try:
            gate.wait(30)
            for _ in range(case["reps"]):
                for got, want, n in zip(work(*jobs[i]), alone[i], ("output", "gradient of the input")):
                    equal(got, want, f"{n} next to other threads")
        except Exception as e:  # noqa: BLE001
            wrong.append((i, e))

    was = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(was)
    if wrong:
        fail(f"thread {wrong[0][0]} of {len(jobs)}: {type(wrong[0][1]).__name__}: {wrong[0][1]}")
    return len([j for j in jobs if j[0] == 0]) > 1, labels(case) + [f"threads-{len(jobs)}"]


TRANSFORMS = ("functional-call", "functional-grad", "vmap", "checkpoint", "input-grad", "ensemble", "trace", "hessian")


@st.composite
def transform_cases(draw):
    c = draw(base())
    c["how"] = draw(st.sampled_from(TRANSFORMS))
    return c


@facet("C22", "functional-transforms", transform_cases(), quick=400, thorough=4000, budget=120,
       rule="the output is not constant")
def transforms(case):
    """Evaluating a layer through functional_call with other parameters, under vmap (over samples, or over the parameters of several
    layers), the functional gradient or a checkpoint that recomputes it, or as a trace recorded with another input, gives the results and
    gradients of evaluating it in the ordinary way; second derivatives are symmetric."""
    c, how = case["c"], case["how"]
    x, Hin, Hout = args_of(case)
    m, other = build(c), build(dict(c, seed=c["seed"] + 9))
    names = dict(other.named_parameters())
    state = {**{k: v.detach().clone() for k, v in names.items()}, **{k: v.clone() for k, v in other.named_buffers()}}
    args = (x, Hout) if c["kind"] == "lift" else (x, Hin, Hout)
    want = run(other, c, x, Hin, Hout)[0]
    w = randn(case["seed"] + 3, *want.shape).to(want.dtype)
    before = {k: v.clone() for k, v in m.state_dict().items()}
    if how == "functional-call":
        equal(pair_ok(torch.func.functional_call(m, state, args))[0], want, "functional_call with other parameters")
    elif how == "functional-grad":
        ps = {k: state[k] for k in names}
        bs = {k: v for k, v in state.items() if k not in names}
        got = torch.func.grad(lambda p: (torch.func.functional_call(m, {**p, **bs}, args)[0] * w).nan_to_num().sum())(ps)
        ref = torch.autograd.grad((want * w).nan_to_num().sum(), list(names.values()), allow_unused=True)
        for (k, p), r in zip(names.items(), ref):
            equal(got[k], torch.zeros_like(p) if r is None else r, f"functional gradient of {k}", 1e-8)
    elif how == "vmap":
        got = torch.func.vmap(lambda s: other(s[None], *args[1:])[0][0])(x)
        equal(got, want, "one sample at a time under vmap")
    elif how == "checkpoint":
        xs = [x.clone().requires_grad_(True) for _ in range(2)]
        a = torch.utils.checkpoint.checkpoint(lambda t: other(t, *args[1:])[0], xs[0], use_reentrant=False)
        b = other(xs[1], *args[1:])[0]
        equal(a, b, "output under a checkpoint")
        ps = list(names.values())
        for n, g, r in zip(("input", *names), torch.autograd.grad((a * w).nan_to_num().sum(), [xs[0], *ps], allow_unused=True),
                           torch.autograd.grad((b * w).nan_to_num().sum(), [xs[1], *ps], allow_unused=True)):
            if (g is None) != (r is None):
                fail(f"gradient of the {n} is {'missing' if g is None else 'there'} under a checkpoint")
            if r is not None:
                equal(g, r, f"gradient of the {n} under a checkpoint", 1e-8)
    elif how == "ensemble":
        third = build(dict(c, seed=c["seed"] + 17))
        ps = {k: torch.stack([p.detach(), dict(third.named_parameters())[k].detach()]) for k, p in names.items()}
        bs = {k: v for k, v in state.items() if k not in names}
        if ps:
            got = torch.func.vmap(lambda p: torch.func.functional_call(m, {**p, **bs}, args)[0])(ps)
            equal(got, torch.stack([want, run(third, c, x, Hin, Hout)[0]]), "two layers at a time under vmap")
    elif how == "trace":
        z = randn(case["seed"] + 4, *x.shape).to(x.dtype)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tr = torch.jit.trace(other, (z, *args[1:]), check_trace=False)
            equal(pair_ok(tr(*args))[0], want, "a trace recorded with another input")
    elif how == "hessian":
        ps = [p for p in names.values()]
        x1 = x.clone().requires_grad_(True)
        loss = (torch.tanh(run(other, c, x1, Hin, Hout)[0].nan_to_num()) * w).sum()
        xs = [x1, *ps]
        gs = torch.autograd.grad(loss, xs, create_graph=True, allow_unused=True)
        us, vs = ([randn(case["seed"] + 5 + 100 * j + i, *t.shape).to(t.dtype) for i, t in enumerate(xs)] for j in (0, 1))
        prods = []
        for a, b in ((us, vs), (vs, us)):
            s = sum((g * q).sum() for g, q in zip(gs, a) if g is not None)
            hs = torch.autograd.grad(s, xs, retain_graph=True, allow_unused=True)
            terms = [(h * q) for h, q in zip(hs, b) if h is not None]
            prods.append((sum(float(t.sum()) for t in terms), sum(float(t.abs().sum()) for t in terms)))
        (p, mag), (q, _) = prods
        if not abs(p - q) <= 1e-7 * max(1.0, mag):
            fail(f"second derivatives are not symmetric: {p} and {q}")
    else:  # forward and reverse mode agree on the input
        d = randn(case["seed"] + 4, *x.shape).to(x.dtype)
        f = lambda t: other(t, *args[1:])[0].nan_to_num()  # noqa: E731
        _, jv = torch.func.jvp(f, (x,), (d,))
        _, back = torch.func.vjp(f, x)
        gx, = back(w)
        p, q = float((jv * w).sum()), float((gx * d).sum())
        if abs(p - q) > 1e-7 * max(1.0, float((jv * w).abs().sum())):
            fail(f"forward and reverse mode derivatives of the input differ: {p} and {q}")
    for k, v in before.items():
        same(m.state_dict()[k], v, f"{k} of the layer after {how}")
    return want.numel() > 1 and float(want.detach().nan_to_num().std()) > 0, labels(case) + [how]
