"""C24: everything runs on the device asked for, or on that of its arguments."""
from __future__ import annotations

import copy
import functools
import math
import traceback

import torch
import torch.nn as nn
from hypothesis import strategies as st

import gconv.gnn as gnn
import gconv.gnn.functional as gF
from gconv.geometry import interpolation, o2, o3, repulsion, so2, so3
from gconv.geometry.groups import s2

from ..core import SEEDS, Violation, facet, fail, pair_ok, rand, randn
from ..device import DEV, Dev, emulated, up, values
from ..grp import GROUPS, rand_quat, rand_rot3
from ..layers import KERNELS, build, call, gks_pair
from .c22 import args_of, base

DT = torch.float64
PI = math.pi
with emulated():  # what torch loads for its first operation, once rather than in every forked case
    gF.create_grid_R2(3, device=DEV)


def hosted(check):
    """A failure that a real device would not show (an operation the emulation cannot host) makes the case trivial."""

    @functools.wraps(check)
    def run(case):
        try:
            return check(case)
        except Violation:
            raise
        except (RuntimeError, NotImplementedError, TypeError) as e:
            at = traceback.extract_tb(e.__traceback__)[-1]
            msg = str(e)
            if any(s in msg for s in ("same device", "numpy", "keyword", "positional")) or (at.line or "").startswith(("raise", "assert")) \
                    and not at.filename.endswith("device.py"):
                raise
            return False, ["operation the emulation cannot host"]

    return run


def leaves(x, out=None):
    out = [] if out is None else out
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            leaves(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            leaves(y, out)
    return out


def compare(got, want, on_dev, what):
    """the same values on the right device; bit for bit, or up to rounding where kernels may be fused"""
    got, want = leaves(got), leaves(want)
    if len(got) != len(want):
        fail(f"{what}: {len(got)} tensors instead of {len(want)}")
    for a, b in zip(got, want):
        if isinstance(a, Dev) != on_dev:
            fail(f"{what} is on the {'CPU' if on_dev else 'device'} instead of the {'device' if on_dev else 'CPU'}")
        a = values(a).detach()
        if a.shape != b.shape or a.dtype != b.dtype:
            fail(f"{what}: {tuple(a.shape)} {a.dtype} on the device, {tuple(b.shape)} {b.dtype} on the CPU")
        b = b.detach()
        if a.numel() == 0 or not a.dtype.is_floating_point:
            if not torch.equal(a, b):
                fail(f"{what}: other values than on the CPU")
            continue
        if not torch.equal(torch.isnan(a), torch.isnan(b)):
            fail(f"{what}: other NaN than on the CPU")
        a, b = a.nan_to_num(), b.nan_to_num()
        tol = 1e-9 if a.dtype == DT else 2e-5
        err = float((a - b).abs().max())
        if not err <= tol * max(1.0, float(b.abs().max())):
            fail(f"{what}: off by {err:.2e} from the values on the CPU")


# ------------------------------------------------------------------ functions that create

PAR = ("quat", "matrix", "euler")
MAKERS = {  # name: (function of (size, device keyword), sizes)
    "so2.uniform_grid": lambda n, o, kw: so2.uniform_grid(n, **kw),
    "so2.random_grid": lambda n, o, kw: so2.random_grid(n, **kw),
    "o2.uniform_grid": lambda n, o, kw: o2.uniform_grid((n, o), **kw),
    "o2.random_grid": lambda n, o, kw: o2.random_grid(n, **kw),
    "so3.random_quat": lambda n, o, kw: so3.random_quat((n, o), **kw),
    "so3.random_matrix": lambda n, o, kw: so3.random_matrix((n, o), **kw),
    "so3.random_euler": lambda n, o, kw: so3.random_euler((n, o), **kw),
    "so3.uniform_grid": lambda n, o, kw: so3.uniform_grid(n, PAR[o % 3], show_pbar=False, **kw),
    "so3.uniform_grid-optimised": lambda n, o, kw: so3.uniform_grid(25 + n, PAR[o % 3], steps=1 + o % 3, show_pbar=False, **kw),
    "o3.uniform_grid": lambda n, o, kw: o3.uniform_grid((n, o), matrix_only=False, **kw),
    "o3.uniform_grid-matrices": lambda n, o, kw: o3.uniform_grid((n, o), matrix_only=True, **kw),
    "o3.random_grid": lambda n, o, kw: o3.random_grid((n, o), **kw),
    "s2.random_s2": lambda n, o, kw: s2.random_s2((n, o), **kw),
    "s2.uniform_grid_s2": lambda n, o, kw: s2.uniform_grid_s2(1 + n, ("euclidean", "spherical", "euler")[o % 3] , steps=1 + o % 3, show_pbar=False, **kw),
    "so3.identity": lambda n, o, kw: so3.identity(**kw),
    "so3.klein_group": lambda n, o, kw: so3.klein_group(**kw),
    "so3.tetrahedral": lambda n, o, kw: so3.tetrahedral(**kw),
    "so3.octahedral": lambda n, o, kw: so3.octahedral(**kw),
    "so3.icosahedral": lambda n, o, kw: so3.icosahedral(**kw),
    "so3.cyclic_x": lambda n, o, kw: so3.cyclic_x(n, **kw),
    "so3.cyclic_y": lambda n, o, kw: so3.cyclic_y(n, **kw),
    "so3.cyclic_z": lambda n, o, kw: so3.cyclic_z(n, **kw),
    "so3.cyclic": lambda n, o, kw: so3.cyclic(n, "xyzXYZ"[o % 6], **kw),
    "create_grid_R2": lambda n, o, kw: gF.create_grid_R2(n, **kw),
    "create_grid_R3": lambda n, o, kw: gF.create_grid_R3(n, **kw),
    "create_spherical_mask_R2": lambda n, o, kw: gF.create_spherical_mask_R2(n, **kw),
    "create_spherical_mask_R3": lambda n, o, kw: gF.create_spherical_mask_R3(n, **kw),
}
WHERE = ("meta", "device", "cpu", "none", "omitted")


def where_kw(w):
    return {"meta": dict(device="meta"), "device": dict(device=DEV), "cpu": dict(device="cpu"), "none": dict(device=None), "omitted": {}}[w]


MAKER_CASES = st.fixed_dictionaries(dict(calls=st.lists(st.fixed_dictionaries(dict(
    f=st.sampled_from(sorted(MAKERS)), n=st.integers(1, 9), o=st.integers(1, 6), w=st.sampled_from(WHERE),
    default=st.sampled_from(("float32", "float32", "float64")))), min_size=1, max_size=4), seed=SEEDS))


@facet("C24", "creation", MAKER_CASES, quick=300, thorough=5000, isolated=True, rule="some result belongs on the device",
       about="Whatever was requested before and where, grids, random elements, finite groups, coordinate grids and masks are created on the device asked"
             " for (the CPU by default) with the values of the CPU.")
@hosted
def creation(case):
    some = False
    for i, c in enumerate(case["calls"]):
        f = MAKERS[c["f"]]
        dev = c["w"] in ("meta", "device")
        some |= dev
        torch.set_default_dtype(getattr(torch, c["default"]))
        torch.manual_seed(case["seed"] + i)
        with emulated():
            got = f(c["n"], c["o"], where_kw(c["w"]))
        torch.manual_seed(case["seed"] + i)
        compare(got, f(c["n"], c["o"], {}), dev, f"{c['f']}(device {c['w']})")
        torch.set_default_dtype(torch.float32)
    return some, [c["f"] for c in case["calls"]] + [c["w"] for c in case["calls"]]


# ------------------------------------------------------------------ functions of tensors


def shp(c):
    return [c["n"]] if c["flat"] else [c["n"], c["m"]]


def euler(c, s=0):
    return 2 * PI * rand(c["seed"] + s, *shp(c), 3)


def quats(c, s=0):
    q = rand_quat(c["seed"] + s, math.prod(shp(c)))
    return q.reshape(*shp(c), 4)


def mats(c, s=0):
    return rand_rot3(c["seed"] + s, math.prod(shp(c))).reshape(*shp(c), 3, 3)


def angles(c, s=0):
    return 2 * PI * rand(c["seed"] + s, c["n"], 1)


def E2(c, s=0):
    return GROUPS["E2"].elems(c["seed"] + s, c["n"])


def E3(c, s=0):
    return GROUPS["E3"].elems(c["seed"] + s, c["n"])


def vec(c, D, s=9):
    return randn(c["seed"] + s, *[c["m"]] * D, D)


def special(c, s=0):
    """rotations with a gimbal lock, half turns and the identity among them"""
    R = rand_rot3(c["seed"] + s, c["n"] + 3)
    R[0] = torch.eye(3, dtype=DT)
    R[1] = torch.diag(torch.tensor([1.0, -1.0, -1.0], dtype=DT))
    R[2] = torch.diag(torch.tensor([-1.0, -1.0, 1.0], dtype=DT))
    return R


def sphere(c, s=0):
    return torch.nn.functional.normalize(randn(c["seed"] + s, *shp(c), 3), dim=-1)


def signal(c, n, s=20):
    return randn(c["seed"] + s, n, c["m"])


def parities(c):
    return GROUPS["E2"].ref_grid(c["seed"], [c["n"], c["m"]])


FUNCS = {
    "matrix_x": (so3.matrix_x, lambda c: [euler(c)[..., 0]]),
    "matrix_y": (so3.matrix_y, lambda c: [euler(c)[..., 0]]),
    "matrix_z": (so3.matrix_z, lambda c: [euler(c)[..., 0]]),
    "quat_inverse": (so3.quat_inverse, lambda c: [quats(c)]),
    "matrix_inverse": (so3.matrix_inverse, lambda c: [mats(c)]),
    "left_apply_quat": (so3.left_apply_quat, lambda c: [quats(c), quats(c, 1)]),
    "euler_to_quat": (so3.euler_to_quat, lambda c: [euler(c)]),
    "euler_to_matrix": (so3.euler_to_matrix, lambda c: [euler(c)]),
    "matrix_to_quat": (so3.matrix_to_quat, lambda c: [special(c)]),
    "matrix_to_euler": (so3.matrix_to_euler, lambda c: [special(c)]),
    "matrix_to_euler-2": (so3.matrix_to_euler, lambda c: [mats(c)]),
    "quat_to_matrix": (so3.quat_to_matrix, lambda c: [quats(c)]),
    "quat_to_euler": (so3.quat_to_euler, lambda c: [quats(c)]),
    "so3.left_apply_to_R3": (so3.left_apply_to_R3, lambda c: [mats(c), vec(c, 3)]),
    "left_apply_matrix": (so3.left_apply_matrix, lambda c: [mats(c), mats(c, 1)]),
    "left_apply_to_matrix": (so3.left_apply_to_matrix, lambda c: [special(c), special(c, 1)]),
    "so3_log": (so3.so3_log, lambda c: [special(c)]),
    "quaternion_log": (so3.quaternion_log, lambda c: [quats(dict(c, flat=True))]),
    "so3.geodesic_distance": (so3.geodesic_distance, lambda c: [quats(c), quats(c, 1)]),
    "so3.nearest_neighbour_distance": (so3.nearest_neighbour_distance, lambda c: [special(c)]),
    "so3.nearest_neighbour_distance-quat": (so3.nearest_neighbour_distance, lambda c: [rand_quat(c["seed"], c["n"] + 1)]),
    "angle_to_matrix": (so2.angle_to_matrix, lambda c: [angles(c)]),
    "angle_to_euclid": (so2.angle_to_euclid, lambda c: [angles(c)]),
    "inverse_matrix": (so2.inverse_matrix, lambda c: [so2.angle_to_matrix(angles(c))]),
    "inverse_angle": (so2.inverse_angle, lambda c: [angles(c)]),
    "so2.left_apply_angle": (so2.left_apply_angle, lambda c: [angles(c), angles(c, 1)]),
    "so2.left_apply_to_angle": (so2.left_apply_to_angle, lambda c: [angles(c), angles(c, 1)]),
    "left_apply_angle_to_R2": (so2.left_apply_angle_to_R2, lambda c: [angles(c), vec(c, 2)]),
    "left_apply_matrix_to_R2": (so2.left_apply_matrix_to_R2, lambda c: [so2.angle_to_matrix(angles(c)), vec(c, 2)]),
    "so2.geodesic_distance_euclid": (so2.geodesic_distance_euclid, lambda c: [so2.angle_to_euclid(angles(c)), so2.angle_to_euclid(angles(c, 1))]),
    "so2.geodesic_distance": (so2.geodesic_distance, lambda c: [angles(c), angles(c, 1)]),
    "so2.nearest_neighbour_distance": (so2.nearest_neighbour_distance, lambda c: [angles(c)]),
    "o2.inverse": (o2.inverse, lambda c: [E2(c)]),
    "o2.det": (o2.det, lambda c: [E2(c)]),
    "o2.left_apply_angle": (o2.left_apply_angle, lambda c: [E2(c), E2(c, 1)]),
    "o2.left_apply_to_angle": (o2.left_apply_to_angle, lambda c: [E2(c), E2(c, 1)]),
    "o2.left_apply_to_R2": (o2.left_apply_to_R2, lambda c: [E2(c), vec(c, 2)]),
    "o3.left_apply_O3": (o3.left_apply_O3, lambda c: [E3(c), E3(c, 1)]),
    "o3.left_apply_to_O3": (o3.left_apply_to_O3, lambda c: [E3(c), E3(c, 1)]),
    "o3.left_apply_to_R3": (o3.left_apply_to_R3, lambda c: [E3(c), vec(c, 3)]),
    "o3.det": (o3.det, lambda c: [E3(c)]),
    "o3.inverse": (o3.inverse, lambda c: [E3(c)]),
    "spherical_to_euclid": (s2.spherical_to_euclid, lambda c: [euler(c)[..., :2]]),
    "euclid_to_spherical": (s2.euclid_to_spherical, lambda c: [sphere(c)]),
    "geodesic_distance_s2": (s2.geodesic_distance_s2, lambda c: [sphere(c), sphere(c, 1)]),
    "spherical_to_euler": (s2.spherical_to_euler, lambda c: [euler(dict(c, flat=True))[..., :2]]),
    "spherical_to_euler_neg_gamma": (s2.spherical_to_euler_neg_gamma, lambda c: [euler(dict(c, flat=True))[..., :2]]),
    "columb_energy": (repulsion.columb_energy, lambda c: [rand(c["seed"], c["n"], c["m"]) + 0.1]),
    "RBF_gauss": (interpolation.RBF_gauss, lambda c: [rand(c["seed"], c["n"], c["m"]), 0.5]),
    "so2.grid_sample": (so2.grid_sample, lambda c: [angles(c), signal(c, c["n"]), GROUPS["SE2"].ref_grid(c["seed"], c["n"]), c["mode"]]),
    "o2.grid_sample": (o2.grid_sample, lambda c: [E2(c), signal(c, c["n"] + c["m"]), parities(c), (c["n"], c["m"]), c["mode"]]),
    "so3.grid_sample": (so3.grid_sample, lambda c: [rand_rot3(c["seed"], c["n"]), signal(c, c["n"]), GROUPS["SE3"].ref_grid(c["seed"], c["n"]), c["mode"]]),
    "so3.grid_sample-quat": (so3.grid_sample, lambda c: [rand_quat(c["seed"], c["n"]), signal(c, c["n"]), rand_quat(c["seed"] + 1, c["n"]), c["mode"]]),
    "o3.grid_sample": (o3.grid_sample, lambda c: [E3(c), signal(c, c["n"] + c["m"]), GROUPS["E3"].ref_grid(c["seed"], [c["n"], c["m"]]), (c["n"], c["m"]), c["mode"]]),
    "gF.grid_sample": (gF.grid_sample, lambda c: [randn(c["seed"], c["n"], c["m"], 3, 3), 2 * rand(c["seed"] + 1, c["n"], 3, 3, 2) - 1, "bilinear", "border"]),
    "repulse": (lambda g, **k: repulsion.repulse(g, steps=2, metric_fn=so3.geodesic_distance, transform_fn=so3.euler_to_quat, show_pbar=False, **k),
                lambda c: [euler(dict(c, flat=True))]),
    "repulse-in-place": (lambda g: repulsion.repulse(g, steps=2, metric_fn=so3.geodesic_distance, transform_fn=so3.euler_to_quat, show_pbar=False,
                                                     in_place=True), lambda c: [euler(dict(c, flat=True))]),
}
FUNC_CASES = st.fixed_dictionaries(dict(
    f=st.sampled_from(sorted(FUNCS)), n=st.integers(2, 6), m=st.integers(1, 4), flat=st.booleans(), mode=st.sampled_from(("rbf", "nearest")),
    f32=st.booleans(), seed=SEEDS))


@facet("C24", "functions", FUNC_CASES, quick=1200, thorough=12000, rule="every case",
       about="Conversions, products, actions, distances, logarithms, interpolation and repulsion of tensors on the device give the values of the CPU there, and leave"
             " their arguments where they are.")
@hosted
def functions(case):
    f, make = FUNCS[case["f"]]
    args = make(case)
    if case["f32"]:
        args = [a.float() if isinstance(a, torch.Tensor) else a for a in args]
    if case["f"] == "gF.grid_sample":
        kw = dict(mode=args[2], padding_mode=args[3])
        args, f = args[:2], lambda *a: gF.grid_sample(*a, **kw)
    want_args = [a.clone() if isinstance(a, torch.Tensor) else a for a in args]
    torch.manual_seed(case["seed"])
    want = f(*want_args)
    dargs = [up(a) for a in args]
    with emulated():
        torch.manual_seed(case["seed"])
        got = f(*dargs)
    compare(got, want, True, case["f"])
    for a, b in zip(dargs, want_args):
        if isinstance(b, torch.Tensor):
            compare(a, b, True, f"argument of {case['f']}")
    return True, [case["f"]]


# ------------------------------------------------------------------ layers


@st.composite
def layer_cases(draw):
    case = draw(base())
    case["permute"] = draw(st.booleans())
    case["given"] = draw(st.booleans())  # or the default output grid
    case["f32"] = draw(st.booleans())
    case["made"] = draw(st.booleans())  # created, or only moved, with the modes on
    case["back"] = draw(st.booleans())
    return case


def evaluate(m, c, x, Hin, Hout, given, seed):
    torch.manual_seed(seed)
    if c["kind"] == "lift":
        return pair_ok(m(x, Hout) if given else m(x))
    return pair_ok(m(x, Hin, Hout) if given else m(x, Hin))


@facet("C24", "convolutions", layer_cases(), quick=500, thorough=6000, rule="output not zero",
       about="A convolution moved to the device (and back) computes there: output, returned grid, gradients and sampled kernels are those of the CPU, with"
             " given and default grids and random permutation.")
@hosted
def layers(case):
    c = case["c"]
    dt = torch.float32 if case["f32"] else DT
    m = build(c, permute=case["permute"], dtype=dt)
    x, Hin, Hout = args_of(case, dt)
    seed = case["seed"]
    x1 = x.clone().requires_grad_()
    want, wH = evaluate(m, c, x1, Hin, Hout, case["given"], seed)
    want.square().sum().backward()
    grads = {n: p.grad for n, p in m.named_parameters()}
    with emulated():
        if case["made"]:
            md = build(c, permute=case["permute"], dtype=dt).to(DEV)
        else:
            md = copy.deepcopy(m).to(DEV)
        for p in md.parameters():
            p.grad = None
        xd, Hid, Hod = up(x).requires_grad_(), up(Hin), up(Hout)
        got, gH = evaluate(md, c, xd, Hid, Hod, case["given"], seed)
        compare(got, want, True, "output")
        compare(gH, wH, True, "returned grid")
        got.square().sum().backward()
        compare(xd.grad, x1.grad, True, "gradient of the input")
        for n, p in md.named_parameters():
            compare(p.grad, grads[n], True, f"gradient of {n}")
        for n, t in md.state_dict().items():
            if not isinstance(t, Dev):
                fail(f"{n} stayed on the CPU")
        with torch.no_grad():
            a = (Hout,) if c["kind"] == "lift" else (Hin, Hout)
            compare(md.kernel(*[up(t) for t in a]), m.kernel(*a), True, "sampled kernel")
        if case["back"]:
            md = md.to("cpu")
            got, gH = evaluate(md, c, x, Hin, Hout, case["given"], seed)
            compare(got, want, False, "output after moving back")
            compare(gH, wH, False, "returned grid after moving back")
    return float(want.detach().abs().max()) > 0, [c["kind"], c["grp"], "permuted" if case["permute"] else "fixed", "given" if case["given"] else "default"]


OTHERS = {
    "batch": lambda D, C: getattr(gnn, f"GBatchNorm{D}d")(C), "instance": lambda D, C: getattr(gnn, f"GInstanceNorm{D}d")(C, affine=True, track_running_stats=True),
    "relu": lambda D, C: gnn.GReLU(), "gelu": lambda D, C: gnn.GGELU(), "leaky": lambda D, C: gnn.GLeakyReLU(),
    "wrap": lambda D, C: gnn.GWrap(nn.Tanh()), "wrap-parameters": lambda D, C: gnn.GWrap(nn.PReLU(C)),
    "max": lambda D, C: getattr(gnn, f"GMaxSpatialPool{D}d")(2), "avg": lambda D, C: getattr(gnn, f"GAvgSpatialPool{D}d")(2),
    "adaptive-max": lambda D, C: getattr(gnn, f"GAdaptiveMaxSpatialPool{D}d")(2), "adaptive-avg": lambda D, C: getattr(gnn, f"GAdaptiveAvgSpatialPool{D}d")(2),
    "layer": None,
}
FINAL = ("GMaxGroupPool", "GAvgGroupPool", "GMaxGlobalPool", "GAvgGlobalPool", None)
NET_CASES = st.fixed_dictionaries(dict(D=st.sampled_from((2, 3)), mods=st.lists(st.sampled_from(sorted(OTHERS)), min_size=1, max_size=4), final=st.sampled_from(FINAL),
                                       train=st.booleans(), C=st.integers(1, 3), n=st.integers(1, 4), batch=st.integers(1, 3), seed=SEEDS))


@facet("C24", "other-modules", NET_CASES, quick=400, thorough=4000, rule="every case",
       about="Normalisations, activations, wrapped modules and pools moved to the device compute there, running statistics included.")
@hosted
def others(case):
    D, C = case["D"], case["C"]
    torch.manual_seed(case["seed"])
    size = [12] * D if D == 2 else [8] * D
    x = randn(case["seed"], case["batch"], C, case["n"], *size).float()
    H = randn(case["seed"] + 1, case["n"], 1).float()
    mods = []
    for k in case["mods"]:
        if k in ("max", "avg"):
            size = [s // 2 for s in size]
        if k.startswith("adaptive"):
            size = [2] * D
        if min(size) < 2:
            break
        mods.append(gnn.GLayerNorm(size) if k == "layer" else OTHERS[k](D, C))
    m = nn.ModuleList(mods + ([getattr(gnn, case["final"])()] if case["final"] else []))
    m.train(case["train"])
    md = copy.deepcopy(m)

    def run(m, x, H):
        for f in m:
            r = f(x, H)
            if type(r) is tuple:
                x, H = r
            else:
                x = r
        return x, H

    x1 = x.clone().requires_grad_()
    y, G = run(m, x1, H)
    y.square().sum().backward()
    with emulated():
        md = md.to(DEV)
        xd = up(x).requires_grad_()
        yd, Gd = run(md, xd, up(H))
        compare(yd, y, True, "output")
        compare(Gd, G, True, "returned grid")
        yd.square().sum().backward()
        compare(xd.grad, x1.grad, True, "gradient of the input")
        for (n, p), (_, q) in zip(md.named_parameters(), m.named_parameters()):
            if q.grad is not None:
                compare(p.grad, q.grad, True, f"gradient of {n}")
        for (n, p), (_, q) in zip(md.named_buffers(), m.named_buffers()):
            compare(p, q, True, f"buffer {n}")
    return True, case["mods"] + [str(case["final"])]
