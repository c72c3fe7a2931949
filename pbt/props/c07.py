"""C07: SO(3) conversions preserve the rotation."""
from __future__ import annotations

import math
import warnings

import torch
from hypothesis import strategies as st

from gconv.geometry import so3
from gconv.geometry.groups import s2

from .. import batch, rots
from ..core import SEEDS, close, facet, fail, randn, tensor_ok
from ..grp import quat_mat

DT = torch.float64
STEP = {
    ("quat", "matrix"): so3.quat_to_matrix, ("quat", "euler"): so3.quat_to_euler, ("matrix", "quat"): so3.matrix_to_quat,
    ("matrix", "euler"): so3.matrix_to_euler, ("euler", "quat"): so3.euler_to_quat, ("euler", "matrix"): so3.euler_to_matrix,
}
LAST = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}
PARAMS = ("matrix", "quat", "euler")


def euler_mat(g):
    """reference: Rz(gamma) Ry(beta) Rz(alpha)"""
    f = g.reshape(-1, 3)
    out = [rots.zyz(float(a), float(b), float(c)) for a, b, c in f]
    return (torch.stack(out) if out else torch.zeros(0, 3, 3, dtype=DT)).reshape(*g.shape[:-1], 3, 3)


def to_mat(x, p):
    x = x.double()
    if p == "matrix":
        return x
    return quat_mat(x / x.norm(dim=-1, keepdim=True)) if p == "quat" else euler_mat(x)


def from_mat(R, p, seed):
    if p == "matrix":
        return R
    if p == "quat":
        q = rots.quat_ref(R)
        s = torch.sign(randn(seed, *q.shape[:-1], 1))  # either of the two quaternions
        return q * torch.where(s == 0, 1.0, s)
    q = rots.quat_ref(R)  # independent Euler angles: beta from the quaternion, alpha and gamma from sums
    w, x, y, z = q.unbind(-1)
    b = 2 * torch.atan2(torch.hypot(x, y), torch.hypot(w, z))
    s, d = 2 * torch.atan2(z, w), 2 * torch.atan2(x, y)
    return torch.stack(((s + d) / 2, b, (s - d) / 2), -1)


def valid(x, p, shape, dtype, tol, what):
    tensor_ok(x, (*shape, *LAST[p]), what, dtype)
    if not x.numel():
        return
    if p == "quat":
        e = float((x.double().norm(dim=-1) - 1).abs().max())
        if e > tol:
            fail(f"{what}: quaternion norms differ from one by {e:.2e}")
    if p == "matrix":
        xd = x.double()
        e = float((xd @ xd.mT - torch.eye(3, dtype=DT)).abs().max())
        d = float((torch.linalg.det(xd) - 1).abs().max())
        if e > tol or d > tol:
            fail(f"{what}: not a rotation matrix (orthonormality error {e:.2e}, determinant error {d:.2e})")


def sin_beta(R):
    return torch.hypot(R[..., 0, 2], R[..., 1, 2])


@st.composite
def chains(draw, maxlen=4):
    b = draw(rots.batch())
    start = draw(st.sampled_from(PARAMS))
    chain = [start]
    for _ in range(draw(st.integers(1, maxlen))):
        chain.append(draw(st.sampled_from([p for p in PARAMS if p != chain[-1]])))
    return dict(b=b, chain=chain, f32=draw(st.booleans()), seed=draw(SEEDS), view=draw(st.booleans()))


def tolerance(chain, R, f32):
    """per-rotation bound on the matrix error, from the precision of the representation"""
    n = len(chain)
    if "euler" not in chain:
        return torch.full(R.shape[:-2], n * (2e-6 if f32 else 1e-10), dtype=DT)
    # gimbal locked rotations may be moved by the lock threshold (1e-5); near the lock the angles are
    # determined by entries of size sin(beta)
    noise = 5e-7 if f32 else 1e-15
    if chain.count("euler") > 1:  # euler_to_matrix zeroes entries below its eps of 1e-6
        noise = 2e-6
    return n * (4e-5 + (5e-6 if f32 else 0.0) + 4 * noise / sin_beta(R).clamp(min=1e-5))


def check_chain(case):
    """Any chain of conversions of any batch of rotations yields the same rotations and valid elements."""
    R = rots.tensor(case["b"])
    shape = case["b"]["shape"]
    chain = case["chain"]
    dt = torch.float32 if case["f32"] else DT
    x = from_mat(R, chain[0], case["seed"]).to(dt)
    if case["view"]:  # non-contiguous argument
        x = torch.stack((x, x), -1)[..., 0]
    what = "->".join(chain) + f" on shape {tuple(shape)}"
    tol = tolerance(chain, R, case["f32"])
    for a, b in zip(chain, chain[1:]):
        x0 = x.clone()
        y = STEP[a, b](x)
        if not torch.equal(x, x0):
            fail(f"{what}: {a}_to_{b} modified its input")
        valid(y, b, shape, dt, 1e-4 if case["f32"] else 3e-6, f"{what}, step {a}_to_{b}")
        x = y
    got = to_mat(x, chain[-1])
    err = (got - R).abs().amax((-1, -2))
    bad = err > tol
    if bool(bad.any()):
        i = int((err - tol).flatten().argmax())
        fail(f"{what}: rotation {case['b']['rots'][i]} came back {float(err.flatten()[i]):.2e} off (bound {float(tol.flatten()[i]):.1e})")
    kinds = sorted({r[0] for r in case["b"]["rots"]})
    return len(case["b"]["rots"]) > 0, kinds + [f"shape{tuple(shape)}", "f32" if case["f32"] else "f64"]


ANG = st.one_of(st.sampled_from([k * math.pi / 2 for k in range(-4, 5)]), st.floats(-7, 7, allow_nan=False).map(lambda v: round(v, 6)))


def check_euler_convention(case):
    """Euler angles of any size are extrinsic z (alpha), y (beta), z (gamma) rotations."""
    g = torch.tensor(case["g"], dtype=DT).reshape(-1, 3)
    want = euler_mat(g)
    valid(m := so3.euler_to_matrix(g), "matrix", [len(g)], DT, 1e-5, "euler_to_matrix")
    close(m, want, 3e-6, f"euler_to_matrix({case['g']})", scale=1.0)
    valid(q := so3.euler_to_quat(g), "quat", [len(g)], DT, 1e-5, "euler_to_quat")
    close(quat_mat(q), want, 1e-5, f"euler_to_quat({case['g']})", scale=1.0)
    for f, ax in ((so3.matrix_x, 0), (so3.matrix_y, 1), (so3.matrix_z, 2)):
        t = g.reshape(-1)
        for v in (t, t.reshape(-1, 3), t[0]):
            m = f(v)
            tensor_ok(m, (*v.shape, 3, 3), f.__name__, DT)
            w = torch.stack([rots.axis_angle(rots.basis(ax), float(a)) for a in v.reshape(-1)]).reshape(*v.shape, 3, 3)
            close(m, w, 1e-12, f"{f.__name__}({v.tolist()})", scale=1.0)
    return bool((g != 0).any()), []


WARN = st.fixed_dictionaries(dict(
    locked=st.lists(st.tuples(st.booleans(), st.integers(0, 4), SEEDS).map(list), max_size=3),
    free=st.lists(st.tuples(st.floats(0.01, 3.13).map(lambda v: round(v, 4)), SEEDS).map(list), max_size=4),
    order=SEEDS, shape=st.integers(0, 3), f32=st.booleans(), silent=st.booleans(), quat=st.booleans()))


def check_warning(case):
    """A gimbal lock warning exactly when some rotation of the batch is locked, unless silenced; gamma is then zero."""
    items = []
    for up, t, s in case["locked"]:
        b = (0.0, 1e-12, 1e-9, 1e-7, 1e-6)[t]
        a, g = (float(v) * 6 for v in torch.rand(2, generator=torch.Generator().manual_seed(s), dtype=DT))
        items.append((rots.zyz(a, math.pi - b if up else b, g), True))
    for b, s in case["free"]:
        a, g = (float(v) * 6 for v in torch.rand(2, generator=torch.Generator().manual_seed(s), dtype=DT))
        items.append((rots.zyz(a, b, g), False))
    if not items:
        return False, ["empty"]
    perm = torch.randperm(len(items), generator=torch.Generator().manual_seed(case["order"])).tolist()
    items = [items[i] for i in perm]
    R = torch.stack([m for m, _ in items])
    lock = torch.tensor([l for _, l in items])
    if case["shape"] == 1:
        R, lock = R[None], lock[None]
    elif case["shape"] == 2:
        R, lock = R[:, None], lock[:, None]
    elif case["shape"] == 3:
        R, lock = R[0], lock[0]
    R = R.to(torch.float32 if case["f32"] else DT)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if case["quat"]:
            g = so3.quat_to_euler(so3.matrix_to_quat(R))
        else:
            g = so3.matrix_to_euler(R, no_warn=True) if case["silent"] else so3.matrix_to_euler(R)
    tensor_ok(g, (*R.shape[:-2], 3), "Euler angles")
    n = sum("imbal" in str(x.message) or "imble" in str(x.message) for x in w)
    want = bool(lock.any()) and not (case["silent"] and not case["quat"])
    if case["quat"] and case["f32"]:
        pass  # rounding in the quaternion decides about the lock
    elif (n > 0) != want:
        fail(f"gimbal lock warning {'missing' if want else 'given'} for {int(lock.sum())} locked of {lock.numel()} rotations"
             f" of shape {tuple(R.shape)}, silenced={case['silent']}")
    if not case["quat"] and bool(lock.any()):
        z = g[lock][..., 2]
        if bool((z != 0).any()):
            fail(f"third angle of gimbal locked rotations is {z.tolist()}, documented to be zero")
    return bool(lock.any()), [f"locked{int(lock.sum())}", f"of{lock.numel()}"]


facet("C07", "chains", chains(), quick=2500, rule="non-empty batch")(check_chain)
facet("C07", "single-step", chains(maxlen=1), quick=1500, rule="non-empty batch")(check_chain)
facet("C07", "euler-convention", st.fixed_dictionaries(dict(g=st.lists(st.tuples(ANG, ANG, ANG).map(list), min_size=1, max_size=4))),
      quick=700, rule="some angle not zero")(check_euler_convention)
facet("C07", "gimbal-warning", WARN, quick=1500, rule="some rotation locked")(check_warning)


DIRS = st.fixed_dictionaries(dict(
    d=st.lists(st.one_of(st.tuples(st.just("rand"), SEEDS), st.tuples(st.just("axis"), st.integers(0, 5)),
                         st.tuples(st.just("nearz"), SEEDS)).map(list), min_size=0, max_size=6),
    shape=st.integers(0, 2), f32=st.booleans(), big=st.booleans(), seed=SEEDS))


def direction(d):
    if d[0] == "axis":
        return rots.basis(d[1] % 3) * (1 if d[1] < 3 else -1)
    v = randn(d[1], 3)
    if d[0] == "nearz":
        v[:2] *= 1e-3
    return v / v.norm()


def check_sphere(case):
    """Spherical and Euclidean coordinates name the same direction; rotations of spherical coordinates move the z axis there."""
    v = torch.stack([direction(d) for d in case["d"]]) if case["d"] else torch.zeros(0, 3, dtype=DT)
    n = len(v)
    dt = torch.float32 if case["f32"] else DT
    tol = 2e-3 if case["f32"] else 1e-7  # arc cosine at the poles
    w = v.to(dt)
    if case["shape"] == 1:
        w = w[None]
    elif case["shape"] == 2 and n:
        w = w[0]
    w0 = w.clone()
    g = s2.euclid_to_spherical(w)
    tensor_ok(g, (*w.shape[:-1], 2), "euclid_to_spherical", dt)
    if not torch.equal(w, w0):
        fail("euclid_to_spherical modified its input")
    gd = g.double()
    if n and (float(gd[..., 0].min()) < 0 or float(gd[..., 0].max()) > math.pi + 1e-6 or float(gd[..., 1].abs().max()) > math.pi + 1e-6):
        fail(f"spherical coordinates out of range: {g.tolist()}")

    def ref(x):
        x = x.double()
        return torch.stack((x[..., 0].sin() * x[..., 1].cos(), x[..., 0].sin() * x[..., 1].sin(), x[..., 0].cos()), -1)

    close(ref(g), w0.double(), tol, "direction of euclid_to_spherical", scale=1.0)
    if case["big"]:  # coordinates outside the usual range name a direction, too
        g = g + 4 * randn(case["seed"], *g.shape, dtype=dt)
    u = s2.spherical_to_euclid(g)
    tensor_ok(u, (*g.shape[:-1], 3), "spherical_to_euclid", dt)
    close(u, ref(g), 1e-5 if case["f32"] else 1e-12, "spherical_to_euclid", scale=1.0)
    if g.ndim == 2:
        for fn, sign in ((s2.spherical_to_euler, 0.0), (s2.spherical_to_euler_neg_gamma, -1.0)):
            e = fn(g)
            tensor_ok(e, (len(g), 3), fn.__name__, dt)
            want = torch.stack((sign * g[:, 1], g[:, 0], g[:, 1]), -1)
            close(e, want, 1e-7, fn.__name__, scale=1.0)
            close(euler_mat(e.double())[..., 2], ref(g), 1e-5 if case["f32"] else 1e-12, f"image of the z axis under {fn.__name__}", scale=1.0)
    return n > 0, ["f32" if case["f32"] else "f64", f"shape{case['shape']}"]


facet("C07", "sphere", DIRS, quick=1200, rule="not empty")(check_sphere)


BATCH = {
    "quat_to_matrix": (so3.quat_to_matrix, ["quat"], "elem", "raw"), "quat_to_euler": (so3.quat_to_euler, ["quat"], "elem", "euler"),
    "matrix_to_quat": (so3.matrix_to_quat, ["mat"], "elem", "quat"), "matrix_to_euler": (so3.matrix_to_euler, ["mat"], "elem", "euler"),
    "euler_to_quat": (so3.euler_to_quat, ["euler"], "elem", "quat"), "euler_to_matrix": (so3.euler_to_matrix, ["euler"], "elem", "raw"),
    "matrix_x": (so3.matrix_x, ["theta"], "elem", "raw"), "matrix_y": (so3.matrix_y, ["theta"], "elem", "raw"),
    "matrix_z": (so3.matrix_z, ["theta"], "elem", "raw"), "spherical_to_euclid": (s2.spherical_to_euclid, ["spher"], "elem", "raw"),
    "euclid_to_spherical": (s2.euclid_to_spherical, ["unit3"], "elem", "spher"), "spherical_to_euler": (s2.spherical_to_euler, ["spher"], "one", "euler"),
    "spherical_to_euler_neg_gamma": (s2.spherical_to_euler_neg_gamma, ["spher"], "one", "euler"),
}
facet("C07", "large-batches", batch.strategy(BATCH), quick=900, rule="more than three elements")(batch.checker(BATCH, (1e-7, 1e-3)))
facet("C07", "half-precision", batch.half_strategy(BATCH), quick=500, rule="more than one element")(batch.half_checker(BATCH))


EPS = st.sampled_from((0.0, 1e-12, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1))
THRESH = st.fixed_dictionaries(dict(b=rots.batch(), eps=EPS, f32=st.booleans(), seed=SEEDS, ratio=st.sampled_from((0.0, 0.5, 0.9, 1.1, 2.0, 30.0)),
                                    up=st.booleans(), silent=st.booleans(), turns=st.integers(0, 2)))


def check_threshold(case):
    """Whatever numerical threshold is passed, conversions move a rotation by no more than a small multiple of that threshold (beyond rounding), and the threshold
    of the conversion to Euler angles is where gimbal lock starts."""
    R, eps = rots.tensor(case["b"]), case["eps"]
    gen = torch.Generator().manual_seed(case["seed"])
    lead = R.shape[:-2]
    # further rotations with beta at a chosen ratio of the threshold from the lock
    b = case["ratio"] * max(eps, 1e-9)
    ag = 6 * torch.rand(2, 2, generator=gen, dtype=DT)
    more = torch.stack([rots.zyz(float(ag[i, 0]), math.pi - b if case["up"] else b, float(ag[i, 1])) for i in range(2)])
    dt = torch.float32 if case["f32"] else DT
    rnd = 2e-6 if case["f32"] else 1e-12

    def check(got, want, lim, what):
        tensor_ok(got, want.shape, what)
        if not want.numel():
            return
        e = (got - want).abs().amax((-1, -2)) - lim
        if bool((e > 0).any()):
            fail(f"{what} with eps={eps}: rotation off by {float((got - want).abs().max()):.2e}, allowed {float(torch.as_tensor(lim).max()):.1e}")

    for X in (R, more, more[0]):
        if case["eps"] < 0.1:  # a threshold of the size of the entries itself is of no use
            g = from_mat(X, "euler", case["seed"]) + 2 * math.pi * case["turns"] * torch.ones(3, dtype=DT)
            gt = g.to(dt)
            W = euler_mat(gt.double())
            check(so3.euler_to_matrix(gt, eps).double(), W, 1.01 * eps + 5 * rnd, "euler_to_matrix")
            q = so3.euler_to_quat(gt, eps=eps)
            tensor_ok(q, (*X.shape[:-2], 4), "euler_to_quat", dt)
            check(to_mat(q, "quat") if q.numel() else X, W, 10 * eps + 50 * rnd, "euler_to_quat")
        if case["f32"] and eps < 1e-4:
            continue  # rounding of the matrix itself decides
        arg = X.to(dt)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e = so3.matrix_to_euler(arg, eps, no_warn=True) if case["silent"] else so3.matrix_to_euler(arg, eps=eps)
        tensor_ok(e, (*X.shape[:-2], 3), "matrix_to_euler", dt)
        sb = sin_beta(X)
        noise = 8 * (5e-7 if case["f32"] else 1e-15) / sb.clamp(min=max(eps, 1e-15))
        lock = (sb < eps) & (eps > 0)
        if eps > 0:
            check(euler_mat(e.double()), X, torch.where(sb < 1.2 * eps, 2.1 * eps, 0.0) + noise + 20 * rnd, "matrix_to_euler")
        beta = torch.atan2(sb, X[..., 2, 2].abs())  # distance of the middle angle from the lock
        sure = beta.numel() == 0 or bool(((beta - eps).abs() > 1e-3 * eps + 10 * (3e-7 if case["f32"] else 1e-15)).all())
        if sure and eps > 0:
            n = sum("imbal" in str(x.message) or "imble" in str(x.message) for x in w)
            lock = beta < eps
            want = bool(lock.any()) and not case["silent"]
            if (n > 0) != want:
                fail(f"gimbal lock warning {'missing' if want else 'given'} with eps={eps}, rotations {beta.tolist()} away from the lock")
            if bool(lock.any()) and bool((e[lock][..., 2] != 0).any()):
                fail(f"third angle of gimbal locked rotations is not zero with eps={eps}")
            if not case["silent"] and bool((~lock).any()) and case["ratio"] > 1 and X is not R and not bool((e[~lock][..., 2] != 0).any()):
                fail(f"third angle of rotations that are not gimbal locked is zero with eps={eps}")
    return True, [f"eps{eps}", f"ratio{case['ratio']}"]


facet("C07", "thresholds", THRESH, quick=1200, rule="every case")(check_threshold)
