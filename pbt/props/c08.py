"""C08: group operations satisfy the group and action laws."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import o2, o3, so2, so3

from .. import batch, rots
from ..core import SEEDS, Violation, close, facet, fail, known_matcher, randn, tensor_ok
from ..grp import GROUPS, quat_mat, rot2

DT = torch.float64


class Ops:
    """The library's operations on one representation, and its meaning as linear maps."""

    def __init__(self, name, D, elem, to_map, identity, mul, inv, pair=None, act=None, det=None, batched_act=False):
        self.name, self.D, self.elem, self.to_map, self.identity = name, D, elem, to_map, identity
        self.mul, self.inv, self.pair, self.act, self.det, self.batched_act = mul, inv, pair, act, det, batched_act


ANG = st.one_of(
    st.sampled_from([k * math.pi / 4 for k in range(8)]), SEEDS.map(lambda s: s / 2**20 * 2 * math.pi),
    st.sampled_from((-0.3, 7.0, -6.2, 12.9)))
COEFF = st.sampled_from((1.0, -1.0))
EL = {
    "so2": ANG.map(lambda a: [a]),
    "o2": st.tuples(COEFF, ANG).map(list),
    "so3": rots.rotation,
    "o3": st.tuples(COEFF, rots.rotation).map(list),
}


def build_elems(grp, ds, seed):
    """stored elements (n, ...) of a list of descriptions"""
    if grp == "angle":
        return torch.tensor(ds, dtype=DT).reshape(-1, 1)
    if grp == "matrix2":
        return rot2(torch.tensor(ds, dtype=DT).reshape(-1))
    if grp == "o2":
        return torch.tensor(ds, dtype=DT).reshape(-1, 2)
    if grp == "matrix3":
        return rots.matrices(ds)
    if grp == "quat":
        q = rots.quat_ref(rots.matrices(ds))
        s = torch.sign(randn(seed, q.shape[0], 1))
        return q * torch.where(s == 0, 1.0, s)
    c = torch.tensor([d[0] for d in ds], dtype=DT).reshape(-1, 1)
    return torch.cat((c, rots.matrices([d[1] for d in ds]).flatten(-2)), -1)


def o3_map(H):
    return H[..., 0, None, None] * H[..., 1:].unflatten(-1, (3, 3))


REPS = {
    "angle": Ops("SO(2) angles", 2, "so2", lambda x: rot2(x[..., 0]), torch.zeros(1, dtype=DT), so2.left_apply_angle,
                 so2.inverse_angle, so2.left_apply_to_angle, so2.left_apply_angle_to_R2),
    "matrix2": Ops("SO(2) matrices", 2, "so2", lambda x: x, torch.eye(2, dtype=DT), torch.matmul, so2.inverse_matrix, None,
                   so2.left_apply_matrix_to_R2),
    "o2": Ops("O(2)", 2, "o2", lambda x: x[..., 0, None, None] * rot2(x[..., 1]), torch.tensor([1.0, 0.0], dtype=DT),
              o2.left_apply_angle, o2.inverse, o2.left_apply_to_angle, o2.left_apply_to_R2, o2.det),
    "matrix3": Ops("SO(3) matrices", 3, "so3", lambda x: x, torch.eye(3, dtype=DT), so3.left_apply_matrix, so3.matrix_inverse,
                   so3.left_apply_to_matrix, so3.left_apply_to_R3, None, True),
    "quat": Ops("SO(3) quaternions", 3, "so3", quat_mat, torch.tensor([1.0, 0, 0, 0], dtype=DT), so3.left_apply_quat, so3.quat_inverse),
    "o3": Ops("O(3)", 3, "o3", o3_map, torch.cat((torch.ones(1, dtype=DT), torch.eye(3, dtype=DT).flatten())), o3.left_apply_O3,
              o3.inverse, o3.left_apply_to_O3, o3.left_apply_to_R3, o3.det, True),
}
ELDIM = {"angle": 1, "matrix2": 2, "o2": 1, "matrix3": 2, "quat": 1, "o3": 1}


@st.composite
def strat(draw, reps=tuple(REPS), maxn=4):
    rep = draw(st.sampled_from(reps))
    e = EL[REPS[rep].elem]
    n, m = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    return dict(rep=rep, a=[draw(e) for _ in range(n)], b=[draw(e) for _ in range(m)], seed=draw(SEEDS),
                grid=[draw(st.integers(1, 3)) for _ in range(REPS[rep].D)], lay=draw(st.integers(0, 4)), f32=draw(st.booleans()))


def lab(case):
    return [case["rep"], f"n{len(case['a'])}", f"m{len(case['b'])}"]


def elems(case, which):
    x = build_elems(case["rep"], case[which], case["seed"] + (which == "b"))
    return x.float() if case["f32"] else x


def tol_of(case):
    return 3e-6 if case["f32"] else 1e-12


def valid(rep, x, shape, what, dtype, tol):
    """result is a stored element of the group with the given batch shape"""
    O = REPS[rep]
    tensor_ok(x, (*shape, *O.identity.shape), what, dtype)
    M = O.to_map(x.double())
    e = float((M @ M.mT - torch.eye(O.D, dtype=DT)).abs().max()) if M.numel() else 0
    if e > 10 * tol:
        fail(f"{what}: not orthogonal (error {e:.1e})")
    if O.elem in ("o2", "o3") and not bool((x[..., 0].abs() == 1).all()):
        fail(f"{what}: reflection coefficients {x[..., 0].flatten().tolist()}")
    return M


def check_product(case):
    """Products (broadcast and pairwise) are the composition of the linear maps; so are inverses and the identity."""
    O, rep, tol = REPS[case["rep"]], case["rep"], tol_of(case)
    A, B = elems(case, "a"), elems(case, "b")
    n, m, dt = len(A), len(B), A.dtype
    MA, MB = O.to_map(A.double()), O.to_map(B.double())
    A0, B0 = A.clone(), B.clone()
    if rep != "quat":
        P = O.mul(A[:, None], B[None])
        lead = (n, m)
        want = MA[:, None] @ MB[None]
    else:  # documented for equal shapes
        A, B = A[:, None].expand(n, m, 4).contiguous(), B[None].expand(n, m, 4).contiguous()
        A0, B0 = A.clone(), B.clone()
        P = O.mul(A, B)
        lead = (n, m)
        want = MA[:, None] @ MB[None]
    close(valid(rep, P, lead, f"{O.name} product", dt, tol), want, 10 * tol, f"{O.name} product of {case['a']} and {case['b']}", scale=1.0)
    if O.pair is not None:
        Q = O.pair(A, B)
        close(valid(rep, Q, lead, f"{O.name} pairwise product", dt, tol), want, 10 * tol, f"{O.name} pairwise product", scale=1.0)
    if rep != "quat":
        s = O.mul(A[0], B[-1])
        close(valid(rep, s, (), f"{O.name} product of single elements", dt, tol), MA[0] @ MB[-1], 10 * tol, f"{O.name} product of single elements", scale=1.0)
        s = O.mul(A[:1], B)  # one element times a grid
        close(valid(rep, s, (m,), f"{O.name} product of one element and a grid", dt, tol), MA[:1] @ MB, 10 * tol, f"{O.name} product, (1) x ({m})", scale=1.0)
    e = O.identity.to(dt)
    for x, M in ((A, O.to_map(A0.double())), (P, want)):
        inv = O.inv(x)
        Mi = valid(rep, inv, tuple(M.shape[:-2]), f"{O.name} inverse", dt, tol)
        close(Mi, torch.linalg.inv(M), 20 * tol, f"{O.name} inverse", scale=1.0)
        close(O.to_map(O.mul(inv, x).double()), torch.eye(O.D, dtype=DT).expand_as(M), 20 * tol, f"{O.name}: inverse times element", scale=1.0)
        close(O.to_map(O.mul(x, inv).double()), torch.eye(O.D, dtype=DT).expand_as(M), 20 * tol, f"{O.name}: element times inverse", scale=1.0)
        ee = e.expand_as(x).contiguous()
        close(O.to_map(O.mul(ee, x).double()), M, 20 * tol, f"{O.name}: identity times element", scale=1.0)
        close(O.to_map(O.mul(x, ee).double()), M, 20 * tol, f"{O.name}: element times identity", scale=1.0)
    if not torch.equal(A, A0) or not torch.equal(B, B0):
        fail(f"{O.name}: operations modified their arguments")
    nontriv = bool(((MA - torch.eye(O.D, dtype=DT)).abs() > 1e-3).any()) and bool(((MB - torch.eye(O.D, dtype=DT)).abs() > 1e-3).any())
    return nontriv, lab(case)


def check_assoc(case):
    """(ab)c = a(bc), and the pairwise product acts like the two factors one after the other."""
    O, rep, tol = REPS[case["rep"]], case["rep"], tol_of(case)
    A = elems(case, "a")
    k = len(A)
    B, C = torch.roll(A, 1, 0), O.mul(A, A)
    l = O.to_map(O.mul(O.mul(A, B), C).double())
    r = O.to_map(O.mul(A, O.mul(B, C)).double())
    close(l, r, 30 * tol, f"{O.name}: associativity", scale=1.0)
    li, ri = O.to_map(O.inv(O.mul(A, B)).double()), O.to_map(O.mul(O.inv(B), O.inv(A)).double())
    close(li, ri, 30 * tol, f"{O.name}: inverse of a product", scale=1.0)
    return k > 1, lab(case)


def check_action(case):
    """Acting on a grid of vectors is the linear map: for every vector, grid shape and batch shape."""
    O, rep, tol = REPS[case["rep"]], case["rep"], tol_of(case)
    A, B = elems(case, "a"), elems(case, "b")
    dt = A.dtype
    v = randn(case["seed"] + 3, *case["grid"], O.D, dtype=dt)
    v0 = v.clone()
    y = O.act(A, v)
    tensor_ok(y, (len(A), *case["grid"], O.D), f"{O.name} action", dt)
    MA = O.to_map(A.double())
    want = torch.einsum("nij,...j->n...i", MA, v.double()).reshape(len(A), *case["grid"], O.D)
    s = max(1.0, float(v.abs().max()))
    close(y, want, 10 * tol, f"{O.name} action on a grid of shape {case['grid']}", scale=s)
    if not torch.equal(v, v0):
        fail(f"{O.name}: action modified the grid")
    # composition through the library's own product
    P = O.mul(A[:1], B) if rep != "matrix2" else A[:1] @ B
    lhs = O.act(P, v)
    inner = O.act(B, v)
    rhs = torch.stack([O.act(A[:1], inner[i])[0] for i in range(len(B))])
    close(lhs, rhs.double(), 30 * tol, f"{O.name}: acting with a product", scale=s)
    close(y.double().norm(dim=-1), v.double().norm(dim=-1).expand(y.shape[:-1]), 20 * tol, f"{O.name}: norms under the action", scale=s)
    w = O.act(A, v.flip(0))
    dot = (y.double() * w.double()).sum(-1)
    close(dot, (v.double() * v.flip(0).double()).sum(-1).expand(dot.shape), 50 * tol, f"{O.name}: inner products under the action", scale=s * s)
    if O.batched_act and case["lay"]:
        sh = [(), (len(A), 1), (1, len(A)), (1, len(A), 1)][case["lay"] - 1]
        X = A[0] if sh == () else A.reshape(*sh, *O.identity.shape)
        y2 = O.act(X, v)
        tensor_ok(y2, (*sh, *case["grid"], O.D), f"{O.name} action with batch shape {sh}", dt)
        close(y2.reshape(-1, *case["grid"], O.D), (y[:1] if sh == () else y).double(), 1e-6 if case["f32"] else 1e-12, f"{O.name} action with batch shape {sh}", scale=s)
    return True, lab(case) + [f"grid{tuple(case['grid'])}"]


def check_det(case):
    """The reported determinant is multiplicative and is the determinant of the action."""
    O, rep, tol = REPS[case["rep"]], case["rep"], tol_of(case)
    A, B = elems(case, "a"), elems(case, "b")
    d = O.det(A)
    tensor_ok(d, (len(A), 1), f"{O.name} det", A.dtype)
    dP, dB = O.det(O.mul(A[:, None], B[None])), O.det(B)
    tensor_ok(dP, (len(A), len(B), 1), f"{O.name} det of a product grid")
    close(dP, (d[:, None] * dB[None]).double(), 1e-6, f"{O.name}: determinant of products", scale=1.0)
    close(O.det(O.inv(A)), d.double(), 1e-6, f"{O.name}: determinant of inverses", scale=1.0)
    close(O.det(A[0]), d[0].double(), 0.0, f"{O.name}: determinant of a single element", scale=1.0)
    # the action on the basis vectors, through the library
    basis = torch.eye(O.D, dtype=A.dtype).reshape(*[1] * (O.D - 1), O.D, O.D)
    M = O.act(A, basis).reshape(len(A), O.D, O.D).mT.double()
    dets = torch.linalg.det(M)
    known = None
    for i in range(len(A)):
        if abs(float(dets[i]) - float(d[i, 0])) > 1e-4:
            msg = f"{O.name}: det of {A[i].tolist()} is reported as {float(d[i, 0]):g}, its action has determinant {float(dets[i]):.6g}"
            if rep == "o2" and float(A[i, 0]) == -1 and float(d[i, 0]) == -1 and float((M[i] + rot2(A[i, 1].double())).abs().max()) < 1e-5:
                known = known or "(coefficient -1 acts as -R) " + msg
            else:
                fail(msg)
    if known:
        fail(known)
    return True, lab(case)


@known_matcher("KF1")
def _kf1(case, msg):
    return case["rep"] == "o2" and msg.startswith("(coefficient -1 acts as -R) O(2): det of [-1.0, ")


def check_convert(case):
    """angle_to_matrix and angle_to_euclid for every batch shape."""
    t = torch.tensor(case["t"], dtype=torch.float32 if case["f32"] else DT)
    n = len(case["t"])
    for sh in ((n,), (n, 1), (1, n), ()):
        x = (t[0] if sh == () else t.reshape(sh))[..., None]
        M = so2.angle_to_matrix(x)
        tensor_ok(M, (*sh, 2, 2), f"angle_to_matrix of shape {tuple(x.shape)}", t.dtype)
        close(M, rot2(x[..., 0].double()), tol_of(case), "angle_to_matrix", scale=1.0)
        e = so2.angle_to_euclid(x)
        tensor_ok(e, (*sh, 2), f"angle_to_euclid of shape {tuple(x.shape)}", t.dtype)
        close(e, rot2(x[..., 0].double())[..., :, 0], tol_of(case), "angle_to_euclid", scale=1.0)
    return n > 1, [f"n{n}"]


facet("C08", "product", strat(), quick=3500, rule="some factor on either side is not the identity")(check_product)
facet("C08", "associativity", strat(), quick=1500, rule="more than one element")(check_assoc)
facet("C08", "action", strat(tuple(r for r in REPS if REPS[r].act)), quick=2500, rule="every case (random vectors)")(check_action)
facet("C08", "det-o3", strat(("o3",)), quick=700, rule="every case")(check_det)
facet("C08", "det-o2", strat(("o2",)), quick=700, rule="every case")(check_det)
facet("C08", "so2-convert", st.fixed_dictionaries(dict(t=st.lists(ANG, min_size=1, max_size=4), f32=st.booleans())), quick=500,
      rule="more than one angle")(check_convert)


BATCH = {
    "so2.angle_to_matrix": (so2.angle_to_matrix, ["angle"], "elem", "raw"), "so2.angle_to_euclid": (so2.angle_to_euclid, ["angle"], "elem", "raw"),
    "so2.inverse_matrix": (so2.inverse_matrix, ["rot2"], "elem", "raw"), "so2.inverse_angle": (so2.inverse_angle, ["angle"], "elem", "angle"),
    "so2.left_apply_angle": (so2.left_apply_angle, ["angle", "angle"], "elem", "angle"),
    "so2.left_apply_to_angle": (so2.left_apply_to_angle, ["angle", "angle"], "pair", "angle"),
    "so2.left_apply_angle_to_R2": (so2.left_apply_angle_to_R2, ["angle", "vec2"], "grid", "raw"),
    "so2.left_apply_matrix_to_R2": (so2.left_apply_matrix_to_R2, ["rot2", "vec2"], "grid", "raw"),
    "o2.inverse": (o2.inverse, ["o2"], "elem", "o2"), "o2.det": (o2.det, ["o2"], "elem", "raw"),
    "o2.left_apply_angle": (o2.left_apply_angle, ["o2", "o2"], "elem", "o2"),
    "o2.left_apply_to_angle": (o2.left_apply_to_angle, ["o2", "o2"], "pair", "o2"),
    "o2.left_apply_to_R2": (o2.left_apply_to_R2, ["o2", "vec2"], "grid", "raw"),
    "so3.quat_inverse": (so3.quat_inverse, ["quat"], "elem", "quat"), "so3.matrix_inverse": (so3.matrix_inverse, ["mat"], "elem", "raw"),
    "so3.left_apply_quat": (so3.left_apply_quat, ["quat", "quat"], "elem", "quat"),
    "so3.left_apply_matrix": (so3.left_apply_matrix, ["mat", "mat"], "elem", "raw"),
    "so3.left_apply_to_matrix": (so3.left_apply_to_matrix, ["mat", "mat"], "pair", "raw"),
    "so3.left_apply_to_R3": (so3.left_apply_to_R3, ["mat", "vec3"], "grid", "raw"),
    "o3.inverse": (o3.inverse, ["o3"], "elem", "raw"), "o3.det": (o3.det, ["o3"], "elem", "raw"),
    "o3.left_apply_O3": (o3.left_apply_O3, ["o3", "o3"], "elem", "raw"), "o3.left_apply_to_O3": (o3.left_apply_to_O3, ["o3", "o3"], "pair", "raw"),
    "o3.left_apply_to_R3": (o3.left_apply_to_R3, ["o3", "vec3"], "grid", "raw"),
}
facet("C08", "large-batches", batch.strategy(BATCH), quick=1600, rule="more than three elements")(batch.checker(BATCH))
facet("C08", "half-precision", batch.half_strategy(BATCH), quick=800, rule="more than one element")(batch.half_checker(BATCH))
