"""C10: geodesic distances are invariant metrics."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import so2, so3
from gconv.geometry.groups import s2

from .. import batch, rots
from ..core import SEEDS, close, facet, fail, randn, tensor_ok
from ..grp import quat_mat, quat_mul, rand_quat, rot2, so3_angle

DT = torch.float64
FLOOR = 1e-3  # documented clamping of the arc cosine lifts distances up to about 5e-4

SPECIAL2 = [k * math.pi / 4 for k in range(8)] + [1e-9, 1e-5, 1e-3, 2 * math.pi - 1e-3]
angle = st.one_of(SEEDS.map(lambda s: s / 2**20 * 2 * math.pi), st.sampled_from(SPECIAL2),
                  st.floats(-20, 20).map(lambda v: round(v, 4)))
direction = st.one_of(st.tuples(st.just("rand"), SEEDS), st.tuples(st.just("axis"), st.integers(0, 2), st.sampled_from((1, -1))),
                      st.tuples(st.just("nearz"), SEEDS, st.sampled_from((1e-6, 1e-3, 1e-2)))).map(list)


def unit(d):
    if d[0] == "rand":
        v = randn(d[1], 3)
    elif d[0] == "axis":
        v = d[2] * rots.basis(d[1])
    else:
        v = rots.basis(2) + d[2] * randn(d[1], 3)
    return v / v.norm()


class Metric:
    def __init__(self, name, elem, stack, dist, true, move, last):
        self.name, self.elem, self.stack, self.dist, self.true, self.move, self.last = name, elem, stack, dist, true, move, last


def wrap(d):
    d = d.abs() % (2 * math.pi)
    return torch.minimum(d, 2 * math.pi - d)


def quats(ds, seed):
    q = rots.quat_ref(rots.matrices(ds))
    s = torch.sign(randn(seed, q.shape[0], 1))
    return q * torch.where(s == 0, 1.0, s)


def s2_true(a, b):
    d = (a - b).norm(dim=-1)
    return 2 * torch.asin((d / 2).clamp(max=1))


METRICS = {
    "so2": Metric("so2.geodesic_distance", angle, lambda ds, s: torch.tensor(ds, dtype=DT).reshape(-1, 1), so2.geodesic_distance,
                  lambda a, b: wrap((a - b)[..., 0]), lambda s, x: x + 6 * randn(s, 1), 1),
    "so2-euclid": Metric("so2.geodesic_distance_euclid", angle, lambda ds, s: torch.stack((torch.cos(t := torch.tensor(ds, dtype=DT)), torch.sin(t)), -1),
                         so2.geodesic_distance_euclid, lambda a, b: s2_true(a, b), lambda s, x: x @ rot2(randn(s, 1)[0]).mT, 2),
    "so3": Metric("so3.geodesic_distance", rots.rotation, quats, so3.geodesic_distance,
                  lambda a, b: so3_angle(quat_mat(a), quat_mat(b)) / 2, lambda s, x: quat_mul(rand_quat(s), x), 4),
    "s2": Metric("s2.geodesic_distance_s2", direction, lambda ds, s: torch.stack([unit(d) for d in ds]), s2.geodesic_distance_s2,
                 s2_true, lambda s, x: x @ quat_mat(rand_quat(s)).mT, 3),
}
TOP = {"so2": math.pi, "so2-euclid": math.pi, "so3": math.pi / 2, "s2": math.pi}


@st.composite
def triples(draw):
    k = draw(st.sampled_from(sorted(METRICS)))
    n = draw(st.integers(1, 4))
    e = METRICS[k].elem
    near = draw(st.booleans())
    return dict(m=k, a=[draw(e) for _ in range(n)], b=[draw(e) for _ in range(n)], c=[draw(e) for _ in range(n)], near=near,
                shape=draw(st.integers(0, 4)), f32=draw(st.booleans()), seed=draw(SEEDS), big=draw(st.integers(0, 39)) == 39, step=draw(st.sampled_from((0.0, 1e-3, 0.02, 0.3))))


def check_metric(case):
    """Distance = angle of the relative rotation (halved on quaternions), for every broadcast; symmetric, invariant, triangle inequality."""
    m = METRICS[case["m"]]
    dt = torch.float32 if case["f32"] else DT
    a, b, c = (m.stack(case[k], case["seed"] + i) for i, k in enumerate("abc"))
    if case["near"]:  # b close to a
        b = a + case["step"] * randn(case["seed"], *a.shape)
        if m.last > 1:
            b = b / b.norm(dim=-1, keepdim=True)
    if case.get("big"):  # many elements
        k = (40 + case["seed"] % 200) // len(a)
        a, b, c = (m.move(case["seed"] + 31, torch.cat((x, torch.cat([m.move(case["seed"] + j, x) for j in range(k)])))) for x in (a, b, c))
    tol = 2e-3 if case["f32"] else 1e-7
    n = len(a)

    def cmp(got, x, y, what):
        want = m.true(x, y)
        tensor_ok(got, want.shape, f"{m.name} {what}", dt)
        got = got.double()
        near_end = (want < 2e-3) | (want > TOP[case["m"]] - 2e-3)
        lim = torch.where(near_end, FLOOR + tol, tol)
        err = (got - want).abs() - lim
        if bool((err > 0).any()):
            i = int(err.flatten().argmax())
            fail(f"{m.name} {what}: distance {float(got.flatten()[i]):.7f}, the angle gives {float(want.flatten()[i]):.7f}")
        if bool((got < 0).any()):
            fail(f"{m.name} {what}: negative distance")

    f = lambda x, y: m.dist(x.to(dt), y.to(dt))
    shapes = [(a, b), (a[:, None], b), (a[0], b), (a[:, None, None], torch.stack((b, c), 1)), (a[0], b[0])]
    x, y = shapes[case["shape"]]
    x0, y0 = x.to(dt).clone(), y.to(dt).clone()
    xa, ya = x.to(dt), y.to(dt)
    d = m.dist(xa, ya)
    if not (torch.equal(xa, x0) and torch.equal(ya, y0)):
        fail(f"{m.name} modified its arguments")
    cmp(d, x, y, f"on shapes {tuple(x.shape)} and {tuple(y.shape)}")
    close(f(y, x), d.double(), 1e-6, f"{m.name}: symmetry", scale=1.0)
    ab, bc, ac = f(a, b).double(), f(b, c).double(), f(a, c).double()
    if bool((ac > ab + bc + 2 * FLOOR + tol).any()):
        fail(f"{m.name}: triangle inequality violated: {ac.tolist()} > {ab.tolist()} + {bc.tolist()}")
    slack = 4e-3 if case["f32"] else 2e-4
    close(f(m.move(case["seed"] + 9, a), m.move(case["seed"] + 9, b)), ab, slack, f"{m.name}: invariance under a common rotation", scale=1.0)
    if case["m"] == "so3":
        close(f(-a, b), ab, 1e-6, "distance of the opposite quaternion", scale=1.0)
        g = rand_quat(case["seed"] + 3)
        close(f(quat_mul(a, g), quat_mul(b, g)), ab, slack, "invariance under right multiplication", scale=1.0)
        close(f(so3.quat_inverse(a), so3.quat_inverse(b)), ab, slack, "invariance under inversion", scale=1.0)
    if case["m"] == "so2":
        close(f(a + 2 * math.pi, b), ab, slack, "distance of angles modulo 2 pi", scale=1.0)
    if bool((f(a, a) > FLOOR + tol).any()):
        fail(f"{m.name}: distance to itself {float(f(a, a).max()):.2e}")
    return float(ab.max()) > 2 * FLOOR and n > 0, [case["m"], f"shape{case['shape']}", "near" if case["near"] else "far"]


@st.composite
def nn_cases(draw):
    k = draw(st.sampled_from(("so2", "quat", "matrix")))
    n = draw(st.integers(1, 7))
    e = angle if k == "so2" else rots.rotation
    els = [draw(e) for _ in range(n)]
    if draw(st.booleans()) and n > 2:
        els[-1] = els[0]  # an element that occurs twice
    big = draw(st.sampled_from((40, 65, 129, 257, 300, 513, 600))) if draw(st.integers(0, 24)) == 24 else 0
    return dict(k=k, els=els, big=big, seed=draw(SEEDS), f32=draw(st.booleans()))


def check_nn(case):
    """Nearest neighbour distance = minimum over the other elements, for every order and parameterization."""
    n = len(case["els"]) + case.get("big", 0)
    extra = rand_quat(case["seed"] + 1, case.get("big", 0))
    dt = torch.float32 if case["f32"] else DT
    if case["k"] == "so2":
        g = torch.cat((torch.tensor(case["els"], dtype=DT).reshape(-1, 1), 7 * extra[:, :1]))
        D = METRICS["so2"].true(g[:, None], g)
        fn = so2.nearest_neighbour_distance
    else:
        R = torch.cat((rots.matrices(case["els"]), quat_mat(extra)))
        D = so3_angle(R[:, None], R) / 2
        g = R if case["k"] == "matrix" else torch.cat((quats(case["els"], case["seed"]), extra))
        fn = so3.nearest_neighbour_distance
    D = D.clone().fill_diagonal_(math.inf)
    want = D.min(-1)[0]
    arg = g.to(dt)
    a0 = arg.clone()
    got = fn(arg)
    what = f"nearest neighbour distance of {n} {case['k']} elements"
    tensor_ok(got, (n,), what, dt, finite=n > 1)
    if not torch.equal(arg, a0):
        fail(f"{what}: grid was modified")
    if n == 1:
        return False, [case["k"], "single"]
    tol = FLOOR + 2e-3 if case["f32"] else 1e-7
    lim = torch.where((want < 2e-3) | (want > TOP["so2" if case["k"] == "so2" else "so3"] - 2e-3), FLOOR + tol, tol)
    err = (got.double() - want).abs() - lim
    if bool((err > 0).any()):
        fail(f"{what}: {got[err > 0].tolist()[:8]}, expected {want[err > 0].tolist()[:8]}")
    p = torch.randperm(n, generator=torch.Generator().manual_seed(case["seed"]))
    close(fn(arg[p]), got.double()[p], 5e-3 if case["f32"] else 1e-6, f"{what} after reordering", scale=1.0)
    return True, [case["k"], f"n{n}" if n < 10 else "large"]


facet("C10", "metric", triples(), quick=2200, rule="some pair of elements further apart than the numerical floor")(check_metric)
facet("C10", "metric-2", triples(), quick=2200, rule="some pair of elements further apart than the numerical floor")(check_metric)
facet("C10", "nearest-neighbour", nn_cases(), quick=2500, rule="at least two elements")(check_nn)


BATCH = {
    "so2.geodesic_distance": (so2.geodesic_distance, ["angle", "angle"], "elem", "raw"),
    "so2.geodesic_distance_euclid": (so2.geodesic_distance_euclid, ["unit2", "unit2"], "elem", "raw"),
    "so3.geodesic_distance": (so3.geodesic_distance, ["quat", "quat"], "elem", "raw"),
    "s2.geodesic_distance_s2": (s2.geodesic_distance_s2, ["unit3", "unit3"], "elem", "raw"),
}
facet("C10", "large-batches", batch.strategy(BATCH), quick=600, rule="more than three elements")(batch.checker(BATCH, (1e-7, 5e-3)))
facet("C10", "half-precision", batch.half_strategy(BATCH), quick=300, rule="more than one element")(batch.half_checker(BATCH))


@st.composite
def floors(draw):
    k = draw(st.sampled_from(sorted(METRICS)))
    n = draw(st.integers(1, 4))
    e = METRICS[k].elem
    return dict(m=k, a=[draw(e) for _ in range(n)], b=[draw(e) for _ in range(n)], near=draw(st.booleans()), step=draw(st.sampled_from((0.0, 1e-5, 1e-3, 0.02, 0.3))),
                eps=draw(st.sampled_from((0.0, 1e-14, 1e-12, 1e-10, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2))), f32=draw(st.booleans()), seed=draw(SEEDS),
                shape=draw(st.integers(0, 2)), kw=draw(st.booleans()))


def check_floor(case):
    """Whatever numerical floor is passed, the distance is exact outside of the floor it implies, and never further off than that floor."""
    m, eps = METRICS[case["m"]], case["eps"]
    dt = torch.float32 if case["f32"] else DT
    a, b = (m.stack(case[k], case["seed"] + i) for i, k in enumerate("ab"))
    if case["near"]:
        b = a + case["step"] * randn(case["seed"], *a.shape)
        if m.last > 1:
            b = b / b.norm(dim=-1, keepdim=True)
    x, y = ((a, b), (a[:, None], b), (a[0], b))[case["shape"]]
    x, y = x.to(dt), y.to(dt)
    got = m.dist(x, y, eps=eps) if case["kw"] else m.dist(x, y, eps)
    x, y = x.double(), y.double()
    if m.last > 1:
        x, y = x / x.norm(dim=-1, keepdim=True), y / y.norm(dim=-1, keepdim=True)
    want = m.true(x, y)
    tensor_ok(got, want.shape, f"{m.name} with eps={eps}", dt)
    got = got.double()
    floor = math.acos(1 - eps)
    end = torch.minimum(want, (TOP[case["m"]] - want).abs())
    rnd = 1e-6 if case["f32"] else 4e-15  # rounding of the cosine
    # the arc cosine magnifies rounding near its ends
    lim = rnd / end.clamp(min=math.sqrt(rnd)) * 3 + torch.where(end < 1.05 * floor + 2 * math.sqrt(rnd), 1.05 * floor, 0.0)
    err = (got - want).abs() - lim
    if bool((err > 0).any()):
        i = int(err.flatten().argmax())
        fail(f"{m.name} with eps={eps}: distance {float(got.flatten()[i]):.9f}, the angle gives {float(want.flatten()[i]):.9f}")
    return eps != (1e-12 if case["m"] == "so2" else 1e-7), [case["m"], f"eps{eps}"]


facet("C10", "floors", floors(), quick=1500, rule="a floor that is not the default")(check_floor)
