"""C09: logarithm maps invert the exponential."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import so3

from .. import batch, rots
from ..core import SEEDS, close, facet, fail, randn, tensor_ok
from ..grp import axis_angle, quat_mat, so3_angle

DT = torch.float64


def exp_so3(v):
    n = v.norm(dim=-1)
    ax = torch.where(n[..., None] > 0, v / n.clamp(min=1e-300)[..., None], torch.tensor([1.0, 0, 0], dtype=DT))
    return axis_angle(ax, n)


@st.composite
def logs(draw):
    return dict(b=draw(rots.batch()), f32=draw(st.booleans()), src=draw(st.sampled_from(("exact", "quat"))), view=draw(st.booleans()))


def check_log(case):
    """exp(log R) = R and |log R| is the rotation angle, in [0, pi], for every batch shape."""
    R = rots.tensor(case["b"])
    shape = tuple(case["b"]["shape"])
    if case["src"] == "quat" and R.numel():
        R = quat_mat(rots.quat_ref(R))
    dt = torch.float32 if case["f32"] else DT
    arg = R.to(dt)
    if case["view"]:
        arg = arg.mT.contiguous().mT
    a0 = arg.clone()
    v = so3.so3_log(arg)
    if not torch.equal(arg, a0):
        fail("so3_log modified its input")
    tensor_ok(v, (*shape, 3), f"logarithm of rotations of shape {shape}", dt)
    if not v.numel():
        return False, [f"shape{shape}"]
    v = v.double()
    tol = 1e-5 if case["f32"] else 1e-7
    ang = so3_angle(R, torch.eye(3, dtype=DT))
    err = (exp_so3(v) - R).abs().amax((-1, -2))
    i = int(err.flatten().argmax())
    d = case["b"]["rots"][i]
    if float(err.max()) > tol:
        fail(f"exp(log R) is {float(err.max()):.2e} off for {d} (angle {float(ang.flatten()[i]):.9f}, log {v.reshape(-1, 3)[i].tolist()})")
    nerr = (v.norm(dim=-1) - ang).abs()
    j = int(nerr.flatten().argmax())
    if float(nerr.max()) > (3e-3 if case["f32"] else 1e-6):
        fail(f"logarithm of {case['b']['rots'][j]} has norm {float(v.norm(dim=-1).flatten()[j]):.7f}, angle is {float(ang.flatten()[j]):.7f}")
    if float(v.norm(dim=-1).max()) > math.pi + tol:
        fail("logarithm of norm above pi")
    # relative accuracy for small rotations: the exponential alone cannot see a logarithm that is off by a factor
    small = (ang < 1e-2) & (ang > 2e-5)
    if not case["f32"] and bool(small.any()):
        rel = float((nerr / ang)[small].max())
        if rel > 1e-4:
            fail(f"logarithm of a small rotation is off by a relative {rel:.1e}")
    return True, [f"shape{shape}", "f32" if case["f32"] else "f64"] + sorted({r[0] for r in case["b"]["rots"]})


@st.composite
def vectors(draw):
    n = draw(st.integers(1, 5))
    mags = st.one_of(st.sampled_from((0.0, 1e-12, 1e-8, 3e-8, 1e-7, 2e-7, 1e-6, 1e-4, 1e-2, 1.0, 3.0, 3.14, math.pi - 1e-3, math.pi - 1e-5)),
                     st.floats(0, 3.1415).map(lambda v: round(v, 5)))
    return dict(v=[[draw(mags), draw(SEEDS), draw(st.integers(0, 3))] for _ in range(n)], lead=draw(st.integers(0, 2)))


def direction(seed, axis):
    d = randn(seed, 3)
    if axis < 3:  # coordinate axis
        d = rots.basis(axis) * (1 if seed % 2 else -1)
    return d / d.norm()


def check_exp_log(case):
    """log(exp v) = v for every rotation vector of norm below pi."""
    v = torch.stack([m * direction(s, a) for m, s, a in case["v"]])
    R = exp_so3(v)
    if case["lead"] == 1:
        v, R = v[None], R[None]
    elif case["lead"] == 2:
        v, R = v[0], R[0]
    got = so3.so3_log(R)
    tensor_ok(got, v.shape, "logarithm", DT)
    close(got, v, 1e-7, f"log(exp v) for v = {v.tolist()}", scale=1.0)
    return bool((v != 0).any()), [f"{m:.0e}" for m, _, _ in case["v"] if m in (1e-8, 3e-8, 1e-7, 2e-7, 0.0)]


quat_el = st.one_of(
    st.tuples(st.just("rand"), SEEDS, st.sampled_from((1.0, 1.0, 0.01, 0.5, 3.0, 100.0))),
    st.tuples(st.just("real"), st.just(0), st.sampled_from((1.0, 0.25, 7.0))),
    st.tuples(st.just("pure"), SEEDS, st.sampled_from((1.0, 0.3, 20.0))),
    st.tuples(st.just("near+"), SEEDS, st.sampled_from((1e-9, 1e-6, 1e-4, 1e-2))),
    st.tuples(st.just("near-"), SEEDS, st.sampled_from((1e-6, 1e-4, 1e-2))),
    st.tuples(st.just("axis"), st.integers(1, 3), st.sampled_from((1.0, -1.0, 2.0))),
).map(list)


def quaternion(d):
    k, s, m = d
    q = torch.zeros(4, dtype=DT)
    if k == "rand":
        q = randn(s, 4)
        return m * q / q.norm()
    if k == "real":
        q[0] = m
        return q
    if k == "axis":
        q[s] = m
        return q
    v = randn(s, 3)
    q[1:] = m * v / v.norm()
    q[0] = {"pure": 0.0, "near+": 1.0, "near-": -1.0}[k]
    return q


QL = st.fixed_dictionaries(dict(q=st.lists(quat_el, min_size=0, max_size=6), f32=st.booleans()))


def check_quaternion_log(case):
    """The quaternion exponential of quaternion_log(q) is q; its real part is log|q| and its vector part has norm in [0, pi]."""
    dt = torch.float32 if case["f32"] else DT
    q = (torch.stack([quaternion(d) for d in case["q"]]) if case["q"] else torch.zeros(0, 4, dtype=DT)).to(dt)
    q0 = q.clone()
    lg = so3.quaternion_log(q)
    if not torch.equal(q, q0):
        fail("quaternion_log modified its input")
    tensor_ok(lg, (len(case["q"]), 4), f"quaternion_log of {case['q']}", dt)
    if not len(case["q"]):
        return False, ["empty"]
    lg, q = lg.double(), q.double()
    tol = 2e-3 if case["f32"] else 1e-7
    nrm = q.norm(dim=-1)
    close(lg[:, 0], nrm.log(), 1e-5 if case["f32"] else 1e-10, "real part of quaternion_log", scale=1.0)
    vn = lg[:, 1:].norm(dim=-1)
    if float(vn.max()) > math.pi + 1e-5:
        fail(f"vector part of norm {float(vn.max()):.6f} > pi")
    s = torch.where(vn > 0, torch.sin(vn) / vn.clamp(min=1e-300), 1.0)
    back = lg[:, :1].exp() * torch.cat((torch.cos(vn)[:, None], s[:, None] * lg[:, 1:]), -1)
    err = (back - q).abs().amax(-1) / nrm
    i = int(err.argmax())
    if float(err[i]) > tol:
        fail(f"exp(quaternion_log(q)) is a relative {float(err[i]):.2e} off for {case['q'][i]}: q={q[i].tolist()}, log={lg[i].tolist()}")
    for i, d in enumerate(case["q"]):
        if d[0] == "real" and bool((lg[i, 1:] != 0).any()):
            fail(f"log of the real quaternion {q[i].tolist()} has vector part {lg[i, 1:].tolist()}")
        if d[0] == "real" and d[2] == 1.0 and bool((lg[i] != 0).any()):
            fail(f"log of the identity is {lg[i].tolist()}")
    return any(d[0] != "real" for d in case["q"]), sorted({d[0] for d in case["q"]})


facet("C09", "so3-exp-of-log", logs(), quick=2500, rule="non-empty batch")(check_log)
facet("C09", "so3-log-of-exp", vectors(), quick=2500, rule="some vector not zero")(check_exp_log)
facet("C09", "quaternion-log", QL, quick=2500, rule="some quaternion not real")(check_quaternion_log)


BATCH = {"so3_log": (so3.so3_log, ["generic"], "elem", "raw"), "quaternion_log": (so3.quaternion_log, ["q4"], "one", "raw")}
facet("C09", "large-batches", batch.strategy(BATCH), quick=500, rule="more than three elements")(batch.checker(BATCH, (1e-7, 1e-2)))
facet("C09", "half-precision", batch.half_strategy(BATCH), quick=250, rule="more than one element")(batch.half_checker(BATCH))


THRESH = st.fixed_dictionaries(dict(v=st.lists(st.tuples(st.sampled_from((0.0, 1e-9, 1e-7, 1e-5, 1e-3, 1e-2, 0.1, 1.0, 3.0, math.pi)), SEEDS, st.integers(0, 3)).map(list),
                                               min_size=1, max_size=4),
                                    eps=st.sampled_from((0.0, 1e-300, 1e-15, 1e-12, 1e-9, 1e-5, 1e-4, 1e-3, 1e-2, 0.05)), lead=st.integers(0, 2), kw=st.booleans()))


def check_threshold(case):
    """Whatever numerical threshold is passed, the logarithm is exact up to rounding outside of it, and off by less than it within."""
    v = torch.stack([m * direction(s, a) for m, s, a in case["v"]])
    eps = case["eps"]
    R = exp_so3(v)
    if case["lead"] == 1:
        v, R = v[None], R[None]
    elif case["lead"] == 2:
        v, R = v[0], R[0]
    got = so3.so3_log(R, eps=eps) if case["kw"] else so3.so3_log(R, eps)
    tensor_ok(got, v.shape, f"logarithm with eps={eps}", DT)
    n = v.norm(dim=-1)
    err = torch.minimum((got - v).norm(dim=-1), torch.where(n > math.pi - 1e-9, (got + v).norm(dim=-1), math.inf))
    lim = 1e-7 + torch.where(n <= 2.1 * eps, eps, 0.0)
    if bool((err > lim).any()):
        fail(f"log(exp v) with eps={eps} is {float(err.max()):.2e} off for vectors of norm {n.tolist()}")
    return bool((v != 0).any()), [f"eps{eps}"]


facet("C09", "thresholds", THRESH, quick=700, rule="some vector not zero")(check_threshold)
