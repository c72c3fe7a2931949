"""C12: named finite groups are groups."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from gconv.geometry import so3

from .. import rots
from ..core import facet, fail, tensor_ok
from ..grp import axis_angle, quat_mat, quat_mul

DT = torch.float64
TOL = 2e-6  # tables are single precision
ORDER = {"identity": 1, "klein_group": 4, "tetrahedral": 12, "octahedral": 24, "icosahedral": 60}
AXES = "xyz"


def get(d):
    """the group of a description, expected order, generator axis and angle for cyclic groups"""
    if d[0] in ORDER:
        return getattr(so3, d[0])(), ORDER[d[0]]
    _, n, ax, how = d
    if how == 0:
        return getattr(so3, f"cyclic_{AXES[ax]}")(n), n
    return so3.cyclic(n, AXES[ax] if how == 1 else AXES[ax].upper()), n


N = st.one_of(st.integers(1, 40), st.integers(41, 360), st.integers(1, 40), st.sampled_from((361, 400, 401, 499, 512, 600, 720, 777, 1000)))  # elements closer than float32 resolves are not told apart
CYC = st.tuples(st.just("cyclic"), N, st.integers(0, 2), st.integers(0, 2)).map(list)
NAMED = st.sampled_from(sorted(ORDER)).map(lambda k: [k])
GROUP = st.one_of(NAMED, CYC)
SMALL = st.one_of(NAMED, CYC.map(lambda d: [d[0], d[1] if d[1] <= 40 else 41 + d[1] % 60, *d[2:]]))


def index(Q, q, what):
    """position in Q of the rotation q, up to sign"""
    d = torch.minimum((Q - q).norm(dim=-1), (Q + q).norm(dim=-1))
    i = int(d.argmin())
    if float(d[i]) > 4 * TOL:
        fail(f"{what} is not an element (closest is {float(d[i]):.2e} away)")
    return i


def load(d):
    g, n = get(d)
    tensor_ok(g, (n, 4), f"group {d}", torch.float32)
    return g.double()


@st.composite
def words(draw):
    d = draw(GROUP)
    n = ORDER[d[0]] if d[0] in ORDER else d[1]
    return dict(d=d, word=[draw(st.integers(0, n - 1)) for _ in range(draw(st.integers(1, 6)))])


def check_group(case):
    """Distinct unit quaternions of the right number; contains the identity, inverses and arbitrary products."""
    d = case["d"]
    Q = load(d)
    n = len(Q)
    e = float((Q.norm(dim=-1) - 1).abs().max())
    if e > TOL:
        fail(f"{d}: quaternion norms {e:.1e} off one")
    d2 = torch.minimum((Q[:, None] - Q).norm(dim=-1), (Q[:, None] + Q).norm(dim=-1)).fill_diagonal_(9)
    # no two elements of a group of order n are closer than half of the smallest angle 2 pi / n between two rotations
    if n > 1 and float(d2.min()) < 0.5 * 2 * math.sin(math.pi / (2 * n)):
        i = int(d2.argmin())
        fail(f"{d}: elements {i // n} and {i % n} are the same rotation")
    index(Q, torch.tensor([1.0, 0, 0, 0], dtype=DT), f"{d}: the identity")
    p = Q[case["word"][0]]
    for w in case["word"][1:]:
        p = Q[index(Q, quat_mul(p, Q[w]), f"{d}: product of {p.tolist()} and {Q[w].tolist()}")]
    conj = p * torch.tensor([1.0, -1, -1, -1], dtype=DT)
    index(Q, conj, f"{d}: inverse of {p.tolist()}")
    # the library's own operations agree
    f = Q.float()
    inv = so3.quat_inverse(f).double()
    for i in set(case["word"]):
        index(Q, inv[i], f"{d}: so3.quat_inverse of {Q[i].tolist()}")
    pr = so3.left_apply_quat(f, f.roll(case["word"][0], 0)).double()
    for i in set(case["word"]):
        index(Q, pr[i], f"{d}: so3.left_apply_quat product")
    return n > 1, [d[0] if d[0] != "cyclic" else f"cyclic-{AXES[d[2]]}"]


def check_full(case):
    """The whole multiplication table of each named group closes; rows are permutations."""
    d = case["d"]
    Q = load(d)
    n = len(Q)
    P = quat_mul(Q[:, None].expand(n, n, 4), Q[None].expand(n, n, 4))
    dots = torch.einsum("ijk,lk->ijl", P, Q).abs()
    best, idx = dots.max(-1)
    if float(best.min()) < 1 - 1e-5:
        k = int(best.argmin())
        fail(f"{d}: product of elements {k // n} and {k % n} is not an element")
    for dim in (0, 1):
        if not bool((idx.sort(dim)[0] == (torch.arange(n)[:, None] if dim == 0 else torch.arange(n))).all()):
            fail(f"{d}: multiplication table is not a Latin square")
    return n > 1, [d[0]]


def check_cyclic(case):
    """The cyclic group of order n consists of the rotations by 2 pi k / n about the named axis, in that order."""
    d = case["d"]
    Q = load(d)
    _, n, ax, _ = d
    ang = torch.arange(n, dtype=DT) * 2 * math.pi / n
    want = axis_angle(rots.basis(ax).expand(n, 3), ang)
    # set equality through the generator: element nearest to each power
    R = quat_mat(Q)
    err = (R[None] - want[:, None]).abs().amax((-1, -2))
    e, i = err.min(1)
    if float(e.max()) > 2e-5:
        k = int(e.argmax())
        fail(f"{d}: the rotation by 2 pi {k}/{n} about {AXES[ax]} is missing (closest {float(e[k]):.2e} off)")
    if len(set(i.tolist())) != n:
        fail(f"{d}: two powers of the generator share an element")
    return n > 1, [AXES[ax], f"how{d[3]}"]


SUB = [("identity", "klein_group"), ("klein_group", "tetrahedral"), ("tetrahedral", "octahedral"), ("tetrahedral", "icosahedral"),
       ("klein_group", "octahedral"), ("klein_group", "icosahedral")]


def check_sub(case):
    """Nested groups contain each other; cyclic groups contain those of dividing order, and the octahedral group the quarter turns."""
    if case["k"] < len(SUB):
        a, b = SUB[case["k"]]
        A, B, what = load([a]), load([b]), f"{a} in {b}"
    elif case["k"] == len(SUB):
        A, B, what = load(["cyclic", 4, case["ax"], 0]), load(["octahedral"]), f"quarter turns about {AXES[case['ax']]} in octahedral"
    else:
        m, f = case["m"], case["f"]
        A, B, what = load(["cyclic", m, case["ax"], 0]), load(["cyclic", m * f, case["ax"], 1]), f"C{m} in C{m * f}"
    for q in A:
        index(B, q, f"{what}: {q.tolist()}")
    return len(A) > 1, [what if case["k"] <= len(SUB) else "cyclic"]


SUBS = st.fixed_dictionaries(dict(k=st.integers(0, len(SUB) + 3), ax=st.integers(0, 2), m=st.integers(1, 12), f=st.integers(1, 4)))
BAD = st.fixed_dictionaries(dict(n=st.integers(1, 9), axis=st.sampled_from(("w", "", "xy", "0", "zz"))))


def check_bad(case):
    """Unknown axes are rejected."""
    try:
        so3.cyclic(case["n"], case["axis"])
    except ValueError:
        return True, []
    fail(f"so3.cyclic accepted the axis {case['axis']!r}")


facet("C12", "group", words(), quick=2000, rule="group of order above one")(check_group)
facet("C12", "table", st.fixed_dictionaries(dict(d=SMALL)), quick=300, rule="group of order above one")(check_full)
facet("C12", "cyclic", st.fixed_dictionaries(dict(d=CYC)), quick=800, rule="order above one")(check_cyclic)
facet("C12", "subgroups", SUBS, quick=400, rule="subgroup of order above one")(check_sub)
facet("C12", "bad-axis", BAD, quick=40, thorough=60, rule="every case")(check_bad)
