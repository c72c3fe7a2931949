"""Generated rotations: structured description -> (matrix, sin(beta)) in double precision."""
from __future__ import annotations

import math

import torch
from hypothesis import strategies as st

from .core import SEEDS, randn
from .grp import FULL3, ROT3, axis_angle, rand_quat, quat_mat, quat_mul

DT = torch.float64
ANGLES = (0.0, 1e-7, 1e-4, 0.5, 1.0, 2.0, 3.0, math.pi - 1e-2, math.pi - 1e-4, math.pi - 1e-7, math.pi)
TINY = (0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2)

rotation = st.one_of(
    st.tuples(st.just("rand"), SEEDS),
    st.tuples(st.just("octa"), st.integers(0, 23)),
    st.tuples(st.just("half"), SEEDS),  # half turn about a random axis
    st.tuples(st.just("halfxy"), SEEDS, st.sampled_from((0, 1, 2))),  # half turn about an axis in a coordinate plane
    st.tuples(st.just("axis"), st.sampled_from(range(len(ANGLES))), SEEDS),
    st.tuples(st.just("coord"), st.sampled_from((0, 1, 2)), st.sampled_from((-1, 1)), st.sampled_from(range(len(ANGLES)))),
    # alpha, gamma random, beta near 0 or pi
    st.tuples(st.just("gimbal"), st.sampled_from((0, 1)), st.sampled_from(range(len(TINY))), SEEDS),
).map(list)


def basis(i):
    e = torch.zeros(3, dtype=DT)
    e[i] = 1
    return e


def matrix(d):
    k = d[0]
    if k == "rand":
        return quat_mat(rand_quat(d[1]))
    if k == "octa":
        return ROT3[d[1]]
    if k in ("half", "axis", "halfxy"):
        ax = randn(d[-1] if k == "axis" else d[1], 3)
        if k == "halfxy":
            ax[d[2]] = 0
        ax = ax / ax.norm()
        return axis_angle(ax, ANGLES[d[1]] if k == "axis" else math.pi)
    if k == "coord":
        return axis_angle(basis(d[1]), d[2] * ANGLES[d[3]])
    if k == "gimbal":
        a, g = (float(v) * 2 * math.pi for v in torch.rand(2, generator=torch.Generator().manual_seed(d[3]), dtype=DT))
        b = TINY[d[2]] if d[1] == 0 else math.pi - TINY[d[2]]
        return zyz(a, b, g)
    raise ValueError(k)


def zyz(a, b, g):
    """extrinsic: first alpha about z, then beta about y, then gamma about z"""
    return axis_angle(basis(2), g) @ axis_angle(basis(1), b) @ axis_angle(basis(2), a)


def matrices(ds):
    return torch.stack([matrix(d) for d in ds]) if ds else torch.zeros(0, 3, 3, dtype=DT)


def quat_ref(R):
    """A unit quaternion of R: the null space of the rotation's action, found from the 4x4 symmetric
    matrix whose top eigenvector is the quaternion (Bar-Itzhack)."""
    m = R
    K = torch.zeros(*R.shape[:-2], 4, 4, dtype=DT)  # order x, y, z, w
    K[..., 0, 0] = m[..., 0, 0] - m[..., 1, 1] - m[..., 2, 2]
    K[..., 1, 1] = m[..., 1, 1] - m[..., 0, 0] - m[..., 2, 2]
    K[..., 2, 2] = m[..., 2, 2] - m[..., 0, 0] - m[..., 1, 1]
    K[..., 3, 3] = m[..., 0, 0] + m[..., 1, 1] + m[..., 2, 2]
    for i, j, v in (
        (0, 1, m[..., 1, 0] + m[..., 0, 1]), (0, 2, m[..., 2, 0] + m[..., 0, 2]), (1, 2, m[..., 2, 1] + m[..., 1, 2]),
        (0, 3, m[..., 2, 1] - m[..., 1, 2]), (1, 3, m[..., 0, 2] - m[..., 2, 0]), (2, 3, m[..., 1, 0] - m[..., 0, 1]),
    ):
        K[..., i, j] = K[..., j, i] = v
    v = torch.linalg.eigh(K / 3)[1][..., -1]
    return torch.cat((v[..., 3:], v[..., :3]), -1)


SHAPES = ((), (1,), (2,), (3,), (4,), (0,), (5,), (2, 3), (3, 3), (2, 1, 2), (1, 1), (4, 4), (0, 2), (3, 2, 2))


@st.composite
def batch(draw, max_n=12, shapes=SHAPES):
    """{'shape': [...], 'rots': [...]}"""
    shape = draw(st.sampled_from(shapes))
    n = math.prod(shape)
    return dict(shape=list(shape), rots=[draw(rotation) for _ in range(n)])


def tensor(b):
    return matrices(b["rots"]).reshape(*b["shape"], 3, 3)
