"""Reference group mathematics, independent of the code under test.

Every adapter describes one of the layer families: how an element is stored by
the library, which linear map it is, how products look, and which elements map
the pixel / voxel lattice to itself.
"""
from __future__ import annotations

import itertools
import math

import torch

from .core import gen

DT = torch.float64


# ---------------------------------------------------------------- plain rotations


def rot2(t):
    t = torch.as_tensor(t, dtype=DT)
    c, s = torch.cos(t), torch.sin(t)
    return torch.stack((torch.stack((c, -s), -1), torch.stack((s, c), -1)), -2)


def quat_mul(a, b):
    w1, x1, y1, z1 = a.unbind(-1)
    w2, x2, y2, z2 = b.unbind(-1)
    return torch.stack(
        (
            w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
            w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
        ),
        -1,
    )


def quat_mat(q):
    """Rotation matrix of a unit quaternion, by rotating the basis vectors q v q*."""
    conj = q * torch.tensor([1.0, -1, -1, -1], dtype=q.dtype)
    cols = []
    for i in range(3):
        v = torch.zeros(q.shape, dtype=q.dtype)
        v[..., i + 1] = 1
        cols.append(quat_mul(quat_mul(q, v), conj)[..., 1:])
    return torch.stack(cols, -1)


def axis_angle(axis, angle):
    """Rodrigues' formula; axis (..., 3) unit, angle (...)."""
    x, y, z = axis.unbind(-1)
    o = torch.zeros_like(x)
    K = torch.stack((torch.stack((o, -z, y), -1), torch.stack((z, o, -x), -1), torch.stack((-y, x, o), -1)), -2)
    eye = torch.eye(3, dtype=axis.dtype).expand(K.shape)
    a = torch.as_tensor(angle, dtype=axis.dtype)[..., None, None]
    return eye + torch.sin(a) * K + (1 - torch.cos(a)) * (K @ K)


def rand_quat(seed, *shape):
    q = torch.randn(*shape, 4, generator=gen(seed), dtype=DT)
    return q / q.norm(dim=-1, keepdim=True)


def rand_rot3(seed, *shape):
    return quat_mat(rand_quat(seed, *shape))


def so3_angle(R1, R2):
    """Relative rotation angle in [0, pi], accurate at both ends (chordal formula)."""
    d = (R1 - R2).flatten(-2).norm(dim=-1)  # 2 sqrt2 sin(angle/2)
    return 2 * torch.asin(torch.clamp(d / (2 * math.sqrt(2)), max=1.0))


def signed_perms(n, det=None):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            M = torch.zeros(n, n, dtype=DT)
            for i in range(n):
                M[i, p[i]] = s[i]
            if det is None or round(float(torch.linalg.det(M))) == det:
                out.append(M)
    out.sort(key=lambda m: float((m - torch.eye(n, dtype=DT)).norm()) )  # identity first (shrinking)
    return out


ROT2 = [rot2(k * math.pi / 2).round() for k in range(4)]
MIRROR2 = signed_perms(2)
ROT3 = signed_perms(3, 1)
FULL3 = signed_perms(3)


# ---------------------------------------------------------------- lattice action on tensors


def spatial(M, x, order):
    """(g.x)(p) = x(g^-1 p) for a signed permutation M acting on coordinates.

    ``order`` maps coordinate component -> spatial dimension; the last
    ``len(order)`` dimensions of ``x`` are the spatial ones. Works for
    non-cubic shapes, whose sizes are permuted.
    """
    D = len(order)
    lead = x.ndim - D
    perm = [0] * D
    flips = []
    for i in range(D):  # output component i takes input component j with sign s
        j = int(M[i].abs().argmax())
        s = int(round(float(M[i, j])))
        perm[order[i]] = order[j]
        if s < 0:
            flips.append(lead + order[i])
    y = x.permute(*range(lead), *[lead + d for d in perm])
    return torch.flip(y, flips) if flips else y


GRIDS = ("random", "random", "random", "near", "repeat", "lattice", "ordered", "twins", "turns", "onesign")
PAIRS = GRIDS + ("same", "same")
ORDER = {2: (0, 1), 3: (2, 1, 0)}


class Group:
    """Adapter of one layer family."""

    name: str
    D: int
    refl: bool  # has a reflection coefficient
    lattice: list  # lattice symmetries as repr-building parameters

    def order(self):
        return ORDER[self.D]

    def elems(self, seed, n, spread=False):
        raise NotImplementedError

    def act(self, H):
        """(n, D, D) linear maps of the stored elements."""
        raise NotImplementedError

    def mul(self, g, H):
        """g.H for a single element g (stored form, no leading dim)."""
        raise NotImplementedError

    def lat(self, i):
        """i-th lattice symmetry: (stored element, D x D signed permutation)."""
        raise NotImplementedError

    def finite(self, name):
        """A finite group of stored elements closed under products."""
        raise NotImplementedError

    def tiny(self, seed, eps):
        """An element at most eps away from the identity."""
        raise NotImplementedError

    def flip(self, H):
        """The elements with the opposite reflection coefficient."""
        return H

    def turns(self, H, seed):
        """Another stored form of the same elements."""
        return H

    def grid(self, seed, n, kind="random"):
        """n elements in an arrangement that matters to code which looks at several of them at once."""
        H = self.elems(seed, n)
        g = gen(seed + 977)
        pick = lambda hi: int(torch.randint(hi, (1,), generator=g))
        if kind == "near":  # some differ by very little
            for i in range(1, n):
                if pick(3):
                    H[i] = self.mul(H[pick(i)], self.tiny(seed + i, 10.0 ** -(1.5 + pick(12) / 2))[None])[0]
        elif kind == "repeat":
            for i in range(1, n):
                if pick(2):
                    H[i] = H[pick(i)]
        elif kind == "lattice":
            H = torch.stack([self.lat(pick(self.nlat))[0] for _ in range(n)]) if n else H
        elif kind == "ordered":
            H = self.ordered(n)
        elif kind == "twins":  # the same rotation with both coefficients
            for i in range(1, n, 2):
                H[i] = self.flip(H[i - 1 : i])[0]
        elif kind == "turns":
            H = self.turns(H, seed)
        elif kind == "onesign" and n and self.refl:
            H[:, 0] = 1.0 - 2 * pick(2)
        return H

    def pair(self, seed, nin, nout, kind="random", salt=1):
        """Input and output grid; for kind "same" one and the same tensor where the sizes agree."""
        if kind == "same":
            kind = GRIDS[seed % len(GRIDS)]
            if nin == nout:
                H = self.grid(seed, nin, kind)
                return H, H
            a, b = self.grid(seed, max(nin, nout), kind), None
            return a[:nin], a[:nout]
        return self.grid(seed, nin, kind), self.grid(seed + salt, nout, kind)


def _spread_angles(seed, n):
    """equally spaced angles with a random offset, in random order"""
    t = 2 * math.pi * torch.rand(1, generator=gen(seed), dtype=DT)
    H = (t + torch.arange(n, dtype=DT)[:, None] * 2 * math.pi / max(n, 1)) % (2 * math.pi)
    return H[torch.randperm(n, generator=gen(seed + 1))]


class SE2(Group):
    name, D, refl, nlat = "SE2", 2, False, 4

    def elems(self, seed, n):
        return 2 * math.pi * torch.rand(n, 1, generator=gen(seed), dtype=DT)

    def act(self, H):
        return rot2(H[:, 0])

    def mul(self, g, H):
        return (g + H) % (2 * math.pi)

    def rel(self, A, B):
        return (B[None] - A[:, None]) % (2 * math.pi)

    def lat(self, i):
        i = i % 4
        return torch.tensor([i * math.pi / 2], dtype=DT), ROT2[i]

    def tiny(self, seed, eps):
        return eps * (2 * torch.rand(1, generator=gen(seed), dtype=DT) - 1)

    def ordered(self, n):
        return (torch.arange(n, dtype=DT) * 2 * math.pi / max(n, 1))[:, None]

    def turns(self, H, seed):
        H = H.clone()
        H[:, -1] += 2 * math.pi * torch.randint(-2, 3, (H.shape[0],), generator=gen(seed + 5))
        return H

    def finite(self, n):
        """cyclic group of order n"""
        return (torch.arange(n, dtype=DT) * 2 * math.pi / n)[:, None]

    def ref_grid(self, seed, n):
        """a well spread reference grid in arbitrary order"""
        return _spread_angles(seed, n)

    def coeff(self, H):
        return torch.ones(H.shape[0], dtype=DT)

    def dist(self, A, B):
        """relative angle between all stored elements (n, m), rotations part"""
        d = (A[:, None, -1] - B[None, :, -1]).abs() % (2 * math.pi)
        return torch.minimum(d, 2 * math.pi - d)


class E2(SE2):
    """O(2) as the library stores and applies it: (coefficient c, angle t) acts as c R(t)."""

    name, D, refl, nlat = "E2", 2, True, 8

    def elems(self, seed, n):
        g = gen(seed)
        t = 2 * math.pi * torch.rand(n, 1, generator=g, dtype=DT)
        c = (torch.rand(n, 1, generator=g, dtype=DT) > 0.5).double() * 2 - 1
        return torch.cat((c, t), -1)

    def tiny(self, seed, eps):
        return torch.cat((torch.ones(1, dtype=DT), SE2.tiny(self, seed, eps)))

    def ordered(self, n):
        m = (n + 1) // 2  # half of them reflected
        t = SE2.ordered(self, m)
        return torch.cat((torch.cat((torch.ones(m, 1, dtype=DT), t), -1), torch.cat((-torch.ones(n - m, 1, dtype=DT), t[: n - m]), -1)))

    def flip(self, H):
        return torch.cat((-H[:, :1], H[:, 1:]), -1)

    def act(self, H):
        return H[:, 0, None, None] * rot2(H[:, 1])

    def mul(self, g, H):
        return torch.stack((g[0] * H[:, 0], (g[1] + H[:, 1]) % (2 * math.pi)), -1)

    def rel(self, A, B):
        return torch.stack(
            (A[:, None, 0] * B[None, :, 0], (B[None, :, 1] - A[:, None, 1]) % (2 * math.pi)), -1
        )

    def lat(self, i):
        i = i % 8
        c = 1.0 if i < 4 else -1.0
        return torch.tensor([c, (i % 4) * math.pi / 2], dtype=DT), c * ROT2[i % 4]

    def finite(self, n):
        t = SE2.finite(self, n)
        one = torch.ones(n, 1, dtype=DT)
        return torch.cat((torch.cat((one, t), -1), torch.cat((-one, t), -1)), 0)

    def ref_grid(self, seed, n):
        """n = (rotations, reflections), rotations first as the library requires"""
        a, b = n
        A, B = _spread_angles(seed, a), _spread_angles(seed + 7, b)
        return torch.cat(
            (
                torch.cat((torch.ones(a, 1, dtype=DT), A), -1),
                torch.cat((-torch.ones(b, 1, dtype=DT), B), -1),
            ),
            0,
        )

    def coeff(self, H):
        return H[:, 0]


def spread_rots(seed, n):
    """n well separated rotations: greedy farthest-point choice among random ones."""
    R = rand_rot3(seed, 40 * n + 1)
    chosen = [0]
    d = so3_angle(R, R[0])
    for _ in range(n - 1):
        i = int(d.argmax())
        chosen.append(i)
        d = torch.minimum(d, so3_angle(R, R[i]))
    return R[chosen[:n]] if n else R[:0]


_ROT3S = torch.stack(ROT3)


class SE3(Group):
    name, D, refl, nlat = "SE3", 3, False, 24

    def elems(self, seed, n):
        return rand_rot3(seed, n)

    def tiny(self, seed, eps):
        a = torch.randn(3, generator=gen(seed), dtype=DT)
        return axis_angle(a / a.norm(), torch.tensor(eps, dtype=DT))

    def ordered(self, n):
        """evenly spaced rotations about the last axis"""
        z = torch.tensor([0.0, 0, 1], dtype=DT).expand(n, 3)
        return axis_angle(z, torch.arange(n, dtype=DT) * 2 * math.pi / max(n, 1))

    def act(self, H):
        return H

    def mul(self, g, H):
        return g @ H

    def rel(self, A, B):
        return A.mT[:, None] @ B[None]

    def lat(self, i):
        M = ROT3[i % 24]
        return M, M

    def finite(self, n):
        """n=1,2,3,4,12,24: {e}, C2, C3 (diagonal), Klein, tetrahedral, octahedral"""
        keep = []
        for M in ROT3:
            diag = bool((M.abs() == torch.eye(3, dtype=DT)).all())
            P = M.abs()
            cyc = bool((P == torch.eye(3, dtype=DT)).all()) or round(float(torch.linalg.det(P))) == 1
            s = int(M.sum())
            if n == 1:
                ok = bool((M == torch.eye(3, dtype=DT)).all())
            elif n == 2:
                ok = diag and float(M[2, 2]) == 1
            elif n == 3:
                ok = cyc and bool((M >= 0).all())
            elif n == 4:
                ok = diag
            elif n == 12:
                ok = cyc
            else:
                ok = True
            if ok:
                keep.append(M)
        H = torch.stack(keep)
        assert H.shape[0] == n, (n, H.shape)
        return H

    def ref_grid(self, seed, n):
        return spread_rots(seed, n)

    def coeff(self, H):
        return torch.ones(H.shape[0], dtype=DT)

    def rotpart(self, H):
        return H

    def dist(self, A, B):
        A, B = self.rotpart(A), self.rotpart(B)
        return so3_angle(A[:, None], B[None])


class E3(SE3):
    name, D, refl, nlat = "E3", 3, True, 48

    @staticmethod
    def pack(c, R):
        return torch.cat((torch.as_tensor(c, dtype=DT).reshape(-1, 1), R.flatten(-2)), -1)

    def rotpart(self, H):
        return H[..., 1:].unflatten(-1, (3, 3))

    def elems(self, seed, n):
        c = (torch.rand(n, generator=gen(seed + 3), dtype=DT) > 0.5).double() * 2 - 1
        return self.pack(c, rand_rot3(seed, n))

    def tiny(self, seed, eps):
        return self.pack([1.0], SE3.tiny(self, seed, eps)[None])[0]

    def ordered(self, n):
        m = (n + 1) // 2
        R = SE3.ordered(self, m)
        return torch.cat((self.pack(torch.ones(m), R), self.pack(-torch.ones(n - m), R[: n - m])))

    def flip(self, H):
        return torch.cat((-H[:, :1], H[:, 1:]), -1)

    def act(self, H):
        return H[:, 0, None, None] * self.rotpart(H)

    def mul(self, g, H):
        return self.pack(g[0] * H[:, 0], self.rotpart(g) @ self.rotpart(H))

    def rel(self, A, B):
        c = A[:, None, :1] * B[None, :, :1]
        R = self.rotpart(A).mT[:, None] @ self.rotpart(B)[None]
        return torch.cat((c, R.flatten(-2)), -1)

    def lat(self, i):
        i = i % 48
        c = 1.0 if i < 24 else -1.0
        R = ROT3[i % 24]
        return self.pack([c], R[None])[0], c * R

    def finite(self, n):
        R = SE3.finite(self, n)
        return torch.cat((self.pack(torch.ones(n), R), self.pack(-torch.ones(n), R)), 0)

    def ref_grid(self, seed, n):
        a, b = n
        return torch.cat(
            (self.pack(torch.ones(a), spread_rots(seed, a)), self.pack(-torch.ones(b), spread_rots(seed + 7, b))), 0
        )

    def coeff(self, H):
        return H[:, 0]


GROUPS = {g.name: g for g in (SE2(), E2(), SE3(), E3())}
