"""C19: coordinate grids and masks are centred and symmetric."""
from __future__ import annotations

import itertools
import math

import torch
from hypothesis import strategies as st

import gconv.gnn.functional as gF

from .. import ref
from ..core import SEEDS, close, facet, fail, gen, pair_ok, randn, same, tensor_ok
from ..grp import FULL3, GROUPS, MIRROR2, ORDER, spatial
from ..layers import KERNELS, LAYERS, build, call, configs, fit, input_for

DT = torch.float64
GRID = {2: gF.create_grid_R2, 3: gF.create_grid_R3}
MASK = {2: gF.create_spherical_mask_R2, 3: gF.create_spherical_mask_R3}

SIZES = st.integers(2, 3).flatmap(lambda D: st.fixed_dictionaries(dict(
    D=st.just(D), n=st.integers(1, 150 if D == 2 else 45), g=st.integers(0, 47), device=st.booleans(),
    at=st.lists(st.integers(0, 10**6), min_size=D, max_size=D))))


def get(fn, case):
    return fn(case["n"], device="cpu") if case["device"] else fn(case["n"])


def coordinate(i, n):
    return 0.0 if n == 1 else (2.0 * i - (n - 1)) / (n - 1)


def check_grid(case):
    """Every index holds its own coordinates; spacing, range, centring; invariance under a lattice symmetry."""
    D, n = case["D"], case["n"]
    what = f"create_grid_R{D}({n})"
    g = get(GRID[D], case)
    tensor_ok(g, (*[n] * D, D), what, torch.float32)
    idx = [a % n for a in case["at"]]
    for d in range(D):
        c = ORDER[D].index(d)
        want = coordinate(idx[d], n)
        got = float(g[(*idx, c)])
        if abs(got - want) > 1e-6:
            fail(f"{what}: component {c} at {idx} is {got}, expected {want}")
    x = torch.tensor([coordinate(i, n) for i in range(n)], dtype=DT)
    want = torch.stack(torch.meshgrid(*[x] * D, indexing="ij"), -1)
    close(g, want[..., [ORDER[D].index(c) if D == 2 else 2 - c for c in range(D)]], 1e-6, what, scale=1.0)
    close(g.reshape(-1, D).double().mean(0), torch.zeros(D, dtype=DT), 1e-6, f"{what}: centre", scale=1.0)
    # g.grid: the field of coordinates is a vector field invariant under every symmetry
    mats = MIRROR2 if D == 2 else FULL3
    M = mats[case["g"] % len(mats)]
    field = g.movedim(-1, 0).double()
    moved = torch.einsum("ij,j...->i...", M, spatial(M, field, ORDER[D]))
    close(moved, field, 1e-6, f"{what}: under lattice symmetry", scale=1.0)
    # two calls never share memory
    h = get(GRID[D], case)
    g.fill_(5.0)
    if n and float(h.abs().max()) > 1 + 1e-6:
        fail(f"{what}: two grids share memory")
    return n > 1, [f"{D}d", "even" if n % 2 == 0 else "odd"]


def check_mask(case):
    """Binary; exactly the positions in the ball; symmetric; centre and axes kept; corners dropped; never empty."""
    D, n = case["D"], case["n"]
    what = f"create_spherical_mask_R{D}({n})"
    m = get(MASK[D], case)
    tensor_ok(m, [n] * D, what, torch.float32)
    if not bool(((m == 0) | (m == 1)).all()):
        fail(f"{what} is not binary")
    idx = [a % n for a in case["at"]]
    if n != 2:
        # exactly, in integers: |coordinate|^2 < 1.21
        r2 = sum((2 * i - (n - 1)) ** 2 for i in idx)
        inside = 100 * r2 < 121 * max(n - 1, 1) ** 2
        if 100 * r2 != 121 * max(n - 1, 1) ** 2 and bool(m[tuple(idx)]) != inside:
            fail(f"{what}: position {idx} has mask {float(m[tuple(idx)])}, norm {math.sqrt(r2) / max(n - 1, 1):.4f}")
        x = (2 * torch.arange(n) - (n - 1)) ** 2
        r = sum(v for v in torch.meshgrid(*[x] * D, indexing="ij"))
        on = 100 * r == 121 * max(n - 1, 1) ** 2  # exactly on the sphere: decided by rounding
        same(torch.where(on, 0, m), torch.where(on, 0, (100 * r < 121 * max(n - 1, 1) ** 2).float()), what)
    mats = MIRROR2 if D == 2 else FULL3
    M = mats[case["g"] % len(mats)]
    same(spatial(M, m, ORDER[D]), m, f"{what}: under lattice symmetry")
    if not bool(m.any()):
        fail(f"{what} removes the whole kernel")
    mid = [(n - 1) // 2, n // 2]
    for c in itertools.product(mid, repeat=D):
        if not bool(m[c]):
            fail(f"{what} drops the centre {c}")
    if n % 2:
        for d in range(D):
            sl = [n // 2] * D
            sl[d] = slice(None)
            if not bool(m[tuple(sl)].all()):
                fail(f"{what} drops positions on an axis")
    if n >= 3:
        for c in itertools.product((0, n - 1), repeat=D):
            if bool(m[c]):
                fail(f"{what} keeps the corner {c}")
    k = get(MASK[D], case)
    m.fill_(0.5)
    if bool((k == 0.5).any()):
        fail(f"{what}: two masks share memory")
    return n > 1, [f"{D}d", "even" if n % 2 == 0 else "odd"]


@st.composite
def masked(draw):
    c = draw(configs())
    c["mask"] = True
    c["k"] = draw(st.sampled_from((2, 3, 4, 1, 5) if GROUPS[c["grp"]].D == 3 else (2, 3, 4, 5, 1, 6, 7, 8)))
    return dict(c=c, seed=draw(SEEDS), at=draw(SEEDS))


def check_layers(case):
    """In a layer, the mask zeroes sampled kernels outside the ball and nowhere else, so that it never kills a layer,
    and weights only matter through the kept positions."""
    c = dict(case["c"])
    G = GROUPS[c["grp"]]
    D, k = G.D, c["k"]
    c.update(stride=1, dilation=1, padding=0)
    on, off = build(c), build(dict(c, mask=False))
    with torch.no_grad():
        for (n1, p), (n2, q) in zip(sorted(on.named_parameters()), sorted(off.named_parameters())):
            q.copy_(p)
    Hin, Hout = G.elems(case["seed"], 2), G.elems(case["seed"] + 1, 3)
    args = (Hout,) if c["kind"] == "lift" else (Hin, Hout)
    a, b = on.kernel(*args), off.kernel(*args)
    if c["kind"] == "sep":
        close(a[0], b[0], 1e-12, "group part of the masked kernel")
        a, b = a[1], b[1]
    mask = ref.ball(k, D)
    tensor_ok(a, b.shape, "masked kernel")
    close(a, b * mask, 1e-12, f"{c['kind']} {c['grp']} masked kernel of size {k}", scale=max(float(b.abs().max()), 1e-6))
    x = input_for(c, [2] * D, 2, 1, case["seed"] + 7)
    y, _ = pair_ok(call(on, dict(c, bias=False), x, Hin, Hout))
    if not c["bias"] and float(b.abs().max()) > 1e-6 and float(y.abs().max()) == 0:
        fail(f"{c['kind']} {c['grp']} masked layer of kernel size {k} is identically zero")
    return k > 1, [c["kind"], c["grp"], f"k{k}"]


facet("C19", "grid", SIZES, quick=400, rule="more than one position")(check_grid)
facet("C19", "mask", SIZES, quick=400, rule="more than one position")(check_mask)
facet("C19", "mask-b", SIZES, quick=400, rule="more than one position")(check_mask)
facet("C19", "layers", masked(), quick=600, rule="kernel of several positions")(check_layers)
facet("C19", "layers-b", masked(), quick=600, rule="kernel of several positions")(check_layers)
