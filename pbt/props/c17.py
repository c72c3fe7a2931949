"""C17: modules and grid cache are isolated and persist faithfully (histories of operations)."""
from __future__ import annotations

import copy
import io
import math
import pickle

import torch
from hypothesis import strategies as st

import gconv.geometry as geo
from gconv.geometry.groups import s2
from gconv.gnn import functional as F
from gconv.gnn import modules as M

from .. import rots
from ..core import SEEDS, close, facet, fail, known_matcher, pair_ok, rand, randn, same, tensor_ok
from ..grp import GROUPS, quat_mat
from ..layers import COUNT, KERNELS, LAYERS, build, call, configs, fit, ref_grid
from ..ref import default_width

DT = torch.float64

# ------------------------------------------------------------------ requests of library grids

REQUESTS = {}
for n in (1, 2, 3, 4, 5, 8, 12, 16, 24):
    for p in ("quat", "matrix"):
        REQUESTS[f"so3-{p}-{n}"] = lambda n=n, p=p: geo.so3.uniform_grid(n, p)
CPU = torch.device("cpu")
for n in (2, 6, 11, 12, 20):  # the device spelled out
    for p in ("quat", "matrix"):
        REQUESTS[f"so3-{p}-{n}-cpu"] = lambda n=n, p=p: geo.so3.uniform_grid(n, p, device="cpu" if n % 2 else CPU)
        REQUESTS[f"so3-{p}-{n}-upper"] = lambda n=n, p=p: geo.so3.uniform_grid(n, p.upper(), device=None if n % 2 else "cpu")
REQUESTS["so2-5-cpu"] = lambda: geo.so2.uniform_grid(5, device="cpu")
REQUESTS["o2-cpu"] = lambda: geo.o2.uniform_grid((3, 2), device="cpu")
REQUESTS["o3-cpu"] = lambda: geo.o3.uniform_grid((4, 3), device="cpu")
REQUESTS["o3m-cpu"] = lambda: geo.o3.uniform_grid((4, 3), True, "cpu")
for n in ("identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"):
    REQUESTS[n + "-cpu"] = lambda n=n: getattr(geo.so3, n)(device="cpu")
REQUESTS["cyclic-cpu"] = lambda: geo.so3.cyclic(6, "x", device="cpu")
for n in (1, 4, 7):
    REQUESTS[f"so2-{n}"] = lambda n=n: geo.so2.uniform_grid(n)
for n in ((2, 2), (1, 3), (4, 0), (8, 4), (12, 12)):
    REQUESTS[f"o2-{n}"] = lambda n=n: geo.o2.uniform_grid(n)
    REQUESTS[f"o3-{n}"] = lambda n=n: geo.o3.uniform_grid(n)
    REQUESTS[f"o3m-{n}"] = lambda n=n: geo.o3.uniform_grid(n, matrix_only=True)
for n in ("identity", "klein_group", "tetrahedral", "octahedral", "icosahedral"):
    REQUESTS[n] = lambda n=n: getattr(geo.so3, n)()
for ax in "xyz":
    REQUESTS[f"cyclic-{ax}"] = lambda ax=ax: geo.so3.cyclic(5, ax)
    REQUESTS[f"cyclic_{ax}"] = lambda ax=ax: getattr(geo.so3, f"cyclic_{ax}")(4)
for n in (1, 2, 3, 5):  # coordinates and masks of kernels
    for f in (F.create_grid_R2, F.create_grid_R3, F.create_spherical_mask_R2, F.create_spherical_mask_R3):
        REQUESTS[f"{f.__name__}-{n}"] = lambda f=f, n=n: f(n)
        REQUESTS[f"{f.__name__}-{n}-cpu"] = lambda f=f, n=n: f(n, "cpu" if n % 2 else CPU)


def seeded(f):
    def g():
        torch.manual_seed(3)
        return f()
    return g


for k, f in dict(so2=lambda: geo.so2.random_grid(3), o2=lambda: geo.o2.random_grid(3), o3=lambda: geo.o3.random_grid(3), quat=lambda: geo.so3.random_quat(3),
                 matrix=lambda: geo.so3.random_matrix((3,)), euler=lambda: geo.so3.random_euler(3), s2=lambda: s2.random_s2((3,)),
                 s2u=lambda: s2.uniform_grid_s2(5, steps=2, show_pbar=False), s2e=lambda: s2.uniform_grid_s2(5, "euler", steps=2, show_pbar=False),
                 uniform=lambda: geo.so3.uniform_grid(31, "euler", steps=2, show_pbar=False)).items():
    REQUESTS[f"random-{k}"] = seeded(f)
NAMES = sorted(REQUESTS)
# what a fresh process returns, recorded before any history is run
PRISTINE = {k: f().clone() for k, f in REQUESTS.items()}
CACHE_N = (25, 26, 27)  # sizes without a built-in grid
PARAMS = ("quat", "matrix", "euler")
ESHAPE = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}


def _warm_up():
    """lazy imports of torch, done once instead of in every forked case"""
    p = torch.nn.Parameter(torch.ones(2))
    for opt in (torch.optim.SGD([p], 0.1), torch.optim.Adam([p], 0.1)):
        p.square().sum().backward()
        opt.step()
    f = io.BytesIO()
    torch.save(torch.nn.Linear(1, 1), f)
    f.seek(0)
    torch.load(f, weights_only=False)


_warm_up()


def to_mat(g, p):
    g = g.double()
    if p == "quat":
        return quat_mat(g)
    return g if p == "matrix" else torch.stack([rots.zyz(*(float(v) for v in e)) for e in g])


# ------------------------------------------------------------------ worlds of modules

KINDS = ("lift", "sep", "full")
GRPS = ("SE2", "E2", "SE3", "E3")
LIB = {"SE2": lambda n: geo.so2.uniform_grid(n), "E2": lambda n: geo.o2.uniform_grid((n, n)),
       "SE3": lambda n: geo.so3.uniform_grid(n, "matrix"), "E3": lambda n: geo.o3.uniform_grid((n, n))}

CONF = st.fixed_dictionaries(dict(
    kind=st.sampled_from(KINDS), grp=st.sampled_from(GRPS), k=st.sampled_from((3, 1, 4)), gks=st.sampled_from((2, 3, 4)),
    mask=st.booleans(), bias=st.booleans(), groups=st.sampled_from((1, 2)), width=st.sampled_from((0.0, 0.0, 0.5)),
    width2=st.sampled_from((0.0, 0.5, 0.9)), gmode=st.sampled_from(("rbf", "rbf", "nearest")), smode=st.sampled_from(("bilinear", "bilinear", "nearest")),
    spad=st.sampled_from(("border", "zeros")), pmode=st.sampled_from(("zeros", "zeros", "circular")), stride=st.sampled_from((1, 1, 2)),
    dilation=st.sampled_from((1, 1, 2)),
    how=st.sampled_from(("default", "default", "own", "library", "shared")), seed=st.integers(0, 3)))


def nref(c):
    return (c["gks"], c["gks"]) if GROUPS[c["grp"]].refl else c["gks"]


class Mod:
    def __init__(self, c, module, grid=None):
        self.c, self.m, self.grid = c, module, grid
        self.expect = None

    def probe(self):
        c = self.c
        G = GROUPS[c["grp"]]
        dt = next(self.m.parameters()).dtype
        x = randn(11, 1, 2, *([2] if c["kind"] != "lift" else []), *([5] * G.D), dtype=dt)
        with torch.no_grad():
            outs = [pair_ok(call(self.m, c, x, G.elems(5, 2).to(dt), G.elems(6, 3).to(dt)))[0]]
            # the default output grid too
            y, H = pair_ok(self.m(x) if c["kind"] == "lift" else self.m(x, G.elems(5, 2).to(dt)))
            outs += [y, H]
        return [o.clone() for o in outs]

    def settle(self):
        self.expect = self.probe()

    def verify(self, what):
        got = self.probe()
        for name, a, b in zip(("output", "output on the default grid", "default grid"), got, self.expect):
            if a.shape != b.shape or a.dtype != b.dtype or not torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)):
                fail(f"{what}: {name} of {self.c['kind']} {self.c['grp']} changed")


def construct(c, grid=None, seed=0):
    kw = dict(in_channels=2, out_channels=2, kernel_size=c["k"], group_kernel_size=c["gks"], groups=c["groups"], bias=c["bias"],
              mask=c["mask"], padding=c["dilation"] * (c["k"] // 2), permute_output_grid=False, padding_mode=c["pmode"], stride=c["stride"],
              dilation=c["dilation"])
    if c["kind"] == "lift":
        kw.update(sampling_mode=c["smode"], sampling_padding_mode=c["spad"])
    else:
        kw.update(group_sampling_mode=c["gmode"], spatial_sampling_mode=c["smode"], spatial_sampling_padding_mode=c["spad"])
        if GROUPS[c["grp"]].refl:
            kw.update(group_rotation_sampling_width=c["width"], group_reflection_sampling_width=c["width2"])
        else:
            kw.update(group_sampling_width=c["width"])
    if grid is not None:
        kw["grid_H"] = grid
    torch.manual_seed(seed)
    return LAYERS[c["kind"], c["grp"]](**kw)


class World:
    def __init__(self):
        self.mods: list[Mod] = []
        self.grids: list[torch.Tensor] = []  # grids the caller owns
        self.shared = {}  # one caller tensor per group, passed to several modules
        self.cached = {}
        self.asked = set()  # requests whose results were edited at once
        self.log = []

    # -- operations: each returns the module it may change (or None)
    def op_build(self, o):
        if len(self.mods) >= 5:
            return None
        c = o["c"]
        n = nref(c)
        grid = None
        if c["how"] == "own":
            grid = GROUPS[c["grp"]].ref_grid(c["seed"], n).float()
        elif c["how"] == "library":
            grid = LIB[c["grp"]](c["gks"])
        elif c["how"] == "shared":
            key = (c["grp"], c["gks"])
            fresh = GROUPS[c["grp"]].ref_grid(7, n).float()
            if key not in self.shared or not torch.equal(self.shared[key], fresh):  # still a grid, not edited into anything else
                self.shared[key] = fresh
            grid = self.shared[key]
        if grid is not None:
            spec = grid.clone()
            self.grids.append(grid)
        m = Mod(c, construct(c, grid, c["seed"]), None if grid is None else spec)
        self.mods.append(m)
        m.settle()
        return m

    def pick(self, i):
        return self.mods[i % len(self.mods)] if self.mods else None

    def op_request(self, o):
        for t in range(4):
            k = NAMES[(o["i"] + 61 * o["j"] + 37 * t) % len(NAMES)]
            g = REQUESTS[k]()
            if not isinstance(g, torch.Tensor) or g.shape != PRISTINE[k].shape or not torch.equal(g, PRISTINE[k]):
                fail(f"after {self.log}: request {k} does not return the grid it returned at first")
            self.grids.append(g)
            if (o["i"] + t) % 3 == 1:
                mutate(g, o["j"])
                self.asked.add(k)

    def op_edit_grid(self, o):
        if self.grids:
            mutate(self.grids[-1 - o["i"] % len(self.grids)], o["j"])

    def op_edit_tensor(self, o):
        m = self.pick(o["i"])
        if m is None:
            return None
        ts = sorted([(n, t) for n, t in (*m.m.named_parameters(), *m.m.named_buffers())], key=lambda nt: nt[0])
        name, t = ts[o["j"] % len(ts)]
        with torch.no_grad():
            t.mul_(1.25) if "grid_H" not in name else t.copy_(roll_grid(m.c, t))
        return m

    def op_reset(self, o):
        m = self.pick(o["i"])
        if m is not None:
            torch.manual_seed(o["j"])
            m.m.reset_parameters()
        return m

    def op_step(self, o):
        """an optimiser step"""
        m = self.pick(o["i"])
        if m is None:
            return None
        dt = next(m.m.parameters()).dtype
        G = GROUPS[m.c["grp"]]
        x = randn(13, 1, 2, *([2] if m.c["kind"] != "lift" else []), *([5] * G.D), dtype=dt)
        opt = torch.optim.SGD(m.m.parameters(), 0.01)
        y, _ = call(m.m, m.c, x, G.elems(5, 2).to(dt), G.elems(6, 3).to(dt))
        y.square().mean().backward()
        opt.step()
        opt.zero_grad()
        return m

    def op_dtype(self, o):
        m = self.pick(o["i"])
        if m is None:
            return None
        was = next(m.m.parameters()).dtype
        before = m.expect
        m.m.to(torch.float64 if was == torch.float32 else torch.float32)
        if was == torch.float32:
            m.m.float()  # there and back is the identity
            m.verify(f"after {self.log}: to double and back")
            m.m.double()
            got = m.probe()
            for a, b in zip(got, before):
                tensor_ok(a, b.shape, "output in double precision", torch.float64, finite=False)
            if bool(torch.isfinite(before[0]).all()) and m.grid is None:
                close(got[0], before[0].double(), 2e-2, f"after {self.log}: output after conversion to double")
        return m

    def op_load(self, o):
        """state of one module into another of the same configuration"""
        a, b = self.pick(o["i"]), self.pick(o["j"])
        if a is None or a is b or config_key(a) != config_key(b):
            return None
        sd = state(a.m, o["j"])
        b.m.to(next(a.m.parameters()).dtype)
        missing = b.m.load_state_dict(sd)
        if missing.missing_keys or missing.unexpected_keys:
            fail(f"after {self.log}: state dictionary does not fit: {missing}")
        b.expect = [t.clone() for t in a.expect]
        b.verify(f"after {self.log}: module that loaded the state of another")
        return b

    def op_copy(self, o):
        a = self.pick(o["i"])
        if a is None or len(self.mods) >= 6:
            return None
        how = o["j"] % 4
        if how == 0:
            m = copy.deepcopy(a.m)
        elif how == 1:
            m = pickle.loads(pickle.dumps(a.m))
        elif how == 2:
            f = io.BytesIO()
            torch.save(a.m, f)
            f.seek(0)
            m = torch.load(f, weights_only=False)
        else:  # a fresh module of the same configuration and the saved state
            m = construct(a.c, None if a.grid is None else a.grid.clone(), 99).to(next(a.m.parameters()).dtype)
            m.load_state_dict(state(a.m, o["i"]))
        new = Mod(a.c, m, a.grid)
        new.expect = [t.clone() for t in a.expect]
        self.mods.append(new)
        new.verify(f"after {self.log}: {('deepcopy', 'pickled copy', 'saved copy', 'fresh module with loaded state')[how]}")
        ga, gb = dict(a.m.named_buffers())["kernel.grid_H"], dict(m.named_buffers())["kernel.grid_H"]
        same(gb, ga, f"after {self.log}: reference grid of the copy")
        return None

    def op_cache(self, o):
        """create and cache a grid of a size without built-in grid"""
        n, p = CACHE_N[o["i"] % len(CACHE_N)], PARAMS[o["j"] % 3]
        torch.manual_seed(o["i"] + 50 * o["j"])
        g = geo.so3.uniform_grid(n, p, steps=2, show_pbar=False, cache_grid=True)
        self.expect_cached(n, p, g)
        self.grids.append(g)

    def op_recall(self, o):
        n, p = CACHE_N[o["i"] % len(CACHE_N)], PARAMS[o["j"] % 3]
        torch.manual_seed(1000 + o["i"])
        g = geo.so3.uniform_grid(n, p, steps=1, show_pbar=False)
        self.expect_cached(n, p, g, create=False)
        self.grids.append(g)

    def expect_cached(self, n, p, g, create=True):
        what = f"after {self.log}: uniform_grid({n}, {p})"
        tensor_ok(g, (n, *ESHAPE[p]), what)
        R = to_mat(g, p)
        e = float((R @ R.mT - torch.eye(3, dtype=DT)).abs().max())
        if e > 1e-4:
            fail(f"{what}: not valid rotations ({e:.1e})")
        if (n, p) in self.cached:
            close(R, self.cached[n, p], 1e-4, f"{what}: cached rotations", scale=1.0)
        elif create:
            self.cached[n, p] = R.clone()

    def op_norm(self, o):
        """a normalisation layer, whose state belongs to it alone"""
        m = M.GBatchNorm2d(2)
        m(randn(o["i"], 2, 2, 3, 4, 4).float() * 3, None)


def state(mod, how):
    sd = mod.state_dict()
    if how % 2:
        f = io.BytesIO()
        torch.save(sd, f)
        f.seek(0)
        sd = torch.load(f, weights_only=True)
    return sd


def roll_grid(c, t):
    """another valid reference grid: the same elements in another order (within each parity)"""
    G = GROUPS[c["grp"]]
    cr = G.coeff(t.double())
    idx = torch.arange(len(t))
    for s in (1.0, -1.0):
        i = idx[cr == s]
        if len(i):
            idx = idx.index_copy(0, i, i.roll(1))
    return t[idx].clone()


def mutate(t, j):
    with torch.no_grad():
        if not t.is_floating_point():
            t.copy_(t == 0) if j % 2 else t.zero_()
        elif j % 4 == 0:
            t.zero_()
        elif j % 4 == 1:
            t.mul_(-2.0)
        elif j % 4 == 2:
            t.fill_(float("nan"))
        else:
            t.copy_(torch.flip(t, (0,)) + 1)


def config_key(m):
    return (str({k: v for k, v in m.c.items() if k not in ("seed", "how")}), None if m.grid is None else m.grid.flatten().tolist())


OPNAMES = ("build", "request", "edit_grid", "edit_tensor", "reset", "step", "dtype", "load", "copy", "cache", "recall", "norm")
IJ = dict(i=st.integers(0, 60), j=st.integers(0, 60))


SAME = ("kind", "grp", "k", "gks", "groups")  # what makes layers likely to share something


@st.composite
def op(draw, names, theme=None):
    n = draw(st.sampled_from(names))
    o = dict(op=n, i=draw(IJ["i"]), j=draw(IJ["j"]))
    if n == "build":
        o["c"] = draw(CONF)
        if theme is not None:  # some of the layers of a history differ in little
            keep = draw(st.integers(0, 31))
            o["c"] = dict(o["c"], **{k: theme[k] for i, k in enumerate(SAME) if keep >> i & 1})
    return o


@st.composite
def histories(draw, names, lo, hi):
    first = [dict(op="build", i=0, j=0, c=draw(CONF)), dict(op="build", i=0, j=0, c=draw(CONF))]
    theme = {k: first[0]["c"][k] for k in SAME}
    twin = dict(first[0], c=dict(first[0]["c"], seed=draw(st.integers(0, 3))))
    for k, v in draw(st.fixed_dictionaries({}, optional=dict(width=st.sampled_from((0.0, 0.5, 0.9)), gmode=st.sampled_from(("rbf", "nearest")),
                                                             smode=st.sampled_from(("bilinear", "nearest")), mask=st.booleans(),
                                                             dilation=st.sampled_from((1, 2)), how=st.sampled_from(("default", "own"))))).items():
        twin["c"][k] = v
    return first + ([twin] if draw(st.booleans()) else []) + draw(st.lists(op(names, theme), min_size=lo, max_size=hi))


def check_history(ops):
    """After every operation of a history all modules other than its target keep their outputs bit for bit, requested
    grids equal those of a fresh process, and copies and loaded modules reproduce the outputs of their source."""
    w = World()
    touched = 0
    for o in ops:
        w.log = w.log[-5:] + [o["op"]]
        target = getattr(w, "op_" + o["op"])(o)
        for m in w.mods:
            if m is not target:
                m.verify(f"after {w.log}")
            else:
                m.settle()
                touched += len(w.mods) > 1
    for k in sorted(w.asked) + NAMES[:: 1 + len(ops) % 5]:
        g = REQUESTS[k]()
        if g.shape != PRISTINE[k].shape or not torch.equal(g, PRISTINE[k]):
            fail(f"after {w.log}: request {k} does not return the grid it returned at first")
    kinds = {o["op"] for o in ops}
    edits = sum(o["op"] in ("edit_grid", "edit_tensor", "load", "reset", "step") for o in ops)
    return edits > 0 and len(w.mods) > 1, [*sorted(kinds), f"modules{len(w.mods)}"]


GRID_OPS = ("request", "edit_grid", "edit_grid", "cache", "recall", "recall", "build")
for i, (names, lo, hi, q) in enumerate(((OPNAMES, 3, 14, 90), (OPNAMES, 3, 14, 90), (OPNAMES, 8, 24, 60),
                                       (("build", "load", "copy", "edit_tensor", "edit_grid", "dtype", "step"), 3, 12, 90))):
    facet("C17", f"history-{i}", histories(names, lo, hi), quick=q, isolated=True, budget=100,
          rule="several modules and some editing operation")(check_history)
def check_grid_cache(ops):
    """Histories of requesting, caching and editing grids: every later request has the contents a fresh process would give it, in the
    parameterization asked for."""
    return check_history(ops)[0] or len(ops) > 2, sorted({o["op"] for o in ops})


facet("C17", "grid-cache", st.lists(op(GRID_OPS[:-1]), min_size=2, max_size=25).map(lambda l: l), quick=160, isolated=True, budget=100,
      rule="several grid operations")(check_grid_cache)


# ------------------------------------------------------------------ persistence of arbitrary layers


@st.composite
def persist(draw):
    c = draw(configs(nearest=True))
    return dict(c=c, how=draw(st.sampled_from(("deepcopy", "pickle", "save", "state", "state-file"))), edit=draw(st.booleans()),
                nin=draw(COUNT[2]), nout=draw(COUNT[2]), perm=draw(st.booleans()), f32=draw(st.booleans()), seed=draw(SEEDS))


def probe(mod, c, case):
    G = GROUPS[c["grp"]]
    dt = torch.float32 if case["f32"] else DT
    shape = [1, c["cin"]] + ([case["nin"]] if c["kind"] != "lift" else []) + [fit(c, 2)] * G.D
    x = randn(case["seed"], *shape, dtype=dt)
    torch.manual_seed(5)
    return pair_ok(call(mod, c, x, G.elems(case["seed"], case["nin"]).to(dt), G.elems(case["seed"] + 1, case["nout"]).to(dt)))


def check_persist(case):
    """Any layer of any configuration, after copying or saving and restoring: bit-identical outputs, independent storage."""
    c = case["c"]
    dt = torch.float32 if case["f32"] else DT
    mod = build(c, permute=case["perm"], dtype=dt)
    if case["edit"]:
        g = dict(mod.named_buffers())["kernel.grid_H"]
        with torch.no_grad():
            g.copy_(roll_grid(c, g))
    y, H = probe(mod, c, case)
    how = case["how"]
    if how == "deepcopy":
        new = copy.deepcopy(mod)
    elif how == "pickle":
        new = pickle.loads(pickle.dumps(mod))
    elif how == "save":
        f = io.BytesIO()
        torch.save(mod, f)
        f.seek(0)
        new = torch.load(f, weights_only=False)
    else:
        new = build(dict(c, seed=c["seed"] + 1), permute=case["perm"], dtype=dt, init="random")
        new.load_state_dict(state(mod, how == "state-file"))
    what = f"{how} of {c['kind']} {c['grp']} layer"
    y2, H2 = probe(new, c, case)
    same(y2, y, f"{what}: output")
    same(H2, H, f"{what}: returned grid")
    A, B = dict(mod.state_dict()), dict(new.state_dict())
    if sorted(A) != sorted(B):
        fail(f"{what}: state {sorted(B)}, expected {sorted(A)}")
    for n in A:
        same(B[n], A[n], f"{what}: {n}")
    with torch.no_grad():  # the copy owns its storage
        for t in (*new.parameters(), *new.buffers()):
            t.fill_(0.37)
    same(probe(mod, c, case)[0], y, f"{what}: output of the original after editing the copy")
    return float(y.abs().max()) > 0, [how, c["kind"], c["grp"], "edited grid" if case["edit"] else "", c["gmode"]]


facet("C17", "persist", persist(), quick=700, budget=90, rule="output not zero")(check_persist)
facet("C17", "persist-2", persist(), quick=700, budget=90, rule="output not zero")(check_persist)


# ------------------------------------------------------------------ state loaded into a module built on another grid


@st.composite
def other(draw):
    c = draw(configs(nearest=True))
    c["ref"] = draw(SEEDS)
    return dict(c=c, ref2=draw(SEEDS), nin=draw(st.integers(1, 3)), nout=draw(st.integers(1, 3)), f32=False, seed=draw(SEEDS))


def check_other(case):
    """A state dictionary carries the reference grid: loaded into a module built on another one it reproduces the outputs."""
    c = case["c"]
    c2 = dict(c, ref=case["ref2"], seed=c["seed"] + 1)
    mod, new = build(c), build(c2)
    y, _ = probe(mod, c, case)
    new.load_state_dict(mod.state_dict())
    y2, _ = probe(new, c, case)
    sc = max(float(y.abs().max()), 1e-3)
    if y2.shape != y.shape or float((y2 - y).abs().max()) > 1e-9 * sc:
        G = GROUPS[c["grp"]]
        tag = ""
        if c["kind"] != "lift" and c["gmode"] == "rbf" and c["width"] == 0.0:
            # is it the default width, taken from the grid the module was built on, and nothing else?
            # such a module equals one built on the saved grid with that width
            g2 = ref_grid(c2)
            cf = G.coeff(g2)
            w = {s: default_width(c["grp"], g2[cf == s]) for s in (1.0, -1.0) if int((cf == s).sum()) > 1}
            over = {}
            if G.refl:
                over = {k: w[s] for k, s in (("group_rotation_sampling_width", 1.0), ("group_reflection_sampling_width", -1.0)) if s in w}
            elif 1.0 in w:
                over = dict(group_sampling_width=w[1.0])
            third = build(c, **over)
            third.load_state_dict(mod.state_dict())
            y3, _ = probe(third, c, case)
            if float((y3 - y2).abs().max()) <= 1e-4 * sc:
                tag = " (default width of the grid the module was built on)"
        fail(f"{c['kind']} {c['grp']} layer that loaded the state of one with another reference grid: output differs{tag}")
    return case["ref2"] != c["ref"], [c["kind"], c["grp"], "default width" if c["width"] == 0 else "width"]


@known_matcher("KF2")
def kf2(case, msg):
    c = case["c"]
    return (c["kind"] != "lift" and c["gmode"] == "rbf" and c["width"] == 0.0 and case["ref2"] != c["ref"]
            and msg.endswith("(default width of the grid the module was built on)"))


facet("C17", "other-grid", other(), quick=500, budget=90, rule="different reference grids")(check_other)
