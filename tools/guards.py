"""Guarded-fault campaign: how far do the generators reach?

python3 tools/guards.py OUT [--jobs 3] [--funcs SUBSTR] [--guards SUBSTR] [--sample K] [--seed N]

For every function of the library and every guard (a condition on its arguments, mode or number of calls), a scratch copy of the
repository gets the function wrapped so that its result is off by a little when the guard holds. The checks of the function's
part of the library are run until one reports a violation. Survivors are for a human to judge: the condition cannot occur, is
outside every property, or the generators do not reach it.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GUARDS = {
    "first>1000": "T[0].numel() > 1000",
    "any>10000": "any(t.numel() > 10000 for t in T)",
    "any>100000": "any(t.numel() > 100000 for t in T)",
    "empty-one": "T[0].ndim and T[0].shape[0] == 1",
    "lead>8": "T[0].ndim and T[0].shape[0] > 8",
    "lead>64": "T[0].ndim and T[0].shape[0] > 64",
    "lead=3": "T[0].ndim and T[0].shape[0] == 3",
    "lead=4": "T[0].ndim and T[0].shape[0] == 4",
    "second-one": "T[0].ndim > 1 and T[0].shape[1] == 1",
    "second>16": "T[0].ndim > 2 and T[0].shape[1] > 16",
    "noncontiguous": "any(not t.is_contiguous() for t in T)",
    "offset": "any(t.storage_offset() for t in T)",
    "f32": "T[0].dtype == torch.float32",
    "f64": "T[0].dtype == torch.float64",
    "mixed-dtype": "len({t.dtype for t in T if t.is_floating_point()}) > 1",
    "nograd": "not torch.is_grad_enabled()",
    "inference": "torch.is_inference_mode_enabled()",
    "requires-grad": "any(t.requires_grad for t in T)",
    "calls>4": "n > 4",
    "calls%7": "n % 7 == 6",
    "calls>40": "n > 40",
    "ndim>3": "T[0].ndim > 3",
    "ndim=1": "T[0].ndim == 1",
    "same-argument": "len(T) > 1 and any(a is b for i, a in enumerate(T) for b in T[:i])",
    "equal-arguments": "len(T) > 1 and T[0] is not T[1] and T[0].shape == T[1].shape and bool((T[0] == T[1]).all())",
    "other-size": "len(T) > 1 and T[0].ndim and T[1].ndim and T[0].shape[0] < T[1].shape[0]",
    "negative": "T[0].numel() and bool((T[0] < 0).all())",
    "nonnegative": "T[0].numel() and bool((T[0] >= 0).all())",
    "has-zero": "bool((T[0] == 0).any())",
    "no-zero": "T[0].numel() and not bool((T[0] == 0).any())",
    "integer-valued": "T[0].is_floating_point() and T[0].numel() and bool((T[0] == T[0].round()).all())",
    "large-values": "T[0].is_floating_point() and bool((T[0].abs() > 6.3).any())",
    "tiny-values": "T[0].is_floating_point() and T[0].numel() and bool((T[0].abs() < 1e-3).all())",
    "repeated-rows": "T[0].ndim > 1 and 1 < T[0].shape[0] < 2000 and len(torch.unique(T[0], dim=0)) < len(T[0])",
    "eval": "self is not None and not self.training",
    "train": "self is not None and self.training",
    "frozen": "self is not None and any(True for _ in self.parameters()) and not any(p.requires_grad for p in self.parameters())",
    "int>8": "any(isinstance(a, int) and a > 8 for a in args)",
    "int>50": "any(isinstance(a, int) and a > 50 for a in args)",
    "int>300": "any(isinstance(a, int) and a > 300 for a in args)",
    "int=1": "any(type(a) is int and a == 1 for a in args)",
    "int-prime": "any(type(a) is int and a in (7, 11, 13, 17, 19, 23, 29, 31, 37) for a in args)",
    "keyword": "bool(kw)",
    "non-square": "any(t.ndim > 4 and t.shape[-1] != t.shape[-2] for t in T)",
    "last>12": "any(t.ndim > 3 and t.shape[-1] > 12 for t in T)",
    "last-odd": "any(t.ndim > 3 and t.shape[-1] % 2 for t in T)",
    "last=1": "any(t.ndim > 3 and t.shape[-1] == 1 for t in T)",
    "lead=second": "T[0].ndim > 1 and T[0].shape[0] == T[0].shape[1]",
    "second=third": "T[0].ndim > 3 and T[0].shape[1] == T[0].shape[2]",
    "sizes-equal": "len(T) > 1 and T[0].ndim and T[1].ndim and T[0].shape[0] == T[1].shape[0]",
    "half-precision": "T[0].dtype in (torch.float16, torch.bfloat16)",
    "autocast": "torch.is_autocast_enabled('cpu')",
    "default-f64": "torch.get_default_dtype() == torch.float64",
    "thread": "__import__('threading').current_thread() is not __import__('threading').main_thread()",
    "subclass": "any(type(t) is not torch.Tensor for t in T)",
    "alternating-sign": "T[0].is_floating_point() and T[0].ndim and bool((T[0] < 0).any()) and bool((T[0] > 0).any())",
    "half-pi": "T[0].is_floating_point() and bool(((T[0] / 1.5707963267948966).round() * 1.5707963267948966 - T[0]).abs().min() < 1e-6) and bool((T[0].abs() > 1).any())",
    "above-pi": "T[0].is_floating_point() and bool((T[0] > 3.2).any()) and not bool((T[0] < 0).any())",
    "expanded": "any(0 in t.stride() and t.numel() > 1 for t in T)",
    "nan-free-large": "T[0].is_floating_point() and bool((T[0].abs() > 1e4).any())",
    "stride": "self is not None and any(s != 1 for s in S(self, 'stride'))",
    "stride-mixed": "self is not None and len(set(S(self, 'stride'))) > 1",
    "dilation": "self is not None and any(s != 1 for s in S(self, 'dilation'))",
    "padding>1": "self is not None and any(isinstance(s, int) and s > 1 for s in S(self, 'padding'))",
    "padding-mixed": "self is not None and len(set(S(self, 'padding'))) > 1",
    "padding-string": "self is not None and isinstance(getattr(self, 'padding', 0), str)",
    "padding-mode": "self is not None and getattr(self, 'padding_mode', 'zeros') != 'zeros'",
    "reflect": "self is not None and getattr(self, 'padding_mode', 'zeros') == 'reflect'",
    "channel-groups": "self is not None and getattr(self, 'groups', 1) > 1",
    "depthwise": "self is not None and getattr(self, 'groups', 1) > 1 and self.groups == self.in_channels",
    "equal-channels": "self is not None and getattr(self, 'in_channels', 0) == getattr(self, 'out_channels', 1)",
    "channels>4": "self is not None and max(getattr(self, 'in_channels', 0), getattr(self, 'out_channels', 0)) > 4",
    "one-channel": "self is not None and getattr(self, 'out_channels', 0) == 1",
    "bias": "self is not None and getattr(self, 'bias', None) is not None",
    "even-kernel": "self is not None and any(k % 2 == 0 for k in S(self, 'kernel_size'))",
    "pointwise": "self is not None and all(k == 1 for k in S(self, 'kernel_size')) and hasattr(self, 'kernel_size')",
    "kernel>3": "self is not None and any(k > 3 for k in S(self, 'kernel_size'))",
    "kernel-mixed": "self is not None and len(set(S(self, 'kernel_size'))) > 1",
    "mask": "self is not None and getattr(getattr(self, 'kernel', self), 'mask', None) is not None",
    "mask-none": "self is not None and hasattr(getattr(self, 'kernel', self), 'mask') and getattr(self, 'kernel', self).mask is None",
    "det": "self is not None and getattr(getattr(self, 'kernel', self), 'det_H', None) is not None",
    "reference-size-one": "self is not None and getattr(getattr(self, 'kernel', self), 'grid_H', None) is not None and len(getattr(self, 'kernel', self).grid_H) == 1",
    "reference>8": "self is not None and getattr(getattr(self, 'kernel', self), 'grid_H', None) is not None and len(getattr(self, 'kernel', self).grid_H) > 8",
}
MODULE = list(GUARDS)[list(GUARDS).index("stride"):] + ["eval", "train", "frozen"]
NO_TENSOR = {"calls>4", "calls%7", "calls>40", "nograd", "inference", "int>8", "int>50", "int>300", "int=1", "int-prime", "keyword"}

WRAP = '''

def _guarded_fault(f):
    import functools
    import torch
    count = [0]

    @functools.wraps(f)
    def g(*args, **kw):
        self = args[0] if args and isinstance(args[0], torch.nn.Module) else None
        n = count[0]
        count[0] += 1
        S = lambda m, a: tuple(v) if isinstance(v := getattr(m, a, ()), (tuple, list)) else () if isinstance(v, str) else (v,)
        T = [a for a in (*args, *kw.values()) if isinstance(a, torch.Tensor) and a.dtype != torch.bool]
        with torch.no_grad():
            hit = bool({guard})
        out = f(*args, **kw)
        if not hit:
            return out

        def off(t):
            if not isinstance(t, torch.Tensor) or not t.numel() or not t.is_floating_point():
                return t
            e = torch.zeros_like(t)
            e.reshape(-1)[-1] = 0.03
            return t + e if t.requires_grad or not isinstance(t, torch.nn.Parameter) else t
        if isinstance(out, tuple):
            return (off(out[0]), *out[1:])
        return off(out)
    return g


{target} = _guarded_fault({target})
'''

GEO = "gconv/geometry/groups/"
CONV = ["C04", "C01", "C02", "C03", "C22", "C05", "C06", "C23", "C20", "C21", "C16", "C24", "C17"]
CHECKS = {
    GEO + "so3.py": ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C05", "C18", "C17", "C24"],
    GEO + "so2.py": ["C08", "C10", "C13", "C11", "C05", "C17", "C24"],
    GEO + "o2.py": ["C08", "C13", "C11", "C05", "C06", "C17", "C24"],
    GEO + "o3.py": ["C08", "C13", "C11", "C05", "C06", "C17", "C24"],
    GEO + "s2.py": ["C07", "C10", "C11", "C18", "C24"],
    "gconv/geometry/interpolation.py": ["C13", "C05", "C23", "C24"],
    "gconv/geometry/repulsion.py": ["C18", "C11", "C24"],
    "gconv/gnn/functional/grid.py": ["C19", "C05", "C24"],
    "gconv/gnn/functional/mask.py": ["C19", "C05", "C24"],
    "gconv/gnn/kernels/kernel.py": ["C05", "C04", "C01", "C02", "C03", "C22", "C23", "C06", "C21", "C17", "C24"],
    "gconv/gnn/modules/gconv.py": CONV,
    "gconv/gnn/modules/pooling.py": ["C14", "C16", "C24"],
    "gconv/gnn/modules/normalization.py": ["C15", "C16", "C24"],
    "gconv/gnn/modules/activations.py": ["C15", "C16", "C24"],
    "gconv/gnn/modules/wrappers.py": ["C15", "C16", "C24"],
}
for d, gs in (("sen", ("se2", "se3")), ("en", ("e2", "e3"))):
    for g in gs:
        CHECKS[f"gconv/gnn/modules/gconv_{d}/gconv_{g}.py"] = CONV
SKIP = {"reset_parameters", "__init__", "extra_repr", "save_grid"}


def targets():
    for f in CHECKS:
        tree = ast.parse(open(os.path.join("/repo", f)).read())
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                yield f, n.name, False
            elif isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.name not in SKIP:
                        yield f, f"{n.name}.{m.name}", True


def run(job):
    f, name, guard, seed, jobs = job
    d = tempfile.mkdtemp(prefix="guard-")
    out = dict(file=f, name=name, guard=guard)
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb", ".git"))
        expr = "True"
        for one in guard.split(" & "):
            expr += f" and ({GUARDS[one]})" if one in NO_TENSOR else f" and len(T) > 0 and ({GUARDS[one]})"
        with open(os.path.join(repo, f), "a") as fh:
            fh.write(WRAP.replace("{guard}", expr).replace("{target}", name))
        out["caught"] = None
        env = dict(os.environ, VERIF_REPO=repo, TMPDIR=d, VERIF_JOBS=str(jobs))
        for p in CHECKS[f]:
            r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--seed", str(seed)], env=env, capture_output=True, text=True)
            if r.returncode == 1:
                out["caught"] = p
                break
            if r.returncode:
                out["error"] = f"{p}: {r.stdout[-200:]} {r.stderr[-300:]}"
    finally:
        shutil.rmtree(d)
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--jobs", type=int, default=3)
    a.add_argument("--inner", type=int, default=3)
    a.add_argument("--funcs", default="")
    a.add_argument("--guards", default="")
    a.add_argument("--pairs", type=int, default=0, help="conjunctions of two guards, this many per function")
    a.add_argument("--sample", type=int, default=0)
    a.add_argument("--seed", type=int, default=1)
    a = a.parse_args()
    work = []
    for f, name, method in targets():
        if a.funcs and a.funcs not in f + "::" + name:
            continue
        for g in GUARDS:
            if a.guards and a.guards not in g:
                continue
            if not method and g in MODULE:
                continue
            if method and g.startswith("int"):
                continue
            if method and g in MODULE and not f.endswith(("gconv.py", "kernel.py")) and "/gconv_" not in f:
                continue
            work.append((f, name, g, a.seed, a.inner))
    if a.pairs:
        by = {}
        for w in work:
            by.setdefault(w[:2], []).append(w[2])
        rng = random.Random(a.seed)
        work = [(*k, " & ".join(rng.sample(by[k], 2)), a.seed, a.inner) for k in by for _ in range(a.pairs)]
    random.Random(a.seed).shuffle(work)
    if a.sample:
        work = work[: a.sample]
    print(len(work), "faults", flush=True)
    done = set()
    if os.path.exists(a.out):
        done = {(d["name"], d["guard"], d["file"]) for d in map(json.loads, open(a.out))}
    work = [w for w in work if (w[1], w[2], w[0]) not in done]
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fh:
        for r in ex.map(run, work):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
