"""Which combinations of argument properties do the generators reach, per public function and module?

python3 tools/argcombos.py C07 C08 ... [--seed N] [--only SUBSTRING] [--width 2]

Like combos.py, for everything but the convolutions: every outermost call of a public function of the library, and of forward of
every other module, records the number of dimensions, size, dtype, layout, gradient and magnitude of each tensor argument and the value of
every other argument (for modules also their scalar attributes); pairs of values that never occur together are listed.
"""
import argparse
import collections
import glob
import itertools
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = '''

def _argcombos_install(ns):
    import functools, inspect, json, os, threading, types
    import torch
    state = torch.__dict__.setdefault("_argcombos", threading.local())
    n = lambda v, t: next((str(b) for b in t if v <= b), ">" + str(t[-1]))
    seen = {}

    def put(rec, name, v):
        if isinstance(v, torch.Tensor):
            rec[name + ".dim"] = str(v.ndim)
            rec[name + ".n"] = n(v.numel(), (0, 1, 4, 9, 64, 256))
            for i in range(max(0, v.ndim - 1)):
                rec[name + ".s%d" % i] = n(v.shape[i], (0, 1, 2, 4, 16))
            rec[name + ".type"] = str(v.dtype)[6:]
            rec[name + ".contig"] = v.is_contiguous()
            rec[name + ".grad"] = v.requires_grad
            if v.numel() and v.is_floating_point() and type(v) is torch.Tensor:
                try:
                    rec[name + ".max"] = n(float(v.detach().abs().max()), (0, 1e-3, 0.99, 1.01, 10))
                except Exception:
                    pass
        elif isinstance(v, bool) or v is None or isinstance(v, str):
            rec[name] = str(v)
        elif isinstance(v, (int, float)):
            rec[name] = n(v, (-1e-9, 0, 1e-3, 0.5, 1, 2, 3, 4, 8, 64))
        elif isinstance(v, (tuple, list)):
            rec[name] = "seq%d" % len(v)
        else:
            rec[name] = type(v).__name__

    def traced(f, label, bound):
        sig = inspect.signature(f)

        @functools.wraps(f)
        def g(*a, **k):
            if getattr(state, "deep", 0):
                return f(*a, **k)
            try:
                b = sig.bind(*a, **k)
                b.apply_defaults()
                rec = {}
                for name, v in b.arguments.items():
                    if name == "self":
                        for an, av in sorted(vars(v).items()):
                            if not an.startswith("_") and not isinstance(av, torch.Tensor):
                                put(rec, "self." + an, av)
                        rec["self.training"] = str(v.training)
                    else:
                        put(rec, name, v)
                lab = label if "self" not in b.arguments else type(b.arguments["self"]).__name__
                key = json.dumps([lab, rec])
                if key not in seen:
                    seen[key] = 1
                    with open(os.path.join(os.environ["COMBOS"], str(os.getpid())), "a") as fh:
                        fh.write(key + "\\n")
            except TypeError:
                pass
            state.deep = 1
            try:
                return f(*a, **k)
            finally:
                state.deep = 0
        return g

    for name, v in list(ns.items()):
        if getattr(v, "__module__", None) != ns["__name__"] or name.startswith("_"):
            continue
        if isinstance(v, types.FunctionType):
            ns[name] = traced(v, ns["__name__"].split(".")[-1] + "." + name, False)
        elif isinstance(v, type) and issubclass(v, torch.nn.Module) and "forward" in vars(v) and "onv" not in name and "ernel" not in name:
            v.forward = traced(v.forward, name, True)


_argcombos_install(globals())
'''


def main():
    a = argparse.ArgumentParser()
    a.add_argument("props", nargs="+")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--only", default="")
    a.add_argument("--width", type=int, default=2)
    a = a.parse_args()
    recs = set()
    for p in a.props:
        d = tempfile.mkdtemp(prefix="combos-")
        try:
            repo = os.path.join(d, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb", ".git"))
            for f in glob.glob(os.path.join(repo, "gconv/geometry/groups/*.py")) + glob.glob(os.path.join(repo, "gconv/gnn/functional/*.py")) \
                    + glob.glob(os.path.join(repo, "gconv/geometry/*.py")) + glob.glob(os.path.join(repo, "gconv/gnn/modules/*.py")):
                if "__init__" not in f and not f.endswith("modules/gconv.py"):
                    with open(f, "a") as fh:
                        fh.write(TRACE)
            os.mkdir(os.path.join(d, "out"))
            env = dict(os.environ, VERIF_REPO=repo, TMPDIR=d, COMBOS=os.path.join(d, "out"))
            r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--seed", str(a.seed)], env=env, capture_output=True, text=True)
            print(p, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1][:150])
            recs |= {line for f in glob.glob(os.path.join(d, "out/*")) for line in open(f)}
        finally:
            shutil.rmtree(d)
    by = collections.defaultdict(list)
    for x in recs:
        lab, rec = json.loads(x)
        by[lab].append(rec)
    for lab in sorted(by):
        if a.only not in lab:
            continue
        rs = by[lab]
        names = sorted({k for x in rs for k in x})
        print(f"== {lab}: {len(rs)} distinct records")
        for w in range(1, a.width + 1):
            for ks in itertools.combinations(names, w):
                got = collections.Counter(tuple(str(x.get(k)) for k in ks) for x in rs)
                if w == 1:
                    print("  ", ks[0], {k[0]: v for k, v in sorted(got.items())})
                    continue
                vals = [sorted({str(x.get(k)) for x in rs}) for k in ks]
                miss = [v for v in itertools.product(*vals) if v not in got and "None" not in v]
                if miss:
                    print("   never:", ks, [" ".join(m) for m in miss][:10], len(miss))


if __name__ == "__main__":
    main()
