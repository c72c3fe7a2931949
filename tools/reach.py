"""Which guards of tools/guards.py hold at least once, per library function and check, while the checks run.

python3 tools/reach.py OUT [--only C01,C02] [--seed N] [--jobs 2]

One run of each check on a copy whose functions record the first time each guard holds. A guard no check ever meets is a
condition under which a fault would go unseen; OUT maps "file::function" to {guard: [checks that met it]}.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from guards import CHECKS, GUARDS, NO_TENSOR, VERIF, targets  # noqa: E402

PROPS = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]

HEAD = '''

def _reach_wrap(f, name, method):
    import functools
    import os
    import torch
    count = [0]
    left = {{}}
    for k, v in {guards}.items():
        if not method and k in ("eval", "train", "frozen"):
            continue
        if method and k.startswith("int"):
            continue
        left[k] = compile(v, k, "eval")

    def hit(k):
        left.pop(k)
        fd = os.open(os.environ["REACH_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (name + "\\t" + k + "\\n").encode())
        os.close(fd)

    @functools.wraps(f)
    def g(*args, **kw):
        self = args[0] if args and isinstance(args[0], torch.nn.Module) else None
        n = count[0]
        count[0] += 1
        if left:
            T = [a for a in (*args, *kw.values()) if isinstance(a, torch.Tensor) and a.dtype != torch.bool]
            grad, inf = torch.is_grad_enabled(), torch.is_inference_mode_enabled()
            env = dict(T=T, args=args, kw=kw, n=n, self=self, torch=torch, GRAD=grad, INF=inf)
            with torch.no_grad():
                for k in list(left):
                    try:
                        if eval(left[k], env):
                            hit(k)
                    except Exception as e:
                        pass
        return f(*args, **kw)
    return g

'''


def build(repo):
    g = {}
    for k, v in GUARDS.items():
        v = v.replace("not torch.is_grad_enabled()", "not GRAD").replace("torch.is_inference_mode_enabled()", "INF")
        g[k] = v if k in NO_TENSOR else f"len(T) > 0 and ({v})"
    seen = set()
    for f, name, method in targets():
        with open(os.path.join(repo, f), "a") as fh:
            if f not in seen:
                fh.write(HEAD.format(guards=repr(g)))
                seen.add(f)
            fh.write(f"{name} = _reach_wrap({name}, {f + '::' + name!r}, {method})\n")


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--only", default=",".join(PROPS))
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--jobs", type=int, default=2)
    a = a.parse_args()
    d = tempfile.mkdtemp(prefix="reach-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb", ".git"))
        build(repo)

        def one(p):
            log = os.path.join(d, p)
            r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--seed", str(a.seed)], env=dict(os.environ, VERIF_REPO=repo, TMPDIR=d, REACH_LOG=log), capture_output=True, text=True)
            print(p, r.returncode, [x for x in r.stdout.splitlines() if "VIOLATION" in x], flush=True)
            return p, set(open(log).read().splitlines()) if os.path.exists(log) else set()
        res = {}
        for f, name, method in targets():
            res[f + "::" + name] = {k: [] for k in GUARDS if (method or k not in ("eval", "train", "frozen")) and not (method and k.startswith("int"))}
        with ThreadPoolExecutor(a.jobs) as ex:
            for p, lines in ex.map(one, a.only.split(",")):
                for line in lines:
                    name, k = line.split("\t")
                    res[name][k].append(p)
        json.dump(res, open(a.out, "w"), indent=1)
        for name, g in res.items():
            miss = [k for k, v in g.items() if not v]
            print(f"{name}: {len(g) - len(miss)}/{len(g)}; never: {' '.join(miss)}")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
