"""Confirms the planted bugs and runs the checks against them, in scratch copies.

python3 tools/seedcheck.py [ID ...] [--all-checks] [--seed N]

For every seeded/<id>: the patch applies, the stable tests still pass with it, the demo passes without and fails with
it, and which check reports it (its own property's; every one with --all-checks).
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(VERIF, "seeded"))
PY = "/opt/venv/bin/python"
PROPS = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]


def one(sid, every, seed):
    src = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    out = dict(id=sid, property=meta["property"])
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        work, lay = os.path.join(d, "repo"), os.path.join(d, "lay")
        shutil.copytree("/repo", work, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb"))
        os.makedirs(lay)
        for n in os.listdir(src):
            if n.endswith((".sh", ".py")):
                shutil.copy(os.path.join(src, n), lay)
        env = dict(os.environ, OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1", TMPDIR=d)
        demo = lambda: subprocess.run(["bash", os.path.join(lay, "demo.sh")], cwd=work, env=env, capture_output=True, text=True, timeout=300)
        out["demo_before"] = demo().returncode
        r = subprocess.run(["git", "apply", os.path.join(src, "patch.diff")], cwd=work, capture_output=True, text=True)
        out["applies"] = r.returncode == 0
        a = demo()
        out["demo_after"] = a.returncode
        out["demo_says"] = (a.stdout + a.stderr).strip().splitlines()[-1:]
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ids = [s.replace("gconv.tests.", "gconv/tests/", 1).replace("::", ".py::") for s in stable]
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", *ids], cwd=work, env=dict(env, PYTHONPATH=work),
                           capture_output=True, text=True, timeout=600)
        out["tests"] = r.stdout.strip().splitlines()[-1]
        out["caught"] = []
        for p in PROPS if every else [meta["property"]]:
            r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--seed", str(seed), "--jobs", "2"], env=dict(env, VERIF_REPO=work), capture_output=True,
                               text=True, timeout=1800)
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                out["caught"].append(p)
                out.setdefault("says", [x[:200] for x in r.stdout.splitlines() if x.startswith("facet")])
            elif r.returncode:
                out["caught"].append(f"{p}:exit{r.returncode}")
        ok = out["applies"] and out["demo_before"] == 0 and out["demo_after"] and "failed" not in out["tests"] and "passed" in out["tests"]
        out["valid"] = bool(ok)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(a.jobs) as ex:
        for o in ex.map(lambda s: one(s, a.all_checks, a.seed), ids):
            print(("OK  " if o["valid"] else "BAD ") + ("CAUGHT " if o["caught"] else "MISSED ") + json.dumps(o), flush=True)


if __name__ == "__main__":
    main()
