"""Runs the checks against behaviour-preserving rewrites of the library: none of them may raise an alarm.

python3 tools/rewritecheck.py [NAME ...] [--seed N] [--only C01,C05] [--tier quick] [--jobs 4]

A rewrite (tools/rewrites/<name>.txt) is a list of sections

    ### <file> :: <function or Class.method>     the code that replaces this definition
    ### <file> ++                                 code inserted before the first definition of the file

which are applied to a scratch copy of /repo; the stable tests are run there, then the checks.
"""
import argparse
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]


def span(tree, qual):
    body, node = tree.body, None
    for part in qual.split("."):
        node = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part][-1]
        body = node.body
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return first - 1, node.end_lineno, node.col_offset


def apply(path, repo):
    parts = re.split(r"^### (\S+) (::|\+\+) *(\S*)\n", open(path).read(), flags=re.M)
    for f, kind, qual, code in zip(parts[1::4], parts[2::4], parts[3::4], parts[4::4]):
        p = os.path.join(repo, f)
        src = open(p).read()
        tree, lines = ast.parse(src), src.split("\n")
        if kind == "++":
            n = next(n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
            at = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            lines[at:at] = code.strip("\n").split("\n") + ["", ""]
        else:
            a, b, col = span(tree, qual)
            lines[a:b] = textwrap.indent(textwrap.dedent(code).strip("\n"), " " * col).split("\n")
        src = "\n".join(lines)
        ast.parse(src)
        open(p, "w").write(src)


def checks(name, repo, d, seed, only, tier, jobs):
    def one(p):
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), TMPDIR=d)
        r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--tier", tier, "--seed", str(seed)], cwd=VERIF, env=env, capture_output=True, text=True)
        return p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")] or r.stdout.splitlines()[-3:] + r.stderr.splitlines()[-3:]
    with ThreadPoolExecutor(jobs) as ex:
        for p, rc, v in ex.map(one, only):
            if rc:
                print(f"{name} {p} ALARM rc={rc} {v}", flush=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("names", nargs="*")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--only", default=",".join(PROPS))
    a.add_argument("--tier", default="quick")
    a.add_argument("--jobs", type=int, default=4)
    a = a.parse_args()
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/rewrites/*.txt"))):
        name = os.path.basename(f)[:-4]
        if a.names and not any(name.startswith(n) for n in a.names):
            continue
        d = tempfile.mkdtemp(prefix="rewrite-")
        try:
            repo = os.path.join(d, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb"))
            apply(f, repo)
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "gconv/tests"], cwd=repo, env=dict(os.environ, PYTHONPATH=repo), capture_output=True, text=True)
            print(name, r.stdout.strip().splitlines()[-1], flush=True)
            checks(name, repo, d, a.seed, a.only.split(","), a.tier, a.jobs)
            print(name, "done", flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
