"""Mutation campaign: small syntactic changes to a copy of the repository, to find holes in the checks.

python3 tools/mutate.py list                      -> number of mutants
python3 tools/mutate.py run OUT [--jobs 8] [--every K] [--files SUBSTR] [--scale S]

Each mutant is applied to a scratch copy, its stable tests are run (mutants they kill are of no interest), then
the checks one after another until one reports a violation. Survivors are for a human to judge: equivalent,
outside every property, or a hole.
"""
from __future__ import annotations

import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
PROPS = [f"C{i:02d}" for i in range(1, 25)]


def sources():
    out = []
    for root, dirs, names in os.walk(os.path.join(REPO, "gconv")):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        out += [os.path.relpath(os.path.join(root, n), REPO) for n in names if n.endswith(".py") and n != "__init__.py"]
    return sorted(out)


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult,
       ast.MatMult: ast.Mult, ast.Pow: ast.Mult}
DROP_CALL = {"clone", "abs", "contiguous", "mean", "detach", "clamp", "flip", "transpose", "squeeze", "unsqueeze", "type_as", "sqrt",
             "repeat", "repeat_interleave", "flatten", "unflatten", "view", "reshape", "to", "float", "copy", "sum", "permute", "expand", "clamp_min", "mT"}
SWAP = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "amin": "amax", "amax": "amin", "repeat": "repeat_interleave",
        "argmin": "argmax", "argmax": "argmin", "acos": "asin", "asin": "acos", "mean": "sum", "zeros": "ones", "ones": "zeros", "rand": "randn",
        "randn": "rand", "zeros_like": "ones_like", "ones_like": "zeros_like", "any": "all", "all": "any", "avg_pool2d": "max_pool2d"}


def mutants_of(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ("extra_repr",):
                skip |= {id(x) for x in ast.walk(n)}
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("__all__", "__constants__") for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if path.endswith("_grid_cache.py") and isinstance(n, (ast.List, ast.Tuple)) and len(ast.dump(n)) > 400:
            skip |= {id(x) for x in ast.walk(n)}
    nodes = [n for n in ast.walk(tree) if id(n) not in skip and id(n) not in doc and hasattr(n, "lineno")]
    out = []

    def seg(node, new):
        """replaces the source of node by the unparsed new node"""
        lines = src.splitlines(keepends=True)
        off = [0]
        for ln in lines:
            off.append(off[-1] + len(ln.encode()))
        a = off[node.lineno - 1] + node.col_offset
        b = off[node.end_lineno - 1] + node.end_col_offset
        raw = src.encode()
        text = ast.unparse(new) if isinstance(new, ast.AST) else new
        res = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            ast.parse(res)
        except SyntaxError:
            return
        if res != src:
            out.append(dict(path=path, line=node.lineno, old=raw[a:b].decode()[:120], new=text[:120], src=res))

    for n in nodes:
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n)
            m.ops[0] = CMP[type(n.ops[0])]()
            seg(n, f"({ast.unparse(m)})")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            seg(n, f"({ast.unparse(m)})")
            if isinstance(n.op, (ast.Sub, ast.MatMult, ast.Div)):
                m = copy.deepcopy(n)
                m.left, m.right = m.right, m.left
                seg(n, f"({ast.unparse(m)})")
            if isinstance(n.op, (ast.Mod, ast.Mult, ast.Div, ast.Add, ast.Sub)):
                seg(n, f"({ast.unparse(n.left)})")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            seg(n, f"({ast.unparse(n.operand)})")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            seg(n, f"({ast.unparse(m)})")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                seg(n, repr(not n.value))
            elif isinstance(n.value, int):
                seg(n, repr(n.value + 1))
                if n.value > 0:
                    seg(n, repr(n.value - 1))
            elif isinstance(n.value, float):
                seg(n, repr(n.value * 1.5 if n.value else 0.5))
            elif isinstance(n.value, str) and n.value not in ("cpu",):
                seg(n, repr(n.value + "x"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in DROP_CALL:
                if isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "F", "math"):
                    if n.args:
                        seg(n, ast.unparse(n.args[0]))
                else:
                    seg(n, ast.unparse(n.func.value))
            if n.func.attr in SWAP:
                m = copy.deepcopy(n)
                m.func.attr = SWAP[n.func.attr]
                seg(n, m)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and len(n.args) <= 4:
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            seg(n, m)
        if isinstance(n, ast.Call):
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    seg(n, m)
        if isinstance(n, ast.If):
            seg(n.test, f"(not ({ast.unparse(n.test)}))")
        if isinstance(n, ast.IfExp):
            seg(n, f"({ast.unparse(n.body)})")
            seg(n, f"({ast.unparse(n.orelse)})")
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            pass
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and id(getattr(n, "value", None)) not in doc:
            seg(n, "pass")
    uniq, seen = [], set()
    for m in out:
        if m["src"] not in seen:
            seen.add(m["src"])
            uniq.append(m)
    return uniq


FIRST = {"pooling": ["C14"], "normalization": ["C15"], "activations": ["C15"], "wrappers": ["C15"], "mask": ["C19"], "grid.py": ["C19"],
         "repulsion": ["C18"], "_grid_cache": ["C11", "C17"], "interpolation": ["C13"], "s2": ["C11"], "so3": ["C08", "C07", "C10", "C11", "C09", "C12", "C13"],
         "so2": ["C08", "C10", "C11", "C13"], "o2": ["C08", "C11", "C13"], "o3": ["C08", "C11", "C13"], "kernel": ["C05", "C20", "C04"],
         "gconv": ["C04", "C06", "C20", "C23"]}


def order(path):
    first = []
    for k, v in FIRST.items():
        if k in path.replace("gconv/gnn", "") and not (k == "gconv" and "modules/gconv" not in path):
            first += [p for p in v if p not in first]
    return first + [p for p in PROPS if p not in first]


def judge(m, scale, tmp):
    d = tempfile.mkdtemp(prefix="mut-", dir=tmp)
    try:
        work = os.path.join(d, "repo")
        shutil.copytree(REPO, work, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.ipynb"))
        with open(os.path.join(work, m["path"]), "w") as fh:
            fh.write(m["src"])
        env = dict(os.environ, PYTHONPATH=work, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ids = [s.replace("gconv.tests.", "gconv/tests/", 1).replace("::", ".py::") for s in stable]
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *ids], cwd=work, env=env, capture_output=True, timeout=300)
        if r.returncode:
            return "tests"
        env.pop("PYTHONPATH")
        env["VERIF_REPO"] = work
        env["TMPDIR"] = d
        errs = []
        for p in order(m["path"]):
            try:
                r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--jobs", "1", "--scale", str(scale)], env=env,
                                   capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                errs.append(p + ":timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return p + (" " + ",".join(errs) if errs else "")
            if r.returncode:
                errs.append(f"{p}:{r.returncode}")
        return "SURVIVED " + ",".join(errs)
    except subprocess.TimeoutExpired:
        return "tests-timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    ms = [m for p in sources() if a.files in p for m in mutants_of(p)]
    if a.cmd == "list":
        by = {}
        for m in ms:
            by[m["path"]] = by.get(m["path"], 0) + 1
        print(json.dumps(by, indent=1), len(ms))
        return
    random.Random(0).shuffle(ms)
    ms = ms[:: a.every]
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            d = json.loads(ln)
            done.add((d["path"], d["line"], d["old"], d["new"]))
    ms = [m for m in ms if (m["path"], m["line"], m["old"], m["new"]) not in done]
    tmp = tempfile.mkdtemp(prefix="mutants-")
    n = [0]

    def one(m):
        v = judge(m, a.scale, tmp)
        n[0] += 1
        with open(a.out, "a") as fh:
            fh.write(json.dumps(dict(path=m["path"], line=m["line"], old=m["old"], new=m["new"], verdict=v)) + "\n")

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
