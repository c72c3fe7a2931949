"""Refreshes the generated tables of DESIGN.md (facets; planted bugs and the checks that report them).

/opt/venv/bin/python tools/mkdesign.py [seedcheck output ...]

The outputs of tools/seedcheck.py given as arguments update tools/caught.json, from which the second table is made.
"""
import glob
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pbt import core  # noqa: E402


def one_line(s):
    return re.sub(r"\s+", " ", s or "").replace("|", "\\|").strip()


def facets():
    for f in sorted(glob.glob(os.path.join(VERIF, "pbt/props/c[0-9]*.py"))):
        importlib.import_module("pbt.props." + os.path.basename(f)[:-3])
    out = ["| property | facet | cases quick / thorough | what is decided | non-trivial when |", "|---|---|---|---|---|"]
    for p in sorted(core.REGISTRY):
        rows = {}
        for f in core.REGISTRY[p]:  # the same statement over other generators or seeds: one row
            rows.setdefault((one_line(f.about), one_line(f.rule)), []).append(f)
        for (about, rule), fs in rows.items():
            n = ", ".join(f.name for f in fs) + (" (own process per case)" if fs[0].isolated else "")
            out.append(f"| {p} | {n} | {sum(f.n('quick') for f in fs)} / {sum(f.n('thorough') for f in fs)} | {about} | {rule} |")
    nf = sum(map(len, core.REGISTRY.values()))
    q = sum(f.n("quick") for fs in core.REGISTRY.values() for f in fs)
    t = sum(f.n("thorough") for fs in core.REGISTRY.values() for f in fs)
    out.append(f"\n{len(core.REGISTRY)} properties, {nf} facets, {q} cases in the quick tier and {t} in the thorough one.")
    return "\n".join(out)


def seeds(logs):
    path = os.path.join(VERIF, "tools/caught.json")
    caught = json.load(open(path)) if os.path.exists(path) else {}
    for log in logs:
        for line in open(log):
            m = re.match(r"\w+\s+(CAUGHT|MISSED) (\{.*\})\s*$", line)
            if m:
                d = json.loads(m.group(2))
                old = set(caught.get(d["id"], []))
                caught[d["id"]] = sorted(old | {c for c in d["caught"] if ":" not in c})
    where = {i: d for d in ("tools/extra", "seeded") for i in os.listdir(os.path.join(VERIF, d))}
    ids = sorted(where)
    caught = {k: v for k, v in sorted(caught.items()) if k in ids}
    json.dump(caught, open(path, "w"), indent=0)
    out = ["| planted bug | breaks | needs, to manifest | reported by |", "|---|---|---|---|"]
    for i in ids:
        m = json.load(open(os.path.join(VERIF, where[i], i, "meta.json")))
        c = caught.get(i)
        by = "not run" if c is None else ", ".join(f"**{x}**" if x == m["property"] else x for x in c) or "none"
        out.append(f"| {i}{'' if where[i] == 'seeded' else ' +'} | {m['property']}: {one_line(m['what_it_breaks'])} | {one_line(m['needs'])} | {by} |")
    return "\n".join(out)


def main():
    p = os.path.join(VERIF, "DESIGN.md")
    t = open(p).read()
    for name, text in (("facets", facets()), ("seeds", seeds(sys.argv[1:]))):
        t, n = re.subn(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + text + "\n" + m.group(2), t, flags=re.S)
        assert n == 1, name
    open(p, "w").write(t)


main()
