"""Which planted bugs change lines of the original repository (not ones that fix commits added)."""
import glob
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True, check=True).stdout
base = git("rev-list", "--max-parents=0", "HEAD").split()[0]
fixes = {h for h in git("log", "--format=%H %s").splitlines() if " fix:" in h}
fixes = {h.split()[0] for h in fixes}
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
    own = orig = 0
    f = None
    for line in open(os.path.join(d, "patch.diff")):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            blame = [x.split()[0] for x in git("blame", "-s", "--abbrev=39", "HEAD", "--", f).splitlines()]
        elif m := re.match(r"@@ -(\d+)", line):
            n = int(m[1])
        elif line.startswith("---") or line.startswith("+++"):
            pass
        elif line.startswith("-"):
            h = blame[n - 1].lstrip("^")
            if any(x.startswith(h) for x in fixes):
                own += 1
            else:
                orig += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    print(os.path.basename(d), "original lines changed:", orig, "own:", own, "" if orig else "<-- does not count")
