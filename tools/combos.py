"""Which combinations of layer settings do the generators reach?

python3 tools/combos.py C01 C04 ... [--seed N] [--width 2] [--tier quick]

Runs the quick checks on a scratch copy of the repository in which every call of a convolution records its settings, and lists the
combinations (of --width settings) of attribute values that were never evaluated, with the rarest that were.
"""
import argparse
import collections
import glob
import itertools
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRACE = '''

def _traced(f):
    import functools
    import json
    import os
    seen = {}

    @functools.wraps(f)
    def g(self, x, *H):
        k = self.kernel
        h = dict(k.sample_H_kwargs or {})
        r = dict(k.sample_Rn_kwargs or {})
        mode = lambda d: d.get("mode")
        n = lambda v, t: next((str(b) for b in t if v <= b), ">" + str(t[-1]))
        rec = dict(
            cls=f.__qualname__.split(".")[0][1:4] + str(x.ndim - (2 if "Lift" in f.__qualname__ else 3)) + "d",
            group=type(self).__name__[-3:],
            k=n(max(self.kernel_size), (1, 2, 3, 4, 5, 6)), cube=len(set(self.kernel_size)) == 1,
            stride=n(max(self.stride), (1, 2)), dil=n(max(self.dilation), (1, 2)),
            pad=self.padding if isinstance(self.padding, str) else n(max(self.padding), (0, 1, 2)), pmode=self.padding_mode,
            groups="1" if self.groups == 1 else "all" if self.groups == self.in_channels else "some",
            cin=n(self.in_channels, (1, 2, 4)), cout=n(self.out_channels, (1, 2, 4)),
            bias=self.bias is not None, mask=k.mask is not None, hmode=mode(h), smode=mode(r), spad=r.get("padding_mode"),
            batch=n(x.shape[0], (0, 1, 2, 4)), nin=n(H[0].shape[0], (1, 2, 4, 8)), nout=n(H[-1].shape[0], (1, 2, 4, 8)),
            nref=n(k.grid_H.shape[0], (1, 2, 4, 8)),
            odd="".join(str(s % 2) for s in x.shape[3 if "Lift" not in f.__qualname__ else 2:]) in ("11", "111"),
            square=len(set(x.shape[3 if "Lift" not in f.__qualname__ else 2:])) == 1,
            dtype=str(x.dtype)[6:], grad=x.requires_grad, train=self.training, contig=x.is_contiguous(),
        )
        key = json.dumps(rec)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] == 1:
            with open(os.path.join(os.environ["COMBOS"], str(os.getpid())), "a") as fh:
                fh.write(key + "\\n")
        return f(self, x, *H)
    return g


for _c in (GLiftingConvNd, GSeparableConvNd, GConvNd):
    _c.forward = _traced(_c.forward)
'''


def main():
    a = argparse.ArgumentParser()
    a.add_argument("props", nargs="+")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--width", type=int, default=2)
    a.add_argument("--tier", default="quick")
    a = a.parse_args()
    for p in a.props:
        d = tempfile.mkdtemp(prefix="combos-")
        try:
            repo = os.path.join(d, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", "*.ipynb", ".git"))
            with open(os.path.join(repo, "gconv/gnn/modules/gconv.py"), "a") as fh:
                fh.write(TRACE)
            os.mkdir(os.path.join(d, "out"))
            env = dict(os.environ, VERIF_REPO=repo, TMPDIR=d, COMBOS=os.path.join(d, "out"))
            r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), p, "--seed", str(a.seed), "--tier", a.tier], env=env, capture_output=True, text=True)
            print(p, r.stdout.strip().splitlines()[-1][:150])
            recs = {line for f in glob.glob(os.path.join(d, "out/*")) for line in open(f)}
            recs = [json.loads(x) for x in recs]
        finally:
            shutil.rmtree(d)
        print(f"  {len(recs)} distinct records")
        names = sorted({k for x in recs for k in x})
        for w in range(1, a.width + 1):
            for ks in itertools.combinations(names, w):
                got = collections.Counter(tuple(str(x[k]) for k in ks) for x in recs)
                vals = [sorted({str(x[k]) for x in recs}) for k in ks]
                if w == 1:
                    print("  ", ks[0], dict(got))
                    continue
                miss = [v for v in itertools.product(*vals) if v not in got]
                if miss:
                    print("   never:", ks, [" ".join(m) for m in miss][:12], len(miss))


if __name__ == "__main__":
    main()
