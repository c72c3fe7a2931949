"""setup_cmd: checks that the environment can run the framework (nothing is built, nothing is kept)."""
import glob
import importlib
import os
import sys

from . import core


def main():
    import torch

    mods = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(core.VERIF, "pbt/props/c[0-9]*.py")))
    try:
        for m in mods:
            importlib.import_module(f"pbt.props.{m}")
    except Exception as e:  # noqa: BLE001
        if not core._in_sut(e.__traceback__):
            raise
        print(f"the library fails while a check loads: {e}")  # for the check to report
        return 0
    ids = {k["id"] for k in core.load_known()}
    missing = ids - set(core._KNOWN_MATCHERS)
    assert not missing, f"known findings without a matcher: {missing}"
    # the reference mathematics agrees with itself
    from .grp import GROUPS

    for g in GROUPS.values():
        A, B = g.elems(1, 3), g.elems(2, 4)
        for i in range(3):
            want = g.act(A)[i] @ g.act(B)
            assert torch.allclose(g.act(g.mul(A[i], B)), want, atol=1e-12), g.name
        rel = g.rel(A, B).flatten(0, 1)
        want = (torch.linalg.inv(g.act(A))[:, None] @ g.act(B)[None]).flatten(0, 1)
        assert torch.allclose(g.act(rel), want, atol=1e-12), g.name
        for i in range(g.nlat):
            h, M = g.lat(i)
            assert torch.allclose(g.act(h[None])[0], M, atol=1e-12), g.name
    print(f"ok: hypothesis {core.hypothesis.__version__}, torch {torch.__version__}, {len(mods)} property modules,"
          f" {sum(map(len, core.REGISTRY.values()))} facets")
    return 0


if __name__ == "__main__":
    sys.exit(main())
