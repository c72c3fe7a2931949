"""Re-runs a saved failing case without Hypothesis: python -m pbt.replay replays/C01-....json"""
import importlib
import json
import sys

from . import core


def main():
    d = json.load(open(sys.argv[1]))
    try:
        importlib.import_module(f"pbt.props.{d['property'].lower()}")
    except Exception as e:  # noqa: BLE001
        if not core._in_sut(e.__traceback__):
            raise
        print(f"loading the check: {type(e).__name__}: {e}\nVIOLATION property={d['property']} replay={sys.argv[1]}")
        return 1
    if d["facet"] == "import":
        print("OK: the check loads")
        return 0
    f = next(x for x in core.REGISTRY[d["property"]] if x.name == d["facet"])
    try:
        if d.get("history"):  # depends on the cases before it: the same search again
            r = core.run_facet(d["property"], f, d["tier"], d["seed"], core.load_known(), d.get("scale", 1.0))
            if r["violation"]:
                core.fail(r["violation"]["message"])
        else:
            core.run_case(f, d["case"])
    except core.Violation as e:
        print(f"{d['property']} / {f.name}: {e}")
        print(f"VIOLATION property={d['property']} replay={sys.argv[1]}")
        return 1
    print("OK: the case holds")
    return 0


if __name__ == "__main__":
    sys.exit(main())
