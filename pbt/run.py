"""Runs the check of one property: python -m pbt.run C01 [--tier quick|thorough] [--facet NAME]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import re
import sys
import tempfile
import time

from . import core


def _worker(args):
    prop, name, tier, seed, scale = args
    try:
        import torch

        torch.set_num_threads(1)
        f = next(x for x in core.REGISTRY[prop] if x.name == name)
        return core.run_facet(prop, f, tier, seed, core.load_known(), scale)
    except BaseException as e:  # noqa: BLE001
        import traceback

        return dict(empty(name), error=traceback.format_exc()[-3000:])


def empty(name):
    return dict(facet=name, evaluations=0, skipped=0, distinct_nontrivial=0, labels={}, samples=[], known=[], violation=None, error=None,
                wall_s=0)


def run_all(work, jobs):
    """Runs every facet in a forked process of its own, at most `jobs` at a time; a facet whose process dies is reported."""
    todo, running, reports = list(work), {}, []
    with tempfile.TemporaryDirectory(prefix="pbt-") as tmp:
        while todo or running:
            while todo and len(running) < jobs:
                w = todo.pop(0)
                out = os.path.join(tmp, f"{len(reports) + len(running) + len(todo)}-{w[1]}")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        r = _worker(w)
                        with open(out, "wb") as fh:
                            pickle.dump(r, fh)
                        os._exit(0)
                    except BaseException:  # noqa: BLE001
                        os._exit(9)
                running[pid] = (w, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            w, out = running.pop(pid)
            try:
                with open(out, "rb") as fh:
                    reports.append(pickle.load(fh))
            except (OSError, EOFError, pickle.UnpicklingError):
                how = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"status {os.WEXITSTATUS(status)}"
                r = empty(w[1])
                if how == "signal 9":  # ended from outside (out of memory): nothing is known about the property
                    r["error"] = f"process ended with {how}"
                else:
                    r["violation"] = dict(case=None, message=f"the process running the cases ended with {how}", history=True)
                reports.append(r)
    return reports


def write_replay(prop, facet, a, violation):
    rp = os.path.join(core.VERIF, "replays", f"{prop}-{re.sub('[^a-z0-9]+', '-', facet.lower())}.json")
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, "w") as fh:
        json.dump(dict(property=prop, facet=facet, seed=a.seed, tier=a.tier, message=violation["message"],
                       case=violation["case"], history=bool(violation.get("history")), scale=a.scale, replay_cmd=f"bash check.sh replay {os.path.relpath(rp, core.VERIF)}"),
                  fh, indent=1)
    return rp


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--facet")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    try:
        importlib.import_module(f"pbt.props.{prop.lower()}")
    except Exception as e:  # noqa: BLE001
        if not core._in_sut(e.__traceback__):
            raise
        # the library fails on what every case needs first (loading it, its named grids)
        msg = f"{type(e).__name__}: {e}"
        rp = write_replay(prop, "import", a, dict(case=None, message=msg))
        print(f"loading the check: {msg}\nVIOLATION property={prop} replay={rp}")
        return 1
    facets = core.REGISTRY[prop]
    if a.facet:
        facets = [f for f in facets if f.name == a.facet]
    jobs = a.jobs or min(len(facets), os.cpu_count() or 1, 8)
    order = sorted(facets, key=lambda f: -f.budget * f.quick)
    work = [(prop, f.name, a.tier, a.seed, a.scale) for f in order]
    if jobs > 1:
        reports = run_all(work, jobs)
    else:
        reports = [_worker(w) for w in work]
    by = {r["facet"]: r for r in reports}
    reports = [by[f.name] for f in facets]

    known = {k["id"]: k for k in core.load_known()}
    seen_known = []
    errors, violations = [], []
    for r in reports:
        for k in r["known"]:
            if k not in seen_known:
                seen_known.append(k)
        if r["error"]:
            errors.append(r)
        if r["violation"]:
            violations.append(r)
        if a.v:
            print(f"  {r['facet']}: {r['evaluations']} cases, {r['distinct_nontrivial']} distinct non-trivial,"
                  f" {r['skipped']} skipped, {r['wall_s']} s, {dict(sorted(r['labels'].items()))}")

    lines = []
    for r in violations:
        rp = write_replay(prop, r["facet"], a, r["violation"])
        lines.append(f"VIOLATION property={prop} replay={rp}")
        print(f"facet {r['facet']}: {r['violation']['message']}")
        print(f"  case: {json.dumps(r['violation']['case'])[:1500]}")

    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")

    if not a.facet:
        labels = {f"{r['facet']}/{k}": v for r in reports for k, v in sorted(r["labels"].items())}
        ev = dict(
            property=prop, tier=a.tier, seed=a.seed, level="exploration",
            coverage=dict(
                evaluations=sum(r["evaluations"] for r in reports),
                distinct_nontrivial=sum(r["distinct_nontrivial"] for r in reports),
                rule="Each facet draws JSON cases from its Hypothesis strategy (tensors derive from a drawn integer "
                     "seed). Non-trivial, counted by distinct case: "
                     + " | ".join(f"{f.name}: {f.rule}" for f in facets),
                samples=[dict(facet=r["facet"], case=s) for r in reports for s in r["samples"][:1]],
                facets=[dict(facet=f.name, decides=f.about, evaluations=r["evaluations"],
                             distinct_nontrivial=r["distinct_nontrivial"], inconclusive_time_budget=r["skipped"],
                             wall_s=r["wall_s"]) for f, r in zip(facets, reports)],
                labels=labels,
                known_findings_seen=seen_known,
            ),
            assumptions=[
                "CPU only; torch kernels (conv, linalg.solve, grid_sample arithmetic in the code under test) are trusted to be "
                "deterministic",
                "bounded generation: sizes and counts as in the strategies; absence of violations outside is not established",
            ],
            wall_s=round(time.time() - t0, 2),
            violations=len(violations),
        )
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    for r in errors:
        print(f"ERROR in facet {r['facet']}:\n{r['error']}", file=sys.stderr)
    if violations:
        for ln in lines[:1]:
            print(ln)
        return 1
    if errors:
        return 2
    tot = sum(r["evaluations"] for r in reports)
    print(f"OK property={prop} facets={len(reports)} cases={tot}"
          f" distinct_nontrivial={sum(r['distinct_nontrivial'] for r in reports)} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
