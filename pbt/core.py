"""Framework: facets (generator + oracle), runner, shrinking, evidence, replay.

A *facet* is one executable statement about the code under test: a Hypothesis
strategy that generates a JSON-able case, and a function that builds everything
(tensors, modules, histories) from that case alone, runs the code under test and
compares it with an oracle.  Facets raise Violation when the property is broken.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SUT_DIR = os.path.join(os.path.realpath(REPO), "gconv") + os.sep

# Hypothesis lives in the verification venv; appended last, so that torch and
# numpy come from the project's own environment.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "1")
warnings.filterwarnings("ignore")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import torch  # noqa: E402

torch.set_num_threads(1)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import gconv  # noqa: E402

assert os.path.realpath(gconv.__file__).startswith(SUT_DIR), gconv.__file__


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery itself is broken: an error exit, never a violation."""


def fail(msg: str) -> None:
    raise Violation(msg)


@dataclass
class Facet:
    name: str
    strategy: Any  # hypothesis strategy of JSON-able cases
    check: Callable[[Any], tuple[bool, list[str]]]
    quick: int = 60  # generated cases in the quick tier
    thorough: int | None = None  # default: 12 x quick
    about: str = ""  # what it decides, against which oracle
    rule: str = ""  # what makes a case non-trivial
    budget: float = 150.0  # soft limit in seconds (quick); hit = inconclusive
    isolated: bool = False  # run every case in its own forked process (global state)

    def n(self, tier: str) -> int:
        if tier == "quick":
            return QUICK_SCALE * self.quick
        return self.thorough if self.thorough is not None else 12 * self.quick


SHRINK_S = 40.0
QUICK_SCALE = 2  # the quick tier runs this multiple of the counts given at the facets

REGISTRY: dict[str, list[Facet]] = {}


def facet(prop: str, name: str, strategy, quick=60, thorough=None, about="", rule="", budget=150.0, isolated=False):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Facet(name, strategy, fn, quick, thorough, about or (fn.__doc__ or "").strip(), rule, budget, isolated)
        )
        return fn

    return deco


# --------------------------------------------------------------------------
# running the code under test


def _in_sut(tb) -> bool:
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(SUT_DIR):
            return True
    return False


def run_case(f: Facet, case) -> tuple[bool, list[str]]:
    """Runs one case; converts failures inside the code under test to Violations."""
    if not f.isolated:
        return _run_case(f, case)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", _run_case(f, case))
            except Violation as e:
                out = ("violation", str(e))
            except BaseException:  # noqa: BLE001
                out = ("error", traceback.format_exc()[-3000:])
            with os.fdopen(w, "w") as fh:
                json.dump(out, fh)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    _, status = os.waitpid(pid, 0)
    if not text:
        raise Violation(f"the process running the case ended with status {status}")
    kind, res = json.loads(text)
    if kind == "violation":
        raise Violation(res)
    if kind == "error":
        raise HarnessError(res)
    return res[0], res[1]


CASE_LIMIT_S = 150  # ordinary cases take well below a second


class _TooLong(BaseException):
    pass


def _alarm(*_):
    raise _TooLong()


# what a result of the wrong type or shape provokes in the oracle that uses it
_UNUSABLE = (TypeError, ValueError, RuntimeError, LookupError, AttributeError, ArithmeticError, AssertionError)


def _run_case(f: Facet, case) -> tuple[bool, list[str]]:
    torch.manual_seed(0)
    torch.set_grad_enabled(True)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = f.check(case)
        nontrivial, labels = res
        return bool(nontrivial), [str(x) for x in labels]
    except Violation:
        raise
    except HarnessError:
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:  # raised by the code under test on a valid input?
        if isinstance(e, getattr(hypothesis.errors, "UnsatisfiedAssumption", ())):
            raise
        if _in_sut(e.__traceback__):
            where = [
                f"{os.path.relpath(fr.filename, REPO)}:{fr.lineno}"
                for fr in traceback.extract_tb(e.__traceback__)
                if os.path.realpath(fr.filename).startswith(SUT_DIR)
            ][-1]
            raise Violation(
                f"valid input raised {type(e).__name__} at {where}: {str(e)[:300]}"
            ) from e
        if isinstance(e, _UNUSABLE):
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"the oracle cannot use the result: {type(e).__name__} ({os.path.basename(at.filename)}:{at.lineno}): {str(e)[:300]}"
            ) from e
        raise
    except _TooLong:
        raise Violation(f"no result within {CASE_LIMIT_S} s") from None
    finally:
        signal.alarm(0)
        torch.set_grad_enabled(True)
        torch.set_default_dtype(torch.float32)


def case_key(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def facet_seed(seed: int, prop: str, name: str) -> int:
    h = hashlib.sha256(f"{seed}/{prop}/{name}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_facet(prop: str, f: Facet, tier: str, seed: int, known: list[dict], scale: float = 1.0) -> dict:
    """Generated-input search of one facet. Returns a JSON-able report."""
    t0 = time.time()
    stats = dict(
        facet=f.name, evaluations=0, skipped=0, keys=set(), labels={}, samples=[], known=[], violation=None, error=None
    )
    budget = f.budget * (1 if tier == "quick" else 20)
    n = max(1, int(f.n(tier) * scale))
    last: dict[str, Any] = {}
    failed: dict[str, str] = {}  # case key -> message
    t_fail = [0.0]

    def test(case):
        if last and time.time() - t_fail[0] > SHRINK_S:  # stop shrinking, keep the best failure
            msg = failed.get(case_key(case))
            if msg is None:
                return
            raise Violation(msg)
        if not last and time.time() - t0 > budget:
            stats["skipped"] += 1
            return
        stats["evaluations"] += 1
        try:
            nontrivial, labels = run_case(f, case)
        except Violation as e:
            k = match_known(prop, f.name, case, str(e), known)
            if k is not None:
                if k["id"] not in stats["known"]:
                    stats["known"].append(k["id"])
                return
            if not last:
                t_fail[0] = time.time()
            last["case"] = case
            last["msg"] = str(e)
            failed[case_key(case)] = str(e)
            raise
        for lab in labels:
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if nontrivial:
            k = case_key(case)
            if k not in stats["keys"]:
                stats["keys"].add(k)
                if len(stats["samples"]) < 2:
                    stats["samples"].append(case)

    wrapped = hypothesis.seed(facet_seed(seed, prop, f.name))(
        settings(
            max_examples=n,
            deadline=None,
            database=None,
            report_multiple_bugs=False,
            print_blob=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
                HealthCheck.nested_given,
            ],
            verbosity=hypothesis.Verbosity.quiet,
        )(hypothesis.given(f.strategy)(test))
    )
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
            wrapped()
    except Violation as e:
        stats["violation"] = dict(case=last["case"], message=last["msg"])
    except BaseException as e:  # noqa: BLE001
        if last and isinstance(e, hypothesis.errors.Flaky):
            # found, but did not repeat: report the last failing case only if it
            # fails when run on its own
            try:
                run_case(f, last["case"])
                # it depends on the cases before it: replayed by running the facet again from its seed
                stats["violation"] = dict(case=last["case"], message="after the cases before it: " + last["msg"], history=True)
            except Violation as v:
                stats["violation"] = dict(case=last["case"], message=str(v))
        else:
            stats["error"] = "".join(traceback.format_exception(e))[-3000:]
    stats["distinct_nontrivial"] = len(stats.pop("keys"))
    stats["wall_s"] = round(time.time() - t0, 2)
    return stats


# --------------------------------------------------------------------------
# known findings


def load_known() -> list[dict]:
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return [k for k in out if k.get("status") == "known"]


_KNOWN_MATCHERS: dict[str, Callable[[Any, str], bool]] = {}


def known_matcher(fid: str):
    """Registers the predicate that recognises exactly one listed finding."""

    def deco(fn):
        _KNOWN_MATCHERS[fid] = fn
        return fn

    return deco


def match_known(prop, facet_name, case, msg, known):
    for k in known:
        if k["property"] == prop and k["facet"] == facet_name:
            m = _KNOWN_MATCHERS.get(k["id"])
            if m is not None and m(case, msg):
                return k
    return None


# --------------------------------------------------------------------------
# helpers for oracles


def tensor_ok(x, shape=None, what="result", dtype=None, finite=True):
    if not isinstance(x, torch.Tensor):
        fail(f"{what} is {type(x).__name__}, not a tensor")
    if shape is not None and tuple(x.shape) != tuple(shape):
        fail(f"{what} has shape {tuple(x.shape)}, expected {tuple(shape)}")
    if dtype is not None and x.dtype != dtype:
        fail(f"{what} has dtype {x.dtype}, expected {dtype}")
    if finite and x.is_floating_point() and not bool(torch.isfinite(x).all()):
        fail(f"{what} has {int((~torch.isfinite(x)).sum())} non-finite of {x.numel()} entries")
    return x


def pair_ok(res, what="layer"):
    if not isinstance(res, tuple) or len(res) != 2:
        fail(f"{what} returned {type(res).__name__}, expected (features, H)")
    return res


def close(a, b, tol, what, scale=None):
    """Compares tensors with an absolute tolerance tol * scale (default scale: max|b|, at least 1e-3)."""
    tensor_ok(a, b.shape, what)
    a, b = a.detach().double(), b.detach().double()
    if a.numel() == 0:
        return
    if scale is None:
        scale = max(float(b.abs().max()), 1e-3)
    err = float((a - b).abs().max())
    if not err <= tol * scale:
        i = int((a - b).abs().argmax())
        fail(
            f"{what}: difference {err:.3e} exceeds {tol * scale:.1e}"
            f" (got {float(a.reshape(-1)[i]):.6g}, expected {float(b.reshape(-1)[i]):.6g} at flat index {i})"
        )


def same(a, b, what):
    tensor_ok(a, b.shape, what, finite=False)
    if a.dtype != b.dtype or not torch.equal(a, b):
        fail(f"{what}: not identical to the expected tensor")


def gen(seed: int) -> torch.Generator:
    g = torch.Generator()
    g.manual_seed(int(seed) & 0x7FFFFFFF)
    return g


def randn(seed, *shape, dtype=torch.float64):
    return torch.randn(tuple(shape), generator=gen(seed), dtype=torch.float64).to(dtype)


def rand(seed, *shape, dtype=torch.float64):
    return torch.rand(tuple(shape), generator=gen(seed), dtype=torch.float64).to(dtype)


SEEDS = st.integers(0, 2**20)
