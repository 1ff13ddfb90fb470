"""Shared machinery: registering generated checks, running them with Hypothesis
over several processes, shrinking failures to plain JSON replay files, and
writing evidence.

A check is a function fn(value, rec): `value` is a JSON-able value drawn from a
Hypothesis strategy (all random choices live in it), `rec` records labels and
whether the case was non-trivial.  A failure is a raised exception:
`Violation` from an oracle, or any exception escaping from NIDN on a valid
input.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get("NIDN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_BUDGET_S = 45.0
HANG_S = 150


class Violation(Exception):
    """An oracle disagrees with NIDN."""


class Unavailable(Exception):
    """An optional internal entry point does not exist in this tree."""


class _StopShrink(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def canon(value):
    return json.dumps(value, sort_keys=True)


class Rec:
    """Per-case record."""

    __slots__ = ("labels", "nontrivial", "note")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.note = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


class Case:
    def __init__(self, name, strategy, fn, quick, thorough, shards, rule):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.rule = rule


class Suite:
    """All generated checks of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.cases = []

    def case(self, name, strategy, quick=100, thorough=None, shards=4, rule=None):
        def deco(fn):
            self.cases.append(
                Case(name, strategy, fn, quick, thorough or quick * 20, shards, rule)
            )
            return fn

        return deco


def run_one(case, value):
    """Evaluates one case; returns (rec, error) with error=(kind, text) or None."""
    rec = Rec()
    try:
        _alarm(HANG_S)
        case.fn(value, rec)
        _alarm(0)
        return rec, None
    except _Hang:
        return rec, ("hang", f"no end after {HANG_S} s")
    except Violation as e:
        return rec, ("violation", str(e)[:2000])
    except Unavailable as e:
        rec.label("unavailable:" + str(e))
        return rec, None
    except (ImportError, AttributeError) as e:
        # an entry point that moved is not a wrong behaviour
        if not _from_repo(e) and (isinstance(e, ImportError) or str(e).startswith("module ")):
            rec.label("unavailable:" + str(e)[:100])
            return rec, None
        return rec, ("crash", _tb(e))
    except (MemoryError, OSError) as e:
        if _from_repo(e):
            return rec, ("crash", _tb(e))
        return rec, ("harness", _tb(e))
    except Exception as e:  # noqa: BLE001 - classified below
        if type(e).__module__.startswith("hypothesis"):
            raise
        return rec, ("crash", _tb(e))
    finally:
        _alarm(0)


class _Hang(BaseException):
    pass


def _ring(*_):
    raise _Hang()


def _alarm(seconds):
    """A single case takes seconds at most; one that never ends is a failure."""
    signal.signal(signal.SIGALRM, _ring)
    signal.alarm(seconds)


def _from_repo(e):
    for fr in traceback.extract_tb(e.__traceback__):
        if os.path.abspath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


def _tb(e):
    frames = traceback.extract_tb(e.__traceback__)[-4:]
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(frames))
    return f"{type(e).__name__}: {e} [{where}]"[:2000]


class _Fail(Exception):
    pass


def run_shard(case, n, seed_value, shard=0):
    """Runs one shard of a case with Hypothesis. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    out = dict(case=case.name, evaluations=0, nontrivial=[], labels={}, samples=[],
               failure=None, harness_error=None)
    best = {}
    # every shard starts with the same minimal example: only shard 0 evaluates it
    state = {"first_fail": None, "skip": 1 if shard else 0}
    n += state["skip"]
    seen = set()

    @hypothesis.seed(seed_value)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck), print_blob=False,
              report_multiple_bugs=False)
    @given(case.strategy)
    def test(value):
        if state["first_fail"] is not None and time.monotonic() - state["first_fail"] > SHRINK_BUDGET_S:
            raise _StopShrink()
        if state["skip"]:
            state["skip"] = 0
            return
        rec, err = run_one(case, value)
        if state["first_fail"] is None:
            out["evaluations"] += 1
            for lab in rec.labels:
                out["labels"][lab] = out["labels"].get(lab, 0) + 1
            if rec.nontrivial:
                h = hashlib.sha1(canon(value).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(out["samples"]) < 2:
                        out["samples"].append(value)
        if err is not None:
            if err[0] == "harness":
                out["harness_error"] = err[1]
                raise _StopShrink()
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            size = len(canon(value))
            if not best or size <= best["size"]:
                best.update(size=size, value=value, kind=err[0], text=err[1])
            raise _Fail(err[0])

    try:
        test()
    except _StopShrink:
        pass
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not best:
            out["harness_error"] = "".join(traceback.format_exception(e))[-3000:]
    out["nontrivial"] = sorted(seen)
    if best and out["harness_error"] is None:
        out["failure"] = dict(value=best["value"], kind=best["kind"], text=best["text"])
    return out
