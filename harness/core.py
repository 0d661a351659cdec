"""Laws, execution, evidence and replay (see DESIGN.md)."""

import hashlib
import json
import math
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = os.path.join(os.path.realpath(REPO), "celest") + os.sep
REPLAYS = os.path.join(VERIF, "replays")
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")

LAWS = {}


class Fail(AssertionError):
    """The property is broken by this case."""


class HarnessError(Exception):
    """The harness itself went wrong."""


class StopSearch(BaseException):
    """Ends a search early (time cap); passes through Hypothesis untouched."""


class Law:
    def __init__(self, prop, name, strategy, run, rule, quick, thorough, cap):
        self.prop, self.name, self.strategy, self.run = prop, name, strategy, run
        self.rule, self.quick, self.thorough, self.cap = rule, quick, thorough, cap


def law(prop, name, strategy, rule, quick=300, thorough=None, cap=150):
    """Register `run(ctx, case)` as a law of `prop`.

    `quick` and `thorough` are numbers of examples, `cap` the seconds after
    which the quick search ends early.
    """
    def register(run):
        laws = LAWS.setdefault(prop, [])
        assert name not in [x.name for x in laws], name
        laws.append(Law(prop, name, strategy, run, rule, quick,
                        thorough or quick * 20, cap))
        return run
    return register


class Ctx:
    def __init__(self, stats, case, known):
        self._stats, self._case, self._known = stats, case, known

    def nontrivial(self, condition=True):
        if condition:
            self._stats.nontrivial(self._case)

    def label(self, name, condition=True):
        if condition:
            self._stats.labels[name] = self._stats.labels.get(name, 0) + 1

    def finding(self, key, message):
        """A failure that is quiet only if `key` is a recorded finding."""
        if key in self._known:
            self._stats.findings[key] = message
            return
        raise Fail(message + " [" + key + "]")


class Stats:
    def __init__(self):
        self.evaluations, self.keys, self.samples = 0, set(), []
        self.labels, self.findings = {}, {}

    def nontrivial(self, case):
        text = json.dumps(case, sort_keys=True)
        key = hashlib.blake2b(text.encode(), digest_size=8).digest()
        if key not in self.keys:
            self.keys.add(key)
            if len(self.samples) < 2:
                self.samples.append(text if len(text) <= 1500 else text[:1500] + "...")


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith("known: property=" + prop + " "):
                    parts = line.split(None, 3)
                    keys[parts[2].split("=", 1)[1]] = parts[3].strip()
    return keys


def in_package(tb):
    for frame in traceback.extract_tb(tb):
        if os.path.realpath(frame.filename).startswith(PACKAGE):
            return True
    return False


CASE_SECONDS = 100      # CPU time for a case; the slowest take about ten seconds
MEMORY = 6 << 30


class Endless(BaseException):
    """A case used up its CPU time (not an Exception: the code cannot swallow it)."""


def _endless(*_):
    raise Endless()


def guard():
    """Run-away memory becomes a MemoryError of this process."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))


def execute(law_, ctx, case):
    """Run one case; raises Fail for a violation, HarnessError otherwise."""
    signal.signal(signal.SIGVTALRM, _endless)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_SECONDS)
    try:
        _execute(law_, ctx, case)
    except Endless as error:
        text = "".join(traceback.format_exception(error)[-6:])
        if in_package(error.__traceback__):
            raise Fail("no answer after %d s of CPU time\n%s" % (CASE_SECONDS, text)) from None
        raise HarnessError(text) from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# Raised by a law that cannot use what the code gave it (an attribute missing, None or
# text for a number, too few elements, a file that was to be written).
UNUSABLE = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError,
            FileNotFoundError)


def _execute(law_, ctx, case):
    try:
        law_.run(ctx, case)
    except (Fail, HarnessError):
        raise
    except Exception as error:
        text = "".join(traceback.format_exception(error)[-6:])
        if in_package(error.__traceback__):
            raise Fail("unexpected %s: %s\n%s" % (type(error).__name__, error,
                                                   text)) from None
        missing = isinstance(error, AttributeError) and str(error).startswith("module ")
        if isinstance(error, UNUSABLE) and not missing:
            raise Fail("a result cannot be used: %s: %s\n%s" % (type(error).__name__, error,
                                                              text)) from None
        raise HarnessError("".join(traceback.format_exception(error))) from None


def search(law_, tier, seed, shard=0, shards=1):
    """Run one shard of a law's search; returns a plain result dictionary."""
    stats, known = Stats(), known_keys(law_.prop)
    fails, errors = [], []
    start = time.time()
    cap = law_.cap if tier == "quick" else max(600, law_.cap * 6)
    shrink_cap = 60

    def body(case):
        now = time.time()
        if errors or (not fails and now - start > cap):
            raise StopSearch()
        if fails and now - fails[0][2] > shrink_cap:
            raise StopSearch()
        stats.evaluations += 1
        try:
            execute(law_, Ctx(stats, case, known), case)
        except Fail as failure:
            fails.append((json.dumps(case), str(failure), now))
            raise
        except HarnessError as error:
            errors.append((json.dumps(case), str(error)))
            raise StopSearch() from None

    n = law_.quick if tier == "quick" else law_.thorough
    n = max(1, n // shards + (shard < n % shards))
    derived = int.from_bytes(hashlib.blake2b(
        ("%s/%s/%d/%d" % (law_.prop, law_.name, seed, shard)).encode(),
        digest_size=6).digest(), "big")
    body.__name__ = "law"
    test = hypothesis.seed(derived)(
        settings(max_examples=n, deadline=None, database=None,
                 verbosity=Verbosity.quiet, report_multiple_bugs=False,
                 suppress_health_check=list(HealthCheck),
                 phases=(Phase.generate, Phase.shrink)[:1 if os.environ.get("VERIF_FAST") else 2])(
            given(case=law_.strategy)(body)))
    stopped = False
    try:
        test()
    except StopSearch:
        stopped = not fails and not errors
    except BaseException as error:      # noqa: B902
        if isinstance(error, KeyboardInterrupt):
            raise
        if not fails:
            errors.append(("", "".join(traceback.format_exception(error))))
    result = {
        "law": law_.name, "evaluations": stats.evaluations, "capped": stopped,
        "keys": stats.keys, "samples": stats.samples,
        "labels": stats.labels, "findings": stats.findings,
        "wall_s": time.time() - start, "fail": None, "error": None,
    }
    if errors:
        result["error"] = errors[0][1] + "\ncase: " + errors[0][0]
    elif fails:
        case, message, _ = min(fails, key=lambda f: len(f[0]))
        result["fail"] = {"case": json.loads(case), "message": message,
                          "first_case": json.loads(fails[0][0])}
    return result


# ---------------------------------------------------------------- oracles ---

def check(condition, message, *args):
    if not condition:
        raise Fail(message % args if args else message)


def as_array(value, what, n=None, kind="f"):
    """A numeric 1-D output of the code as a float array, or Fail."""
    try:
        array = np.asarray(value, dtype=float)
    except Exception:
        raise Fail("%s is not numeric: %r" % (what, value)) from None
    array = array.reshape(-1) if array.ndim == 0 else array
    check(array.ndim == 1, "%s has shape %r", what, array.shape)
    if n is not None:
        check(array.size == n, "%s has %d values for %d samples", what, array.size, n)
    return array


def close(actual, expected, tol, what, detail=None):
    """Element-wise |actual - expected| <= tol (tol may be an array)."""
    actual, expected = as_array(actual, what), np.asarray(expected, float).reshape(-1)
    check(actual.shape == expected.shape, "%s has %d values, expected %d", what,
          actual.size, expected.size)
    bad = ~(np.abs(actual - expected) <= tol)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Fail("%s[%d] is %r, expected %r (tolerance %r)%s" % (
            what, i, actual[i], expected[i],
            float(np.broadcast_to(tol, actual.shape)[i]),
            "" if detail is None else "; " + (detail(i) if callable(detail) else str(detail))))


def wrap_diff(a, b, period):
    """Signed difference a - b modulo period, in [-period/2, period/2)."""
    return (np.asarray(a, float) - np.asarray(b, float) + period / 2) % period - period / 2


def close_wrapped(actual, expected, period, tol, what, detail=None):
    actual, expected = as_array(actual, what), np.asarray(expected, float).reshape(-1)
    check(actual.shape == expected.shape, "%s has %d values, expected %d", what,
          actual.size, expected.size)
    check(bool(np.isfinite(actual).all()), "%s is not finite: %r", what, actual)
    difference = np.abs(wrap_diff(actual, expected, period))
    bad = ~(difference <= tol)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Fail("%s[%d] is %r, expected %r mod %r%s" % (
            what, i, actual[i], expected[i], period,
            "" if detail is None else "; " + (detail(i) if callable(detail) else str(detail))))


def raises(kinds, function, what):
    """`function` must raise one of `kinds` (and nothing else)."""
    try:
        result = function()
    except kinds:
        return
    except Exception as error:
        raise Fail("%s raised %s(%s)" % (what, type(error).__name__, error)) from None
    raise Fail("%s was accepted (%s)" % (what, type(result).__name__))


def finite(x):
    return math.isfinite(x)
