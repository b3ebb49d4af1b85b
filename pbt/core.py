"""Core of the property-based checks: laws, case execution, search, shrinking.

A *law* is one executable statement of (part of) a property:

  strategy : a Hypothesis strategy producing a JSON-able case
  check    : check(case, note) raises when the law fails on the case
  quick/thorough : how many cases each tier generates
  nontrivial     : stated rule deciding whether a case is non-trivial

The search is Hypothesis' (random generation + shrinking), seeded from
VERIF_SEED and the law's name, with no example database.  Every case is a plain
JSON value, so a failing one is written to a replay file that runs without
Hypothesis.
"""

import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

CASE_LIMIT = 120.0  # seconds one case may take before it counts as hanging
SHRINK_LIMIT = 45.0  # seconds spent shrinking a failure
TIERS = ("quick", "thorough")
# times the stated number of cases
QUICK = float(os.environ.get("PBT_QUICK") or 8)
THOROUGH = float(os.environ.get("PBT_THOROUGH") or 8)


class Violation(AssertionError):
    """The law does not hold on this case."""


class HarnessError(Exception):
    """The machinery (not the code under test) is at fault."""


class CaseTimeout(BaseException):
    pass


class StopSearch(KeyboardInterrupt):
    """Leaves the Hypothesis engine early (it re-raises KeyboardInterrupt)."""


class Law:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="",
                 nontrivial=None, shards=1, known=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.nontrivial = nontrivial or (lambda case: True)
        self.shards = shards
        self.known = known


class Registry:
    """The laws of one property, filled by the decorator below."""

    def __init__(self, prop):
        self.prop = prop
        self.laws = []

    def law(self, strategy, quick, thorough=None, rule="", nontrivial=None,
            shards=1, known=None):
        def deco(fn):
            name = fn.__name__
            if any(l.name == name for l in self.laws):
                raise HarnessError("duplicate law " + name)
            self.laws.append(Law(name, strategy, fn, quick, thorough, rule,
                                 nontrivial, shards, known))
            return fn
        return deco


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _alarm(signum, frame):
    raise CaseTimeout()


def reset_state():
    random.seed(12345)
    np.random.seed(12345)
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None:
        plt.close("all")


def execute(law, case, labels):
    """Run one case. Returns None, or (kind, message) when the law fails."""

    def note(label):
        labels[label] = labels.get(label, 0) + 1

    reset_state()
    out = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            law.check(json.loads(case_key(case)), note)
        return None
    except CaseTimeout:
        return ("timeout", "did not finish within %.0f s" % CASE_LIMIT)
    except (HarnessError, MemoryError, ImportError, StopSearch):
        raise
    except Exception as e:  # a violated assertion or an exception of the code
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                          for f in tb[-4:])
        return (type(e).__name__, "%s: %s [%s]" % (type(e).__name__,
                                                   str(e)[:600], where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def law_seed(seed, prop, name, shard):
    return zlib.crc32(("%d/%s/%s/%d" % (seed, prop, name, shard)).encode())


def search(prop, law, tier, seed, shard, budget, current=None):
    """Search for a violation of `law`; returns a JSON-able result."""
    from hypothesis import HealthCheck, Phase, Verbosity, given
    from hypothesis import seed as hseed
    from hypothesis import settings

    n = (law.quick * QUICK if tier == "quick" else law.thorough * THOROUGH)
    n = max(1, round(n))
    n = max(1, -(-n // law.shards))
    t0 = time.time()
    st = {"evaluations": 0, "nontrivial": set(), "samples": [], "labels": {},
          "fails": [], "first_fail": None, "skipped": 0, "history": []}

    def run(case):
        if st["first_fail"] is not None:
            if time.time() - st["first_fail"] > SHRINK_LIMIT:
                raise StopSearch()
        elif time.time() - t0 > budget:
            st["skipped"] += 1
            raise StopSearch()
        if current is not None:
            current(case)
        st["evaluations"] += 1
        key = case_key(case)
        if st["first_fail"] is None:
            st["history"].append(key)
            if len(st["history"]) > 400:
                del st["history"][0]
        if law.nontrivial(case):
            h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 2 and len(key) < 1500:
                    st["samples"].append(case)
        bad = execute(law, case, st["labels"])
        if bad is not None:
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            st["fails"].append((len(key), key, bad))
            if bad[0] == "timeout":
                raise StopSearch()
            raise Violation(bad[1])

    @hseed(law_seed(seed, prop, law.name, shard))
    @settings(max_examples=n, database=None, deadline=None,
              suppress_health_check=list(HealthCheck),
              phases=(Phase.generate,) if os.environ.get("PBT_FAST") else (
                  Phase.generate, Phase.shrink),
              report_multiple_bugs=False, verbosity=Verbosity.quiet,
              print_blob=False)
    @given(law.strategy)
    def prop_test(case):
        run(case)

    error = None
    try:
        prop_test()
    except StopSearch:
        pass
    except BaseException as e:  # noqa: B902
        if not st["fails"]:
            error = "".join(traceback.format_exception(e))[-3000:]
    res = {"law": law.name, "shard": shard, "evaluations": st["evaluations"],
           "nontrivial": sorted(st["nontrivial"]), "samples": st["samples"],
           "labels": st["labels"], "stopped_early": st["skipped"] > 0,
           "seconds": round(time.time() - t0, 2), "error": error,
           "failure": None}
    if st["fails"]:
        # shrunk = the shortest failing case, the latest one among equals
        st["fails"].sort(key=lambda f: f[0])
        best = st["fails"][0]
        res["failure"] = {"case": json.loads(best[1]), "kind": best[2][0],
                          "message": best[2][1],
                          "history": [json.loads(k) for k in st["history"]]}
    return res
