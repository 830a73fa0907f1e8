"""
Case runner and verdict discipline.

A check is a module in /verif/checks with
    PROPERTY   property id
    cases(rng, tier) -> list of JSON-able case dicts (deterministic for a given rng)
    run_case(case, mon)      drives the real code and feeds the monitors
    REQUIRED   counters that must be non-zero, otherwise the run is inconclusive
    RULE       how cases are made and what makes one non-trivial
Optional: SHARDS, TIMER ("cpu" | "real"), CASE_TIMEOUT, ASSUMPTIONS, finish(mon_totals).

Verdicts: violated (exit 1 with a replayable case), held on what was observed (exit 0),
inconclusive (exit 2).
"""
import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import signal
import traceback
from collections import Counter

import numpy as np


class CaseViolation(Exception):
    def __init__(self, key, message, details=None):
        super().__init__(message)
        self.key, self.message, self.details = key, message, details or {}


class CaseTimeout(BaseException):
    pass


class OracleError(Exception):
    """The harness itself failed: never a violation."""


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def stable_hash(obj):
    return hashlib.sha256(
        json.dumps(_jsonable(obj), sort_keys=True).encode()
    ).hexdigest()[:16]


class Monitor:
    def __init__(self):
        self.counts = Counter()
        self.distinct = {}
        self.samples = []
        self.depth = 0
        self.case_violations = []

    # -- observations
    def count(self, name, k=1):
        self.counts[name] += int(k)

    def see(self, family, key):
        """Record one distinct observed item of a family."""
        self.distinct.setdefault(family, set()).add(stable_hash(key))

    def sample(self, obj, cap=3):
        if len(self.samples) < cap:
            self.samples.append(_jsonable(obj))

    # -- verdicts
    def violation(self, key, message, **details):
        raise CaseViolation(key, message, _jsonable(details))

    def check(self, ok, key, message, **details):
        self.counts["oracle_evaluations"] += 1
        if not ok:
            self.violation(key, message, **details)

    # -- boundary to the code under test
    @contextlib.contextmanager
    def code(self, label, allow=()):
        """Everything inside is the code under test: an exception it raises on an input
        of the property's domain is a violation."""
        self.depth += 1
        try:
            yield
        except (CaseViolation, OracleError):
            raise
        except allow:
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/repo/" in f.filename]
            site = where[-1].name if where else "?"
            raise CaseViolation(
                "exception:%s:%s" % (label, type(e).__name__),
                "%s raised %s: %s (in %s)" % (label, type(e).__name__, str(e)[:300], site),
                {"traceback": traceback.format_exc()[-2500:]},
            )
        finally:
            self.depth -= 1

    def call(self, label, fn, *args, **kwargs):
        with self.code(label):
            return fn(*args, **kwargs)


def seed_everything(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))


def run_one(mod, case, mon, timeout, timer):
    """Returns (status, info): ok | violation | timeout | error"""
    seed_everything(int(case.get("seed", 0)))
    mon.depth = 0
    where = [False]
    which, sig = (
        (signal.ITIMER_PROF, signal.SIGPROF)
        if timer == "cpu"
        else (signal.ITIMER_REAL, signal.SIGALRM)
    )

    def handler(signum, frame):
        where[0] = mon.depth > 0  # the stack is about to be unwound
        # a pool that waits for a stuck worker process would never be left otherwise
        for child in multiprocessing.active_children():
            child.kill()
        raise CaseTimeout()

    old = signal.signal(sig, handler)
    signal.setitimer(which, timeout)
    try:
        mod.run_case(case, mon)
        return "ok", None
    except CaseViolation as v:
        return "violation", {"key": v.key, "message": v.message, "details": v.details}
    except CaseTimeout:
        return "timeout", {
            "in_code": where[0],
            "message": "no progress within %s s (%s time)" % (timeout, timer),
        }
    except Exception:
        return "error", {"message": traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(which, 0)
        signal.signal(sig, old)


def scrub_env():
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
