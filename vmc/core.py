"""Bounded-exhaustive exploration engine.

A check is a list of Units.  A Unit is a finite, fully enumerated space of
*cases* (Python literals: a log, an operation history, a crash point, a
schedule, a noise outcome ...) and a function that drives the real code through
the case, comparing every observation with an independent reference model.

Vocabulary of the counts written to the evidence file
  states       distinct model states visited over the whole unit (ctx.state() keys)
  transitions  invocations of the real code whose outcome was compared with the
               model's prediction (ctx.step())
  traces       complete cases (execution histories) replayed on the real code
No case is sampled: `cases(tier)` enumerates the space and the engine fails the
run if any of them was not executed.
"""
import json
import math
import multiprocessing
import multiprocessing.pool
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC_MARKERS = ("/repo/src/", "/wfa_planning_evaluation_framework/")


class Violation(Exception):
    """The property is broken; `key` identifies the failure for known findings."""

    def __init__(self, message, key=""):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Collects coverage for one case."""

    def __init__(self, unit, case):
        self.unit = unit
        self.case = case
        self.states = set()
        self.transitions = 0
        self.trail = []

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def note(self, what):
        self.trail.append(what)

    def eq(self, actual, expected, what, key=""):
        self.transitions += 1
        if not same(actual, expected):
            raise Violation(f"{what}: expected {show(expected)}, got {show(actual)}", key)

    def true(self, cond, what, key=""):
        self.transitions += 1
        if not cond:
            raise Violation(what, key)

    def close(self, actual, expected, what, rtol=1e-9, atol=1e-9, key=""):
        self.transitions += 1
        if not near(actual, expected, rtol, atol):
            raise Violation(f"{what}: expected {show(expected)}, got {show(actual)}", key)

    def raises(self, exc, fn, what, key=""):
        """fn() must raise exc (a class or tuple)."""
        self.transitions += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:  # noqa
            raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}", key)
        raise Violation(f"{what}: expected {exc}, but it returned {show(r)}", key)


def show(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + "..."


def plain(x):
    """Normalises numpy scalars/arrays and nested sequences to Python values."""
    if isinstance(x, (str, bytes)) or x is None or isinstance(x, bool):
        return x
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return {plain(v) for v in x}
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    return x


def same(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def near(a, b, rtol=1e-9, atol=1e-9):
    a, b = plain(a), plain(b)
    if isinstance(a, list) or isinstance(b, list):
        return (
            isinstance(a, list)
            and isinstance(b, list)
            and len(a) == len(b)
            and all(near(x, y, rtol, atol) for x, y in zip(a, b))
        )
    if isinstance(a, Fraction):
        a = float(a)
    if isinstance(b, Fraction):
        b = float(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return a == b


class Unit:
    """One exhaustively enumerated space of cases."""

    def __init__(self, name, cases, run, rule="", timeout=120, chunk=None, serial=False):
        self.name = name
        self.cases = cases  # cases(tier) -> iterable of literals
        self.run = run  # run(ctx, case)
        self.rule = rule
        self.timeout = timeout
        self.chunk = chunk
        self.serial = serial


def _through_source(tb):
    for frame in traceback.extract_tb(tb):
        fn = os.path.abspath(frame.filename)
        if any(m in fn for m in SRC_MARKERS) and not fn.startswith(ROOT + "/vmc"):
            return True
    return False


_CASE = [0.0, 0.0, 0]  # CPU and wall clock at the start of the case, its limit


def _on_alarm(signum, frame):
    """A case is out of time when it used that much processor time, or four times
    that much wall-clock time: a busy machine is not a violation."""
    cpu, wall, limit = _CASE
    used = os.times()
    if used.user + used.system + used.children_user + used.children_system - cpu < 0.9 * limit \
            and time.monotonic() - wall < 4 * limit:
        signal.setitimer(signal.ITIMER_REAL, max(1.0, limit / 4))
        return
    raise CaseTimeout()


# raised while the harness reads an answer: the answer is not of the documented kind
UNREADABLE = (TypeError, ValueError, IndexError, KeyError, StopIteration, ArithmeticError, AssertionError)


def _unreadable(e):
    if isinstance(e, AttributeError):  # not when the harness looked for a private name
        return "attribute '_" not in str(e)
    return isinstance(e, UNREADABLE)


def run_case(unit, case):
    """Returns (states, transitions, violation-or-None, harness-error-or-None)."""
    ctx = Ctx(unit.name, case)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    used = os.times()
    _CASE[:] = [used.user + used.system + used.children_user + used.children_system, time.monotonic(), unit.timeout]
    signal.setitimer(signal.ITIMER_REAL, unit.timeout)
    vio = err = None
    try:
        unit.run(ctx, case)
    except Violation as v:
        vio = {"message": str(v), "key": v.key, "trace": traceback.format_exc(limit=-6)}
    except CaseTimeout:
        vio = {
            "message": f"no answer within {unit.timeout} s",
            "key": "timeout",
            "trace": traceback.format_exc(limit=-6),
        }
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        if _through_source(sys.exc_info()[2]) and not isinstance(e, HarnessError):
            vio = {
                "message": f"unexpected {type(e).__name__}: {e}",
                "key": f"exception:{type(e).__name__}",
                "trace": tb,
            }
        elif _unreadable(e) and not isinstance(e, HarnessError):
            vio = {
                "message": f"the answer cannot be read: {type(e).__name__}: {e}",
                "key": f"unreadable:{type(e).__name__}",
                "trace": tb,
            }
        else:
            err = tb
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if vio is not None:
        vio.update(unit=unit.name, case=repr(case), trail=[str(t) for t in ctx.trail])
    return ctx.states, ctx.transitions, vio, err


_UNITS = None


def _work(arg):
    ui, cases = arg
    unit = _UNITS[ui]
    tr = n = 0
    st = set()
    vios = []
    err = None
    for c in cases:
        s, t, v, e = run_case(unit, c)
        st |= s
        tr += t
        n += 1
        if v is not None:
            vios.append(v)
            if len(vios) >= 200 or v["key"] == "timeout":
                break
        if e is not None:
            err = f"case {c!r} of {unit.name}\n{e}"
            break
    return ui, n, st, tr, vios, err


def _chunks(units, tier, totals):
    for ui, unit in enumerate(units):
        size = unit.chunk or 16
        buf = []
        n = 0
        for c in unit.cases(tier):
            buf.append(c)
            n += 1
            if n <= 2:
                totals[ui]["samples"].append(repr(c)[:400])
            if len(buf) >= size:
                yield ui, buf
                buf = []
        if buf:
            yield ui, buf
        totals[ui]["enumerated"] = n


_DIED = []


def _join_exited_workers(pool, _orig=multiprocessing.pool.Pool._join_exited_workers):
    for w in pool:
        if w.exitcode not in (None, 0):
            _DIED.append(w.exitcode)
    return _orig(pool)


multiprocessing.pool.Pool._join_exited_workers = staticmethod(_join_exited_workers)


def _watch(pool, results):
    """The results, or an error if a worker process was lost."""
    while True:
        try:
            yield results.next(timeout=2)
        except StopIteration:
            return
        except multiprocessing.TimeoutError:
            if _DIED:
                yield 0, 0, set(), 0, [], f"a worker process ended with exit code {_DIED[0]}"
                return


def explore(units, tier, nproc=None, is_known=lambda v: False, max_new=5):
    """Runs every case of every unit; returns totals, violations, error."""
    global _UNITS
    _UNITS = units
    nproc = nproc or int(os.environ.get("VMC_PROCS", "0")) or min(8, os.cpu_count() or 1)
    totals = [
        {"name": u.name, "rule": u.rule, "cases": 0, "states": 0, "transitions": 0,
         "enumerated": None, "samples": []}
        for u in units
    ]
    violations, known = [], []
    seen = [set() for _ in units]
    error = None
    if nproc == 1:
        results = (_work(c) for c in _chunks(units, tier, totals))
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(nproc, maxtasksperchild=200)
        results = _watch(pool, pool.imap_unordered(_work, _chunks(units, tier, totals)))
    stopped = False
    begun = time.monotonic()
    try:
        for ui, n, st, tr, vios, err in results:
            t = totals[ui]
            t["cases"] += n
            seen[ui] |= st
            t["states"] = len(seen[ui])
            t["transitions"] += tr
            for v in vios:
                (known if is_known(v) else violations).append(v)
            if err:
                error = err
                stopped = True
                break
            if len(violations) >= max_new or violations and (
                    time.monotonic() - begun > 240 or any(v["key"] == "timeout" for v in violations)):
                stopped = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    if not stopped:
        for t in totals:
            if t["enumerated"] != t["cases"]:
                error = f"unit {t['name']}: enumerated {t['enumerated']}, executed {t['cases']}"
    return totals, violations, known, error


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])
