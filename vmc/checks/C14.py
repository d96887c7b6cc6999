"""Failure injection: every place a trial can fail, in every combination."""
import csv
import itertools

import numpy as np
from vmc_env import ENV

from vmc import exp, fsutil
from vmc.core import Unit, Violation
from vmc.memfs import MemFs
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

ASSUMPTIONS = ["failures are exceptions raised at the boundary of the fitting, measuring, test point, truth and prediction calls; "
               "configuration errors that prevent a trial from being set up at all are not modeling failures"]
SEED = 3


class Odd(Exception):
    def __str__(self):
        return 'odd, "quoted"\nline; é'


ERRORS = {
    "value": lambda: ValueError("bad, value"),
    "zero": lambda: ZeroDivisionError("division by zero"),
    "key": lambda: KeyError("k"),
    "assert": lambda: AssertionError(),
    "odd": lambda: Odd(),
    "runtime": lambda: RuntimeError(""),
    "linalg": lambda: np.linalg.LinAlgError("Singular matrix"),
    "memory": lambda: MemoryError("no memory"),
    "notimpl": lambda: NotImplementedError(),
}


class Poisoned(ReachPoint):
    """A prediction that cannot be scored."""
    error = None

    def reach(self, *a, **k):
        raise self.error()

    frequency = reach


class Injector:
    """plan: {index of the trial in execution order: (phase, call number, error)}."""

    def __init__(self, plan):
        self.plan, self.now, self.calls, self.granted = plan, -1, {}, []
        self.phase = "setup"

    def hit(self, phase):
        n = self.calls.get(phase, 0)
        self.calls[phase] = n + 1
        p = self.plan.get(self.now)
        if p and p[0] == phase and p[1] == n:
            return ERRORS[p[2]]

    def __enter__(self):
        import contextlib
        self.stack = contextlib.ExitStack()
        me = self

        def fit(orig):
            def f(self, *a, **k):
                me.now += 1
                me.calls = {}
                me.granted.append([])
                me.phase = "fit"
                e = me.hit("fit")
                if e:
                    raise e()
                r = orig(self, *a, **k)
                e = me.hit("fitted")
                if e:
                    raise e()
                me.phase = "score"
                return r
            return f

        def measure(orig):
            def f(self, spends, budget, *a, **k):
                e = me.hit("measure")
                if e:
                    raise e()
                r = orig(self, spends, budget, *a, **k)
                me.granted[-1].append((budget.epsilon, budget.delta))
                return r
            return f

        def points(orig):
            def f(self):
                e = me.hit("points")
                if e:
                    raise e()

                def gen():
                    for x in orig(self):
                        e = me.hit("point")
                        if e:
                            raise e()
                        yield x
                return gen()
            return f

        def truth(orig):
            def f(self, *a, **k):
                e = me.hit("truth") if me.phase == "score" else None
                if e:
                    raise e()
                return orig(self, *a, **k)
            return f

        def predict(orig):
            def f(self, *a, **k):
                if me.phase != "score" or me.depth:
                    return orig(self, *a, **k)
                me.depth += 1
                try:
                    e = me.hit("predict")
                    if e:
                        raise e()
                    r = orig(self, *a, **k)
                    e = me.hit("scored")
                    if e:
                        q = Poisoned.__new__(Poisoned)
                        q.__dict__.update(r.__dict__)
                        q.error = e
                        return q
                    return r
                finally:
                    me.depth -= 1
            return f

        self.depth = 0
        for cls, name, fn in (
            (M3Strategy, "fit", fit), (SinglePublisherStrategy, "fit", fit),
            (HaloSimulator, "simulated_reach_by_spend", measure),
            (GridTestPointGenerator, "test_points", points),
            (HaloSimulator, "true_reach_by_spend", truth),
            (PairwiseUnionReachSurface, "by_spend", predict), (GoergModel, "by_spend", predict),
            (GroundTruthReachCurveModel, "by_spend", predict),
        ):
            self.stack.enter_context(exp.patched(cls, name, fn))
        return self

    def __exit__(self, *exc):
        self.stack.close()


PRIVACY = ["privacy_used_epsilon", "privacy_used_delta", "privacy_mechanisms"]


def run(sets, trials, analysis="", plan=None, fs=None, work="/work/inter"):
    ENV.reset()
    if fs is None:
        fs = MemFs()
        exp.write_design("/dd", fs, sets)
    with Injector(plan or {}) as inj:
        df = exp.design("/dd", work, fs, trials, seed=SEED, analysis_type=analysis).load()
    return df, inj, fs


_REF = {}


def reference(key, sets, make, analysis=""):
    if key not in _REF:
        df, inj, fs = run(sets, make(), analysis)
        _REF[key] = (exp.rows(df), list(df.columns), inj.granted)
    return _REF[key]


def judge(ctx, df, inj, plan, ref, cols, what):
    """Rows of a run with injected failures against the undisturbed run."""
    got = exp.rows(df)
    ctx.eq(list(df.columns), cols, f"{what}: columns")
    ctx.eq([exp.key(r) for r in got], [exp.key(r) for r in ref], f"{what}: the trials listed")
    start = cols.index("privacy_mechanisms") + 1
    for i, (a, b) in enumerate(zip(got, ref)):
        p = plan.get(i)
        if p is None:
            d = exp.diff(a, b)
            ctx.true(d is None, f"{what}: trial {i}, which does not fail, changed: {d}")
            continue
        ctx.eq(a["model_succeeded"], 0, f"{what}: trial {i} is marked as failed")
        err = ERRORS[p[2]]()
        text = str(a["model_exception"])
        ctx.true(type(err).__name__ in text, f"{what}: trial {i} gives the reason {text!r} for {err!r}")
        ctx.true(str(err).strip() in text or isinstance(err, KeyError), f"{what}: trial {i} gives the reason {text!r} for {err!r}")
        for c in cols[:start]:
            if c in PRIVACY:
                continue
            d = exp.diff({c: a[c]}, {c: b[c]})
            ctx.true(d is None, f"{what}: failed trial {i}: {d}")
        for c in cols[start:]:
            if c in ("model_succeeded", "model_exception"):
                continue
            ctx.eq(a[c], "", f"{what}: metric {c} of failed trial {i}")
        used = inj.granted[i]
        ctx.close(a["privacy_used_epsilon"], sum(e for e, _ in used), f"{what}: epsilon used by failed trial {i}")
        ctx.close(a["privacy_used_delta"], sum(d for _, d in used), f"{what}: delta used by failed trial {i}", atol=1e-15)
        ctx.eq(bool(a["privacy_mechanisms"]), bool(used), f"{what}: mechanisms of failed trial {i}: {a['privacy_mechanisms']!r}")


# ---- one failure phase, every subset of the trials ------------------------------------
SETS = (("a", 1), ("b", 2))


def make3():
    return [exp.trial("m3", "grid", 1, seed=9), exp.trial("m3truth", "grid", 2, seed=9), exp.trial("m3", "grid", 3, eps=2.0, seed=9)]


PHASES = [("fit", 0), ("measure", 0), ("measure", 1), ("fitted", 0), ("points", 0), ("point", 0), ("point", 1),
          ("truth", 0), ("truth", 1), ("predict", 0), ("predict", 1), ("scored", 0), ("scored", 1)]


def cases_subsets(tier):
    for phase, call in PHASES:
        for mask in range(1, 64):
            yield (phase, call, mask)


def check_subsets(ctx, case):
    phase, call, mask = case
    ref, cols, granted = reference("3x2", SETS, make3)
    errs = list(ERRORS)
    plan = {}
    for i in range(6):
        if mask >> i & 1:
            if phase == "measure" and call >= len(granted[i]):
                continue
            plan[i] = (phase, call, errs[(i + call + mask) % len(errs)])
    df, inj, fs = run(SETS, make3(), plan=plan)
    ctx.state(case)
    judge(ctx, df, inj, plan, ref, cols, f"failures at {phase} {call} of trials {sorted(plan)}")
    # the stored results are final: another run returns the same rows without failing again
    df2, inj2, _ = run(SETS, make3(), fs=fs)
    exp.same_rows(ctx, exp.rows(df2), exp.rows(df), "second run")
    ctx.eq(inj2.granted, [], "nothing is computed again")


# ---- different failures in different trials -----------------------------------------------
MIX = [None, ("fit", 0, "value"), ("measure", 0, "linalg"), ("point", 1, "key"), ("truth", 1, "zero"), ("predict", 1, "odd"), ("scored", 0, "assert")]


def cases_mix(tier):
    for c in itertools.product(range(len(MIX)), repeat=3):
        yield c


def check_mix(ctx, case):
    sets = (("b", 2),)
    ref, cols, granted = reference("3x1", sets, make3)
    plan = {i: MIX[m] for i, m in enumerate(case) if MIX[m]}
    plan = {i: p for i, p in plan.items() if not (p[0] == "measure" and p[1] >= len(granted[i]))}
    df, inj, fs = run(sets, make3(), plan=plan)
    ctx.state(case)
    judge(ctx, df, inj, plan, ref, cols, f"failures {case}")


# ---- both analysis types, every maximum frequency, every call ------------------------------
def make1(analysis, freq):
    def f():
        return [exp.trial("single", "grid", 1, freq=freq, seed=9), exp.trial("m3", "grid", 2, freq=freq, seed=9)]
    return f


def cases_calls(tier):
    for freq in range(1, 5 if tier == "quick" else 7):
        for analysis in ("", "single_pub"):
            for phase in ("fit", "measure", "fitted", "points", "point", "truth", "predict", "scored"):
                for who in (0, 1):
                    yield (freq, analysis, phase, who)


def check_calls(ctx, case):
    """A failure at every single call of the phase, including those of the single publisher analysis."""
    freq, analysis, phase, who = case
    sets = (("a", 1),)
    ref, cols, granted = reference((freq, analysis), sets, make1(analysis, freq), analysis)
    for call in itertools.count():
        plan = {who: (phase, call, list(ERRORS)[call % len(ERRORS)])}
        df, inj, fs = run(sets, make1(analysis, freq)(), analysis, plan)
        got = exp.rows(df)
        if got[who]["model_succeeded"] and call >= inj_calls(sets, freq, analysis, who, phase):
            exp.same_rows(ctx, got, ref, "no failure")
            ctx.eq(list(df.columns), cols, "columns")
            break
        ctx.state((case, call))
        judge(ctx, df, inj, plan, ref, cols, f"failure at {phase} {call}")
    ctx.true(call > 0 or phase not in ("fit", "fitted", "predict"), f"phase {phase} never happens")


_CALLS = {}


def inj_calls(sets, freq, analysis, who, phase):
    """How often the phase is reached in an undisturbed run of trial `who`."""
    k = (freq, analysis, who)
    if k not in _CALLS:
        t = make1(analysis, freq)()
        _, inj, _ = run(sets, [t[who]], analysis)
        _CALLS[k] = inj.calls
    return _CALLS[k].get(phase, 0)


# ---- columns agree over everything -----------------------------------------------------------
def cases_natural(tier):
    names = list(LOGS)
    combos = [(n,) for n in names] + list(itertools.product(names, repeat=2))
    if tier != "quick":
        combos += list(itertools.product(names, repeat=3))
    for c in combos:
        for frac in (0.0, 0.5, 1.0):
            for analysis in ("", "single_pub"):
                yield (c, frac, analysis)


LOGS = {"once": [(i, (i + 1) * 1.0) for i in range(12)], "one": [(1, float(k + 1)) for k in range(5)],
        "mixed": [(k * k % 7, k + 1.0) for k in range(20)], "single": [(5, 2.0)], "free": [(k % 3, 0.0) for k in range(6)]}


def check_natural(ctx, case):
    """Odd data sets, with whatever fails by itself: one complete row per trial."""
    names, frac, analysis = case
    ENV.reset()
    fs = MemFs()
    fs.mkdir("/dd", parents=True)
    DataDesign("/dd", fs).add(DataSet([PublisherData(list(LOGS[n]), str(i + 1)) for i, n in enumerate(names)], "odd"))
    exp.write_design("/dd", fs, (("a", 1),))
    frs = lambda ds: [frac] * ds.publisher_count
    trials = [exp.trial(s, "grid", 1, fracs=frs, seed=9) for s in ("m3", "single", "m3r", "m3truth")]
    df = exp.design("/dd", "/w/i", fs, trials, seed=SEED, analysis_type=analysis).load()
    ref, cols, _ = reference((2, analysis), (("a", 1),), make1(analysis, 2), analysis)
    ctx.eq(list(df.columns), cols, f"{case}: columns")
    rows = exp.rows(df)
    ctx.eq([(r["dataset"], r["strategy"], r["multi_pub_model"]) for r in rows],
           [(d, t.modeling_strategy.strategy, t.modeling_strategy.multi_pub_model) for d in ("a", "odd") for t in trials], "one row per trial")
    for r in rows:
        ctx.state((case, r["dataset"], r["trial"], r["model_succeeded"]))
        ctx.true(r["model_succeeded"] in (0, 1), "marked as failed or succeeded")
        if r["model_succeeded"] == 0:
            ctx.true(r["model_exception"] not in ("", "None"), "reason")
            ctx.eq(r["npoints"], "", "metrics of a failed trial")
        else:
            ctx.eq(r["model_exception"], "None", "reason of a successful trial")
            ctx.eq(r["npoints"], 2 ** r["ncampaigns"], "number of test points")


# ---- what each row says about its trial -----------------------------------------------------------
def cases_vars(tier):
    for strat in ("m3", "single", "m3r", "m3truth"):
        for fail in (False, True):
            for freq in (1, 3):
                for frac in (0.5, 0.25):
                    yield (strat, fail, freq, frac)


def check_vars(ctx, case):
    strat, fail, freq, frac = case
    sets = (("a", 1), ("b", 2), ("c", 3))
    uneven = lambda ds: [frac / (i + 1) for i in range(ds.publisher_count)]
    trials, specs = [], []
    for replica, eps, ll in ((1, 8.0, (12, 1000)), (7, 0.5, (10, 500))):
        t = exp.trial(strat, "grid", replica, eps=eps, freq=freq, fracs=uneven, seed=9)
        t = t._replace(system_params=t.system_params._replace(
            liquid_legions=t.system_params.liquid_legions._replace(decay_rate=ll[0], sketch_size=ll[1])))
        trials.append(t)
        specs.append((replica, eps, ll))
    plan = {i: ("fit", 0, "value") for i in range(6)} if fail else {}
    df, inj, fs = run(sets, trials, plan=plan)
    rows = exp.rows(df)
    ctx.eq(len(rows), 6, "rows")
    d = trials[0].modeling_strategy
    for i, ((name, p), (replica, eps, ll)) in enumerate(itertools.product(sets, specs)):
        r = rows[i]
        ctx.state((case, i))
        logs = exp.logs(p)
        want = {
            "dataset": name, "replica_id": replica, "single_pub_model": d.single_pub_model, "multi_pub_model": d.multi_pub_model,
            "strategy": d.strategy, "liquid_legions_sketch_size": ll[1], "liquid_legions_decay_rate": ll[0],
            "maximum_reach": len(set(u for l in logs for u, _ in l)), "ncampaigns": p,
            "largest_pub_reach": max(len(set(u for u, _ in l)) for l in logs), "max_frequency": freq,
            "average_spend_fraction": sum(frac / (k + 1) for k in range(p)) / p,
            "privacy_budget_epsilon": eps, "privacy_budget_delta": 1e-5,
        }
        for c, v in want.items():
            df_ = exp.diff({c: r[c]}, {c: v})
            ctx.true(df_ is None, f"row of {name}, replica {replica}: {df_}")
        if fail:
            ctx.eq(r["privacy_used_epsilon"], 0, "epsilon used before a failing fit")
        ctx.true(r["privacy_used_epsilon"] <= eps * (1 + 1e-9), "no more than the budget is used")
        ctx.eq(r["trial"], str(trials[i % 2].update_from_dataset(DataDesign("/dd", fs).by_name(name))), "description of the trial")


# ---- duplicates ------------------------------------------------------------------------------------
def cases_dups(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        yield from itertools.product("xyz", repeat=n)


def check_dups(ctx, seq):
    """Designs that repeat configurations give one row per distinct configuration."""
    conf = {"x": lambda: exp.trial("m3", "grid", 1, seed=9), "y": lambda: exp.trial("m3", "grid", 2, seed=9),
            "z": lambda: exp.trial("single", "grid", 1, seed=9)}
    reps = {"x": ("m3strategy", 1), "y": ("m3strategy", 2), "z": ("single_publisher", 1)}
    distinct = list(dict.fromkeys(seq))
    ctx.state(seq)
    for share in (False, True):
        objs = {c: conf[c]() for c in "xyz"}
        trials = [objs[c] if share else conf[c]() for c in seq]
        df, inj, fs = run(SETS, trials)
        got = [(r["dataset"], r["strategy"], r["replica_id"]) for r in exp.rows(df)]
        ctx.eq(sorted(got), sorted((d,) + reps[c] for d, _ in SETS for c in distinct), f"rows of the design {seq}")
        ctx.eq(len(inj.granted), len(distinct) * 2, "trials computed")
        ctx.eq(list(df.columns), list(dict.fromkeys(df.columns)), "distinct columns")


# ---- the driver's output file -----------------------------------------------------------------------
def cases_output(tier):
    for mask in range(8):
        for analysis in ("", "single_pub"):
            for old in (False, True):
                yield (mask, analysis, old)


def check_output(ctx, case):
    mask, analysis, old = case
    with fsutil.scratch("vmc-c14-") as top:
        fs = FilesystemPathlibWrapper()
        exp.write_design(top + "/dd", fs, (("a", 1),))
        with open(top + "/design.py", "w") as f:
            f.write("from vmc.checks import C14\ndef generate_experimental_design_config(seed=1):\n    return C14.make3()\n")
        if old:
            with open(top + "/out.csv", "w") as f:
                f.write("dataset,stale\n" * 500)
        ENV.reset()
        plan = {i: ("predict", 1, "odd") for i in range(3) if mask >> i & 1}
        with Injector(plan):
            df = ExperimentDriver(top + "/dd", top + "/design.py", top + "/out.csv", top + "/w/i", SEED, 1, analysis).execute()
        ctx.state(case)
        with open(top + "/out.csv", newline="") as f:
            table = list(csv.reader(f))
        ctx.eq(table[0], list(df.columns), "header of the output file")
        ctx.eq(len(table), 1 + len(df), "rows of the output file")
        ctx.eq(len(df), 3, "rows")
        for line, r in zip(table[1:], exp.rows(df)):
            for c, text in zip(table[0], line):
                v = r[c]
                if isinstance(v, (int, float)):
                    ctx.true(text not in ("NaN", "") and (float(text) == v or abs(float(text) - v) <= 1e-12 * abs(v)), f"{c} in the output file: {text} for {v}")
                elif v == "":
                    ctx.true(text in ("NaN", ""), f"{c} in the output file: {text} for an undefined value")
                else:
                    ctx.eq(text, v, f"{c} in the output file")


UNITS = [
    Unit("subsets", cases_subsets, check_subsets, "every subset of six trials failing, at each of 13 points", chunk=6, timeout=300),
    Unit("mix", cases_mix, check_mix, "every combination of seven behaviours over three trials", chunk=6, timeout=300),
    Unit("calls", cases_calls, check_calls, "a failure at every call of every phase, both analyses, maximum frequencies", chunk=1, timeout=800),
    Unit("natural", cases_natural, check_natural, "odd data sets and spend fractions, nothing injected", chunk=4, timeout=300),
    Unit("vars", cases_vars, check_vars, "independent variables of successful and failed trials", chunk=1, timeout=300),
    Unit("dups", cases_dups, check_dups, "every sequence of repeated configurations", chunk=1, timeout=300),
    Unit("output", cases_output, check_output, "the driver's output file with every subset of failures", chunk=1, timeout=300),
]
