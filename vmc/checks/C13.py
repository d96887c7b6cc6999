"""Schedules and histories of an experiment: every order, subset and runner.

The row of a trial is computed once alone, in fresh objects and an empty
directory.  Every other way of executing the design must give that row.
"""
import itertools
import os
import pickle
import random

import numpy as np
from vmc_env import ENV

from vmc import exp, fsutil, sched
from vmc.core import Unit, Violation
from vmc.memfs import MemFs
from apache_beam.options.pipeline_options import PipelineOptions
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator

ASSUMPTIONS = [
    "worker processes share nothing but the filesystem; filesystem calls are atomic in the interleaving exploration",
    "the pipeline runner is a stand-in for apache_beam whose element order, bundles and serialisation are enumerated",
]
SEED = 5
SETS = (("a", 1), ("b", 2))
SETS3 = (("a", 1), ("b", 2), ("c", 3))
# (strategy, points, replica)
TRIALS = [("m3", "grid", 1), ("single", "uniform", 2), ("m3r", "lhs", 3), ("m3truth", "uniform", 4)]
CHEAP = [("m3", "grid", 1), ("single", "uniform", 2), ("m3r", "grid", 3), ("m3truth", "grid", 4)]

# on real files: names of results must not exceed 255 bytes
WORK = [("m3", "grid", 1), ("single", "uniform", 2), ("m3r", "grid", 3), ("m3", "uniform", 4)]


def make(specs, shared=None):
    """Trial descriptors; `shared` is one generator used by all of them."""
    gen = np.random.default_rng(9) if shared else None
    return [exp.trial(s, p, r, generator=gen, seed=9) for s, p, r in specs]


_REF = {}


def alone(sets, spec, seed=SEED, analysis=""):
    """{data set: row} of one trial computed on its own (one data set at a time)."""
    out = {}
    for ds in sets:
        k = (ds, spec, seed, analysis)
        if k not in _REF:
            ENV.reset()
            fs = MemFs()
            exp.write_design("/dd", fs, (ds,))
            d = exp.design("/dd", "/alone/inter", fs, make([spec]), seed=seed, analysis_type=analysis)
            r = exp.rows(d.load())
            if len(r) != 1:
                raise Violation(f"one trial on one data set gives {len(r)} rows")
            _REF[k] = r[0]
        out[ds[0]] = _REF[k]
    return out


def reference(sets, specs, seed=SEED, analysis=""):
    """Rows of a whole design, in the order of data sets, then trials."""
    per = [alone(sets, s, seed, analysis) for s in specs]
    return [p[name] for name, _ in sets for p in per]


def disturb(k):
    random.seed(k)
    np.random.seed(1000 + k)
    np.random.random(k)


# ---- sequential orders -------------------------------------------------------------
def cases_orders(tier):
    for perm in itertools.permutations(range(4)):
        yield ("mixed", perm)
        yield ("cheap", perm)
        yield ("shared", perm)


def check_orders(ctx, case):
    kind, perm = case
    specs = TRIALS if kind == "mixed" else CHEAP
    specs = [specs[i] for i in perm]
    want = reference(SETS, specs)
    ENV.reset()
    fs = MemFs()
    exp.write_design("/dd", fs, SETS)
    trials = make(specs, shared=kind == "shared")
    disturb(sum(i * 4 ** k for k, i in enumerate(perm)))
    d = exp.design("/dd", "/work/inter", fs, trials, seed=SEED)
    ctx.state(case)
    exp.same_rows(ctx, exp.rows(d.load()), want, f"order {specs}")
    exp.same_rows(ctx, exp.rows(d.load()), want, f"order {specs}, loaded again")
    # the same descriptor objects in a second design
    d2 = exp.design("/dd", "/work2/inter", fs, trials, seed=SEED)
    if kind != "mixed":
        exp.same_rows(ctx, exp.rows(d2.load()), want, f"order {specs}, descriptors used twice")


# ---- trials evaluated individually, in every global order ---------------------------------
def cases_evals(tier):
    """Every order of evaluating the 2 x 3 trials of a design one by one."""
    perms = list(itertools.permutations(range(6)))
    size = 24
    for i in range(0, len(perms), size):
        yield (i, size)


def check_evals(ctx, case):
    specs = CHEAP[:3]
    want = reference(SETS, specs)
    for perm in list(itertools.permutations(range(6)))[case[0]:case[0] + case[1]]:
        ENV.reset()
        fs = MemFs()
        exp.write_design("/dd", fs, SETS)
        d = exp.design("/dd", "/work/inter", fs, make(specs, shared=True), seed=SEED)
        ts = d.generate_trials()
        ctx.eq(len(ts), 6, "trials generated")
        got = [None] * 6
        for i in perm:
            got[i] = exp.rows(ts[i].evaluate(SEED, fs))[0]
            ctx.state(("evals", perm[:perm.index(i) + 1]))
        exp.same_rows(ctx, got, want, f"trials evaluated in order {perm}")


# ---- already computed subsets -----------------------------------------------------------
def cases_subsets(tier):
    for mask in range(16):
        for how in ("same-dir", "driver"):
            yield (mask, how)


def check_subsets(ctx, case):
    """Some of the trials were computed by earlier runs (of smaller designs)."""
    mask, how = case
    specs = CHEAP
    want = reference(SETS, specs)
    first = [s for i, s in enumerate(specs) if mask >> i & 1]
    ENV.reset()
    with fsutil.scratch("vmc-c13-") as top:
        fs = FilesystemPathlibWrapper()
        exp.write_design(top + "/dd", fs, SETS)
        runs = [first, specs] if first else [specs]
        for k, sp in enumerate(runs):
            disturb(mask + k)
            if how == "driver":
                with open(f"{top}/d{k}.py", "w") as f:
                    f.write("from vmc.checks import C13\n"
                            f"def generate_experimental_design_config(seed=1):\n    return C13.make({sp!r}, shared=True)\n")
                df = ExperimentDriver(top + "/dd", f"{top}/d{k}.py", f"{top}/out{k}.csv", top + "/work/inter", SEED).execute()
            else:
                df = exp.design(top + "/dd", top + "/work/inter", fs, make(sp), seed=SEED).load()
            exp.same_rows(ctx, exp.rows(df), reference(SETS, sp), f"run {k} of {runs}")
        ctx.state(case)
        if first:  # data sets added later
            pass


def cases_growing(tier):
    return list(itertools.permutations(range(3)))


def check_growing(ctx, perm):
    """The data design grows between runs."""
    specs = CHEAP[:2]
    ENV.reset()
    fs = MemFs()
    fs.mkdir("/dd", parents=True)
    done = []
    for i in perm:
        done.append(SETS3[i])
        exp.write_design("/dd", fs, (SETS3[i],))
        ctx.state(tuple(done))
        got = exp.rows(exp.design("/dd", "/work/inter", fs, make(specs), seed=SEED).load())
        exp.same_rows(ctx, got, reference(tuple(sorted(done)), specs), f"data sets added in order {done}")


# ---- worker processes ---------------------------------------------------------------------
def cases_workers(tier):
    for cores in (2, 3, 0) if tier == "quick" else (2, 3, 4, 5, 8, 0, -1):
        for mask in (0, 5):
            for shared in (False, True):
                yield (cores, mask, shared)


def check_workers(ctx, case):
    """Real worker processes (pathos), empty and partly filled directory, twice in one process."""
    cores, mask, shared = case
    specs = WORK
    want = reference(SETS, specs)
    ENV.reset()
    with fsutil.scratch("vmc-c13-") as top:
        fs = FilesystemPathlibWrapper()
        exp.write_design(top + "/dd", fs, SETS)
        first = [s for i, s in enumerate(specs) if mask >> i & 1]
        if first:
            exp.design(top + "/dd", top + "/work/inter", fs, make(first), seed=SEED).load()
        for work in ("work", "again"):
            d = exp.design(top + "/dd", f"{top}/{work}/inter", fs, make(specs, shared), seed=SEED, cores=cores)
            got = exp.rows(d.load())
            ctx.state((case, work))
            exp.same_rows(ctx, got, want, f"{cores} worker processes ({work})")
            left = list(fs.glob(f"{top}/{work}/pending", "*")) if fs.is_dir(f"{top}/{work}/pending") else []
            ctx.eq(left, [], "left pending")


# ---- every interleaving of the filesystem operations of concurrent workers ------------------
INTER = [
    ((("a", 1),), [("m3", "grid", 1), ("single", "uniform", 2)]),
    ((("a", 1), ("b", 2)), [("m3", "grid", 1)]),
    ((("b", 2),), [("single", "grid", 1), ("m3", "grid", 1)]),  # the first one fails
]
INTER_SLOTS = 16


def cases_inter(tier):
    for k in range(len(INTER)):
        for slot in range(INTER_SLOTS):
            yield (k, slot, 2)
    for slot in range(INTER_SLOTS):
        yield (0, slot, 3)


def check_inter(ctx, case):
    k, slot, n = case
    sets, specs = INTER[k]
    bound = None if k == 0 or os.environ.get("VERIF_TIER") == "thorough" else 2
    if n == 3:  # three workers: two fresh trials and a third strategy, bounded preemptions
        specs = list(specs) + [("m3truth", "grid", 3)]
        bound = 1 if os.environ.get("VERIF_TIER") != "thorough" else 2
    want = reference(sets, specs)
    ENV.reset()
    fs = MemFs()
    exp.write_design("/dd", fs, sets)
    fs.mkdir("/work")
    d = exp.design("/dd", "/work/inter", fs, make(specs, shared=True), seed=SEED)
    trials = d.generate_trials()
    state = fs.save()

    def job(i):
        def go(rpc):
            for design in vars(trials[i]).values():
                if isinstance(design, DataDesign):
                    for name, value in list(vars(design).items()):
                        if isinstance(value, MemFs):
                            setattr(design, name, MemFs.load(state))
            return exp.rows(trials[i].evaluate(SEED, rpc))[0]
        return go

    files = {}

    def visit(fs, results, taken, alts, ops):
        ctx.state((k, n, tuple(taken)))
        what = f"workers interleaved as {''.join(map(str, taken))}"
        for i, r in enumerate(results):
            if r[0] != "ok":
                raise Violation(f"{what}: worker {i} fails with {r[1]}")
        exp.same_rows(ctx, [r[1] for r in results], want, what)
        stored = {p: t for p, t in fs.files.items() if not p.startswith("/dd/")}
        ctx.eq(len(stored), len(trials), f"{what}: files left, one per trial expected")
        again = exp.rows(exp.design("/dd", "/work/inter", MemFs.load(fs.save()), make(specs), seed=SEED).load()) \
            if slot == 0 and len(files) < 3 else None
        if again is not None:
            exp.same_rows(ctx, again, want, what + ", reloaded")
        files.setdefault(tuple(sorted(stored)), 1)

    sched.explore([job(i) for i in range(len(trials))], state, "/work", visit, bound=bound,
                  slots=INTER_SLOTS, slot=slot)


# ---- pipeline runner ------------------------------------------------------------------------
def compositions(n):
    if n == 0:
        yield []
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield [first] + rest


def cases_beam(tier):
    for perm in itertools.permutations(range(4)):
        for comp in compositions(4):
            if tier == "quick" and len(comp) not in (1, 2, 4):
                continue
            for pre in (0, 2):
                yield (perm, tuple(comp), pre)


def check_beam(ctx, case):
    perm, comp, pre = case
    specs = WORK[:2]
    want = reference(SETS, specs)
    ENV.reset()
    with fsutil.scratch("vmc-c13-") as top:
        fs = FilesystemPathlibWrapper()
        exp.write_design(top + "/dd", fs, SETS)
        fs.mkdir(top + "/tmp")
        if pre:
            exp.design(top + "/dd", top + "/work/inter", fs, make(specs[:1]), seed=SEED).load()
        ENV.beam_order, ENV.beam_bundles, ENV.beam_pickle = perm, list(comp), True
        ctx.state(case)
        d = exp.design(top + "/dd", top + "/work/inter", fs, make(specs, shared=True), seed=SEED)
        got = exp.rows(d.load(use_apache_beam=True, pipeline_options=PipelineOptions([f"--temp_location={top}/tmp"])))
        exp.same_rows(ctx, got, want, f"pipeline order {perm}, bundles {comp}", ordered=False)
        ENV.reset()
        got = exp.rows(exp.design(top + "/dd", top + "/work/inter", fs, make(specs), seed=SEED).load())
        exp.same_rows(ctx, got, want, "reloaded without the pipeline")
        if perm == (3, 1, 0, 2):  # and through the driver
            ENV.beam_order, ENV.beam_bundles, ENV.beam_pickle = perm, list(comp), True
            with open(f"{top}/d.py", "w") as f:
                f.write("from vmc.checks import C13\n"
                        f"def generate_experimental_design_config(seed=1):\n    return C13.make({specs!r}, shared=True)\n")
            df = ExperimentDriver(top + "/dd", f"{top}/d.py", f"{top}/out.csv", top + "/work2/inter", SEED).execute(
                True, PipelineOptions([f"--temp_location={top}/tmp"]), fs)
            exp.same_rows(ctx, exp.rows(df), want, "driver with pipeline", ordered=False)


# ---- the same test points for every strategy ----------------------------------------------------
def cases_points(tier):
    for p in exp.POINTS:
        for ds in SETS3:
            for seed in (1, 5) if tier == "quick" else (1, 2, 3, 4, 5):
                yield (p, ds, seed)


def check_points(ctx, case):
    points, ds, seed = case
    seen = {}
    for s in ("m3", "m3truth", "m3r", "single"):
        for gen_seed in (9, 10):
            for eps in (8.0, 0.5):
                got = []

                def record(orig):
                    def f(self, spends, *a, **k):
                        got.append(tuple(float(x) for x in spends))
                        return orig(self, spends, *a, **k)
                    return f

                ENV.reset()
                fs = MemFs()
                exp.write_design("/dd", fs, (ds,))
                disturb(len(seen))
                with exp.patched(HaloSimulator, "true_reach_by_spend", record):
                    d = exp.design("/dd", "/w/inter", fs, [exp.trial(s, points, seed=gen_seed, eps=eps)], seed=seed)
                    row = exp.rows(d.load())[0]
                ctx.state((case, s, gen_seed, eps))
                if row["model_succeeded"]:
                    seen[(s, gen_seed, eps)] = got
    ctx.true(len(seen) >= 4, f"no strategy succeeds on {case}")
    first = next(iter(seen))
    for k, v in seen.items():
        ctx.eq(v, seen[first], f"test points of {k} and {first} on {ds} ({points}, seed {seed})")


# ---- seeds in one process ---------------------------------------------------------------------
def cases_seeds(tier):
    for seq in itertools.permutations((1, 2, 5)):
        yield seq


def check_seeds(ctx, seq):
    """Designs with different seeds one after the other in one process."""
    specs = [("m3", "uniform", 1), ("m3r", "grid", 1)]
    wants = {s: reference(SETS, specs, seed=s) for s in seq}
    trials = make(specs, shared=True)
    ENV.reset()
    fs = MemFs()
    exp.write_design("/dd", fs, SETS)
    for s in seq + seq[:1]:
        got = exp.rows(exp.design("/dd", f"/w{s}/inter", fs, trials, seed=s).load())
        ctx.state((seq, s))
        exp.same_rows(ctx, got, wants[s], f"seed {s} in the sequence {seq}")
        fs = MemFs.load(({p: t for p, t in fs.files.items() if p.startswith("/dd/")}, fs.dirs))


UNITS = [  # the forking ones first, while the worker processes are small
    Unit("inter", cases_inter, check_inter, "every interleaving of the filesystem operations of two workers (other designs and three workers: bounded preemptions)", chunk=1, timeout=300),
    Unit("workers", cases_workers, check_workers, "real worker processes with several worker counts", chunk=1, timeout=300),
    Unit("orders", cases_orders, check_orders, "every order of four trials on two data sets, fresh and shared parameter objects", chunk=1, timeout=300),
    Unit("evals", cases_evals, check_evals, "every order of evaluating six trials one by one", chunk=1, timeout=300),
    Unit("subsets", cases_subsets, check_subsets, "every subset of trials already computed by an earlier run", chunk=1, timeout=300),
    Unit("growing", cases_growing, check_growing, "data sets added between runs in every order", chunk=1, timeout=300),
    Unit("beam", cases_beam, check_beam, "every element order and bundling of the pipeline stand-in", chunk=4, timeout=300),
    Unit("points", cases_points, check_points, "test points of all strategies, budgets and noise generators agree", chunk=1, timeout=300),
    Unit("seeds", cases_seeds, check_seeds, "sequences of designs with different seeds in one process", chunk=1, timeout=300),
]
