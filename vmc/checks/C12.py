"""Crash and torn-write exploration of experiment runs.

A run of an experimental design is executed on a filesystem that dies at a
chosen operation (before it, after it, or after any prefix of the text being
written).  A new process (fresh objects, same configuration) then runs the same
design to completion, and its rows, files and markers are compared with an
uninterrupted run.
"""
import os
import posixpath

from apache_beam.options.pipeline_options import PipelineOptions
from vmc_env import ENV

from vmc import exp, fsutil
from vmc.core import Unit, Violation
from vmc.memfs import Crash, FaultFs, MemFs
from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

ASSUMPTIONS = [
    "a crash loses the process; what was written before survives, a write in progress leaves any prefix "
    "of its text (or a prefix followed by zero bytes)",
    "the in-memory filesystem is the reference model of C20, against which both real wrappers are checked",
]

# name -> (data sets, [(strategy, points, replica)], analysis type)
DESIGNS = {
    "one": ((("b", 2),), [("m3", "grid", 1)], ""),
    "fails": ((("b", 2),), [("single", "grid", 1)], ""),
    "single_pub": ((("a", 1),), [("single", "grid", 1)], "single_pub"),
    "four": ((("a", 1), ("b", 2)), [("m3", "grid", 1), ("single", "uniform", 2)], ""),
}
SEED = 3


def prepare(name, fs, root="/dd"):
    exp.write_design(root, fs, DESIGNS[name][0])


def execute(name, fs, root="/dd", work="/work/inter", pipeline=None):
    """One process: returns (rows, number of fits) or raises."""
    ENV.reset()
    fits = []

    def counting(orig):
        def fit(self, *a, **k):
            fits.append(1)
            return orig(self, *a, **k)
        return fit

    trials = [exp.trial(s, p, r, seed=9) for s, p, r in DESIGNS[name][1]]
    with exp.patched(M3Strategy, "fit", counting), exp.patched(SinglePublisherStrategy, "fit", counting):
        d = exp.design(root, work, fs, trials, seed=SEED, analysis_type=DESIGNS[name][2])
        if pipeline:
            ENV.beam_pickle = False
            return exp.rows(d.load(True, PipelineOptions([f"--temp_location={pipeline}"]))), len(fits)
        return exp.rows(d.load()), len(fits)


_REF = {}


def reference(name):
    """Uninterrupted run on the reference filesystem: rows, operations, result files."""
    if name not in _REF:
        fs = MemFs()
        prepare(name, fs)
        start = fs.save()
        ff = FaultFs(fs)
        rows, fits = execute(name, ff)
        results = {p: t for p, t in fs.files.items() if not p.startswith("/dd/")}
        _REF[name] = (start, rows, ff.ops, results, fits)
    return _REF[name]


def pending(files):
    return [p for p in files if posixpath.basename(posixpath.dirname(p)) == "pending"]


def recover(ctx, name, state, what, second=None):
    """A new process finishes the work left in `state`."""
    start, rows, ops, results, fits = reference(name)
    fs = MemFs.load(state)
    finished = {p for p, t in results.items() if fs.files.get(p) == t}
    ff = FaultFs(fs)
    try:
        got, nfits = execute(name, ff)
    except Crash:
        raise
    except Exception as e:
        raise Violation(f"{what}: the next run fails with {type(e).__name__}: {e}")
    exp.same_rows(ctx, got, rows, what)
    ctx.eq(nfits, fits - len(finished), f"{what}: number of trials computed again")
    for p in finished:
        ctx.eq(fs.files.get(p), results[p], f"{what}: finished result {p} was altered")
        ctx.true(not any(o[1] == p and o[0] in ("write", "open-w", "unlink") for o in ff.ops),
                 f"{what}: finished result {p} was written again")
    check_done(ctx, fs, name, what)


def check_done(ctx, fs, name, what):
    start, rows, ops, results, fits = reference(name)
    ctx.eq(pending(fs.files), [], f"{what}: left pending after a completed run")
    ctx.eq({p: t for p, t in fs.files.items() if not p.startswith("/dd/")}, results, f"{what}: files after recovery")
    got, nfits = execute(name, fs)
    exp.same_rows(ctx, got, rows, f"{what}, read once more")
    ctx.eq(nfits, 0, f"{what}: a finished design is computed again")


# ---- uninterrupted ---------------------------------------------------------------
def check_base(ctx, name):
    start, rows, ops, results, fits = reference(name)
    ctx.state(name)
    n = len(DESIGNS[name][0]) * len(DESIGNS[name][1])
    ctx.eq(len(rows), n, "rows")
    ctx.eq(fits, n, "fits")
    ctx.eq(len(results), n, "one result file per trial and nothing else is left behind")
    fs = MemFs.load(start)
    got, _ = execute(name, fs)
    exp.same_rows(ctx, got, rows, "second uninterrupted run")
    check_done(ctx, fs, name, "uninterrupted")
    # finished results are taken as they are: a marked result comes back marked
    for p, t in results.items():
        head, _, body = t.partition("\n")
        cols = head.split(",")
        marked = MemFs.load(fs.save())
        if "replica_id" in cols:
            import csv, io
            table = list(csv.reader(io.StringIO(t)))
            table[1][cols.index("replica_id")] = "777"
            out = io.StringIO()
            csv.writer(out, lineterminator="\n").writerows(table)
            marked.files[p] = out.getvalue()
            got, nfits = execute(name, marked)
            ctx.eq(sum(r["replica_id"] == 777 for r in got), 1, "the stored result is returned")
            ctx.eq(nfits, 0, "the stored result is not computed again")
            ctx.eq(marked.files[p], out.getvalue(), "the stored result is not altered")


# ---- every prefix of every file written ----------------------------------------------
PARTS = 32


def cases_torn(tier):
    for name in ("one", "fails", "single_pub"):
        for part in range(PARTS):
            yield (name, part)


def check_torn(ctx, case):
    name, part = case
    start, rows, ops, results, fits = reference(name)
    full = not (name == "single_pub" and _tier(ctx) == "quick")
    writes = [k for k, o in enumerate(ops) if o[0] == "write"]
    for k in writes:
        text = ops[k][2]
        fs = MemFs.load(start)
        try:
            execute(name, FaultFs(fs, (k, 0)))
            raise Violation("the run ignored the crash")
        except Crash:
            pass
        base = fs.save()
        path = fs.norm(ops[k][1])
        step = 1 if full else 7  # quick tier: the wide single-publisher table at every 7th length
        for n in range(part * step, len(text) + 1, PARTS * step):
            if n == len(text) and path in results:
                continue  # complete: explored as a crash after the operation
            for tail in ("", "\0" * (len(text) - n)) if n % 11 == part % 11 else ("",):
                state = (dict(base[0]), set(base[1]))
                state[0][path] = text[:n] + tail
                ctx.state((name, k, n, bool(tail)))
                recover(ctx, name, state, f"stopped after {n} of {len(text)} characters of {posixpath.basename(path)[:40]}"
                        + (" (rest zero bytes)" if tail else ""))


def _tier(ctx):
    return os.environ.get("VERIF_TIER", "quick")


# ---- every operation boundary -----------------------------------------------------
SLOTS = 40


def cases_points(tier):
    for name in ("four", "one", "fails"):
        for slot in range(SLOTS):
            yield (name, slot)


def check_points(ctx, case):
    name, slot = case
    start, rows, ops, results, fits = reference(name)
    for k in range(slot, len(ops), SLOTS):
        variants = [None, "after"]
        if ops[k][0] == "write":
            n = len(ops[k][2])
            variants += [0, 1, n // 2, n - 1]
        for v in variants:
            fs = MemFs.load(start)
            try:
                execute(name, FaultFs(fs, (k, v)))
                raise Violation("the run ignored the crash")
            except Crash:
                pass
            ctx.state((name, k, v))
            recover(ctx, name, fs.save(), f"stopped at operation {k} {ops[k][:2]} ({v})")


# ---- two crashes in a row -------------------------------------------------------------
def cases_pairs(tier):
    names = ("one", "fails") if tier == "quick" else ("one", "fails", "four", "single_pub")
    for name in names:
        for slot in range(SLOTS):
            yield (name, slot)


def check_pairs(ctx, case):
    name, slot = case
    start, rows, ops, results, fits = reference(name)
    mutating = ("write", "mkdir", "unlink", "open-w", "fwrite")
    firsts = []
    for k in range(len(ops)):
        if ops[k][0] not in mutating:
            continue
        firsts.append((k, None))
        if ops[k][0] == "write":
            firsts += [(k, 0), (k, len(ops[k][2]) // 2), (k, "after")]
    for i in range(slot, len(firsts), SLOTS):
        fs = MemFs.load(start)
        try:
            execute(name, FaultFs(fs, firsts[i]))
        except Crash:
            pass
        mid = fs.save()
        probe = FaultFs(MemFs.load(mid))
        execute(name, probe)
        for k in range(len(probe.ops)):
            if probe.ops[k][0] not in mutating:
                continue
            variants = [None] + ([0, len(probe.ops[k][2]) // 3, "after"] if probe.ops[k][0] == "write" else [])
            for v in variants:
                fs = MemFs.load(mid)
                try:
                    execute(name, FaultFs(fs, (k, v)))
                except Crash:
                    pass
                ctx.state((name, firsts[i], k, v))
                recover(ctx, name, fs.save(), f"stopped at {firsts[i]} and again at {k} {probe.ops[k][:2]} ({v})")


# ---- the whole driver on the real local filesystem and the emulated cloud ----------------
DESIGN_FILE = '''
import numpy as np
from vmc import exp
def generate_experimental_design_config(seed=1):
    return [exp.trial("m3", "grid", 1, seed=seed), exp.trial("single", "uniform", 2, seed=seed)]
'''


def drive(fs, root, design_file):
    ENV.reset()
    d = ExperimentDriver(f"{root}/dd", design_file, f"{root}/out.csv", f"{root}/work/inter", SEED)
    return exp.rows(d.execute(filesystem=fs))


def cases_driver(tier):
    for where in ("local", "cloud"):
        for slot in range(SLOTS):
            yield (where, slot)


def check_driver(ctx, case):
    where, slot = case
    with fsutil.scratch("vmc-c12-") as top:
        design_file = f"{top}/design.py"
        with open(design_file, "w") as f:
            f.write(DESIGN_FILE)
        if where == "local":
            run_driver(ctx, case, slot, FilesystemPathlibWrapper(), lambda i: f"{top}/run{i}", design_file)
        else:
            with fsutil.cloud(top + "/store") as fs:
                # the emulated store cannot list a prefix that was never used; GCS can
                run_driver(ctx, case, slot, fs, lambda i: f"gs://bucket/run{i}", design_file,
                           lambda root: os.makedirs(f"{top}/store/buckets/" + root[len("gs://"):] + "/dd", exist_ok=True))


def run_driver(ctx, case, slot, fs, root_of, design_file, prepare_dir=lambda root: None):
    root = root_of("ref")
    prepare_dir(root)
    exp.write_design(f"{root}/dd", fs, (("a", 1), ("b", 2)))
    ref_fs = FaultFs(fs)
    want = drive(ref_fs, root, design_file)
    with fs.open(f"{root}/out.csv") as f:
        out = f.read()
    ctx.eq(len(want), 4, "rows")
    todo = []
    for k, o in enumerate(ref_fs.ops):
        todo += [(k, None)] + ([(k, 0), (k, len(o[2]) // 2), (k, "after")] if o[0] == "write" else [])
    for i in range(slot, len(todo), SLOTS):
        root = root_of(i)
        prepare_dir(root)
        exp.write_design(f"{root}/dd", fs, (("a", 1), ("b", 2)))
        try:
            drive(FaultFs(fs, todo[i]), root, design_file)
            raise Violation("the run ignored the crash")
        except Crash:
            pass
        what = f"{case[0]} run stopped at {todo[i]} {ref_fs.ops[todo[i][0]][0]}"
        got = drive(fs, root, design_file)
        ctx.state((case[0], todo[i]))
        exp.same_rows(ctx, got, want, what)
        with fs.open(f"{root}/out.csv") as f:
            text = f.read()
        import io

        import pandas as pd
        exp.same_rows(ctx, exp.rows(pd.read_csv(io.StringIO(text))), exp.rows(pd.read_csv(io.StringIO(out))), what + ", output file")
        left = list(fs.glob(f"{root}/work/pending", "*")) if fs.is_dir(f"{root}/work/pending") else []
        ctx.eq(left, [], what + ": left pending")


# ---- the pipeline runner ---------------------------------------------------------------------
def cases_pipeline(tier):
    for name in ("four", "one", "fails"):
        for slot in range(SLOTS):
            yield (name, slot)


def check_pipeline(ctx, case):
    """Crashes of a pipeline run, and the files an earlier design left in its temporary folder."""
    name, slot = case
    start, rows, _, results, fits = reference(name)
    fs = MemFs.load(start)
    fs.mkdir("/tmp1", parents=True, exist_ok=True)
    begin = fs.save()
    ff = FaultFs(fs)
    got, n = execute(name, ff, pipeline="/tmp1")
    exp.same_rows(ctx, got, rows, "pipeline", ordered=False)
    ctx.eq(n, fits, "pipeline: fits")
    ctx.eq({p: t for p, t in fs.files.items() if p.startswith("/work/")}, results, "pipeline: stored results")
    todo = []
    for k, o in enumerate(ff.ops):
        todo += [(k, None), (k, "after")]
        if o[0] == "write":
            m = len(o[2])
            todo += [(k, v) for v in (0, 1, m // 2, m - 1)]
            if fs.norm(o[1]) not in results:
                todo += [(k, v) for v in range(0, m, max(1, m // 24))]
    todo = list(dict.fromkeys(todo))
    other = "one" if name != "one" else "fails"
    for i in range(slot, len(todo), SLOTS):
        fs = MemFs.load(begin)
        stale = i % 2
        if stale:  # another design was run with the same temporary folder before
            prepare(other, fs, "/dd2")
            execute(other, fs, "/dd2", "/work2/inter", pipeline="/tmp1")
        ctx.state((name, todo[i]))
        try:
            execute(name, FaultFs(fs, todo[i]), pipeline="/tmp1")
            if not stale:
                raise Violation("the run ignored the crash")
        except Crash:
            pass
        what = f"pipeline run stopped at {todo[i]} {ff.ops[todo[i][0]][:2]}" + (", temporary folder used before" if stale else "")
        mid = fs.save()
        finished = sum(fs.files.get(p) == t for p, t in results.items())
        for again in (True, False):
            fs = MemFs.load(mid)
            try:
                got, n = execute(name, fs, pipeline="/tmp1" if again else None)
            except Crash:
                raise
            except Exception as e:
                raise Violation(f"{what}: the next run fails with {type(e).__name__}: {e}")
            w = what + (", again with the pipeline" if again else ", then without")
            exp.same_rows(ctx, got, rows, w, ordered=not again)
            ctx.eq(n, fits - finished, w + ": number of trials computed again")
            ctx.eq(pending(p for p in fs.files if p.startswith("/work/")), [], w + ": left pending")
            ctx.eq({p: t for p, t in fs.files.items() if p.startswith("/work/")}, results, w + ": stored results")


UNITS = [
    Unit("base", lambda t: list(DESIGNS), check_base, "uninterrupted and repeated runs, reuse of stored results", chunk=1),
    Unit("torn", cases_torn, check_torn, "every prefix of every file written (and zero-filled tails)", chunk=1, timeout=600),
    Unit("points", cases_points, check_points, "every operation boundary of three designs", chunk=1, timeout=600),
    Unit("pairs", cases_pairs, check_pairs, "every pair of crash points at mutating operations", chunk=1, timeout=800),
    Unit("driver", cases_driver, check_driver, "every operation of the driver on local files and emulated cloud storage",
         chunk=1, timeout=600),
    Unit("pipeline", cases_pipeline, check_pipeline,
         "every operation of a pipeline run, resumed with and without the pipeline", chunk=1, timeout=600),
]
