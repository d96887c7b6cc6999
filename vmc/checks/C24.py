"""The command lines: every combination of options, on real files and on the
emulated cloud store, against the same run made through the Python interface."""
import itertools
import os

import numpy as np
from absl import flags
from vmc_env import ENV

from vmc import exp, fsutil
from vmc.core import Unit
from wfa_planning_evaluation_framework.data_generators import synthetic_data_design_generator as gen
from wfa_planning_evaluation_framework.driver import experiment_driver as drv
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

ASSUMPTIONS = ["apache_beam is a stand-in that runs the pipeline in this process; cloud storage is cloudpathlib's local emulation"]

DESIGN = """
import numpy as np
from vmc import exp
def generate_experimental_design_config(seed=1):
    return [exp.trial("m3", "grid", 1, seed=seed), exp.trial("single", "uniform", 2 + seed, seed=seed)]
"""
SETS = (("a", 1), ("b", 2))


def table(text):
    import io

    import pandas as pd
    return exp.rows(pd.read_csv(io.StringIO(text)))


def reference(top, seed, analysis):
    """The same experiment through the Python interface, in its own directories."""
    fs = FilesystemPathlibWrapper()
    exp.write_design(f"{top}/ref/dd", fs, SETS)
    with open(f"{top}/design.py", "w") as f:
        f.write(DESIGN)
    ENV.reset()
    import importlib.util
    spec = importlib.util.spec_from_file_location("vmc_c24_design", f"{top}/design.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    trials = list(m.generate_experimental_design_config(seed=seed))
    return exp.rows(exp.design(f"{top}/ref/dd", f"{top}/ref/w/i", fs, trials, seed=seed, analysis_type=analysis).load())


def style(opts, k):
    """Flags in several spellings and orders."""
    args = []
    for name, v in opts:
        if v is True:
            args.append([f"--{name}"])
        else:
            args.append([f"--{name}={v}"] if k % 2 else [f"--{name}", str(v)])
    if k >= 2:
        args.reverse()
    return ["prog"] + [a for g in args for a in g]


def cases_driver(tier):
    for seed in (None, 0, 4):
        for analysis in (None, "single_pub"):
            for cores in (None, 1, 2, 0):
                for beam in (False, True):
                    for runner in (None, "direct", "DirectRunner"):
                        if tier == "quick" and seed is not None and (cores in (2, 0) or runner == "direct"):
                            if (seed, analysis) != (4, "single_pub") or runner != "direct":
                                continue
                        if tier == "quick" and cores == 0 and (beam or runner):
                            continue
                        yield (seed, analysis, cores, beam, runner)


def check_driver(ctx, case):
    seed, analysis, cores, beam, runner = case
    with fsutil.scratch("vmc-c24-") as top:
        want = reference(top, 1 if seed is None else seed, analysis or "")
        fs = FilesystemPathlibWrapper()
        root = f"{top}/run"
        exp.write_design(f"{root}/dd", fs, SETS)
        os.makedirs(f"{root}/w/i")
        opts = [("data_design_dir", f"{root}/dd"), ("experimental_design", f"{top}/design.py"),
                ("output_file", f"{root}/out.csv"), ("intermediates_dir", f"{root}/w/i")]
        opts += [(n, v) for n, v in (("seed", seed), ("analysis_type", analysis), ("cores", cores), ("runner", runner)) if v is not None]
        opts += [("use_apache_beam", True)] if beam else []
        ENV.reset()
        drv.main(style(opts, (len(opts) + bool(seed)) % 4))
        ctx.state(case)
        with open(f"{root}/out.csv", newline="") as f:
            got = table(f.read())
        exp.same_rows(ctx, got, want, f"{case}: output file", ordered=False)
        left = {os.path.relpath(os.path.join(b, x), root) for b, _, fn in os.walk(root) for x in fn}
        results = {x for x in left if x.startswith("w/i/") and x.count("/") > 2}
        ctx.eq(len(results), len(want), f"{case}: one stored result per trial below the intermediates directory")
        ctx.eq(sorted(x for x in left if x.startswith("w/pending/")), [], f"{case}: nothing pending")
        others = {x for x in left if not x.startswith(("dd/", "w/"))}
        ctx.eq(sorted(others), ["out.csv"], f"{case}: files outside the intermediates directory")


# ---- the cloud runner uses cloud storage ------------------------------------------------
def cases_cloud(tier):
    for runner in ("dataflow", "DataflowRunner"):
        for seed in (None, 4):
            yield (runner, seed)


def check_cloud(ctx, case):
    runner, seed = case
    with fsutil.scratch("vmc-c24-") as top:
        want = reference(top, 1 if seed is None else seed, "")
        with fsutil.cloud(top + "/store") as fs:
            root = "gs://bucket/run"
            os.makedirs(f"{top}/store/buckets/bucket/run/dd", exist_ok=True)
            exp.write_design(f"{root}/dd", fs, SETS)
            opts = [("data_design_dir", f"{root}/dd"), ("experimental_design", f"{top}/design.py"),
                    ("output_file", f"{root}/out.csv"), ("intermediates_dir", f"{root}/w/i"), ("runner", runner)]
            opts += [("seed", seed)] if seed is not None else []
            ENV.reset()
            clients = []
            cls = type(fs)
            old = cls.set_default_client_to_gs_client
            cls.set_default_client_to_gs_client = lambda self: clients.append(1)
            try:
                drv.main(style(opts, len(runner) % 4))
            finally:
                cls.set_default_client_to_gs_client = old
            ctx.state(case)
            ctx.true(clients, f"{case}: the cloud client is set up")
            with fs.open(f"{root}/out.csv") as f:
                got = table(f.read())
            exp.same_rows(ctx, got, want, f"{case}: output file in the cloud", ordered=False)
            ctx.true(not os.path.exists("gs:"), "nothing is written to local files")


# ---- refused command lines ----------------------------------------------------------------
NEEDED = ("data_design_dir", "experimental_design", "output_file", "intermediates_dir")


def cases_refuse(tier):
    for n in range(0, 4):
        for have in itertools.combinations(NEEDED, n):
            yield have


def check_refuse(ctx, have):
    """A command line without one of the required options is refused before anything runs."""
    with fsutil.scratch("vmc-c24-") as top:
        exp.write_design(f"{top}/dd", FilesystemPathlibWrapper(), SETS)
        with open(f"{top}/design.py", "w") as f:
            f.write(DESIGN)
        val = {"data_design_dir": f"{top}/dd", "experimental_design": f"{top}/design.py", "output_file": f"{top}/out.csv",
               "intermediates_dir": f"{top}/w/i"}
        before = fsutil.tree(top)
        ctx.state(have)
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                drv.main(style([(k, val[k]) for k in have], 1))
                ctx.true(False, f"accepted with only {have}")
            except SystemExit as e:
                ctx.true(e.code not in (0, None), f"refused with status {e.code}")
        ctx.eq(fsutil.tree(top), before, f"files changed by the refused command line {have}")


# ---- the data design generator -------------------------------------------------------------
CONFIG = """
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters, GeneratorParameters
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
def generate_data_design_config(random_generator):
    n = int(random_generator.integers(5, 50))
    return [DataSetParameters(num_publishers=2, largest_publisher_size=n, id="x"),
            DataSetParameters(num_publishers=1, largest_publisher_size=n + 3, id="y")]
"""


def cases_generator(tier):
    for seed in (None, 0, 1, 2, 9) if tier == "quick" else (None,) + tuple(range(25)):
        for verbose in (None, True, False):
            yield (seed, verbose)


def check_generator(ctx, case):
    seed, verbose = case
    import contextlib
    import io
    with fsutil.scratch("vmc-c24-") as top:
        with open(f"{top}/config.py", "w") as f:
            f.write(CONFIG)
        os.mkdir(f"{top}/a")
        os.mkdir(f"{top}/b")
        args = ["prog", f"--output_dir={top}/a", f"--data_design_config={top}/config.py"]
        args += [f"--random_seed={seed}"] if seed is not None else []
        args += [] if verbose is None else ["--verbose" if verbose else "--noverbose"]
        F = flags.FLAGS
        saved = {n: F[n].value for n in ("output_dir", "data_design_config", "random_seed", "verbose")}
        out = io.StringIO()
        try:
            F(args)
            np.random.seed(3)
            with contextlib.redirect_stdout(out):
                gen.main(args)
        finally:
            F.unparse_flags()
            for n, v in saved.items():
                F[n].value = v
        g = gen.SyntheticDataDesignGenerator(f"{top}/b", f"{top}/config.py", 1 if seed is None else seed, False)
        g()
        a, b = fsutil.tree(f"{top}/a"), fsutil.tree(f"{top}/b")
        ctx.state(case)
        ctx.eq(a, b, f"{case}: files written by the command")
        ctx.eq(len(a[1]), 2, f"{case}: data sets")
        names = sorted(a[1])
        told = out.getvalue()
        ctx.eq([n in told for n in names], [verbose is not False] * 2, f"{case}: names of the data sets are printed")


UNITS = [
    Unit("driver", cases_driver, check_driver, "every combination of seed, analysis type, cores, pipeline and runner options", chunk=1, timeout=300),
    Unit("cloud", cases_cloud, check_cloud, "cloud runners on emulated cloud storage", chunk=1, timeout=300),
    Unit("refused", cases_refuse, check_refuse, "every incomplete set of required options", chunk=1),
    Unit("generator", cases_generator, check_generator, "data design generator options", chunk=1),
]
