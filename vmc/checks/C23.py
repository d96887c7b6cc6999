"""The shipped experimental designs: every trial they list, for every seed of a
range, after every disturbance of the process, adapted to every small data set."""
import importlib.util
import itertools
import os

import numpy as np
from vmc_env import ENV  # noqa: F401

from vmc import optim  # noqa: F401
from vmc.core import Unit
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework import driver

ASSUMPTIONS = ["the factors and levels are those the shipped designs declare at the pinned commit"]
SRC = os.path.dirname(os.path.abspath(driver.__file__))

M3 = lambda single, **kw: ("m3strategy", kw, single, {}, "restricted_pairwise_union", {})
ONE = lambda single, **kw: ("single_publisher", {}, single, kw, "none", {})
P20 = lambda p: [0.2] * p
CYC = lambda p: ([0.1, 0.2, 0.3] * p)[:p]
P60 = lambda p: [0.6] * p
C48 = lambda p: ([0.4, 0.8] * p)[:p]
TENTHS = [float(x) for x in np.arange(1, 10) * 0.1]
FACTORS = ("strategy", "fractions", "legions", "budget", "replica", "frequency", "points")

# every factor with its levels
FULL = {
    "m3_first_round_experimental_design": (
        [M3("goerg", use_ground_truth_for_reach_curves=True), M3("goerg"), M3("gamma_poisson")],
        [P20, CYC], [(12, 1e5)], list(itertools.product((1.0, 0.1), (1e-7, 1e-9))), [1, 2, 3], [5, 20],
        [("latin_hypercube", {"npublishers": None}), ("uniformly_random", {"npublishers": None})]),
    "analysis_example_experimental_design": (
        [M3("goerg"), M3("gamma_poisson")], [P60, C48], [(10, 8000)], [(2, 1e-9), (0.5, 1e-9)], [1, 2, 3], [3, 6],
        [("latin_hypercube", {"npublishers": None, "minimum_points_per_publisher": 10}),
         ("uniformly_random", {"npublishers": None, "minimum_points_per_publisher": 10})]),
    "single_publisher_design": (
        [ONE("goerg"), ONE("gamma_poisson"), ONE("gamma_poisson", extrapolation_multiplier=2.0),
         ONE("kinflated_gamma_poisson"), ONE("kinflated_gamma_poisson", extrapolation_multiplier=2.0)],
        [(lambda v: lambda p: [v])(v) for v in TENTHS], [(10, 100000)], [(e, 1e-9) for e in (0.05, 0.10, 0.15, 0.20, 100.0)],
        [1], [10], [("grid", {"grid_size": 20})]),
}
SAMPLE = (
    [M3("goerg"), M3("gamma_poisson")],
    [(lambda v: lambda p: list(v))(v) for v in itertools.product(TENTHS, TENTHS)],
    list(itertools.product((10, 12, 17), (1e5, 2e5))), list(itertools.product((1.0, 0.1), (1e-7, 1e-8))), [1, 2, 3], [5, 10, 20],
    [("latin_hypercube", {"npoints": 100}), ("uniformly_random", {"npoints": 500}), ("grid", {"grid_size": 5})])
NSAMPLE = 100


def load(name):
    spec = importlib.util.spec_from_file_location("shipped_" + name, os.path.join(SRC, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def dataset(p):
    logs = [[(u, 0.5 * (u + 1)) for u in range(4 + i)] for i in range(p)]
    return DataSet([PublisherData(lg, str(i + 1)) for i, lg in enumerate(logs)], f"d{p}")


def freeze(x):
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, bool) or isinstance(x, str) or x is None:
        return x
    return round(float(x), 12)


def describe(t):
    """What a trial (already adapted to a data set) does, factor by factor."""
    m, s, e = t.modeling_strategy, t.system_params, t.experiment_params
    return tuple(freeze(x) for x in (
        (m.strategy, m.strategy_kwargs, m.single_pub_model, m.single_pub_model_kwargs, m.multi_pub_model, m.multi_pub_model_kwargs),
        list(s.campaign_spend_fractions), (s.liquid_legions.decay_rate, s.liquid_legions.sketch_size),
        (e.privacy_budget.epsilon, e.privacy_budget.delta), e.replica_id, e.max_frequency,
        (e.test_point_strategy, e.test_point_strategy_kwargs)))


def expected_levels(spec, p):
    out = []
    for f, levels in zip(FACTORS, spec):
        if f == "fractions":
            levels = [lv(p) for lv in levels]
        elif f == "points":
            levels = [(n, {k: (p if k == "npublishers" else v) for k, v in kw.items()}) for n, kw in levels]
        out.append([freeze(lv) for lv in levels])
    return out


def disturb(k):
    if k:
        np.random.seed(77 + k)
        np.random.random(k)


def generators(ctx, trials, seed, what):
    """Every trial starts from its own generator, seeded with the seed of the design."""
    want = np.random.default_rng(seed).bit_generator.state
    for t in trials:
        ctx.eq(t.system_params.generator.bit_generator.state, want, f"{what}: the random generator of a trial")
    if len(trials) > 1:
        trials[0].system_params.generator.random(5)
        ctx.eq(trials[1].system_params.generator.bit_generator.state, want, f"{what}: trials share a generator")


# ---- the full factorial designs ------------------------------------------------------
def cases_full(tier):
    for name in FULL:
        for seed in (0, 1, 5) if tier == "quick" else range(20):
            for k in (0, 3):
                yield (name, seed, k)


def check_full(ctx, case):
    name, seed, k = case
    disturb(k)
    raw = list(load(name).generate_experimental_design_config(seed=seed))
    pubs = (1,) if name == "single_publisher_design" else (1, 2, 3, 4, 7)
    for p in pubs:
        trials = [t.update_from_dataset(dataset(p)) for t in raw]
        got = [describe(t) for t in trials]
        want = list(itertools.product(*expected_levels(FULL[name], p)))
        ctx.state((case, p))
        ctx.eq(len(got), len(want), f"{case}: number of trials for {p} publishers")
        miss, extra = set(want) - set(got), set(got) - set(want)
        ctx.true(not miss and not extra, f"{case}: with {p} publishers, missing {sorted(map(str, miss))[:2]}, unexpected {sorted(map(str, extra))[:2]}")
        ctx.eq(len(set(got)), len(got), f"{case}: each combination once")
        names = [str(t) for t in trials]
        ctx.eq(len(set(names)), len(names), f"{case}: distinct result names")
        generators(ctx, trials, seed, f"{case}")
    generators(ctx, raw, seed, f"{case}, before adaptation")
    for t in raw[:: max(1, len(raw) // 12)]:
        ctx.true(t.modeling_strategy.instantiate_strategy() is not None, "the strategy can be built")


# ---- the sampled design --------------------------------------------------------------------
def cases_sample(tier):
    for seed in range(8 if tier == "quick" else 60):
        yield seed


def check_sample(ctx, seed):
    name = "sample_experimental_design"
    runs = []
    for k in (0, 4):
        disturb(k)
        runs.append(list(load(name).generate_experimental_design_config(seed=seed)))
    a, b = runs
    ctx.eq([str(t) for t in a], [str(t) for t in b], f"seed {seed}: repeated after other random draws")
    trials = [t.update_from_dataset(dataset(2)) for t in a]
    got = [describe(t) for t in trials]
    ctx.eq(len(got), NSAMPLE, "number of trials")
    levels = expected_levels(SAMPLE, 2)
    for j, f in enumerate(FACTORS):
        n = len(levels[j])
        col = [g[j] for g in got]
        ctx.true(set(col) <= set(levels[j]), f"seed {seed}: {f}: levels {sorted(map(str, set(col) - set(levels[j])))[:3]} are not declared")
        # one sample lies in each of the 100 equal slices of the factor; a level owns an interval
        counts = sorted(sum(1 for c in col if c == lv) for lv in levels[j])
        ctx.state((seed, f, tuple(counts)))
        bounds = []
        for i in range(n):
            lo, hi = i * NSAMPLE / n, (i + 1) * NSAMPLE / n
            whole = max(0, int(np.floor(hi + 1e-9)) - int(np.ceil(lo - 1e-9)))
            touched = int(np.ceil(hi - 1e-9)) - int(np.floor(lo + 1e-9))
            bounds.append((whole, touched))
        lo, hi = sorted(x for x, _ in bounds), sorted(y for _, y in bounds)
        ctx.true(all(x <= c <= y for c, x, y in zip(counts, lo, hi)), f"seed {seed}: {f}: {counts} trials per level, expected {lo} to {hi}")
    generators(ctx, a, seed, f"seed {seed}")


def cases_seeds(tier):
    yield "sample_experimental_design"


def check_seeds(ctx, name):
    m = load(name)
    lists = [tuple(str(t) for t in m.generate_experimental_design_config(seed=s)) for s in range(6)]
    ctx.state(name)
    ctx.eq(len(set(lists)), len(lists), "different seeds sample different designs")
    ctx.eq(tuple(str(t) for t in m.generate_experimental_design_config()), lists[1], "the default seed is 1")


UNITS = [
    Unit("factorial", cases_full, check_full, "every trial of the three full factorial designs, adapted to 1-7 publishers", chunk=1, timeout=300),
    Unit("sample", cases_sample, check_sample, "every trial of the Latin hypercube design for each seed", chunk=1, timeout=300),
    Unit("seeds", cases_seeds, check_seeds, "different seeds", chunk=1, timeout=300),
]
