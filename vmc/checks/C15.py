"""Names of results: injectivity over all pairs of configurations."""
import copy
import itertools

import numpy as np
from vmc_env import ENV

from vmc import exp
from vmc.core import HarnessError, Unit, Violation
from vmc.memfs import FaultFs, MemFs
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

ASSUMPTIONS = [
    "option values are numbers, booleans, short names or lists of numbers, as in the shipped designs; "
    "a configuration is written the same way each time (order of options, int or float)",
]

FIELDS = ["dataset", "strategy", "strategy_kw", "single", "single_kw", "multi", "multi_kw", "fractions", "decay",
          "size", "eps", "delta", "replica", "freq", "points", "points_kw"]
BASE = ("a", "m3strategy", (), "goerg", (), "pairwise_union", (), (0.5, 0.25), 12, 1000, 1.0, 1e-5, 1, 1, "grid", (("grid_size", 2),))


def build(c):
    """The trial descriptor of a configuration (a tuple in the order of FIELDS)."""
    return TrialDescriptor(
        ModelingStrategyDescriptor(c[1], dict(c[2]), c[3], dict(c[4]), c[5], dict(c[6])),
        SystemParameters(list(c[7]), LiquidLegionsParameters(c[8], c[9]), np.random.default_rng(1)),
        ExperimentParameters(PrivacyBudget(c[10], c[11]), c[12], c[13], c[14], dict(c[15])),
    )


class Stop(BaseException):
    pass


class Probe(MemFs):
    """Captures the first file of the results directory that is looked for."""
    path = None

    def _probe(self, path):
        p = self.norm(path)
        if p.startswith("/x/results/"):
            self.path = p
            raise Stop()

    def is_file(self, path):
        self._probe(path)
        return super().is_file(path)

    def exists(self, path):
        self._probe(path)
        return super().exists(path)

    def open(self, path, *a, **k):
        self._probe(path)
        return super().open(path, *a, **k)

    def write_text(self, path, *a, **k):
        self._probe(path)
        return super().write_text(path, *a, **k)


_DESIGN = None


def location(c):
    """Where the result of the configuration is kept."""
    global _DESIGN
    if _DESIGN is None:
        fs = MemFs()
        exp.write_design("/dd", fs)
        _DESIGN = DataDesign("/dd", fs)
    fs = Probe()
    try:
        ExperimentalTrial("/x/results", _DESIGN, c[0], build(c)).evaluate(1, fs)
    except Stop:
        return fs.path
    raise Violation("evaluating a trial never looks for its result")


# ---- every pair of configurations that differ in one or two fields -------------------------------
VALUES = {
    "dataset": ["a", "b"],
    "strategy": ["m3strategy", "single_publisher"],
    "strategy_kw": [(), (("use_ground_truth_for_reach_curves", True),), (("use_ground_truth_for_reach_curves", False),)],
    "single": ["goerg", "gamma_poisson", "kinflated_gamma_poisson"],
    "single_kw": [(), (("kmax", 1),), (("kmax", 11),), (("kmax", 1), ("debug", True)), (("extrapolation_multiplier", 1.0),),
                  (("extrapolation_multiplier", 1.5),), (("max_reach", 1),)],
    "multi": ["pairwise_union", "restricted_pairwise_union", "none"],
    "multi_kw": [(), (("num_clusters", 1),), (("num_clusters", 2),), (("kmax", 1),), (("penalty", 0.1),), (("penalty", 0.10000000000000002),)],
    "fractions": [(0.5, 0.25), (0.25, 0.5), (0.5,), (0.5, 0.25, 0.0), (0.5, 0.2), (0.5, 0.250001), (0.05, 0.25), (0.3, 0.30000000000000004),
                  (0.30000000000000004, 0.3), (), (0.52, 0.5), (0.5, 0.255), (1, 2.5)],
    "decay": [12, 1, 2, 10, 121, 12.5],
    "size": [1000, 100, 10000, 1001, 1000.5],
    "eps": [1.0, 1.5, 0.1, 0.30000000000000004, 0.3, 10.0, 11.0, 1e-05, 1.0000001, 1e10],
    "delta": [1e-5, 1e-6, 0.0, 1e-15, 1.5e-5, 0.5],
    "replica": [1, 2, 11, 12, 0, 21],
    "freq": [1, 2, 10, 11, 5],
    "points": ["grid", "latin_hypercube", "uniformly_random"],
    "points_kw": [(("grid_size", 2),), (), (("grid_size", 3),), (("npoints", 100),), (("npoints", 101),), (("npoints", 1000),),
                  (("npoints", 100), ("minimum_points_per_publisher", 10)), (("minimum_points_per_publisher", 10),),
                  (("minimum_points_per_publisher", 11),), (("npublishers", 1),), (("npublishers", 11),)],
}


def replace(c, **kw):
    return tuple(kw.get(f, v) for f, v in zip(FIELDS, c))


def cases_pairs(tier):
    yield from itertools.combinations(FIELDS, 2)
    if tier == "thorough":
        yield from itertools.combinations(FIELDS, 3)


def check_pairs(ctx, fields):
    """All combinations of all values of the fields: one location per configuration."""
    seen = {}
    for vals in itertools.product(*(VALUES[f] for f in fields)):
        c = replace(BASE, **dict(zip(fields, vals)))
        p = location(c)
        ctx.step()
        ctx.state(c)
        if p in seen and seen[p] != c:
            raise Violation(f"{dict(zip(FIELDS, seen[p]))} and {dict(zip(FIELDS, c))} share the result {p}")
        seen[p] = c
        ctx.eq(location(c), p, "the same configuration maps to the same result")


# ---- the full product of two values per field ------------------------------------------------------
TWO = [
    {"dataset": ["a", "b"], "strategy": ["m3strategy", "single_publisher"], "strategy_kw": [(), (("use_ground_truth_for_reach_curves", True),)],
     "single": ["goerg", "gamma_poisson"], "single_kw": [(), (("max_reach", 1),)], "multi": ["pairwise_union", "none"],
     "multi_kw": [(), (("max_reach", 1),)], "fractions": [(0.5, 0.25), (0.5,)], "decay": [12, 1], "size": [1000, 12],
     "eps": [1.0, 0.1], "delta": [1e-5, 0.1], "replica": [1, 2], "freq": [1, 2], "points": ["grid", "uniformly_random"],
     "points_kw": [(), (("npoints", 1),)]},
]


def cases_product(tier):
    yield 0


def check_product(ctx, k):
    seen = {}
    for c in itertools.product(*(TWO[k][f] for f in FIELDS)):
        p = location(c)
        ctx.step()
        ctx.state(c)
        if p in seen:
            raise Violation(f"{dict(zip(FIELDS, seen[p]))} and {dict(zip(FIELDS, c))} share the result {p}")
        seen[p] = c


# ---- the location that is looked for is the one that is written --------------------------------------
def cases_written(tier):
    for s in exp.STRATEGIES:
        for p in ("grid", "lhs"):
            for d in ("a", "b"):
                yield (s, p, d)


def check_written(ctx, case):
    strat, points, name = case
    ENV.reset()
    fs = MemFs()
    exp.write_design("/dd", fs)
    dd = DataDesign("/dd", fs)
    ff = FaultFs(fs)
    desc = exp.trial(strat, points, seed=9).update_from_dataset(dd.by_name(name))
    ExperimentalTrial("/x/results", dd, name, desc).evaluate(1, ff)
    probe = Probe()
    try:
        ExperimentalTrial("/x/results", dd, name, desc).evaluate(1, probe)
    except Stop:
        pass
    ctx.state(case)
    ctx.eq([p for p in fs.files if p.startswith("/x/")], [probe.path], "the result is stored where it is looked for")


# ---- adapting a configuration to a data set ---------------------------------------------------------------
def gen_frac(ds):
    return [0.125 * (i + 1) for i in range(ds.publisher_count)]


def cases_adapt(tier):
    for kw in (None, 1, 3):
        for use_gen in (False, True):
            for points in ("grid", "uniformly_random", "latin_hypercube"):
                for order in itertools.permutations(range(4)):
                    yield (kw, use_gen, points, order)


def snapshot(t):
    m, s, e = t
    return (m.strategy, dict(m.strategy_kwargs), m.single_pub_model, dict(m.single_pub_model_kwargs), m.multi_pub_model,
            dict(m.multi_pub_model_kwargs), list(s.campaign_spend_fractions), tuple(s.liquid_legions),
            e.privacy_budget.epsilon, e.privacy_budget.delta, e.replica_id, e.max_frequency, e.test_point_strategy,
            copy.deepcopy(e.test_point_strategy_kwargs))


def check_adapt(ctx, case):
    """One descriptor is adapted to data sets of 1..4 publishers, in every order; each copy is then mutated."""
    npub, use_gen, points, order = case
    kw = {"grid_size": 2} if points == "grid" else {"npoints": 7}
    if npub is not None:
        kw["npublishers"] = npub
    rng = np.random.default_rng(77)
    t = TrialDescriptor(
        ModelingStrategyDescriptor("m3strategy", {"use_ground_truth_for_reach_curves": True}, "gamma_poisson", {"max_reach": 5},
                                   "restricted_pairwise_union", {"opt": [1, 2]}),
        SystemParameters([0.5, 0.75], LiquidLegionsParameters(11, 222, 33), rng, gen_frac if use_gen else None),
        ExperimentParameters(PrivacyBudget(0.7, 1e-7), 13, 4, points, kw))
    before = snapshot(t)
    fs = MemFs()
    exp.write_design("/dd", fs, (("p1", 1), ("p2", 2), ("p3", 3), ("p4", 4)))
    dd = DataDesign("/dd", fs)
    made = []
    for i in order:
        ds = dd.by_name(f"p{i + 1}")
        a = t.update_from_dataset(ds)
        ctx.state((case, i))
        want = list(before)
        if use_gen:
            want[6] = [0.125 * (k + 1) for k in range(i + 1)]
        if npub is not None:
            want[13] = dict(before[13], npublishers=i + 1)
        ctx.eq(list(snapshot(a)), want, f"descriptor adapted to {i + 1} publishers")
        ctx.eq(list(snapshot(t)), list(before), "the original descriptor")
        for b, w in made:
            ctx.eq(list(snapshot(b)), w, "a descriptor adapted earlier")
        # noise of the adapted descriptor starts where the given generator stands
        ctx.eq(a.system_params.generator.random(3), np.random.default_rng(77).random(3), "noise generator of the adapted descriptor")
        made.append((a, copy.deepcopy(list(snapshot(a)))))
    # no object is shared: mutate every mutable part of one adapted descriptor
    for k, (a, w) in enumerate(made):
        a.modeling_strategy.strategy_kwargs["x"] = 1
        a.modeling_strategy.single_pub_model_kwargs.clear()
        a.modeling_strategy.multi_pub_model_kwargs["opt"].append(9)
        a.system_params.campaign_spend_fractions.append(9.0)
        a.experiment_params.test_point_strategy_kwargs["npoints"] = 12345
        ctx.eq(list(snapshot(t)), list(before), "the original descriptor after an adapted one was changed")
        for b, w2 in made[k + 1:]:
            ctx.eq(list(snapshot(b)), w2, "another adapted descriptor after one was changed")


# ---- an experiment's trials ------------------------------------------------------------------------------------
def cases_experiment(tier):
    for n in range(1, 4):
        for seq in itertools.product(("m3", "single", "m3truth"), repeat=n):
            yield seq


def check_experiment(ctx, seq):
    """Trials are generated in order, one per descriptor, each with its own location."""
    fs = MemFs()
    exp.write_design("/dd", fs)
    dd = DataDesign("/dd", fs)
    for name, p in (("a", 1), ("b", 2)):
        descs = [exp.trial(s, "uniform", i + 1, seed=9) for i, s in enumerate(seq)]
        trials = Experiment("/x/results", dd, name, descs).generate_trials()
        ctx.eq(len(trials), len(seq), "trials generated")
        locs = []
        for t in trials:
            probe = Probe()
            try:
                t.evaluate(1, probe)
            except Stop:
                pass
            locs.append(probe.path)
        want = []
        for i, s in enumerate(seq):
            m = exp.STRATEGIES[s]
            c = (name, m[0], tuple(m[1].items()), m[2], (), m[4], (), (0.5,) * p, 12, 1000, 8.0, 1e-5, i + 1, 2, "uniformly_random",
                 (("npoints", 3), ("npublishers", p), ("minimum_points_per_publisher", 3)))
            want.append(location(c))
        ctx.state(seq)
        ctx.eq(locs, want, f"results of the trials {seq} on {name}")


# ---- the strategy that is built --------------------------------------------------------------------------------
SINGLE = {"goerg": (GoergModel, [{}]),
          "gamma_poisson": (GammaPoissonModel, [{}, {"max_reach": 50}, {"extrapolation_multiplier": 2.0}, {"max_reach": 7, "extrapolation_multiplier": 0.5}]),
          "kinflated_gamma_poisson": (KInflatedGammaPoissonModel, [{}, {"kmax": 3}, {"debug": True, "kmax": 1}])}
MULTI = {"pairwise_union": PairwiseUnionReachSurface, "restricted_pairwise_union": RestrictedPairwiseUnionReachSurface, "none": None}


def cases_strategy(tier):
    for strat in ("m3strategy", "single_publisher"):
        for skw in ({}, {"use_ground_truth_for_reach_curves": True}, {"use_ground_truth_for_reach_curves": False}):
            if strat == "single_publisher" and skw:
                continue
            for s in SINGLE:
                for kw in SINGLE[s][1]:
                    for m in MULTI:
                        for mkw in ({}, {"opt": 3}):
                            for p in (1, 2, 3):
                                yield (strat, tuple(skw.items()), s, tuple(kw.items()), m, tuple(mkw.items()), p)


def check_strategy(ctx, case):
    """Which models are constructed, with which options, when the built strategy is fitted."""
    strat, skw, s, kw, m, mkw, p = case
    skw, kw, mkw = dict(skw), dict(kw), dict(mkw)
    if strat == "single_publisher" and p > 1:
        ctx.state(case)
        return
    made = []

    def init(orig):
        def f(self, *a, **k):
            made.append((type(self), dict(k)))
            self._data = a[0] if a else None
        return f

    def quiet(orig):
        return lambda self, *a, **k: None

    import contextlib
    desc = ModelingStrategyDescriptor(strat, skw, s, kw, m, mkw)
    given = copy.deepcopy(tuple(desc))
    ENV.reset()
    ds = exp.DataSet([exp.PublisherData(exp.log(p, i), str(i + 1)) for i in range(p)], "x")
    halo = HaloSimulator(ds, SystemParameters([0.5] * p, LiquidLegionsParameters(12, 100), np.random.default_rng(1)), PrivacyTracker())
    built = desc.instantiate_strategy()
    ctx.true(isinstance(built, {"m3strategy": M3Strategy, "single_publisher": SinglePublisherStrategy}[strat]),
             f"{strat} builds a {type(built).__name__}")
    with contextlib.ExitStack() as st:
        for cls in [c for c, _ in SINGLE.values()] + [c for c in MULTI.values() if c] + [GroundTruthReachCurveModel]:
            st.enter_context(exp.patched(cls, "__init__", init))
            st.enter_context(exp.patched(cls, "_fit", quiet))
        try:
            out = built.fit(halo, halo._params if hasattr(halo, "_params") else None, PrivacyBudget(8.0, 1e-5))
        except TypeError:
            if m == "none" and p > 1:  # no multi-publisher model to call
                out = None
            else:
                raise
    truth = skw.get("use_ground_truth_for_reach_curves", False)
    curve = (GroundTruthReachCurveModel, {}) if truth else (SINGLE[s][0], kw)
    got = [x for x in made if x[0] is not GroundTruthReachCurveModel] if truth else made
    want = [] if truth else [curve] * p
    if p > 1 and m != "none":
        want = want + [(MULTI[m], mkw)]
    ctx.state(case)
    ctx.eq([(c.__name__, k) for c, k in got], [(c.__name__, k) for c, k in want], f"models built by {case}")
    if truth:
        ctx.eq(sum(1 for c, _ in made if c is GroundTruthReachCurveModel), p, "true curves used")
    if out is not None:
        ctx.true(type(out) is (curve[0] if p == 1 else MULTI[m]), f"{case} yields a {type(out).__name__}")
    ctx.eq(list(tuple(desc)), list(given), "the descriptor after building and fitting")


UNITS = [
    Unit("pairs", cases_pairs, check_pairs, "all values of every pair (thorough: triple) of fields", chunk=4, timeout=600),
    Unit("product", cases_product, check_product, "the full product of two values for each of 16 fields", chunk=1, timeout=800),
    Unit("written", cases_written, check_written, "the result is written where it is looked for", chunk=1),
    Unit("adapt", cases_adapt, check_adapt, "one descriptor adapted to 1..4 publishers in every order", chunk=8),
    Unit("experiment", cases_experiment, check_experiment, "all sequences of up to three descriptors", chunk=4),
    Unit("strategy", cases_strategy, check_strategy, "every strategy, model and option combination with recording models", chunk=8),
]
