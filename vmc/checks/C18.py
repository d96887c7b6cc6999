"""Overlap labelling: every small publisher list, every assignment of labels."""
import itertools
from collections import Counter

import numpy as np
from vmc_env import ENV

from vmc.core import Unit, Violation, plain
from vmc.peek import publishers
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
    CorrelatedSetsOptions,
    OrderOptions,
    SequentiallyCorrelatedOverlapDataSet,
)

ASSUMPTIONS = ["an overlap generator yields one collection of distinct ids per publisher, in the order of the publishers",
               "the overlap generators of the absent package are stand-ins with the same constructor interface"]


class Gen:
    """A generic overlap generator that yields prescribed label lists."""
    made = []
    labels = None
    as_array = False

    def __init__(self, set_sizes, **kw):
        Gen.made.append((list(set_sizes), kw))

    def __iter__(self):
        for l in Gen.labels:
            yield np.array(l, dtype=int) if Gen.as_array else list(l)


def publisher(log, name):
    return PublisherData([tuple(e) for e in log], name)


def picture(pd):
    """Everything a publisher answers: users of the first k impressions and of every spend."""
    n = pd.max_impressions
    prices = [pd.spend_by_impressions(k) for k in range(1, n + 1)]
    return (pd.name, n, pd.max_reach, pd.max_spend, tuple(prices),
            tuple(tuple(sorted((int(u), c) for u, c in pd.user_counts_by_impressions(k).items())) for k in range(1, n + 1)))


def judge(ctx, ds, logs, labels, what):
    """ds must hold the publishers of `logs` with users renamed to `labels`."""
    ctx.eq(ds.publisher_count, len(logs), f"{what}: publishers")
    for j, (name, log) in enumerate(logs):
        log = sorted(log, key=lambda e: e[1])
        held = publishers(ds)
        if held is None:  # kept some other way: only what the data set answers can be judged
            p = log[-1][1]
            rp = ds.reach_by_spend([p if i == j else -1.0 for i in range(len(logs))], 1)
            ctx.eq(rp.reach(1), len(set(u for u, _ in log)), f"{what}: publisher {j}: reach")
            continue
        pd = held[j]
        w = f"{what}: publisher {j}"
        ctx.eq(pd.name, name, f"{w}: name")
        ctx.eq([pd.max_impressions, pd.max_reach, pd.max_spend], [len(log), len(set(u for u, _ in log)), log[-1][1]], f"{w}: totals")
        full = pd.user_counts_by_impressions(len(log))
        ctx.eq(set(int(u) for u in full), set(labels[j]), f"{w}: users are the ids assigned")
        distinct = len(set(p for _, p in log)) == len(log)
        ren, prev = {}, Counter()
        for k in range(1, len(log) + 1):
            p = log[k - 1][1]
            ctx.eq(pd.spend_by_impressions(k), p, f"{w}: price of {k} impressions")
            bought = Counter(u for u, q in log if q <= p)
            got = Counter({int(u): c for u, c in pd.user_counts_by_spend(p).items()})
            ctx.eq(sorted(got.values()), sorted(bought.values()), f"{w}: frequencies at spend {p}")
            rp = ds.reach_by_spend([p if i == j else -1.0 for i in range(len(logs))], 4)
            ctx.eq([rp.reach(f) for f in range(1, 5)], [sum(1 for c in bought.values() if c >= f) for f in range(1, 5)],
                   f"{w}: reach curve at {p}")
            if distinct:
                new = list((got - prev).elements())
                ctx.eq(len(new), 1, f"{w}: impression {k}")
                ctx.eq(ren.setdefault(log[k - 1][0], new[0]), new[0], f"{w}: the user of impression {k}")
                prev = got
        if distinct:
            ctx.eq(len(set(ren.values())), len(ren), f"{w}: renaming is one to one")


LOGS = [
    ((1, 1.0),),
    ((1, 1.0), (1, 2.0)),
    ((1, 1.0), (2, 2.0)),
    ((2, 2.0), (1, 1.0), (2, 3.0)),
    ((7, 1.0), (8, 2.0), (9, 3.0), (8, 4.0)),
    ((3, 1.0), (4, 1.0), (3, 1.0)),
    ((5, 0.0), (5, 0.0), (6, 0.5), (7, 0.25)),
]
NAMES = ["n1", "zz", "a"]


def reach(log):
    return len(set(u for u, _ in log))


def cases_generic(tier):
    universe = range(4) if tier == "quick" else range(5)
    for idx in itertools.product(range(len(LOGS)), repeat=2):
        yield (idx, len(universe))
    small = (0, 2, 3) if tier == "quick" else (0, 1, 2, 3)
    for idx in itertools.product(small, repeat=3):
        yield (idx, 3)


def check_generic(ctx, case):
    idx, u = case
    logs = [(NAMES[i], LOGS[k]) for i, k in enumerate(idx)]
    for labels in itertools.product(*(itertools.permutations(range(1, u + 1), reach(l)) for _, l in logs)):
        Gen.made, Gen.labels, Gen.as_array = [], labels, sum(map(sum, labels)) % 2 == 0
        pubs = [publisher(l, n) for n, l in logs]
        before = [picture(p) for p in pubs]
        kw = {"alpha": 3, "beta": "x"} if labels[0][0] % 2 else {}
        ds = OverlapDataSet(pubs, Gen, kw, name="the name")
        ctx.state((idx, labels))
        ctx.eq(Gen.made, [([reach(l) for _, l in logs], kw)], "arguments of the overlap generator")
        ctx.eq(ds.name, "the name", "name of the data set")
        ctx.eq([picture(p) for p in pubs], before, f"labels {labels}: the publishers handed in")
        judge(ctx, ds, logs, labels, f"labels {labels}")
        want = len(set(x for l in labels for x in l))
        ctx.eq(ds.maximum_reach, want, f"labels {labels}: users of the data set")


def cases_mismatch(tier):
    for idx in itertools.product(range(len(LOGS)), repeat=2):
        for who in (0, 1):
            for d in (-1, 1, 2):
                yield (idx, who, d)


def check_mismatch(ctx, case):
    idx, who, d = case
    logs = [(NAMES[i], LOGS[k]) for i, k in enumerate(idx)]
    labels = [list(range(10, 10 + reach(l) + (d if i == who else 0))) for i, (_, l) in enumerate(logs)]
    ctx.state(case)
    for arr in (False, True):
        Gen.made, Gen.labels, Gen.as_array = [], labels, arr
        pubs = [publisher(l, n) for n, l in logs]
        before = [picture(p) for p in pubs]
        ctx.raises(Exception, lambda: OverlapDataSet(pubs, Gen, {}), f"{len(labels[who])} labels for {reach(logs[who][1])} users")
        ctx.eq([picture(p) for p in pubs], before, "the publishers handed in")


# ---- the two shipped overlap data sets ---------------------------------------------------------
def cases_shipped(tier):
    for idx in itertools.product((0, 2, 3, 4, 6), repeat=2):
        for seed in range(2 if tier == "quick" else 6):
            yield ("independent", idx, seed, (5,))
            yield ("independent", idx, seed, (40,))
            for order in OrderOptions:
                for corr in CorrelatedSetsOptions:
                    for prop in (0.0, 0.25, 1.0):
                        yield ("sequential", idx, seed, (order.name, corr.name, prop))


def check_shipped(ctx, case):
    kind, idx, seed, opts = case
    logs = [(NAMES[i], LOGS[k]) for i, k in enumerate(idx)]
    total = {}

    def labels(gen):
        # what the generator says is recorded, and mirrors its (stand-in) random state
        out = []
        for i, n in enumerate(gen.set_sizes):
            out.append([int(x) for x in gen.kwargs["random_state"].permutation(9)[:n]])
        total["labels"] = out
        for o in out:
            yield np.array(o)

    def make(rng, name=None):
        ENV.reset()
        ENV.labels = labels
        pubs = [publisher(l, n) for n, l in logs]
        before = [picture(p) for p in pubs]
        kw = {} if name is None else {"name": name}
        if kind == "independent":
            ds = IndependentOverlapDataSet(pubs, opts[0], rng, **kw)
        else:
            ds = SequentiallyCorrelatedOverlapDataSet(pubs, OrderOptions[opts[0]], CorrelatedSetsOptions[opts[1]], opts[2], rng, **kw)
        ctx.eq([picture(p) for p in pubs], before, f"{case}: the publishers handed in")
        ctx.eq(len(ENV.set_generators), 1, f"{case}: overlap generators created")
        g = ENV.set_generators[0]
        ctx.eq(type(g).__name__, "IndependentSetGenerator" if kind == "independent" else "SequentiallyCorrelatedSetGenerator", "overlap generator")
        ctx.eq(g.set_sizes, [reach(l) for _, l in logs], f"{case}: sizes handed to the overlap generator")
        if kind == "independent":
            ctx.eq(g.kwargs["universe_size"], opts[0], f"{case}: universe size")
        else:
            ctx.true(g.kwargs["order"] == opts[0], f"{case}: order {g.kwargs['order']}")
            ctx.true(g.kwargs["correlated_sets"] == opts[1], f"{case}: correlated sets {g.kwargs['correlated_sets']}")
            ctx.eq(g.kwargs["shared_prop"], opts[2], f"{case}: shared proportion")
        judge(ctx, ds, logs, total["labels"], f"{case}")
        return ds, [list(l) for l in total["labels"]]

    ctx.state(case)
    np.random.seed(1)
    rng = np.random.default_rng(seed)
    ds, first = make(rng, "given")
    ctx.eq(ds.name, "given", "name")
    np.random.seed(2)
    _, again = make(np.random.default_rng(seed))
    ctx.eq(again, first, f"{case}: repeated with the same seed")
    if kind == "sequential":
        _, a = make(None)
        np.random.seed(77)
        _, b = make(None)
        ctx.eq(a, b, f"{case}: repeated without a generator")


def cases_streams(tier):
    for kind in ("independent", "sequential"):
        for seed in range(10):
            yield (kind, seed)


def check_streams(ctx, case):
    """Consecutive data sets from one generator get different random sources; so do different seeds."""
    kind, seed = case
    states = []

    def labels(gen):
        states.append(tuple(gen.kwargs["random_state"].randint(0, 2 ** 31 - 1, size=4)))
        for i, n in enumerate(gen.set_sizes):
            yield list(range(n))

    def make(rng):
        ENV.reset()
        ENV.labels = labels
        pubs = [publisher(LOGS[3], "a"), publisher(LOGS[4], "b")]
        if kind == "independent":
            IndependentOverlapDataSet(pubs, 40, rng)
        else:
            SequentiallyCorrelatedOverlapDataSet(pubs, OrderOptions.original, CorrelatedSetsOptions.all, 0.5, rng)

    rng = np.random.default_rng(seed)
    for _ in range(3):
        make(rng)
    make(np.random.default_rng(seed + 1))
    ctx.state(case)
    ctx.eq(len(set(states)), 4, f"{case}: random sources of three data sets and of another seed")


UNITS = [
    Unit("generic", cases_generic, check_generic, "pairs and triples of logs with every assignment of labels from a small universe", chunk=1, timeout=300),
    Unit("mismatch", cases_mismatch, check_mismatch, "too few or too many labels", chunk=16),
    Unit("shipped", cases_shipped, check_shipped, "independent and sequential data sets with all options", chunk=16),
    Unit("streams", cases_streams, check_streams, "random sources of consecutive data sets", chunk=4),
]
