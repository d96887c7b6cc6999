"""The shipped data designs: every data set they list, for every seed of a range,
after every disturbance of the process, and a small version of each generated."""
import importlib.util
import itertools
import os

import numpy as np
from scipy.special import zeta
from vmc_env import ENV

from vmc import fsutil
from vmc.core import Unit
from wfa_planning_evaluation_framework import data_generators
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import (
    SyntheticDataDesignGenerator,
)

ASSUMPTIONS = ["the factors and levels are those the shipped designs declare at the pinned commit",
               "the set generators of the absent package are exact stand-ins"]
SRC = os.path.dirname(os.path.abspath(data_generators.__file__))

HOM, HET, TAIL = "HomogeneousImpressionGenerator", "HeterogeneousImpressionGenerator", "HeavyTailedImpressionGenerator"
hom = lambda l: (HOM, {"poisson_lambda": l})
het = lambda a, b: (HET, {"gamma_shape": a, "gamma_scale": b})
tail = lambda s: (TAIL, {"zeta_s": s})
PRICE = [("FixedPriceGenerator", {"cost_per_impression": 0.1})]
FULLY = ("DataSet", {})
ind = lambda u, r: ("IndependentOverlapDataSet", {"universe_size": u, "random_generator": r})
seq = lambda o, c, s, r: ("SequentiallyCorrelatedOverlapDataSet", {"order": o, "correlated_sets": c, "shared_prop": s, "random_generator": r})
FACTORS = ("publishers", "largest", "ratio", "pricing", "impressions", "overlap")
MEANS = (1.5, 3.0, 5.0, 10.0)

FULL = {
    "simple_data_design_example": ([1, 2, 5], [100, 500, 1000], [0.9, 0.5, 0.1], PRICE, [hom(3.0)], [FULLY]),
    "analysis_example_data_design": ([1, 2, 3], [4000, 8000], [1, 0.5], PRICE, [hom(3.0), het(3.0, 1.0)],
                                     [FULLY, ind(20000, 1), seq("original", "all", 0.25, 5)]),
    "single_publisher_design": ([1], [10000, 20000, 30000, 40000, 50000], [0.9], PRICE, None, [FULLY]),
}
SAMPLED = {
    "lhs_data_design_example": (10, [1, 2, 5], [100, 200, 300, 400, 500], [0.9, 0.5, 0.1], PRICE,
                                [hom(3.0), het(4.0, 0.5), tail(2.1)], [FULLY, ind(50000, 1), seq("original", "all", 1.0, 1)]),
    "m3_data_design": (100, [1, 2, 5, 10, 20, 100], [10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7], [1, 0.5, 0.3, 0.1, 0.01], PRICE,
                       [hom(2.0), hom(5.0), het(4.0, 0.5), het(1.0, 2.0), het(4.0, 1.0), het(1.0, 4.0), tail(2.5), tail(5.0)],
                       [FULLY] + [ind(r, n + 1) for n, r in enumerate((0.9, 0.75, 0.5, 0.25))]
                       + [seq("random", "all", 0.25, 5), seq("original", "all", 0.75, 6), seq("original", "one", 0.25, 7),
                          seq("random", "one", 0.75, 8)]),
}
BOX = {}  # what the recording configuration saw

CONFIG = """import importlib.util
import vmc.checks.C25 as c


def generate_data_design_config(random_generator):
    spec = importlib.util.spec_from_file_location("shipped_design", {path!r})
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    entries = list(m.generate_data_design_config(random_generator))
    c.BOX["entries"] = entries
    return c.shrink(entries) if {small!r} else []
"""


def freeze(x):
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, str) or x is None:
        return str(getattr(x, "value", x))
    return round(float(x), 12)


def describe(e):
    g = lambda q: freeze((q.generator.__name__, q.params))
    return (freeze(e.num_publishers), freeze(e.largest_publisher_size), freeze(e.largest_to_smallest_publisher_ratio),
            g(e.pricing_generator_params), g(e.impression_generator_params), g(e.overlap_generator_params))


def shrink(entries):
    """The same data sets with at most 4 publishers of at most 150 users."""
    out = []
    for e in entries:
        o = e.overlap_generator_params
        if "universe_size" in o.params:
            scaled = max(1, int(150 * o.params["universe_size"] / e.largest_publisher_size))
            o = o._replace(params={**o.params, "universe_size": scaled})
        out.append(e._replace(num_publishers=min(4, e.num_publishers), largest_publisher_size=150,
                              overlap_generator_params=o, id=str(len(out))))
    BOX["small"] = out
    return out


def disturb(k):
    if k:
        np.random.seed(77 + k)
        np.random.random(k)


def listed(name, seed, k, where, small=False):
    """The entries of a shipped design as the data design generator gets them."""
    cfg = os.path.join(where, "config.py")
    with open(cfg, "w") as f:
        f.write(CONFIG.format(path=os.path.join(SRC, name + ".py"), small=small))
    out = os.path.join(where, f"out{seed}-{k}")
    os.mkdir(out)
    BOX.clear()
    ENV.reset()
    disturb(k)
    gen = SyntheticDataDesignGenerator(out, cfg, seed, False)
    disturb(2 * k)
    gen()
    return BOX["entries"], out


def mean_frequency(kind, kw):
    if kind == HOM:
        return 1 + kw["poisson_lambda"]
    if kind == HET:
        return 1 + kw["gamma_shape"] * kw["gamma_scale"]
    return zeta(kw["zeta_s"] - 1) / zeta(kw["zeta_s"])


def process(kind, kw):
    if kind == HET:
        return "exponential" if kw["gamma_shape"] == 1.0 else "gamma"
    return kind


def cases_full(tier):
    for name in FULL:
        for seed in (0, 1, 7) if tier == "quick" else range(20):
            yield (name, seed)


def check_full(ctx, case):
    name, seed = case
    spec = list(FULL[name])
    for k in (0, 3):
        with fsutil.scratch() as d:
            entries, _ = listed(name, seed, k, d)
        got = [describe(e) for e in entries]
        ctx.state((case, k))
        names = [str(e) for e in entries]
        ctx.eq(len(set(names)), len(names), f"{case}: distinct names")
        if spec[4] is None:
            # declared by the process and the mean frequency
            cells = {}
            for e in entries:
                q = e.impression_generator_params
                kind, kw = q.generator.__name__, q.params
                near = [m for m in MEANS if abs(mean_frequency(kind, kw) - m) <= 2e-3 * m]
                ctx.true(len(near) == 1, f"{case}: {q}: mean frequency {mean_frequency(kind, kw)}")
                cell = (e.largest_publisher_size, process(kind, kw), near[0])
                ctx.state(cell)
                cells[cell] = cells.get(cell, 0) + 1
            want = {c: 1 for c in itertools.product(spec[1], (HOM, HET, TAIL, "exponential", "gamma"), MEANS) if c[1] != HET}
            ctx.eq(sorted(map(str, cells.items())), sorted(map(str, want.items())), f"{case}: one data set per size, process and mean frequency")
            got = [g[:4] + g[5:] for g in got]
            rest = [[freeze(v) for v in lv] for lv in spec[:4] + spec[5:]]
            ctx.eq(sorted(set(map(str, got))), sorted(map(str, itertools.product(*rest))), f"{case}: all other factors")
            continue
        want = list(itertools.product(*[[freeze(v) for v in lv] for lv in spec]))
        ctx.eq(len(got), len(want), f"{case}: number of data sets")
        miss, extra = set(want) - set(got), set(got) - set(want)
        ctx.true(not miss and not extra, f"{case}: missing {sorted(map(str, miss))[:2]}, unexpected {sorted(map(str, extra))[:2]}")


def shares(n, total):
    """Least and most samples of each of n equal intervals of a Latin hypercube with `total` slices."""
    out = []
    for i in range(n):
        lo, hi = i * total / n, (i + 1) * total / n
        out.append((max(0, int(np.floor(hi + 1e-9)) - int(np.ceil(lo - 1e-9))), int(np.ceil(hi - 1e-9)) - int(np.floor(lo + 1e-9))))
    return out


def cases_sampled(tier):
    for name in SAMPLED:
        for seed in range(6 if tier == "quick" else 40):
            yield (name, seed)


def check_sampled(ctx, case):
    name, seed = case
    total, spec = SAMPLED[name][0], list(SAMPLED[name][1:])
    runs = []
    for k in (0, 3):
        with fsutil.scratch() as d:
            runs.append(listed(name, seed, k, d)[0])
    a, b = runs
    ctx.eq([str(e) for e in b], [str(e) for e in a], f"{case}: repeated in another history")
    ctx.eq([describe(e) for e in b], [describe(e) for e in a], f"{case}: repeated in another history")
    ctx.eq(len(a), total, f"{case}: number of data sets")
    ctx.eq(len(set(str(e) for e in a)), total, f"{case}: distinct names")
    cols = [list(c) for c in zip(*[describe(e) for e in a])]
    levels = [[freeze(v) for v in lv] for lv in spec]
    if name == "m3_data_design":
        # the universe follows from the largest publisher; name each level by its ratio
        ratios = {freeze(o[1]["random_generator"]): o[1]["universe_size"] for o in spec[5] if o[0].startswith("Independent")}
        for j, e in enumerate(a):
            o = e.overlap_generator_params
            if o.generator.__name__.startswith("Independent"):
                ctx.eq(sorted(o.params), ["random_generator", "universe_size"], f"{case}: {e}: overlap options")
                r = freeze(o.params["random_generator"])
                ctx.true(r in ratios, f"{case}: {e}: overlap {o}")
                u = o.params["universe_size"]
                ctx.true(u == int(u) and abs(u - e.largest_publisher_size / ratios[r]) < 1,
                         f"{case}: {e}: universe {u}, expected {e.largest_publisher_size / ratios[r]}")
                ctx.true(u >= e.largest_publisher_size, f"{case}: {e}: the universe is smaller than a publisher")
                cols[5][j] = freeze(ind(ratios[r], o.params["random_generator"]))
    for f, col, lv in zip(FACTORS, cols, levels):
        ctx.true(set(col) <= set(lv), f"{case}: {f}: {sorted(map(str, set(col) - set(lv)))[:3]} are not declared")
        counts = sorted(col.count(x) for x in lv)
        ctx.state((case, f, tuple(counts)))
        lo, hi = (sorted(x) for x in zip(*shares(len(lv), total)))
        ctx.true(all(x <= c <= y for c, x, y in zip(counts, lo, hi)), f"{case}: {f}: {counts} data sets per level, expected {lo} to {hi}")


def cases_seeds(tier):
    yield from SAMPLED


def check_seeds(ctx, name):
    seen = {}
    for seed in range(6):
        with fsutil.scratch() as d:
            key = tuple(str(e) for e in listed(name, seed, 0, d)[0])
        ctx.state((name, seed))
        ctx.true(key not in seen, f"{name}: seeds {seen.get(key)} and {seed} sample the same design")
        seen[key] = seed


def cases_order(tier):
    yield from itertools.permutations(list(FULL) + list(SAMPLED), 2)


def check_order(ctx, case):
    """A design listed after (or while) another one was listed is the same."""
    first, second = case
    with fsutil.scratch() as d:
        alone = [describe(e) for e in listed(second, 3, 0, d)[0]]
    with fsutil.scratch() as d:
        other = listed(first, 3, 0, d)[0]
    before = [describe(e) for e in other]
    with fsutil.scratch() as d:
        again = [describe(e) for e in listed(second, 3, 0, d)[0]]
    ctx.state(case)
    ctx.eq(again, alone, f"{second} listed after {first}")
    ctx.eq([describe(e) for e in other], before, f"{first} changed while {second} was listed")


def cases_small(tier):
    for name in list(FULL) + list(SAMPLED):
        for seed in (1, 2) if tier == "quick" else range(1, 8):
            yield (name, seed)


def check_small(ctx, case):
    """Every listed data set can be generated (with few users) and has the declared shape."""
    name, seed = case
    trees = []
    for k in (0, 3):
        with fsutil.scratch() as d:
            entries, out = listed(name, seed, k, d, small=True)
            small = BOX["small"]
            dd = DataDesign(out)
            ctx.eq(sorted(dd.names), sorted(str(e) for e in small), f"{case}: data sets")
            for e in small:
                ds = dd.by_name(str(e))
                ctx.state((case, str(e)))
                ctx.eq(ds.publisher_count, e.num_publishers, f"{case}: {e}: publishers")
                reach = [int(p.max_reach) for p in ds._data]
                ctx.eq(max(reach), 150, f"{case}: {e}: largest publisher")
                o = e.overlap_generator_params
                if "universe_size" in o.params:
                    ids = set(u for p in ds._data for u, _ in p._data)
                    ctx.true(all(0 <= u < o.params["universe_size"] for u in ids), f"{case}: {e}: users outside the universe")
                elif o.generator.__name__ == "DataSet":
                    ctx.eq(ds.maximum_reach, max(reach), f"{case}: {e}: full overlap")
                for p in ds._data:
                    n = len(p._data)
                    ctx.close(p.max_spend, n * 0.1, f"{case}: {e}: price", rtol=1e-9)
            trees.append(fsutil.tree(out))
    ctx.true(trees[0] == trees[1], f"{case}: generated again in another history")


UNITS = [
    Unit("product", cases_full, check_full, "every data set of the three product designs", chunk=1, timeout=300),
    Unit("sampled", cases_sampled, check_sampled, "every data set of the Latin hypercube designs for each seed", chunk=1, timeout=300),
    Unit("seeds", cases_seeds, check_seeds, "different seeds", chunk=1, timeout=300),
    Unit("order", cases_order, check_order, "all ordered pairs of designs", chunk=1, timeout=300),
    Unit("small", cases_small, check_small, "every listed data set generated with at most 150 users", chunk=1, timeout=300),
]
