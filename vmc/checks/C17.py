"""Impression generators: every outcome of the draws and of the shuffle."""
import itertools
from collections import Counter

import numpy as np

from vmc.core import Unit, Violation, plain
from vmc.rand import Scripted
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

ASSUMPTIONS = ["the random generator handed in is the only source of randomness and is used through poisson, gamma, zipf, "
               "shuffle or permutation (scalar or vectorised)"]

KINDS = ("homogeneous", "heterogeneous", "heavy")


def script(kind, draws, order=None):
    gam = [0.25 + 1.5 * i for i in range(max(1, len(draws)))]
    return Scripted(poisson=list(draws) or [0], gamma=gam, zipf=list(draws) or [1], order=order), gam


def build(kind, n, rng, par):
    if kind == "homogeneous":
        return HomogeneousImpressionGenerator(n, par[0], random_generator=rng)
    if kind == "heterogeneous":
        return HeterogeneousImpressionGenerator(n, gamma_shape=par[0], gamma_scale=par[1], random_generator=rng)
    return HeavyTailedImpressionGenerator(n, zeta_s=par[0], random_generator=rng)


PARAMS = {"homogeneous": [(3.0,), (0.5,), (0.0,), (250.0,), (1e-6,)], "heterogeneous": [(4.0, 0.5), (1.0, 2.0), (0.04545, 11), (0.001, 100.0), (60.0, 0.001)], "heavy": [(2.1,), (5.0,), (1.5,), (1.01,), (30.0,)]}


def judge(ctx, kind, draws, par, order, what):
    n = len(draws)
    rng, gam = script(kind, draws, order)
    out = plain(build(kind, n, rng, par)())
    add = 0 if kind == "heavy" else 1
    want = Counter({i: d + add for i, d in enumerate(draws) if d + add})
    ctx.eq(Counter(out), want, f"{what}: impressions per user")
    used = rng.used
    if kind == "homogeneous":
        ctx.eq(used, {"poisson": [(par[0],)] * n, "gamma": [], "zipf": []}, f"{what}: draws")
    elif kind == "heterogeneous":
        ctx.eq(used["gamma"], [tuple(map(float, par))] * n, f"{what}: draws of user rates")
        ctx.eq(used["poisson"], [(g,) for g in gam[:n]], f"{what}: each user's own rate is used")
    else:
        ctx.eq(used, {"poisson": [], "gamma": [], "zipf": [(par[0],)] * n}, f"{what}: draws")
    return tuple(out), rng


def cases_draws(tier):
    for kind in KINDS:
        low = 1 if kind == "heavy" else 0
        for n in range(0, 5 if tier == "quick" else 6):
            for draws in itertools.product(range(low, low + 4), repeat=n):
                yield (kind, draws)


def check_draws(ctx, case):
    kind, draws = case
    for par in PARAMS[kind]:
        for oname, order in (("as is", None), ("reversed", lambda n: range(n - 1, -1, -1)), ("rotated", lambda n: [(i + 1) % n for i in range(n)])):
            ctx.state((case, par, oname))
            judge(ctx, kind, draws, par, order, f"{kind}{par} with draws {draws}, order {oname}")


def cases_shuffles(tier):
    top = 6 if tier == "quick" else 7
    for kind in KINDS:
        low, add = (1, 0) if kind == "heavy" else (0, 1)
        for n in range(1, 4):
            for draws in itertools.product(range(low, low + 3), repeat=n):
                if sum(d + add for d in draws) <= top:
                    yield (kind, draws)


def check_shuffles(ctx, case):
    """Every permutation as the outcome of the shuffle: all arrangements and nothing else come out."""
    kind, draws = case
    add = 0 if kind == "heavy" else 1
    total = sum(d + add for d in draws)
    ids = [i for i, d in enumerate(draws) for _ in range(d + add)]
    seen = set()
    for perm in itertools.permutations(range(total)):
        out, _ = judge(ctx, kind, draws, PARAMS[kind][0], list(perm), f"{kind} with draws {draws} shuffled by {perm}")
        seen.add(out)
        ctx.state((kind, out))
    ctx.eq(sorted(seen), sorted(set(itertools.permutations(ids))), f"{kind} with draws {draws}: arrangements that can come out")


def cases_real(tier):
    for kind in KINDS:
        for n in (0, 1, 2, 7, 60):
            for k in range(3):
                for seed in range(2 if tier == "quick" else 20):
                    yield (kind, n, k, seed)


def check_real(ctx, case):
    """With numpy's own generator: everybody appears, nobody else, and the result is repeatable."""
    kind, n, k, seed = case
    par = PARAMS[kind][k]
    if kind == "heavy" and par[0] < 2:
        n = min(n, 7)
    outs = []
    for disturb in (0, 1):
        np.random.seed(disturb)
        out = plain(build(kind, n, np.random.default_rng(seed), par)())
        ctx.eq(set(out), set(range(n)), f"{case}: users")
        ctx.true(all(isinstance(i, int) for i in out), f"{case}: ids are whole numbers")
        outs.append(out)
    ctx.state(case)
    ctx.eq(outs[0], outs[1], f"{case}: repeated")
    # draws of one generator go on from where they are
    g = np.random.default_rng(seed)
    first, second = plain(build(kind, n, g, par)()), plain(build(kind, n, g, par)())
    ctx.eq(first, outs[0], f"{case}: first use")
    ctx.eq(set(second), set(range(n)), f"{case}: second use")
    # without a generator of its own
    dflt = {"homogeneous": lambda: HomogeneousImpressionGenerator(n, 1.5)(), "heterogeneous": lambda: HeterogeneousImpressionGenerator(n)(),
            "heavy": lambda: HeavyTailedImpressionGenerator(n)()}[kind]
    ctx.eq(set(plain(dflt())), set(range(n)), f"{case}: default generator")


def cases_refused(tier):
    return [1, 0.5, 0, -1, 1.0]


def check_refused(ctx, s):
    ctx.state(s)
    ctx.raises((AssertionError, ValueError), lambda: HeavyTailedImpressionGenerator(3, zeta_s=s), f"zeta parameter {s}")


# ---- prices --------------------------------------------------------------------------------
CPIS = (0.1, 2.5, 0.0, 1e-9, 3)


def cases_prices(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for ids in itertools.product((0, 1, 5), repeat=n):
            yield ids


def check_prices(ctx, ids):
    for cpi in CPIS:
        given = list(ids)
        got = FixedPriceGenerator(cpi)(given)
        ctx.state((ids, cpi))
        what = f"prices of {ids} at {cpi}"
        ctx.eq(given, list(ids), f"{what}: the impressions handed in")
        ctx.eq([i for i, _ in got], list(ids), f"{what}: ids and order")
        for k, (_, p) in enumerate(got):
            ctx.close(p, (k + 1) * cpi, f"{what}: price {k}", rtol=1e-9, atol=0)
        if not ids:
            continue
        for name in ("pub", None):
            pd = PublisherData.generate_publisher_data(lambda: list(ids), FixedPriceGenerator(cpi), name)
            if name:
                ctx.eq(pd.name, name, f"{what}: publisher name")
            ctx.eq(pd.max_impressions, len(ids), f"{what}: impressions of the publisher")
            ctx.eq(pd.max_reach, len(set(ids)), f"{what}: reach of the publisher")
            ctx.close(pd.max_spend, len(ids) * cpi, f"{what}: maximum spend", rtol=1e-9, atol=0)
            for k in range(1, len(ids) + 1):
                ctx.eq(dict(pd.user_counts_by_impressions(k)), dict(Counter(ids[:k])), f"{what}: users of the first {k}")
                ctx.close(pd.spend_by_impressions(k), k * cpi, f"{what}: spend of {k}", rtol=1e-9, atol=0)
                if cpi:
                    ctx.eq(pd.impressions_by_spend(k * cpi + cpi * 1e-6), k, f"{what}: impressions for {k} prices")
                    ctx.eq(dict(pd.user_counts_by_spend(k * cpi + cpi * 1e-6)), dict(Counter(ids[:k])), f"{what}: users for {k} prices")


# ---- the whole pipeline ----------------------------------------------------------------------
def cases_pipeline(tier):
    for kind in KINDS:
        low = 1 if kind == "heavy" else 0
        for n in range(1, 4):
            for draws in itertools.product(range(low, low + 3), repeat=n):
                yield (kind, draws)


def check_pipeline(ctx, case):
    kind, draws = case
    add = 0 if kind == "heavy" else 1
    for order in (None, lambda n: range(n - 1, -1, -1)):
        rng, _ = script(kind, draws, order)
        pd = PublisherData.generate_publisher_data(build(kind, len(draws), rng, PARAMS[kind][0]), FixedPriceGenerator(0.5), "p")
        rng2, _ = script(kind, draws, order)
        ids = plain(build(kind, len(draws), rng2, PARAMS[kind][0])())
        total = sum(d + add for d in draws)
        ctx.state((case, order is None))
        ctx.eq([pd.max_impressions, pd.max_reach, pd.max_spend], [total, len(draws), total * 0.5], f"{case}: totals of the publisher")
        for k in range(1, total + 1):
            ctx.eq({int(u): c for u, c in pd.user_counts_by_impressions(k).items()}, dict(Counter(ids[:k])), f"{case}: the first {k} impressions")


# ---- sizes ------------------------------------------------------------------------------------
def cases_sizes(tier):
    for kind in KINDS:
        for d in (9, 10, 99, 127, 128, 255, 256, 999, 1001, 5000, 32768, 70000):
            yield (kind, "draw", d)
        for n in (16, 100, 101, 1000, 1025, 4000):
            yield (kind, "users", n)


def check_sizes(ctx, case):
    """Large draws and many users."""
    kind, what, v = case
    low = 1 if kind == "heavy" else 0
    vectors = [(low, v, low + 2), (v, v)] if what == "draw" else [tuple(low + (i * i) % 4 for i in range(v))]
    for draws in vectors:
        for order in (None, lambda n: range(n - 1, -1, -1)):
            ctx.state((case, order is None))
            judge(ctx, kind, draws, PARAMS[kind][0], order, f"{case}")


def cases_again(tier):
    for kind in KINDS:
        low = 1 if kind == "heavy" else 0
        for a in itertools.product(range(low, low + 3), repeat=2):
            for b in itertools.product(range(low, low + 3), repeat=2):
                yield (kind, a, b)


def check_again(ctx, case):
    """One generator object called twice: each call is a fresh population of draws."""
    kind, a, b = case
    add = 0 if kind == "heavy" else 1
    rng, _ = script(kind, a + b)
    gen = build(kind, 2, rng, PARAMS[kind][0])
    outs = [plain(gen()), None]
    kept = list(outs[0])
    outs[1] = plain(gen())
    ctx.state(case)
    for o, d in zip(outs, (a, b)):
        ctx.eq(Counter(o), Counter({i: x + add for i, x in enumerate(d) if x + add}), f"{case}: impressions per user")
    ctx.eq(outs[0], kept, f"{case}: the first result afterwards")


def cases_long(tier):
    yield from itertools.product((100, 1000, 4097), (0.1, 2.5, 1e-9, 3, 0.000123, 1e6))


def check_long(ctx, case):
    n, cpi = case
    ids = [(i * i) % (n // 3) for i in range(n)]
    got = FixedPriceGenerator(cpi)(list(ids))
    ctx.state(case)
    ctx.eq([u for u, _ in got], ids, f"{case}: ids and order")
    for k, (_, p) in enumerate(got):
        ctx.close(p, (k + 1) * cpi, f"{case}: price {k}", rtol=1e-9, atol=0)
    gen = FixedPriceGenerator(cpi)
    ctx.eq([list(map(tuple, gen(ids[:2]))), list(map(tuple, gen(ids[:2])))], [[tuple(x) for x in got[:2]]] * 2, f"{case}: used twice")


UNITS = [
    Unit("sizes", cases_sizes, check_sizes, "draws up to 70000, up to 4000 users", chunk=4),
    Unit("again", cases_again, check_again, "a generator used twice, all draws of two users", chunk=32),
    Unit("long", cases_long, check_long, "logs of up to 4097 impressions, six prices", chunk=2),
    Unit("draws", cases_draws, check_draws, "all draw vectors up to 4 users and 4 values", chunk=32),
    Unit("shuffles", cases_shuffles, check_shuffles, "every permutation as shuffle outcome", chunk=2),
    Unit("real", cases_real, check_real, "numpy's generator: coverage of users and repeatability", chunk=4),
    Unit("refused", cases_refused, check_refused, "inadmissible zeta parameters", chunk=8),
    Unit("prices", cases_prices, check_prices, "all id sequences up to length 4, five prices", chunk=16),
    Unit("pipeline", cases_pipeline, check_pipeline, "draws to publisher", chunk=8),
]
