"""Quantile queries against a linear search on every small monotone curve."""
import itertools

from vmc import optim  # noqa: F401  (before the models)
from vmc.core import Unit, Violation
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import (
    GroundTruthReachCurveModel,
)
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import (
    KInflatedGammaPoissonModel,
)
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ASSUMPTIONS = ["curves are non-decreasing with zero reach at zero",
               "quantiles are dyadic, so that the targets are exact"]
# neither increasing nor decreasing, and one of them twice: no answer may depend on earlier ones
QS = [0.5, 0.875, 2.0 ** -20, 0.125, 0.75, 1 - 2.0 ** -20, 0.25, 0.625, 0.5]


class Table(ReachCurve):
    """A curve given by a function of the impressions; spend buys `rate` each."""

    def __init__(self, fn, max_reach, spend_fn):
        super().__init__([ReachPoint([1], [1], [1])], max_reach)
        self.fn, self.spend_fn = fn, spend_fn
        self.asked = 0

    def tick(self):
        self.asked += 1
        if self.asked > 100000:
            raise Violation("the search does not end: 100000 points of the curve were read")

    def by_impressions(self, impressions, max_frequency=1):
        self.tick()
        return ReachPoint(list(impressions), [self.fn(impressions[0])] + [0] * (max_frequency - 1))

    def by_spend(self, spends, max_frequency=1):
        self.tick()
        return ReachPoint([0], [self.spend_fn(spends[0])] + [0] * (max_frequency - 1))


def refusals(ctx, m):
    for q in (-1, -0.5, 0, 0.0, 1, 1.0, 1.5, 2):
        ctx.raises(ValueError, lambda: m.impressions_at_reach_quantile(q), f"quantile {q}")
        ctx.raises(ValueError, lambda: m.spend_at_reach_quantile(q), f"quantile {q} of spend")


def expect(ctx, fn, call, target, horizon, what):
    """horizon: fn is constant from there on."""
    if fn(horizon) <= target:
        ctx.raises(OverflowError, call, f"{what}: no buy exceeds {target}")
        return
    best = 0
    while fn(best + 1) <= target:
        best += 1
    ctx.eq(call(), best, what)


def cases_tables(tier):
    n, top = (6, 4) if tier == "quick" else (9, 5)
    for vals in itertools.combinations_with_replacement(range(top + 1), n):
        for extra in (0, 1, 3):
            yield (vals, max(1, vals[-1]) + extra)


def check_tables(ctx, case):
    vals, mx = case
    fn = lambda x: 0 if x < 1 else vals[min(int(x), len(vals)) - 1]
    rev = lambda x: fn(x // 2)
    m = Table(fn, mx, rev)
    for q in QS:
        ctx.state((case, q))
        expect(ctx, fn, lambda: m.impressions_at_reach_quantile(q), q * mx, len(vals) + 1, f"quantile {q}")
        expect(ctx, rev, lambda: m.spend_at_reach_quantile(q), q * mx, 2 * len(vals) + 2, f"spend quantile {q}")
    refusals(ctx, m)


def cases_steps(tier):
    for e in range(0, 60):
        for d in (-1, 0, 1):
            t = 2**e + d
            if t >= 1:
                yield t
    for t in (3, 100, 12345, 10**6, 10**9 + 7, 10**15, 3 * 2**57):
        yield t


def check_steps(ctx, t):
    # one jump at t
    fn = lambda x: 8 if x >= t else 0
    m = Table(fn, 8, lambda x: 8 if x >= t + 1 else 0)
    for q in QS:
        ctx.state((t, q))
        ctx.eq(m.impressions_at_reach_quantile(q), t - 1, f"jump at {t}, quantile {q}")
        ctx.eq(m.spend_at_reach_quantile(q), t, f"spend jump at {t + 1}, quantile {q}")
    # two jumps: the first lies exactly on the target
    two = Table(lambda x: 0 if x < t else (4 if x < 3 * t else 8), 8, lambda x: 0)
    if 3 * t <= 2**60:
        ctx.eq(two.impressions_at_reach_quantile(0.5), 3 * t - 1, f"plateau at the target from {t}")
        ctx.eq(two.impressions_at_reach_quantile(0.25), t - 1, f"plateau above the target from {t}")
    ctx.raises(OverflowError, lambda: two.spend_at_reach_quantile(0.5), "nothing is ever reached")


def cases_goerg(tier):
    for i in (2, 10, 1000, 10**6):
        for f in (0.1, 0.5, 0.9):
            for c in (0.125, 1.0, 4.0):
                yield (i, max(1, int(i * f)), c)


def check_goerg(ctx, case):
    i, r, c = case
    if r >= i:
        return
    m = GoergModel([ReachPoint([i], [r], [i * c])])
    for q in QS + [0.001, 0.99]:
        ctx.state((case, q))
        target = m.max_reach * q
        for how, by in ((m.impressions_at_reach_quantile, m.by_impressions), (m.spend_at_reach_quantile, m.by_spend)):
            n = how(q)
            ctx.true(n == int(n) and n >= 0, f"whole number: {n}")
            ctx.true(by([n]).reach() <= target * (1 + 1e-12), f"reach of {n} exceeds quantile {q}")
            ctx.true(by([n + 1]).reach() > target * (1 - 1e-12), f"{n} is not the tightest for quantile {q}")
    refusals(ctx, m)


def cases_k(tier):
    for i in (5, 100, 5000):
        for r in (1, i // 3 + 1, i - 1):
            yield (i, r)


def check_k(ctx, case):
    i, r = case
    m = KInflatedGammaPoissonModel([ReachPoint([i], [r], [i * 0.5])])
    m._fit()
    for q in (0.25, 0.5, 0.9):
        ctx.state((case, q))
        n = m.impressions_at_reach_quantile(q)
        t = m.max_reach * q
        ctx.true(m.by_impressions([n]).reach() <= t * (1 + 1e-9), f"reach of {n} exceeds quantile {q}")
        ctx.true(m.by_impressions([n + 1]).reach() > t * (1 - 1e-9), f"{n} is not the tightest for quantile {q}")
    refusals(ctx, m)


def cases_truth(tier):
    for n in range(1, 6 if tier == "quick" else 8):
        for ids in itertools.product((1, 2, 3), repeat=n):
            yield ids


def check_truth(ctx, ids):
    lg = [(u, float(2 * j + 1)) for j, u in enumerate(ids)]
    m = GroundTruthReachCurveModel(DataSet([PublisherData(lg, "a"), PublisherData([(9, 1.0)], "b")], "d"), 0)
    mx = len(set(ids))
    fn = lambda x: len(set(ids[: int(x)]))
    sp = lambda s: len({u for u, p in lg if p <= s})
    for q in QS:
        ctx.state((ids, q))
        expect(ctx, fn, lambda: m.impressions_at_reach_quantile(q), q * mx, len(ids) + 1, f"quantile {q}")
        expect(ctx, sp, lambda: m.spend_at_reach_quantile(q), q * mx, 2 * len(ids) + 2, f"spend quantile {q}")
    refusals(ctx, m)


UNITS = [
    Unit("tables", cases_tables, check_tables, "every small non-decreasing curve, every maximum, every quantile", chunk=20, timeout=30),
    Unit("steps", cases_steps, check_steps, "a jump at every power of two +-1 up to 2^59", chunk=10, timeout=30),
    Unit("goerg", cases_goerg, check_goerg, "Goerg curves", chunk=4, timeout=30),
    Unit("kigp", cases_k, check_k, "k-inflated curves", chunk=1, timeout=60),
    Unit("ground_truth", cases_truth, check_truth, "true curve of every small log", chunk=20, timeout=30),
]
