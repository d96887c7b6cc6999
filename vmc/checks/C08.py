"""Privacy tracker: all event histories over cyclic sampling intervals on a binary grid."""
import itertools
from fractions import Fraction

from vmc.core import Unit, Violation
from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    DP_NOISE_MECHANISM_DISCRETE_GAUSSIAN, DP_NOISE_MECHANISM_DISCRETE_LAPLACE, DP_NOISE_MECHANISM_GAUSSIAN,
    DP_NOISE_MECHANISM_LAPLACE, NoisingEvent, PrivacyBudget, PrivacyTracker, SamplingBucketIndices)

MECHS = [DP_NOISE_MECHANISM_LAPLACE, DP_NOISE_MECHANISM_DISCRETE_LAPLACE, DP_NOISE_MECHANISM_GAUSSIAN,
         DP_NOISE_MECHANISM_DISCRETE_GAUSSIAN]
ASSUMPTIONS = [
    "sampling intervals start in [0,1) and have rate in [0,1], as their definition requires",
    "interval ends lie on a binary grid (exact in floating point); budgets are binary fractions",
]
# distinct budgets so that every subset of events has a distinct sum; delta orders differ from epsilon
EPS = [1.0, 2.0, 4.0, 8.0, 16.0]
DEL = [0.5, 0.03125, 0.25, 0.0625, 0.125]


def cases_hist(tier):
    g = 4 if tier == "quick" else 8
    iv = [(a, w) for a in range(g) for w in range(g + 1)]
    for n in range(0, 3 if tier == "quick" else 3):
        for h in itertools.product(iv, repeat=n):
            yield (g, h)
    g2 = 4
    iv2 = [(a, w) for a in range(g2) for w in range(g2 + 1)]
    for h in itertools.product(iv2, repeat=3):
        yield (g2, h)
    g3 = 3 if tier == "quick" else 4
    if tier == "quick":
        # order matters not for the consumption: combinations at depth 4
        for h in itertools.combinations_with_replacement(iv2, 4):
            yield (g2, h)
    else:
        for h in itertools.combinations_with_replacement(iv2, 5):
            yield (g2, h)
        for h in itertools.combinations(iv, 3):
            yield (8, h)
            yield (8, h[::-1])


def inside(g, iv, twice):
    """Is the point twice/(2g) in the cyclic interval [a, a+w)?"""
    a, w = iv
    return (twice - 2 * a) % (2 * g) < 2 * w


def check_hist(ctx, case):
    g, hist = case
    tr = PrivacyTracker()
    points = range(2 * g)
    prev = (0.0, 0.0)
    ctx.eq(tuple(tr.privacy_consumption), (0.0, 0.0), "consumption of the empty history")
    for n, iv in enumerate(hist):
        m = MECHS[n % len(MECHS)]
        tr.append(NoisingEvent(PrivacyBudget(EPS[n], DEL[n]), m, {"n": n},
                               SamplingBucketIndices(iv[0] / g, iv[1] / g)))
        sums = []
        for t in points:
            e = sum(EPS[j] for j in range(n + 1) if inside(g, hist[j], t))
            d = sum(DEL[j] for j in range(n + 1) if inside(g, hist[j], t))
            sums.append((e, d))
            if n == len(hist) - 1:
                ctx.eq(tuple(tr.privacy_consumption_for_sampling_bucket(t / (2 * g))), (e, d),
                       f"consumption at {t}/{2 * g}")
        worst = (max(s[0] for s in sums), max(s[1] for s in sums))
        got = tr.privacy_consumption
        ctx.state((n, hist[:n + 1]))
        ctx.eq((got.epsilon, got.delta), worst, f"total consumption after {n + 1} events")
        ctx.true(got.epsilon >= prev[0] and got.delta >= prev[1], "consumption decreased")
        prev = (got.epsilon, got.delta)
    ctx.eq(list(tr.mechanisms), [MECHS[n % len(MECHS)] for n in range(len(hist))], "mechanisms in order")
    # order independence
    tr2 = PrivacyTracker()
    for n in reversed(range(len(hist))):
        tr2.append(NoisingEvent(PrivacyBudget(EPS[n], DEL[n]), MECHS[0], {},
                                SamplingBucketIndices(hist[n][0] / g, hist[n][1] / g)))
    ctx.eq(tuple(tr2.privacy_consumption), tuple(tr.privacy_consumption), "consumption depends on the order")


def cases_default(tier):
    """Events without sampling information cover everybody."""
    for n in range(0, 5):
        for h in itertools.product((True, False), repeat=n):
            yield h


def check_default(ctx, hist):
    tr = PrivacyTracker()
    for n, d in enumerate(hist):
        args = [PrivacyBudget(EPS[n], DEL[n]), MECHS[n % 4], {}]
        if not d:
            args.append(SamplingBucketIndices(0.25, 0.5))
        tr.append(NoisingEvent(*args))
        ctx.state(hist[:n + 1])
    e = sum(EPS[:len(hist)])
    dl = sum(DEL[:len(hist)])
    ctx.eq(tuple(tr.privacy_consumption), (e, dl) if hist else (0.0, 0.0), "total consumption")
    for t in (0.0, 0.125, 0.75, 0.9999):
        ctx.eq(tuple(tr.privacy_consumption_for_sampling_bucket(t)),
               (sum(EPS[n] for n, d in enumerate(hist) if d), sum(DEL[n] for n, d in enumerate(hist) if d)),
               f"consumption at {t}")
    # independent trackers do not share history
    ctx.eq(list(PrivacyTracker().mechanisms), [], "a new tracker is empty")
    ctx.eq(tuple(PrivacyTracker().privacy_consumption), (0.0, 0.0), "a new tracker is empty")


ZERO = [(0.0, 0.0), (0.0, 0.5), (0.25, 0.0), (1.0, 0.125)]
SPANS = [None, (0.0, 1.0), (0.5, 1.0), (0.75, 0.5), (0.25, 0.0)]


def cases_zero(tier):
    one = list(itertools.product(range(len(ZERO)), range(len(SPANS))))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        yield from itertools.product(one, repeat=n)


def check_zero(ctx, hist):
    """Events without epsilon or delta, or for nobody, are still recorded."""
    tr = PrivacyTracker()
    for n, (z, s) in enumerate(hist):
        args = [PrivacyBudget(*ZERO[z]), MECHS[(z + s + n) % 4], {}]
        tr.append(NoisingEvent(*args) if SPANS[s] is None else NoisingEvent(*args, SamplingBucketIndices(*SPANS[s])))
    ctx.state(hist)
    ctx.eq(list(tr.mechanisms), [MECHS[(z + s + n) % 4] for n, (z, s) in enumerate(hist)], "mechanisms in order")
    sums = []
    for t in range(8):
        iv = [(z, SPANS[s] or (0.0, 1.0)) for z, s in hist]
        e = sum(ZERO[z][0] for z, (a, w) in iv if (t / 8 - a) % 1 < w)
        dl = sum(ZERO[z][1] for z, (a, w) in iv if (t / 8 - a) % 1 < w)
        ctx.eq(tuple(tr.privacy_consumption_for_sampling_bucket(t / 8)), (e, dl), f"consumption at {t}/8")
        sums.append((e, dl))
    ctx.eq(tuple(tr.privacy_consumption), (max(e for e, _ in sums), max(d for _, d in sums)), "total consumption")


def cases_interval(tier):
    g = 8 if tier == "quick" else 16
    yield from ((g, a, w) for a in range(g) for w in range(g + 1))


def check_interval(ctx, case):
    g, a, w = case
    iv = SamplingBucketIndices(a / g, w / g)
    for t in range(2 * g):
        ctx.state(t)
        ctx.eq(bool(iv.contains(t / (2 * g))), inside(g, (a, w), t), f"{t}/{2 * g} in [{a}/{g}, +{w}/{g})")


def cases_long(tier):
    """Long histories: tiny and huge budgets, repeated intervals, many events."""
    yield from itertools.product((5, 17, 64, 300), ("same", "tiling", "nested", "wrapping"), ("equal", "tiny", "mixed"))


def check_long(ctx, case):
    n, kind, size = case
    g = 32
    hist = [{"same": (3, 8), "tiling": ((4 * i) % g, 4), "nested": (i % g, g - i % g), "wrapping": ((7 * i) % g, 20)}[kind]
            for i in range(n)]
    bud = [{"equal": (0.5, 2.0 ** -20), "tiny": (2.0 ** -30, 0.0), "mixed": (2.0 ** (i % 11 - 5), 2.0 ** -(i % 7 + 10))}[size]
           for i in range(n)]
    tr, other = PrivacyTracker(), PrivacyTracker()
    for i, (iv, b) in enumerate(zip(hist, bud)):
        tr.append(NoisingEvent(PrivacyBudget(*b), MECHS[i % 4], {}, SamplingBucketIndices(iv[0] / g, iv[1] / g)))
        other.append(NoisingEvent(PrivacyBudget(1.0, 0.5), MECHS[0], {}, SamplingBucketIndices(0.0, 1.0)))
        if i in (0, 3, n // 2, n - 1):  # asked in between as well as at the end
            ctx.state((case, i))
            sums = [[sum(bud[j][c] for j in range(i + 1) if inside(g, hist[j], t)) for c in (0, 1)] for t in range(2 * g)]
            for t in range(2 * g):
                ctx.close(tuple(tr.privacy_consumption_for_sampling_bucket(t / (2 * g))), tuple(sums[t]),
                          f"consumption at {t}/{2 * g} after {i + 1} events", rtol=1e-12, atol=0)
            ctx.close(tuple(tr.privacy_consumption), (max(s[0] for s in sums), max(s[1] for s in sums)),
                      f"total after {i + 1} events", rtol=1e-12, atol=0)
            ctx.eq(list(tr.mechanisms), [MECHS[j % 4] for j in range(i + 1)], "mechanisms")
            ctx.eq(tuple(other.privacy_consumption), (i + 1.0, 0.5 * (i + 1)), "another tracker")


UNITS = [
    Unit("zero", cases_zero, check_zero, "all short histories of events with zero epsilon, zero delta or nobody"),
    Unit("long", cases_long, check_long, "histories of up to 300 events, asked in between", chunk=4),
    Unit("histories", cases_hist, check_hist, "every event history up to length 3 (multisets at length 4) over all grid intervals", chunk=200),
    Unit("default", cases_default, check_default, "histories mixing sampled and unsampled events"),
    Unit("intervals", cases_interval, check_interval, "membership of every grid point in every interval"),
]
