"""Reach point algebra over all small k+ lists and user-count dictionaries."""
import itertools

from vmc.core import Unit, Violation, plain
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ASSUMPTIONS = ["k+ lists are non-empty"]


def cases_points(tier):
    top, ln = (4, 5) if tier == "quick" else (5, 6)
    for n in range(1, ln + 1):
        for k in itertools.combinations_with_replacement(range(top, -1, -1), n):
            for u in (None, 0, 7):
                yield (k, u)
    # arbitrary (noisy, fractional) lists too: the views are still differences
    for n in range(1, 4):
        for k in itertools.product((0, 3, -1, 2.5), repeat=n):
            yield (k, 4)
            yield (k, None)


def check_points(ctx, case):
    k, u = case
    n = len(k)
    for src in (list(k), tuple(k)):
        imps = [n, 2]
        spends = [0.5, 1.5]
        kw = {} if u is None else {"universe_size": u}
        keep = type(src)(src)
        rp = ReachPoint(imps, src, spends, **kw)
        ctx.state((case, type(src).__name__))
        ctx.eq(rp.max_frequency, n, "max frequency")
        ctx.eq([rp.reach(i) for i in range(1, n + 1)], list(k), "k+ reaches")
        ctx.eq(rp.reach(), k[0], "default reach is 1+")
        freq = [k[i] - k[i + 1] for i in range(n - 1)]
        ctx.eq(list(rp.frequencies), freq, "frequencies")
        ctx.eq([rp.frequency(i) for i in range(1, n)], freq, "frequency(i)")
        if n > 1:
            ctx.eq(rp.frequency(), freq[0], "default frequency is 1")
        ctx.eq(list(rp.frequencies_with_kplus_bucket), freq + [k[-1]], "frequencies with the top bucket")
        ctx.eq(list(rp.impressions), imps, "impressions")
        ctx.eq(list(rp.spends), spends, "spends")
        for bad in (-1, 0, n + 1, n + 2, 99):
            ctx.raises(ValueError, lambda: rp.reach(bad), f"reach({bad}) of {n}")
        for bad in (-1, 0, n, n + 1, 99):
            ctx.raises(ValueError, lambda: rp.frequency(bad), f"frequency({bad}) of {n}")
        if u is None:
            ctx.raises(ValueError, lambda: rp.universe_size, "unknown universe size")
            ctx.raises(ValueError, lambda: rp.zero_included_histogram, "histogram without universe size")
        else:
            ctx.eq(rp.universe_size, u, "universe size")
            h = list(rp.zero_included_histogram)
            ctx.eq(h, [u - k[0]] + freq + [k[-1]], "histogram including unreached people")
            ctx.close(sum(h), u, "histogram total")
        # asking twice gives the same, and views do not disturb each other
        ctx.eq(list(rp.frequencies_with_kplus_bucket), freq + [k[-1]], "second look")
        ctx.eq(list(rp.frequencies), freq, "second look at frequencies")
        ctx.eq([rp.reach(i) for i in range(1, n + 1)], list(k), "second look at k+ reaches")
        ctx.eq(src, keep, "input altered")
        if isinstance(src, list):
            back = ReachPoint.frequencies_to_kplus_reaches(list(rp.frequencies_with_kplus_bucket))
            ctx.close(list(back), list(k), "frequencies convert back to the k+ reaches")
            src[0] = 99
            ctx.eq(rp.reach(1), k[0], "the point shares the caller's list")
            ctx.eq(list(rp.frequencies_with_kplus_bucket), freq + [k[-1]], "the point shares the caller's list")
            imps[0], spends[0] = 77, 77.0
            ctx.eq([list(rp.impressions), list(rp.spends)], [[n, 2], [0.5, 1.5]], "the point shares the caller's vectors")
    ctx.true(ReachPoint([1], k).spends is None, "spends default")


def cases_dims(tier):
    yield from itertools.product(range(1, 4), range(0, 4))


def check_dims(ctx, case):
    a, b = case
    ctx.state(case)
    imps, spends = list(range(a)), [0.5 * i for i in range(b)]
    if b == 0:
        ctx.true(ReachPoint(imps, [1], spends).spends is None, "no spends")
    elif a == b:
        rp = ReachPoint(imps, [1], spends)
        ctx.eq([list(rp.impressions), list(rp.spends)], [imps, spends], "recorded vectors")
    else:
        ctx.raises(ValueError, lambda: ReachPoint(imps, [1], spends), "lengths differ")


def cases_freq(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        yield from itertools.product(range(0, 4), repeat=n)


def check_freq(ctx, freq):
    src = list(freq)
    out = ReachPoint.frequencies_to_kplus_reaches(src)
    ctx.state(freq)
    ctx.eq(list(out), [sum(freq[i:]) for i in range(len(freq))], "k+ from frequencies")
    ctx.eq(src, list(freq), "input altered")
    if isinstance(out, list) and out:
        out[0] += 1
        ctx.eq(src, list(freq), "the result shares the caller's list")


def cases_counts(tier):
    top, users = (6, 4) if tier == "quick" else (8, 4)
    for n in range(0, users + 1):
        yield from itertools.combinations_with_replacement(range(1, top + 1), n)


def check_counts(ctx, counts):
    d = {100 + 7 * i: c for i, c in enumerate(counts)}
    keep = dict(d)
    for f in range(1, 8):
        ctx.state(f)
        kp = [sum(1 for c in counts if c >= k) for k in range(1, f + 1)]
        fr = [sum(1 for c in counts if c == k) for k in range(1, f)] + [kp[-1]]
        ctx.eq(list(ReachPoint.user_counts_to_frequencies(d, f)), fr, f"frequencies, cap {f}")
        ctx.eq(list(ReachPoint.user_counts_to_kplus_reaches(d, f)), kp, f"k+ reaches, cap {f}")
        rp = ReachPoint([1], ReachPoint.user_counts_to_kplus_reaches(d, f), None, 50)
        ctx.eq(list(rp.zero_included_histogram), [50 - len(counts)] + fr, f"histogram, cap {f}")
    ctx.eq(d, keep, "input altered")


VIEWS = ("reach", "freq", "top", "hist", "frequency", "universe")


def cases_views(tier):
    """Every order of looking at the views of two points."""
    for order in itertools.permutations(VIEWS):
        yield order
    yield from itertools.product(VIEWS, repeat=3)


def check_views(ctx, order):
    ctx.state(order)
    data = [((9, 4, 4, 1), 12), ((5, 2, 0), 5)]
    points = [ReachPoint([3], list(k), [1.0], u) for k, u in data]
    for v in order:
        for (k, u), rp in zip(data, points):
            freq = [a - b for a, b in zip(k, k[1:])]
            want = {"reach": list(k), "freq": freq, "top": freq + [k[-1]], "hist": [u - k[0]] + freq + [k[-1]],
                    "frequency": freq, "universe": u}[v]
            got = {"reach": lambda: [rp.reach(i + 1) for i in range(len(k))], "freq": lambda: list(rp.frequencies),
                   "top": lambda: list(rp.frequencies_with_kplus_bucket), "hist": lambda: list(rp.zero_included_histogram),
                   "frequency": lambda: [rp.frequency(i + 1) for i in range(len(k) - 1)],
                   "universe": lambda: rp.universe_size}[v]()
            ctx.eq(got, want, f"{v} after {order}")


def cases_large(tier):
    yield from itertools.product((1, 2, 10, 11, 40), (1, 1000, 10 ** 10))


def check_large(ctx, case):
    n, scale = case
    ctx.state(case)
    freq = [scale * ((i * 7) % 5) for i in range(n)]
    k = [sum(freq[i:]) for i in range(n)]
    ctx.eq(list(ReachPoint.frequencies_to_kplus_reaches(list(freq))), k, "k+ from frequencies")
    rp = ReachPoint([scale], k, [0.1], 7 * k[0] + 1)
    ctx.eq(list(rp.frequencies_with_kplus_bucket), freq, "frequencies")
    ctx.eq(list(rp.zero_included_histogram), [6 * k[0] + 1] + freq, "histogram")
    ctx.eq([rp.reach(i + 1) for i in range(n)], k, "k+ reaches")
    counts = {u: 1 + (u * u) % (n + 3) for u in range(500)}
    for f in (1, 2, n, n + 1, n + 5, 60):
        got = [sum(1 for c in counts.values() if c >= j) for j in range(1, f + 1)]
        ctx.eq(list(ReachPoint.user_counts_to_kplus_reaches(counts, f)), got, f"k+ of 500 users, cap {f}")
        ctx.eq(list(ReachPoint.user_counts_to_frequencies(counts, f)), [a - b for a, b in zip(got, got[1:])] + [got[-1]],
               f"frequencies of 500 users, cap {f}")


UNITS = [
    Unit("views", cases_views, check_views, "every order of views of two points", chunk=50),
    Unit("large", cases_large, check_large, "long frequency lists and large counts"),
    Unit("points", cases_points, check_points, "every k+ list up to length 5 with and without universe size", chunk=50),
    Unit("dimensions", cases_dims, check_dims, "every pair of vector lengths"),
    Unit("frequencies", cases_freq, check_freq, "every frequency list", chunk=100),
    Unit("counts", cases_counts, check_counts, "every user-count multiset, every cap", chunk=50),
]
