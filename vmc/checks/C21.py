"""Error metrics: every small list of points against exact definitions."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from vmc.core import Unit, Violation, near, show
from vmc import exp, fsutil
from vmc.memfs import MemFs
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate, aggregate_on_exception
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ASSUMPTIONS = [
    "metrics relative to a true reach of zero are not defined: only that the means and variances are not a finite number is required",
    "quantiles interpolate linearly between order statistics; variances are population variances",
]
NAN = float("nan")


# ---- the definitions ------------------------------------------------------------------------------
def mean(xs):
    return sum(xs, F(0)) / len(xs)


def var(xs):
    m = mean(xs)
    return mean([(x - m) ** 2 for x in xs])


def quantile(xs, q):
    s = sorted(xs)
    h = F(q) * (len(s) - 1)
    lo = math.floor(h)
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (h - lo) * (s[hi] - s[lo])


def exact(kplus, k):
    return kplus[k - 1] - kplus[k]


def shuffle(x, y, k=5):
    if len(x) <= k or len(y) <= k:
        return F(1)
    fx, fy = [exact(x, i) for i in range(1, k + 1)], [exact(y, i) for i in range(1, k + 1)]
    if sum(fx) == 0 or sum(fy) == 0:
        return F(1, 2)
    return sum((abs(F(a) / sum(fx) - F(b) / sum(fy)) for a, b in zip(fx, fy)), F(0)) / 2


def expected(xs, ys):
    """{column: exact value, None when it divides by zero, NaN when undefined by convention}"""
    t, m = [F(x[0]) for x in xs], [F(y[0]) for y in ys]
    e = [a - b for a, b in zip(t, m)]
    rel = None if any(a == 0 for a in t) else [d / a for d, a in zip(e, t)]
    ab = None if rel is None else [abs(r) for r in rel]
    out = {
        "npoints": F(len(xs)),
        "mean_error": mean(e),
        "mean_abs_error": mean([abs(d) for d in e]),
        "mean_squared_error": mean([d * d for d in e]),
        "mean_abs_relative_error": None if rel is None else mean(ab),
    }
    for k in range(2, 10):
        c = f"mare_freq_at_least_{k}"
        if any(len(p) < k for p in xs + ys):
            out[c] = NAN
        elif any(x[k - 1] == 0 for x in xs):
            out[c] = None
        else:
            out[c] = mean([abs(F(x[k - 1]) - F(y[k - 1])) / F(x[k - 1]) for x, y in zip(xs, ys)])
    out["mean_squared_relative_error"] = None if rel is None else mean([r * r for r in rel])
    out["var_error"] = var(e)
    out["var_relative_error"] = None if rel is None else var(rel)
    for q in range(10, 100, 10):
        out[f"relative_error_q{q}"] = None if rel is None else quantile(ab, F(q, 100))
    sd = [shuffle([F(v) for v in x], [F(v) for v in y]) for x, y in zip(xs, ys)]
    out["mean_shuffle_distance"] = mean(sd)
    out["mean_squared_shuffle_distance"] = mean([d * d for d in sd])
    out["var_shuffle_distance"] = var(sd)
    return out


def points(lists):
    return [ReachPoint([1], list(l)) for l in lists]


def judge(ctx, xs, ys, what, last=None):
    """`last` is (metric, key): that metric is judged after all others."""
    px, py = points(xs), points(ys)
    with np.errstate(all="ignore"):
        df = aggregate(px, py)
    want = expected([list(x) for x in xs], [list(y) for y in ys])
    ctx.eq(len(df), 1, f"{what}: rows")
    row = dict(zip(df.columns, next(df.itertuples(index=False, name=None))))
    ctx.eq(sorted(row), sorted(list(want) + ["model_succeeded", "model_exception"]), f"{what}: columns")
    ctx.eq([int(row["model_succeeded"]), str(row["model_exception"])], [1, "None"], f"{what}: marked as successful")
    small = any(0 < v < 1e-3 for p in xs for v in p)
    for c, w in sorted(want.items(), key=lambda x: bool(last) and x[0] == last[0]):
        v = float(row[c])
        if w is None and c.startswith("relative_error_q"):
            continue  # a quantile may lie among the points that are defined
        if w is None:
            ctx.true(not math.isfinite(v), f"{what}: {c} divides by a true reach of zero, got {v}")
        elif isinstance(w, float):
            ctx.true(math.isnan(v), f"{what}: {c} is undefined, got {v}")
        else:
            ctx.true(near(v, float(w), 1e-9, min(1e-12, abs(float(w)) * 1e-3 + 1e-30) if small else 1e-12), f"{what}: {c}: expected {float(w)}, got {v}",
                     key=last[1] if last and c == last[0] else "")
    for p, l in zip(px + py, list(xs) + list(ys)):
        ctx.eq([p.reach(k + 1) for k in range(len(l))], list(l), f"{what}: the points themselves")
    return row


# ---- units ------------------------------------------------------------------------------------------
def kplus(alphabet, n):
    return [t for t in itertools.product(alphabet, repeat=n) if all(a >= b for a, b in zip(t, t[1:]))]


def cases_one(tier):
    # one pair of points, every pair of frequency ranges
    for a in range(1, 11):
        for b in range(1, 11):
            yield ("ranges", a, b)
    for x in kplus((0, 1, 3), 6):
        yield ("shapes", x)
    for x in (kplus((0, 2, 3), 7) if tier == "thorough" else []):
        yield ("shapes", x)


def check_one(ctx, case):
    if case[0] == "ranges":
        _, a, b = case
        for x in ([tuple(range(20, 20 - a, -1)), tuple([5] * a), tuple([7] + [0] * (a - 1))]):
            for y in ([tuple(range(19, 19 - b, -1)), tuple([5] * b), tuple([0] * b), tuple([8] + [2] * (b - 1))]):
                ctx.state((x, y))
                judge(ctx, [x], [y], f"true {x}, modeled {y}")
    else:
        for y in kplus((0, 1, 3), 6):
            ctx.state((case[1], y))
            judge(ctx, [case[1]], [y], f"true {case[1]}, modeled {y}")


def cases_lists(tier):
    vals = (0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 5, 8)
    for n in (1, 2, 3):
        for t in itertools.product(vals, repeat=n):
            yield t


def check_lists(ctx, t):
    """All lists of true and modeled reaches; the order of the points does not matter."""
    vals = (0, 1, 2.5, 5, 9)
    for m in itertools.product(vals, repeat=len(t)):
        xs, ys = [(a,) for a in t], [(b,) for b in m]
        ctx.state((t, m))
        row = judge(ctx, xs, ys, f"true {t}, modeled {m}")
        if list(zip(t, m)) == sorted(zip(t, m)) and len(t) == 3:
            for perm in list(itertools.permutations(range(3)))[1:]:
                other = judge(ctx, [xs[i] for i in perm], [ys[i] for i in perm], f"permuted {perm}: true {t}, modeled {m}")
                for c in row:
                    ctx.true(str(row[c]) == str(other[c]) or near(float(row[c]), float(other[c])), f"true {t}, modeled {m}: {c} depends on the order")


DEEP = [(10,) * 10, (10, 8, 6, 5, 4, 3, 2, 1, 1, 1), (9, 9, 3, 0, 0, 0, 0, 0, 0, 0), (6, 5, 4, 3, 2, 1), (7, 3), (12, 7, 5, 3, 2, 2, 1, 1, 1),
        (0,) * 10, (4, 4, 4, 4, 4, 4, 3, 2, 1, 0)]


def cases_deep(tier):
    for t in itertools.product(range(len(DEEP)), repeat=2):
        yield t
    if tier == "thorough":
        yield from itertools.product(range(len(DEEP)), repeat=3)


def check_deep(ctx, t):
    for m in itertools.product(range(len(DEEP)), repeat=len(t)):
        xs, ys = [DEEP[i] for i in t], [DEEP[i] for i in m]
        ctx.state((t, m))
        row = judge(ctx, xs, ys, f"true {xs}, modeled {ys}")
        if t == m and all(x[0] for x in xs):
            for c in row:
                if ("error" in c or "mare" in c) and c != "model_exception":
                    v = float(row[c])
                    ctx.true(v == 0 or (c.startswith("mare") and math.isnan(v)), f"perfect model on {xs}: {c} is {v}")


def cases_big(tier):
    for n in (4, 5, 7, 11, 30):
        for k in range(4):
            yield (n, k, 1)
    for n in (1, 2, 5, 101, 250):
        for scale in (1, 2.0 ** -40, 1e7):
            yield (n, 1, scale)


def check_big(ctx, case):
    """Longer lists with distinct errors: quantiles, signs and magnitudes."""
    n, k, scale = case
    true = [[((100 + 13 * i * (k + 1)) * 1000 - 700 * j) * scale for j in range(7)] for i in range(n)]
    mod = [[v * (1 + ((-1) ** (i + k)) * 0.01 * ((i * 7 + k) % n + 1)) for v in l] for i, l in enumerate(true)]
    ctx.state(case)
    judge(ctx, true, mod, f"{case}")
    judge(ctx, mod, true, f"{case} exchanged")


def cases_whole(tier):
    yield from itertools.product((1, 2, 5), (1, 1000, 4 * 10 ** 5, 10 ** 7))


def check_whole(ctx, case):
    """Whole numbers of people, up to billions."""
    n, scale = case
    true = [[(2000 + 130 * i - 7 * j) * scale for j in range(7)] for i in range(n)]
    mod = [[v + (-1) ** i * (i + 1) * (v // 100) for v in l] for i, l in enumerate(true)]
    ctx.state(case)
    last = ("mean_squared_relative_error", "whole-overflow") if true[-1][0] > 3 * 10 ** 9 else None
    judge(ctx, true, mod, f"{case}", last)


def cases_failed(tier):
    for msg in ("boom", "", "two\nlines, \"quoted\"", "None"):
        yield msg


def check_failed(ctx, msg):
    good = aggregate(points([(3, 2)]), points([(2, 1)]))
    bad = aggregate_on_exception(msg)
    ctx.state(msg)
    ctx.eq(list(bad.columns), list(good.columns), "columns of a failed row")
    row = dict(zip(bad.columns, next(bad.itertuples(index=False, name=None))))
    ctx.eq([len(bad), int(row["model_succeeded"]), row["model_exception"]], [1, 0, msg], "marks of a failed row")
    for c in bad.columns[2:]:
        ctx.true(math.isnan(float(row[c])), f"failed row: {c} is undefined")


# ---- the single publisher analysis ------------------------------------------------------------------
FRACTIONS = [(f"{10 * i:03d}", i / 10) for i in range(1, 31)]


class Surface:
    """A fitted model with prescribed k+ reach: scale * true reach, recorded queries."""

    def __init__(self, fn, data):
        self.fn, self._data = fn, data

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([0], self.fn(float(spends[0]), max_frequency), list(spends))

    def by_impressions(self, impressions, max_frequency=1):
        raise Violation("the model is asked by impressions")


def cases_single(tier):
    for freq in range(1, 7):
        for frac in (0.1, 0.3, 1 / 3, 0.625, 1.0):
            for shape in ("exact", "double", "halves", "zero"):
                for halo in ((5, 3, 0), (4,), (9, 8, 7, 6, 5, 4), (2, 0, 0)):
                    if tier == "quick" and halo != (5, 3, 0) and (shape != "double" or frac != 0.625):
                        continue
                    yield (freq, frac, shape, halo)


def check_single(ctx, case):
    """The analysis columns of a real trial whose model is prescribed."""
    freq, frac, shape, halo = case
    log = sorted(exp.log(1, 0), key=lambda e: e[1])
    # the campaign is at most a third of the inventory at frac 1/3, so that all multiples differ
    campaign = frac * log[-1][1]

    def true(spend, k):
        c = {}
        for u, p in log:
            if p <= spend:
                c[u] = c.get(u, 0) + 1
        return sum(1 for v in c.values() if v >= k)

    def fn(spend, top):
        ks = [true(spend, k) for k in range(1, top + 1)]
        return {"exact": ks, "double": [2 * v + 1 for v in ks], "halves": [v / 2 for v in ks], "zero": [0.0] * top}[shape]

    from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

    fs = MemFs(dirs={"/w"})
    root = exp.write_design("/data", fs, (("a", 1),))
    t = exp.trial("single", "grid", fracs=lambda ds: [frac] * ds.publisher_count, freq=freq)
    surface = Surface(fn, [ReachPoint([1], list(halo), [1.0])])
    with exp.patched(SinglePublisherStrategy, "fit", lambda orig: (lambda self, *a, **k: surface)):
        df = exp.design(root, "/w/exp", fs, [t], analysis_type="single_pub").load()
    rows = exp.rows(df)
    ctx.eq(len(rows), 1, f"{case}: rows")
    r = rows[0]
    ctx.eq(r["model_succeeded"], 1, f"{case}: the trial succeeded ({exp.reason(r['model_exception'])})")

    def want(rat, k):
        s = campaign * rat
        tr = true(s, k)
        if any(abs(p - s) < 1e-9 * max(1.0, s) for _, p in log):
            # a spend on a price: either side may be taken
            return sorted({err(k, s - 1e-6), err(k, s + 1e-6)}, key=str)
        return [err(k, s)]

    def err(k, s):
        tr = true(s, k)
        return "" if tr == 0 else abs(tr - fn(s, k)[k - 1]) / tr

    names = set()
    for label, rat in FRACTIONS:
        for c, k in [(f"relative_error_at_{label}", 1)] + [(f"freq_{f}_relative_error_at_{label}", f) for f in range(1, freq)]:
            ctx.true(c in r, f"{case}: column {c}")
            names.add(c)
            ctx.state((case, c))
            ok = want(rat, k)
            ctx.true(any((r[c] == "" and w == "") or (w != "" and r[c] != "" and near(float(r[c]), w, 1e-6, 1e-9)) for w in ok),
                     f"{case}: {c}: expected {ok}, got {r[c]!r}")
    got = [c for c in r if "relative_error_at_" in c]
    ctx.eq(sorted(got), sorted(names), f"{case}: analysis columns")
    ctx.eq(int(r["max_nonzero_frequency_from_halo"]), max(i + 1 for i, v in enumerate(halo) if v), f"{case}: frequencies measured")
    full = [true(campaign + 1e-9, k) for k in range(1, freq + 1)]
    ctx.eq(int(r["max_nonzero_frequency_from_data"]), max(i + 1 for i, v in enumerate(full) if v), f"{case}: frequencies in the data")


UNITS = [
    Unit("one", cases_one, check_one, "one pair of points: all frequency ranges 1..10 x 1..10, all histograms over a small alphabet", chunk=1, timeout=300),
    Unit("lists", cases_lists, check_lists, "all lists of up to three true and modeled reaches, in every order", chunk=1, timeout=300),
    Unit("deep", cases_deep, check_deep, "all pairs (thorough: triples) of points with up to ten frequencies", chunk=1, timeout=600),
    Unit("big", cases_big, check_big, "longer lists", chunk=1),
    Unit("whole", cases_whole, check_whole, "whole reaches up to billions", chunk=1),
    Unit("failed", cases_failed, check_failed, "rows of failed trials", chunk=1),
    Unit("single", cases_single, check_single, "single publisher analysis of real trials with prescribed models", chunk=2, timeout=300),
]
