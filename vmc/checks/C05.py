"""Single-publisher curves: every training point of a grid, every optimizer
outcome of a grid, every short query history."""
import copy
import itertools

import numpy as np
from scipy import stats

from vmc import optim
from vmc.core import Unit, Violation, near, plain
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    DiracMixtureSinglePublisherModel,
)
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import (
    GroundTruthReachCurveModel,
)
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import (
    KInflatedGammaPoissonModel,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ASSUMPTIONS = [
    "a model is queried after _fit(), as the modeling strategies do",
    "the numeric optimizer may return any parameters inside its bounds (explored on a grid); "
    "tolerance 1e-6 of the audience for floating point",
    "frequencies above 1000 are negligible for the explored parameters",
]


def kp(rp):
    return [float(rp.reach(i)) for i in range(1, rp.max_frequency + 1)]


def spend_of(rp):
    return None if rp.spends is None else list(rp.spends)


def observe(m, q):
    how, x, f = q
    rp = m.by_impressions([x], f) if how == "i" else m.by_spend([x], f)
    return kp(rp), [float(v) for v in rp.impressions], spend_of(rp)


def check_curve(ctx, m, train_i, cpi, scale, ceiling, integral=False, conserve=True,
                thin=True, far=True, maxf=4, hist=(2, 3)):
    """All laws of a fitted curve, for every query of a grid and every short history."""
    tol = 1e-6 * max(scale, 1.0)
    step_tol = 1.0 + tol if integral else tol
    grid = [0, 1, 0.3 * train_i, train_i, 1.7 * train_i, 3 * train_i]
    if far:
        grid += [20 * train_i, 1000 * train_i]
    grid = sorted(set(grid))
    table = {}
    for i in grid:
        rows = []
        for f in range(1, maxf + 1):
            rp = m.by_impressions([i], f)
            k = kp(rp)
            ctx.state((ctx.case, i, f))
            ctx.eq(len(k), f, f"number of frequencies at {i}")
            ctx.eq([float(v) for v in rp.impressions], [float(i)], "reported impressions")
            ctx.true(all(np.isfinite(k)), f"finite reach at {i}: {k}")
            ctx.true(min(k) >= -tol, f"reach at {i} is negative: {k}")
            ctx.true(all(a >= b - tol for a, b in zip(k, k[1:])), f"k+ reach grows with k at {i}: {k}")
            ctx.true(k[0] <= ceiling + tol, f"reach {k[0]} at {i} exceeds the maximum {ceiling}")
            if conserve:
                ctx.true(k[0] <= i + tol, f"reach {k[0]} exceeds the {i} impressions")
            if cpi:
                ctx.close(spend_of(rp), [i * cpi], f"spend reported for {i}", rtol=1e-9)
            else:
                ctx.true(not rp.spends, "a spend is reported although the cost is unknown")
            rows.append(k)
        full = rows[-1]
        for k in rows:
            ctx.true(all(abs(a - b) <= step_tol for a, b in zip(k, full)),
                     f"lower frequencies depend on the maximum frequency at {i}: {rows}")
        table[i] = full
    ctx.close(table[0], [0.0] * maxf, "reach without impressions", atol=tol)
    for a, b in zip(grid, grid[1:]):
        ctx.true(all(x <= y + tol for x, y in zip(table[a], table[b])),
                 f"reach decreases from {a} to {b} impressions: {table[a]} -> {table[b]}")
    # spend <-> impressions
    if cpi:
        for i in grid:
            s = i * cpi
            ctx.close(m.impressions_for_spend(s), i, f"impressions for spend {s}", rtol=1e-9)
            rp = m.by_spend([s], maxf)
            ctx.close(kp(rp), table[i], f"by spend {s} differs from by impressions {i}",
                      rtol=1e-7, atol=step_tol if integral else tol)
            ctx.close(spend_of(rp), [s], "spend of a query by spend", rtol=1e-9)
            ctx.close([float(v) for v in rp.impressions], [i], "impressions of a query by spend", rtol=1e-9)
        # spends that buy no whole number of impressions
        for x in ((1 / 3,) if hist == (2,) else (1e-6, 4e-4, 1 / 3, train_i / 7)):
            s = x * cpi
            rp, want = m.by_spend([s], 2), m.by_impressions([x], 2)
            ctx.close(m.impressions_for_spend(s), x, f"impressions for spend {s}", rtol=1e-9)
            ctx.close([float(v) for v in rp.impressions], [x], f"impressions of a query by spend {s}", rtol=1e-9)
            ctx.close([float(v) for v in want.impressions], [x], f"reported impressions {x}", rtol=1e-9)
            ctx.close(spend_of(rp), [s], f"spend of a query by spend {s}", rtol=1e-9)
            ctx.close(spend_of(want), [s], f"spend reported for {x}", rtol=1e-9)
            ctx.close(kp(rp), kp(want), f"by spend {s} differs from by impressions {x}",
                      rtol=1e-7, atol=step_tol if integral else 1e-9 * x)
    else:
        ctx.raises(ValueError, lambda: m.by_spend([1.0], 1), "by_spend without a cost")
        ctx.raises(ValueError, lambda: m.impressions_for_spend(1.0), "impressions_for_spend without a cost")
    for bad in ([], [1, 2], [1, 2, 3]):
        ctx.raises(ValueError, lambda: m.by_impressions(bad, 1), f"impressions {bad}")
        if cpi:
            ctx.raises(ValueError, lambda: m.by_spend(bad, 1), f"spends {bad}")
    # the k+ reaches add up to the impressions bought, until the inventory is exhausted
    F = 60
    if conserve or thin:
        big = {i: kp(m.by_impressions([i], F)) for i in grid if i}
    if conserve:
        fine = {i: v for i, v in big.items() if v[-1] <= 1e-7 * scale}
        if len(fine) == len(big) and far:
            cap = sum(big[grid[-1]])
            for i, v in fine.items():
                ctx.close(sum(v), min(i, cap), f"k+ reaches at {i} add up to the impressions",
                          rtol=1e-5, atol=10 * tol)
        else:
            for i, v in fine.items():
                ctx.true(sum(v) <= i * (1 + 1e-6) + tol, f"more views than impressions at {i}")
    # the reaches at two budgets belong to one population (binomial thinning)
    if thin:
        usable = [i for i in grid if i >= 1 and big[i][-1] <= 1e-7 * scale
                  and (not conserve or abs(sum(big[i]) - i) <= 1e-5 * i)]
        n = np.arange(1, F + 1)
        for a, b in itertools.combinations(usable, 2):
            v = big[b] + [0.0]
            h = np.array([v[j] - v[j + 1] for j in range(F)])
            want = [float(np.sum(h * stats.binom.sf(k - 1, n, a / b))) for k in (1, 2, 3)]
            ctx.close(big[a][:3], want, f"reaches at {a} of {b} impressions are not a thinned population",
                      rtol=1e-4, atol=(200.0 if integral else 100 * tol))
    # histories: the answers do not depend on what was asked before
    qs = [("i", train_i, 2), ("i", 0.3 * train_i, 1), ("i", (1000 if far else 3) * train_i, 3)]
    if cpi:
        qs.append(("s", 1.7 * train_i * cpi, 2))
    base = [observe(copy.deepcopy(m), q) for q in qs]
    for n in hist:
        for h in itertools.product(range(len(qs)), repeat=n):
            if n == 3 and len(set(h)) < 3:
                continue
            c = copy.deepcopy(m)
            got = None
            for j in h:
                got = observe(c, qs[j])
            ctx.close(got, base[h[-1]], f"answer to {qs[h[-1]]} after {[qs[j] for j in h[:-1]]}", rtol=1e-9)
    ctx.close(m.max_reach if hasattr(m, "_max_reach") else ceiling, ceiling, "maximum reach after queries")


# ---- Goerg ---------------------------------------------------------------
def cases_goerg(tier):
    vals = (0.5, 1, 2, 3, 7, 10, 100, 12345) if tier == "quick" else (0.002, 0.5, 1, 2, 3, 5, 7, 10, 64, 100, 999, 12345, 10**9)
    for i in vals:
        for r in (0,) + vals:
            for c in (None, 0.0, 0.25, 3.0):
                yield (i, r, c)


def check_goerg(ctx, case):
    i, r, c = case
    mk = lambda: GoergModel([ReachPoint([i], [r], None if c is None else [i * c])])
    if i <= r:
        ctx.raises(ValueError, mk, "impressions do not exceed reach")
        return
    m = mk()
    rho = i * r / (i - r)
    ctx.close(m.max_reach, rho, "maximum reach")
    ctx.close(m.by_impressions([i]).reach(), r, "training reach is reproduced")
    if r == 0:
        for x in (0, 0.0, 1, i, 2 * i):
            for f in (1, 3):
                ctx.eq(kp(m.by_impressions([x], f)), [0.0] * f, f"a curve that reaches nobody, at {x}")
        return
    check_curve(ctx, m, i, c, rho, rho, maxf=5)
    for x in (0, 1, i / 3, i, 4 * i, 1e6 * i):
        for f in (1, 2, 5):
            q = x / (x + rho)
            ctx.close(kp(m.by_impressions([x], f)), [rho * q**k for k in range(1, f + 1)], f"curve at {x}",
                      atol=1e-9 * rho)


# ---- k-inflated Gamma-Poisson, single frequency (closed form fit) ----------
def cases_k1(tier):
    vals = (1, 2, 3, 10, 50, 1000) if tier == "quick" else (1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 333, 1000, 20000)
    for i in vals:
        rs = sorted({1, max(1, i // 10), max(1, i // 3), max(1, i // 2), max(1, (9 * i) // 10), max(1, i - 1), i})
        for r in rs:
            for c in (None, 0.5):
                for mult in (1.0, 3.0):
                    yield (i, r, c, mult)
    for i, r in ((100000, 30000), (3 * 10**6, 10**6), (3 * 10**6, 2 * 10**5)):
        yield (i, r, 0.5, 1.0)


def check_k1(ctx, case):
    i, r, c, mult = case
    m = KInflatedGammaPoissonModel([ReachPoint([i], [r], None if c is None else [i * c])],
                                   extrapolation_multiplier=mult)
    m._fit()
    N = float(m.max_reach)
    ctx.true(N >= r * (1 - 1e-9), f"audience {N} below the training reach {r}")
    # a user sees at most 1000 impressions in the model; beyond that it cannot match
    if mult == 1.0 and i <= 20 * r:
        ctx.close(m.by_impressions([i]).reach(), r, "training reach is reproduced", rtol=1e-6)
    check_curve(ctx, m, i, c, N, N)


# ---- every outcome of the optimizer ---------------------------------------
HISTS = [(82, 32, 12, 2), (10, 0), (5, 5, 0), (300, 100, 40, 10, 3), (7, 6, 5)]
OUTCOMES = [(a, b, n) for a in (1e-4, 0.3, 1.0, 4.0) for b in (1e-4, 0.5, 2.0) for n in (1.0, 1.3, 20.0)]


def cases_gp(tier):
    if tier == "quick":  # each query of this model is slow
        for o in OUTCOMES[::2]:
            yield (HISTS[0], 1.0, o, 0.5, 0)
        for o in OUTCOMES[1::9]:
            yield (HISTS[1], 1.0, o, None, 0)
            yield (HISTS[0], 1.5, o, 0.5, int(1.5 * HISTS[0][0]))
        return
    hs = HISTS
    for h in hs:
        for mult in (1.0, 1.5):
            for o in OUTCOMES if mult == 1.0 else OUTCOMES[::5]:
                for c in (None, 0.5):
                    yield (h, mult, o, c, 0)
        for o in OUTCOMES:
            yield (h, 1.0, o, None, int(1.5 * h[0]))


def check_gp(ctx, case):
    h, mult, (alpha, beta, nf), c, max_reach = case
    i = int(mult * sum(h))
    pt = ReachPoint([i], h, None if c is None else [i * c])

    def hook(fun, x0, *args, **kw):
        if len(x0) == 2:
            return optim.Outcome([alpha, beta])
        if len(x0) == 3:
            return optim.Outcome([alpha, beta, nf * h[0]])
        return None

    kw = {"max_reach": max_reach} if max_reach else {}
    m = GammaPoissonModel([pt], **kw)
    with optim.outcomes(hook):
        m._fit()
    N = float(m.max_reach)
    ctx.close(N, max_reach or nf * h[0], "audience size is the fitted (or given) one", rtol=1e-9)
    check_curve(ctx, m, i, c, N, N, maxf=3, hist=(2,))


def cases_k(tier):
    hs = HISTS[:2] if tier == "quick" else HISTS
    for h in hs:
        for o in OUTCOMES:
            for a in ((), (0.2,), (0.5, 0.3), (0.9, 0.9)):
                for mult in (1.0,) if tier == "quick" else (1.0, 1.5):
                    yield (h, mult, o, a, 0.5 if len(a) % 2 else None)


def check_k(ctx, case):
    h, mult, (alpha, beta, nf), a, c = case
    i = int(mult * sum(h))
    pt = ReachPoint([i], h, None if c is None else [i * c])

    def hook(fun, x0, *args, **kw):
        k = len(x0) - 3
        if k < 0:
            return None
        return optim.Outcome([alpha, beta, nf * h[0]] + list((list(a) + [0.0] * k)[:k]))

    m = KInflatedGammaPoissonModel([pt], kmax=len(a))
    with optim.outcomes(hook):
        m._fit()
    N = float(m.max_reach)
    ctx.close(N, nf * h[0], "audience size is the fitted one", rtol=1e-9)
    check_curve(ctx, m, i, c, N, N)


# ---- Dirac mixture ---------------------------------------------------------
def cases_dirac(tier):
    vals = (0, 1, 4) if tier == "quick" else (0, 1, 2, 5)
    for n in (2, 3):
        for hist in itertools.product(vals, repeat=n + 1):
            if sum(hist[1:]) == 0:
                continue
            for nc in (3, 12):
                yield (hist, nc, 1.0, 0.5 if sum(hist) % 2 else None)
            if tier != "quick":
                yield (hist, 25, 1.3, 0.5)
    for s in (1, 50, 10 ** 9):  # tiny and very large universes
        for hist in ((4, 1, 1), (1, 4, 1), (0, 1, 4), (4, 0, 1, 1)):
            yield (hist, 12, 1.0, 0.5, s)


def check_dirac(ctx, case):
    hist, nc, mult, c = case[:4]
    s = case[4] if len(case) > 4 else 100000
    f = [x * s for x in hist]
    kplus = [sum(f[j:]) for j in range(1, len(f))]
    i = int(mult * sum(j * x for j, x in enumerate(f)))
    m = DiracMixtureSinglePublisherModel(
        [ReachPoint([i], kplus, None if c is None else [i * c], universe_size=sum(f))], ncomponents=nc)
    m._fit()
    check_curve(ctx, m, i, c, sum(f), sum(f), integral=True, conserve=False, thin=True)
    for q in (0, i, 3 * i):
        for fmax in (1, 3):
            ctx.true(all(float(v) == int(v) for v in kp(m.by_impressions([q], fmax))), "whole people")


# ---- the real optimizer ----------------------------------------------------
def cases_real(tier):
    # (model, k+ reaches, impressions multiplier, options)
    yield ("K", (82, 32, 12, 2), 1.0)
    yield ("K", (10, 0), 1.0)
    yield ("G", (82, 32, 12, 2), 1.0)
    yield ("GN", (82, 32, 12, 2), 1.0)
    yield ("GN", (30, 20, 10), 1.2)
    yield ("GN", (10, 0), 1.0)
    if tier != "quick":
        for h in HISTS:
            for mult in (1.0, 1.5):
                for mod in ("K", "G", "GN"):
                    yield (mod, h, mult)


def check_real(ctx, case):
    mod, h, mult = case
    i = int(mult * sum(h))
    pt = ReachPoint([i], h, [i * 0.5])
    if mod == "K":
        m = KInflatedGammaPoissonModel([pt], kmax=3)
    elif mod == "G":
        m = GammaPoissonModel([pt])
    else:
        m = GammaPoissonModel([pt], max_reach=int(1.5 * h[0]))
    m._fit()
    N = float(m.max_reach)
    ctx.true(N >= h[0] * (1 - 1e-6), "audience below the training reach")
    check_curve(ctx, m, i, 0.5, N, N)


# ---- ground truth curve ------------------------------------------------------
def cases_truth(tier):
    logs = []
    for n in range(1, 4 if tier == "quick" else 5):
        for ids in itertools.product((1, 2), repeat=n):
            logs.append(tuple((u, float(j + 1)) for j, u in enumerate(ids)))
    other = ((1, 1.0), (3, 1.5), (3, 2.0))
    for lg in logs:
        for idx in (0, 1):
            yield (lg, other, idx)


def check_truth(ctx, case):
    lg, other, idx = case
    ds = DataSet([PublisherData(list(lg), "a"), PublisherData(list(other), "b")], "d")
    mine = (lg, other)[idx]
    m = GroundTruthReachCurveModel(ds, idx)
    ctx.eq(m.max_reach, len({u for u, _ in mine}), "maximum reach")
    for f in (1, 2, 3):
        for n in range(0, len(mine) + 1):
            cnt = {}
            for u, _ in mine[:n]:
                cnt[u] = cnt.get(u, 0) + 1
            want = [sum(1 for v in cnt.values() if v >= k) for k in range(1, f + 1)]
            ctx.state((case, n, f))
            rp = m.by_impressions([n], f)
            ctx.eq(kp(rp), want, f"true reach of {n} impressions")
            s = mine[n - 1][1] if n else 0.5
            rp2 = m.by_spend([s], f)
            ctx.eq(kp(rp2), want, f"true reach of spend {s}")
            ctx.eq(m.impressions_for_spend(s), n, "impressions for spend")
            ctx.eq(rp2.impressions[idx], n, "impressions reported")
            ctx.eq(rp2.impressions[1 - idx], 0, "other publisher not bought")
    for bad in ([], [1, 2]):
        ctx.raises(ValueError, lambda: m.by_impressions(bad), "impressions of the wrong length")
        ctx.raises(ValueError, lambda: m.by_spend(bad), "spends of the wrong length")


# ---- several fitted models at a time ---------------------------------------------
def cases_instances(tier):
    for name in ("goerg", "k1", "kigp", "dirac", "gp"):
        n = len(TRAIN) if name not in ("gp",) else 2
        for a, b in itertools.permutations(range(n), 2):
            yield (name, a, b)


TRAIN = [((82, 32, 12, 2), 1.0, 0.5), ((82, 32, 12, 2), 2.0, 0.5), ((82, 40, 12, 2), 1.0, 0.5), ((300, 100, 40, 10), 1.0, 0.25)]
FIXED = [(0.3, 0.5, 1.3), (4.0, 2.0, 1.3), (1.0, 0.5, 2.0), (0.3, 0.5, 20.0)]


def build(name, j):
    h, mult, c = TRAIN[j]
    alpha, beta, nf = FIXED[j]
    i = int(mult * sum(h))
    pt = ReachPoint([i], h if name != "k1" else h[:1], [i * c], universe_size=2 * h[0])

    def hook(fun, x0, *args, **kw):
        return optim.Outcome(([alpha, beta, nf * h[0]] + [0.1] * 9)[:len(x0)]) if len(x0) > 1 else None

    if name == "goerg":
        return GoergModel([pt]), i, c
    if name == "dirac":
        m = DiracMixtureSinglePublisherModel([pt], ncomponents=8)
    elif name == "gp":
        m = GammaPoissonModel([pt])
    else:
        m = KInflatedGammaPoissonModel([pt], kmax=1)
    if name in ("gp", "kigp"):
        with optim.outcomes(hook):
            m._fit()
    else:
        m._fit()
    return m, i, c


def check_instances(ctx, case):
    """A model's answers do not depend on other models fitted or queried in the process."""
    name, a, b = case
    look = lambda m, i, c: [observe(m, q) for q in (("i", i, 3), ("i", 0.3 * i, 1), ("i", 5 * i, 2), ("s", 1.5 * i * c, 3))]
    m1, i1, c1 = build(name, a)
    first = look(m1, i1, c1)
    m2, i2, c2 = build(name, b)
    other = look(m2, i2, c2)
    ctx.state(case)
    ctx.close(look(m1, i1, c1), first, f"{name}: answers after another model was fitted", rtol=1e-9)
    m3, _, _ = build(name, a)
    ctx.close(look(m3, i1, c1), first, f"{name}: answers of an equal model fitted later", rtol=1e-9)
    ctx.close(look(m2, i2, c2), other, f"{name}: answers of the second model", rtol=1e-9)
    ctx.close(float(m3.max_reach) if name != "dirac" else 0, float(m1.max_reach) if name != "dirac" else 0, "maximum reach")


# ---- refusals ----------------------------------------------------------------
MODELS = {
    "goerg": GoergModel, "gp": GammaPoissonModel,
    "kigp": KInflatedGammaPoissonModel, "dirac": DiracMixtureSinglePublisherModel,
}


def cases_refuse(tier):
    for name in MODELS:
        for what in ("none", "two", "three", "zero", "zero_float", "fewer", "fewer_by_one", "multi", "no_universe"):
            yield (name, what)


def check_refuse(ctx, case):
    name, what = case
    M = MODELS[name]
    P = lambda i, k, u=50: ReachPoint([i], k, [i * 0.5], universe_size=u)
    ok = P(40, [20, 8, 2])
    ctx.state(case)
    if what == "none":
        ctx.raises((ValueError, IndexError), lambda: M([]), "no training point")
    elif what == "two":
        ctx.raises(ValueError, lambda: M([ok, ok]), "two training points")
    elif what == "three":
        ctx.raises(ValueError, lambda: M([ok, P(60, [30, 10, 4]), ok]), "three training points")
    elif what == "zero":
        ctx.raises(ValueError, lambda: M([P(0, [0, 0])]), "zero impressions")
    elif what == "zero_float":
        ctx.raises(ValueError, lambda: M([P(0.0001, [0, 0])]), "almost zero impressions")
    elif what == "fewer":
        ctx.raises(ValueError, lambda: M([P(10, [20, 8, 2])]), "fewer impressions than reach")
    elif what == "fewer_by_one":
        ctx.raises(ValueError, lambda: M([P(19, [20, 8, 2])]), "fewer impressions than reach")
    elif what == "multi" and name in ("goerg", "gp"):
        ctx.raises(ValueError, lambda: M([ReachPoint([40, 40], [20, 8, 2], universe_size=50)]), "two dimensions")
    elif what == "no_universe" and name == "dirac":
        ctx.raises(ValueError, lambda: M([ReachPoint([40], [20, 8, 2])]), "no universe size")


UNITS = [
    Unit("real_fits", cases_real, check_real, "real numeric fits, all query histories", timeout=700, chunk=1),
    Unit("gp_outcomes", cases_gp, check_gp, "Gamma-Poisson for every optimizer outcome of the grid", timeout=300, chunk=1),
    Unit("kigp_outcomes", cases_k, check_k, "k-inflated Gamma-Poisson for every optimizer outcome of the grid", timeout=300, chunk=2),
    Unit("goerg", cases_goerg, check_goerg, "Goerg model on a grid of training points", chunk=8),
    Unit("kigp_one_frequency", cases_k1, check_k1, "closed-form fit on a grid of training points", chunk=2),
    Unit("dirac", cases_dirac, check_dirac, "Dirac mixture on all small histograms", timeout=300, chunk=2),
    Unit("instances", cases_instances, check_instances, "every ordered pair of fitted models of each class", timeout=300, chunk=1),
    Unit("ground_truth", cases_truth, check_truth, "true curve on all small logs", chunk=8),
    Unit("refusals", cases_refuse, check_refuse, "inadmissible training data"),
]
