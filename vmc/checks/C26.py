"""The distributions behind the count models, over grids of their parameters:
the k-inflated Gamma-Poisson distribution and the Poisson mixture."""
import itertools
import math

import numpy as np

from vmc.core import Unit
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    UnivariateMixedPoissonOptimizer as Mixture,
)
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import (
    KInflatedGammaPoissonDistribution as KGP,
)

ASSUMPTIONS = ["expectations are computed in double precision from the documented formulas; they are compared to 1e-7"]

A = (0.0, 0.1, 0.25, 0.5)


def gamma_poisson(n, alpha, beta):
    """Shifted Gamma-Poisson: one plus a negative binomial with r = alpha, mean alpha * beta."""
    m = n - 1
    return math.exp(math.lgamma(m + alpha) - math.lgamma(alpha) - math.lgamma(m + 1)
                    - alpha * math.log1p(beta) + m * (math.log(beta) - math.log1p(beta)))


def vectors(tier):
    yield ()
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        yield from itertools.product(A, repeat=k)
    # the inflated values may claim more than everything
    yield from [(0.8, 0.7), (1.0,), (1.5,), (0.0, 0.0, 2.0), (0.5, 0.5, 0.25), (0.3, 0.3, 0.3, 0.3), (0.5, 0.5004), (0.7, 0.3 + 1e-7), (0.5, 0.4999)]


def pairs(tier):
    al = (0.05, 0.5, 1.0, 3.0) if tier == "quick" else (0.05, 0.2, 0.5, 1.0, 2.0, 3.0, 8.0)
    be = (0.2, 1.0, 4.0) if tier == "quick" else (0.05, 0.2, 0.5, 1.0, 4.0, 9.0)
    return list(itertools.product(al, be))


def definition(alpha, beta, a, upto):
    s = sum(a)
    if s > 1:
        a = [x / s for x in a]
        s = 1.0
    k = len(a)
    t = sum(gamma_poisson(i, alpha, beta) for i in range(1, k + 1))
    return [0.0] + [a[n - 1] if n <= k else (1 - s) / (1 - t) * gamma_poisson(n, alpha, beta) for n in range(1, upto + 1)]


def cases_pmf(tier):
    for ab in pairs(tier):
        yield from ((ab, a) for a in vectors(tier))


TOL = dict(rtol=1e-7, atol=1e-10)


def check_pmf(ctx, case):
    (alpha, beta), a = case
    given = list(a)
    d = KGP(alpha, beta, given)
    ctx.eq(given, list(a), f"{case}: the parameters passed in were changed")
    want = definition(alpha, beta, a, 200)
    for n in list(range(0, 8)) + [20, 50, 120]:
        ctx.state((case, n))
        ctx.close(float(d.pmf(n)), want[n], f"{case}: pmf({n})", **TOL)
    ns = np.arange(1, 160)
    ctx.close(d.pmf(ns), want[1:160], f"{case}: pmf of a range", **TOL)
    ctx.close(d.pmf(np.array([3, 1, 2, 2])), [want[3], want[1], want[2], want[2]], f"{case}: pmf of an array", **TOL)
    # the whole distribution, as it is used: nothing lost, nothing below zero
    table = np.asarray(d.pmf(np.arange(0, 990)))
    ctx.true(float(table.min()) >= -1e-12, f"{case}: negative probability {table.min()}")
    total = float(sum(table))
    ctx.true(abs(total - 1) < 1e-7, f"{case}: the probabilities sum to {total}")
    mean = sum(n * p for n, p in enumerate(table))
    ctx.close(float(d.expected_value()), float(mean), f"{case}: expected value", rtol=1e-6, atol=1e-6)
    if not a:
        ctx.close(float(d.expected_value()), 1 + alpha * beta, f"{case}: mean of the shifted Gamma-Poisson", rtol=1e-6, atol=1e-6)


def thin_params(tier):
    vs = [(), (0.0,), (0.5,), (1.0,), (0.1, 0.5), (0.25, 0.0, 0.25), (0.5, 0.25, 0.1), (0.8, 0.7), (0.0, 0.0, 0.5)]
    if tier == "thorough":
        vs += [(0.1, 0.1, 0.1, 0.1), (0.0, 0.0, 0.0, 0.9), (0.25,) * 4]
    return vs


P = (0.0, 1e-6, 0.1, 0.35, 0.5, 0.9, 0.999, 1.0)


def cases_thin(tier):
    for ab in pairs(tier):
        yield from itertools.product([ab], thin_params(tier), P)


def binom(n, k, p):
    if p == 0.0:
        return 1.0 if k == 0 else 0.0
    if p == 1.0:
        return 1.0 if k == n else 0.0
    return math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(p) + (n - k) * math.log1p(-p))


def check_thin(ctx, case):
    (alpha, beta), a, p = case
    d = KGP(alpha, beta, list(a))
    top = 600
    want_pmf = definition(alpha, beta, a, top)
    K = 9
    want = [sum(binom(n, k, p) * want_pmf[n] for n in range(max(k, 1), top + 1)) for k in range(K)]
    # every consecutive range of frequencies
    for i in range(0, K):
        for j in range(i, K):
            ctx.state((case, i, j))
            got = d.kreach(np.arange(i, j + 1), p)
            ctx.close(got, want[i : j + 1], f"{case}: kreach({i}..{j})", **TOL)
    ctx.eq(len(d.kreach(np.arange(0), p)), 0, f"{case}: kreach of nothing")
    for k in range(K + 1):
        got = float(d.kplusreach(k, p))
        ctx.close(got, 1.0 - sum(want[:k]), f"{case}: kplusreach({k})", rtol=1e-7, atol=1e-9)
    # the joint probabilities
    ks, ns = np.arange(0, 5), np.arange(1, 12)
    got = np.asarray(d.knreach(ks, ns, p))
    ctx.eq(list(got.shape), [5, 11], f"{case}: knreach shape")
    for x, k in enumerate(ks):
        for y, n in enumerate(ns):
            w = binom(int(n), int(k), p) * want_pmf[n] if k <= n else 0.0
            ctx.close(float(got[x][y]), w, f"{case}: knreach({k}, {n})", **TOL)
    for bad in ([0, 2], [1, 2, 4], [2, 1], [1, 1], [3, 2, 1], [1, 1, 1], [0, 0]):
        ctx.raises(RuntimeError, lambda: d.kreach(np.array(bad), p), f"{case}: kreach({bad})")


# ---- Poisson mixture --------------------------------------------------------
def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for x in range(total + 1):
        for rest in compositions(total - x, parts - 1):
            yield (x,) + rest


def cases_grid(tier):
    for q, lens in ((4, (2, 3, 4)), (7, (2, 3))) if tier == "quick" else ((4, (2, 3, 4, 5)), (7, (2, 3, 4)), (10, (2, 3, 4))):
        for n in lens:
            for c in compositions(q, n):
                for nc in (1, 2, 3, 5, 8, 10, 17, 40):
                    yield (q, c, nc)


def check_grid(ctx, case):
    q, c, nc = case
    pmf = np.array([x / q for x in c])
    keep = pmf.copy()
    F = len(c)
    for dil in (None, "uniform", 0.0, 0.3, 0.5, 1.0):
        if dil is None:
            got, e = Mixture.in_bound_purely_weighted_grid(nc, pmf), 0.0
        elif dil == "uniform":
            got, e = Mixture.in_bound_uniform_grid(nc, pmf), 1.0
        else:
            got, e = Mixture.in_bound_grid(nc, pmf, dilusion=dil), dil
        got = [float(x) for x in got]
        ctx.state((case, dil))
        ctx.true(list(pmf) == list(keep), f"{case}: the probabilities passed in were changed")
        shares = [nc * ((1 - e) * x + e / F) for x in pmf]
        if any(abs(s % 1 - 0.5) < 1e-9 for s in shares):
            slack = 1  # a tie: either way of rounding is one
        else:
            slack = 0
        ctx.true(got == sorted(got), f"{case}, dilution {dil}: components out of order")
        ctx.true(len(got) >= nc, f"{case}, dilution {dil}: {len(got)} components instead of {nc}")
        ctx.true(len(set(got)) == len(got), f"{case}, dilution {dil}: repeated components")
        left = nc
        for f in range(F):
            here = [x for x in got if f <= x < f + 1]
            want = int(round(shares[f])) if left > 0 else 0
            if slack:
                ctx.true(len(here) <= math.ceil(shares[f] + 1e-9), f"{case}, dilution {dil}: {len(here)} components in [{f}, {f + 1}), share {shares[f]}")
            else:
                ctx.eq(len(here), want, f"{case}, dilution {dil}: components in [{f}, {f + 1})")
            left -= len(here)
            ctx.close(here, [f + i / len(here) for i in range(len(here))], f"{case}, dilution {dil}: equally spaced in [{f}, {f + 1})")
        rest = [x for x in got if x >= F]
        ctx.eq(len(rest), max(left, 0), f"{case}, dilution {dil}: components left over by the rounding")
        ctx.true(all(x < F + 1 for x in rest), f"{case}, dilution {dil}: components out of bounds")


def poisson(mean, F):
    v = [math.exp(-mean + k * math.log(mean) - math.lgamma(k + 1)) if mean > 0 else float(k == 0) for k in range(F)]
    if mean > 0:
        # the tail, summed from the small end
        tail = sum(math.exp(-mean + k * math.log(mean) - math.lgamma(k + 1)) for k in range(F + int(mean) + 400, F - 1, -1))
    else:
        tail = float(F == 0)
    return v + [tail]


MEANS = (0.0, 1e-9, 1e-3, 0.1, 0.5, 1.0, 2.5, 7.0, 30.0, 200.0)


def cases_poisson(tier):
    yield from itertools.product(MEANS, range(1, 12 if tier == "quick" else 30))


def check_poisson(ctx, case):
    mean, F = case
    v = Mixture.truncated_poisson_pmf_vec(mean, F)
    ctx.state(case)
    ctx.close(v, poisson(mean, F), f"{case}: truncated pmf", rtol=1e-7, atol=1e-14)
    ctx.true(abs(float(sum(v)) - 1) < 1e-9, f"{case}: sums to {sum(v)}")
    # a smaller cap merges the last values
    if F > 1:
        w = Mixture.truncated_poisson_pmf_vec(mean, F - 1)
        ctx.close(w, list(v[: F - 1]) + [v[F - 1] + v[F]], f"{case}: capped one lower", rtol=1e-7, atol=1e-14)


def value(x):
    return float(getattr(x, "value", x))


def cases_entropy(tier):
    for q, n in ((4, 2), (4, 3), (5, 3)) if tier == "quick" else ((4, 2), (4, 3), (5, 3), (6, 4)):
        for obs in compositions(q, n):
            yield (q, obs)


def check_entropy(ctx, case):
    q, obs = case
    o = np.array(obs) / q
    self_ce = -sum(x * math.log(x) for x in o if x)
    for fit in compositions(q, len(obs)):
        f = np.array(fit) / q
        ctx.state((case, fit))
        ce = value(Mixture.cross_entropy(o, f))
        if all(y > 0 or x == 0 for x, y in zip(o, f)):
            want = -sum(x * math.log(y) for x, y in zip(o, f) if x)
            ctx.close(ce, want, f"{case}: cross entropy of {fit}", rtol=1e-6, atol=1e-8)
            if all(y > 0 for y in f):
                kl = value(Mixture.relative_entropy(o, f))
                ctx.close(kl, want - self_ce, f"{case}: relative entropy of {fit}", rtol=1e-6, atol=1e-8)
            ctx.true(ce >= self_ce - 1e-8, f"{case}: {fit} is closer than the observation itself")
        else:
            ctx.true(math.isfinite(ce) and ce > 20, f"{case}: cross entropy of the impossible {fit} is {ce}")
        # two directions at once
        two = value(Mixture.cross_entropy(np.array([o, o[::-1]]), np.array([f, f[::-1]])))
        ctx.close(two, 2 * ce, f"{case}: cross entropy of two rows", rtol=1e-6, atol=1e-8)


COMPONENTS = [((0.0, 1.0), 3), ((0.2, 2.0), 3), ((0.0, 0.5, 3.0), 3), ((1.0, 1.5, 2.0), 4), ((0.1, 4.0), 2), ((0.0, 1.0, 2.0), 3), ((2.0,), 3)]


def cases_weights(tier):
    q = 4 if tier == "quick" else 6
    for i, (cs, F) in enumerate(COMPONENTS):
        for obs in compositions(q, F + 1):
            if tier == "quick" and len(cs) > 2 and sum(x > 0 for x in obs) < 2:
                continue
            yield (i, q, obs)


def check_weights(ctx, case):
    i, q, obs = case
    cs, F = COMPONENTS[i]
    o = np.array(obs) / q
    arrs = [np.array(poisson(c, F)) for c in cs]
    ws = np.asarray(Mixture.solve_optimal_weights(o, arrs, Mixture.cross_entropy))
    ctx.state(case)
    ctx.eq(len(ws), len(cs), f"{case}: number of weights")
    ctx.true(float(ws.min()) > -1e-6 and abs(float(ws.sum()) - 1) < 1e-6, f"{case}: weights {ws}")

    def cost(w):
        p = sum(x * a for x, a in zip(w, arrs))
        return -sum(x * math.log(max(y, 1e-200)) for x, y in zip(o, p) if x)

    got = cost(np.maximum(ws, 0))
    for w in compositions(10, len(cs)):
        alt = cost([x / 10 for x in w])
        ctx.true(got <= alt + 1e-4 * max(1, abs(alt)), f"{case}: weights {ws} cost {got}, but {w}/10 cost {alt}")


def cases_predict(tier):
    q = 5
    for n in (2, 3, 4):
        for obs in compositions(q, n):
            if obs[0] and sum(obs[1:]):
                yield (obs, (3, 6, 12)[sum(obs[::2]) % 3])


def check_predict(ctx, case):
    obs, nc = case
    h = np.array([x * 20 for x in obs])
    m = Mixture(h, ncomponents=nc)
    ctx.eq(list(h), [x * 20 for x in obs], f"{case}: the histogram passed in was changed")
    first = np.asarray(m.predict(0.5))
    m.fit()
    ctx.close(m.predict(0.5), first, f"{case}: asked again")
    n = len(obs) - 1
    ctx.eq(len(first), n + 1, f"{case}: default cap")
    ws, cs = np.asarray(m.ws), list(m.components)
    for s in (0.0, 0.25, 0.5, 1.0, 1.5, 3.0):
        prev = None
        ctx.close(m.predict(s, customized_max_freq=0), [1.0], f"{case}: predict({s}, 0)", rtol=1e-6)
        for F in range(1, 6):
            got = np.asarray(m.predict(s, customized_max_freq=F))
            ctx.state((case, s, F))
            ctx.eq(len(got), F + 1, f"{case}: predict({s}, {F})")
            want = sum(w * np.array(poisson(c * s, F)) for w, c in zip(ws, cs))
            ctx.close(got, want, f"{case}: predict({s}, {F})", rtol=1e-6, atol=1e-9)
            ctx.true(abs(float(got.sum()) - 1) < 1e-6, f"{case}: predict({s}, {F}) sums to {got.sum()}")
            if prev is not None:
                ctx.close(prev, list(got[: F - 1]) + [got[F - 1] + got[F]], f"{case}: predict({s}, {F - 1}) and {F}", rtol=1e-6, atol=1e-9)
            prev = got
        ctx.close(m.predict(s), m.predict(s, customized_max_freq=n), f"{case}: predict({s}) with the observed cap")
    ctx.close(m.predict(0.0)[0], 1.0, f"{case}: no impressions, no reach", rtol=1e-6)


def cases_histogram(tier):
    for n in (0, 1, 2, 3):
        yield from itertools.product((-1, 0, 2), repeat=n)


def check_histogram(ctx, h):
    bad = len(h) < 2 or min(h) < 0 or sum(h) == 0
    ctx.state(h)
    for make in (lambda: Mixture.validate_frequency_histogram(np.array(h)), lambda: Mixture(np.array(h), ncomponents=4)):
        if bad:
            ctx.raises(ValueError, make, f"histogram {h}")
        else:
            make()
            ctx.step()


UNITS = [
    Unit("inflated", cases_pmf, check_pmf, "all inflation vectors up to length 3 (thorough 4) over a parameter grid", chunk=20),
    Unit("thinned", cases_thin, check_thin, "every consecutive frequency range up to 8, every serving probability", chunk=4, timeout=300),
    Unit("components", cases_grid, check_grid, "all observed distributions in quarters and sevenths of up to 4 values", chunk=40),
    Unit("poisson", cases_poisson, check_poisson, "all means and caps of the grid"),
    Unit("entropy", cases_entropy, check_entropy, "all pairs of distributions in quarters and fifths", chunk=2),
    Unit("weights", cases_weights, check_weights, "all observed distributions in quarters against all weights in tenths", chunk=2, timeout=300),
    Unit("predict", cases_predict, check_predict, "all histograms in fifths of 2-4 values, all caps", chunk=1, timeout=300),
    Unit("histogram", cases_histogram, check_histogram, "all histograms of up to 3 values over -1, 0, 2"),
]
