"""Models fitted on populations of their own kind.

A population is described by exact formulas; the measurement of a buy is the
table of expected k+ reaches, rounded to people.  Every population of the grid is
measured at every share of its inventory, the real model is fitted on that one
measurement, and its predictions are compared with the population's own numbers
at the training buy and at smaller and larger ones.
"""
import math

from vmc.core import Unit, Violation
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    DiracMixtureSinglePublisherModel,
)
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ASSUMPTIONS = [
    "populations are measured without noise; the numbers predicted are compared within tolerances several times "
    "wider than what the numeric search leaves on the unchanged tree",
]
TOP = 900


def gamma_poisson(alpha, beta, inflated=()):
    """Impressions available per user: 1 + Poisson(Gamma(alpha, beta)), the first values replaced."""
    pmf = [0.0]
    for m in range(TOP):
        pmf.append(math.exp(math.lgamma(m + alpha) - math.lgamma(alpha) - math.lgamma(m + 1)
                            - alpha * math.log1p(beta) + m * (math.log(beta) - math.log1p(beta))))
    k = len(inflated)
    rest = sum(pmf[k + 1:])
    return [0.0] + list(inflated) + [x * (1 - sum(inflated)) / rest for x in pmf[k + 1:]]


def thin(pmf, p, top):
    """P(at least k impressions shown), k = 1..top, when each is shown with probability p."""
    exact = [0.0] * top
    for n, w in enumerate(pmf):
        if w < 1e-14:
            continue
        for k in range(min(n, top - 1) + 1):
            exact[k] += w * (math.comb(n, k) * p ** k * (1 - p) ** (n - k) if n < 500 else
                             math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)
                                      + k * math.log(p) + (n - k) * math.log1p(-p)))
    out, left = [], sum(pmf)
    for k in range(top):
        left -= exact[k]
        out.append(left)
    return out


def measure(pmf, people, share, top):
    mean = sum(n * w for n, w in enumerate(pmf))
    imps = int(round(people * mean * share))
    kplus = [int(round(people * x)) for x in thin(pmf, share, top)]
    return imps, kplus, ReachPoint([imps], kplus, [imps * 0.25])


def chi2_98(n):
    """98% point of the chi-squared distribution (Wilson-Hilferty)."""
    return n * (1 - 2 / (9 * n) + 2.0537489 * math.sqrt(2 / (9 * n))) ** 3


def compare(ctx, model, pmf, people, share, top, what, at, elsewhere, shares, slack=2.0):
    imps, kplus, point = measure(pmf, people, share, top)
    got = model.by_impressions([imps], top)
    for k in range(1, top + 1):
        ctx.step()
        if not abs(got.reach(k) - kplus[k - 1]) <= at * kplus[0] + 2:
            raise Violation(f"{what}: fitted on {kplus} people at {imps} impressions, it predicts "
                            f"{[round(float(got.reach(j)), 1) for j in range(1, top + 1)]} for that very buy")
    h, g = point.frequencies_with_kplus_bucket, got.frequencies_with_kplus_bucket
    score = sum((x - y) ** 2 / (y + 1e-6) for x, y in zip(h, g) if y > 0.5 or x > 3)
    ctx.true(score <= slack * chi2_98(len(h)) + 1, f"{what}: chi-squared distance {score} to its own training data {h}, {list(g)}")
    for s in shares:
        want = people * thin(pmf, s * share, 1)[0]
        r = model.by_impressions([imps * s], 1).reach(1)
        ctx.true(abs(r - want) <= elsewhere * want + 2,
                 f"{what}: {s} of the training buy of {imps} impressions reaches {r}, the population says {want}")


# ---- Gamma-Poisson ---------------------------------------------------------------------
def grid(tier):
    for a in (0.5, 1.0, 3.0):
        for b in (0.5, 1.0, 4.0):
            for share in (0.2, 0.5, 0.8):
                yield (a, b, share)


def cases_known(tier):
    for a, b, share in grid(tier):
        for top in (4, 10):
            for people in (1000, 20000) if tier == "quick" else (1000, 5000, 20000, 300000):
                yield (a, b, share, top, people)


def check_known(ctx, case):
    a, b, share, top, people = case
    pmf = gamma_poisson(a, b)
    ctx.state(case)
    m = GammaPoissonModel([measure(pmf, people, share, top)[2]], people)
    m._fit()
    compare(ctx, m, pmf, people, share, top, f"Gamma-Poisson of known size, {case}", 0.015, 0.02, (0.25, 0.5, 1 / (2 * share) + 0.4))
    ctx.eq(m.max_reach, people, "the size given is kept")


def cases_unknown(tier):
    for a, b, share in grid(tier):
        if tier != "quick":
            for top in (4, 10):
                for people in (1000, 20000):
                    yield (a, b, share, top, people)
        else:
            yield (a, b, share, 4 if (a, share) in ((0.5, 0.2), (1.0, 0.5), (3.0, 0.8)) else 10, 1000)


def check_unknown(ctx, case):
    a, b, share, top, people = case
    pmf = gamma_poisson(a, b)
    ctx.state(case)
    m = GammaPoissonModel([measure(pmf, people, share, top)[2]])
    m._fit()
    compare(ctx, m, pmf, people, share, top, f"Gamma-Poisson, {case}", 0.12, 0.06, (0.25, 0.5))


# ---- k-inflated ------------------------------------------------------------------------
INFLATED = ((), (0.5,), (0.1, 0.6), (0.3, 0.3, 0.3))


def cases_inflated(tier):
    for a, b, share in grid(tier):
        for top in (4, 10):
            for people in (1000,) if tier == "quick" else (1000, 20000):
                yield (a, b, (), share, top, people)
    for infl in INFLATED[1:]:
        for a, b in ((1.0, 1.0), (3.0, 4.0)) if tier == "quick" else ((0.5, 1.0), (1.0, 1.0), (3.0, 4.0), (1.0, 4.0)):
            for share in (0.2, 0.5, 0.8):
                yield (a, b, infl, share, 6, 2000)


def check_inflated(ctx, case):
    a, b, infl, share, top, people = case
    pmf = gamma_poisson(a, b, infl)
    ctx.state(case)
    # with inflated values the search may stop at the first fit that passes the chi-squared test
    at = 0.015 if not infl else 0.02 if infl == (0.5,) and share > 0.2 else 0.08
    m = KInflatedGammaPoissonModel([measure(pmf, people, share, top)[2]])
    compare(ctx, m, pmf, people, share, top, f"k-inflated Gamma-Poisson, {case}", at, 0.15 if infl else 0.03, (0.25, 0.5))


# ---- Goerg -------------------------------------------------------------------------------
def cases_goerg(tier):
    for rho in (1.0, 10.0, 997.0, 1e6):
        for ratio in (0.001, 0.1, 1.0, 3.0, 100.0):
            yield (rho, ratio)


def check_goerg(ctx, case):
    rho, ratio = case
    imps = rho * ratio
    ctx.state(case)
    if imps < 0.001:
        return
    m = GoergModel([ReachPoint([imps], [rho * imps / (imps + rho)], [imps * 2])])
    ctx.true(abs(m.max_reach - rho) <= 1e-6 * rho, f"maximum reach {m.max_reach}, the population has {rho}")
    for x in (0.0, 0.1, 0.5, 1.0, 2.0, 50.0):
        got = m.by_impressions([imps * x], 6)
        for k in range(1, 7):
            want = rho * (imps * x / (imps * x + rho)) ** k
            ctx.true(abs(got.reach(k) - want) <= 1e-6 * want + 1e-12, f"Goerg {case}: {k}+ reach of {imps * x} impressions is {got.reach(k)}, not {want}")


# ---- Poisson mixtures ----------------------------------------------------------------------
MIXES = (((0.5, 1.0),), ((1.5, 1.0),), ((0.2, 0.5), (2.0, 0.5)), ((0.0, 0.6), (1.0, 0.4)), ((0.5, 0.8), (4.0, 0.2)),
         ((0.0, 0.3), (0.7, 0.4), (3.0, 0.3)))


def cases_mixture(tier):
    for mix in MIXES:
        for top in (3, 8):
            for universe in (1000, 50000):
                for n in (60,) if tier == "quick" else (20, 60, 200):
                    yield (mix, top, universe, n)


def poisson_kplus(mix, scale, top):
    out, left = [], 1.0
    for k in range(top):
        left -= sum(w * math.exp(-l * scale) * (l * scale) ** k / math.factorial(k) for l, w in mix)
        out.append(left)
    return out


def check_mixture(ctx, case):
    mix, top, universe, n = case
    ctx.state(case)
    imps = int(round(universe * sum(l * w for l, w in mix)))
    kplus = [int(round(universe * x)) for x in poisson_kplus(mix, 1.0, top)]
    m = DiracMixtureSinglePublisherModel([ReachPoint([imps], kplus, [imps * 0.5], universe_size=universe)], n)
    got = m.by_impressions([imps], top)
    for k in range(1, top + 1):
        ctx.true(abs(got.reach(k) - kplus[k - 1]) <= MIX_AT * kplus[0] + 2,
                 f"Poisson mixture {case}: fitted on {kplus}, predicts {[got.reach(j) for j in range(1, top + 1)]} for that very buy")
    for s in (0.25, 0.5):
        want = universe * poisson_kplus(mix, s, 1)[0]
        r = m.by_impressions([imps * s], 1).reach(1)
        ctx.true(abs(r - want) <= MIX_ELSE * want + 2, f"Poisson mixture {case}: {s} of the buy reaches {r}, the population says {want}")


MIX_AT, MIX_ELSE = 0.03, 0.06

UNITS = [
    Unit("unknown", cases_unknown, check_unknown, "Gamma-Poisson populations of unknown size", chunk=1, timeout=400),
    Unit("inflated", cases_inflated, check_inflated, "k-inflated Gamma-Poisson populations", chunk=1, timeout=300),
    Unit("known", cases_known, check_known, "Gamma-Poisson populations of known size", chunk=1, timeout=300),
    Unit("mixture", cases_mixture, check_mixture, "Poisson mixtures over a known universe", chunk=1, timeout=300),
    Unit("goerg", cases_goerg, check_goerg, "Goerg curves", chunk=4),
]
