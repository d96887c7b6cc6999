"""Privacy accounting of every request history and of every strategy fit."""
import itertools

from vmc_env import ENV

from vmc import sim
from vmc.core import Unit, near
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import (
    PairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import (
    SinglePublisherStrategy,
)

ASSUMPTIONS = [
    "the absent estimator package is replaced by a stand-in that logs every noiser it is asked to use",
    "noise added to disjoint regions or histogram buckets composes in parallel",
]

BUDGETS = [(1.0, 1e-5), (0.25, 0.5), (4.0, 0.0)]
SPLITS = [0.5, 0.25, 0.9]


def used():
    """epsilon of every distinct noiser object that was applied, in order of first use."""
    seen, out = [], []
    for noiser, eps, _, _ in ENV.noise_calls:
        if not any(n is noiser for n in seen):
            seen.append(noiser)
            out.append(eps)
    return out


def request(h, req):
    kind, spends, (eps, delta), split, f = req
    if kind == "reach":
        return h.simulated_reach_by_spend(list(spends), PrivacyBudget(eps, delta), split, f)
    return h.simulated_venn_diagram_reach_by_spend(list(spends), PrivacyBudget(eps, delta), split, f)


def expected(req):
    kind, spends, (eps, delta), split, f = req
    if kind == "venn":
        if not any(spends):
            return []
        return [(eps * split, delta * split, "Discrete Laplace", split),
                (eps * (1 - split), delta * (1 - split), "Discrete Laplace", 1 - split)]
    return [(eps * split, delta * split, "Discrete Gaussian", split),
            (eps * (1 - split), delta * (1 - split), "Discrete Gaussian", split)]


def check_events(ctx, got, want, what):
    ctx.eq(len(got), len(want), f"{what}: number of recorded events")
    for g, w in zip(got, want):
        ctx.close(g[0], w[0], f"{what}: recorded epsilon")
        ctx.close(g[1], w[1], f"{what}: recorded delta", atol=1e-15)
        ctx.eq(g[2], w[2], f"{what}: recorded mechanism")
        ctx.close(list(g[3].values()), [w[3]], f"{what}: recorded split")
        ctx.eq(tuple(g[4]), (0, 1), f"{what}: every user is affected")


REQS = []
for _p, _spv in ((1, [(2.0,), (0.0,), (9.0,)]), (2, [(2.0, 2.0), (0.0, 4.0), (0.0, 0.0)]),
                 (3, [(4.0, 4.0, 1.0), (0.0, 1.0, 0.5)])):
    for _s in _spv:
        for _b in BUDGETS:
            for _sp in SPLITS:
                REQS.append((_p, ("reach", _s, _b, _sp, 1)))
                REQS.append((_p, ("reach", _s, _b, _sp, 3)))
                REQS.append((_p, ("venn", _s, _b, _sp, 1)))


def cases_requests(tier):
    for p in (1, 2, 3):
        rs = [r for q, r in REQS if q == p]
        for r in rs:
            yield (p, (r,))
        few = rs[:: 7 if tier == "quick" else 3]
        for a, b in itertools.product(few, repeat=2):
            yield (p, (a, b))
        yield (p, tuple(rs[(i * 5) % len(rs)] for i in range(40)))
        if tier != "quick":
            for h in itertools.product(rs[::11], repeat=3):
                yield (p, h)


def check_requests(ctx, case):
    p, hist = case
    ENV.reset()
    h, params, tracker = sim.halo(sim.LOGS[:p], [1.0] * p)
    want_all, done = [], []
    for n, req in enumerate(hist):
        ENV.noise_calls.clear()
        ENV.estimators.clear()
        request(h, req)
        want = expected(req)
        want_all += want
        done.append(req)
        ctx.state((p, tuple(done)))
        check_events(ctx, sim.events(tracker), want_all, f"after {done}")
        ctx.close(sorted(used()), sorted(w[0] for w in want), f"epsilon of the noise added by {req}")
        if req[0] == "reach":
            ctx.eq([e.calls for e in ENV.estimators if e.calls], [1], "one estimate is released")
            e = [e for e in ENV.estimators if e.calls][0]
            ctx.close(sorted([e.reach_delta, e.frequency_delta]), sorted(w[1] for w in want), "delta of the noise", atol=1e-15)
            # which part of the budget goes where
            ctx.close(e.reach_epsilon, req[2][0] * req[3], "epsilon spent on reach")
            ctx.close(e.frequency_epsilon, req[2][0] * (1 - req[3]), "epsilon spent on frequencies")
        elif want:
            active = sum(1 for s in req[1] if s)
            calls = [sum(1 for c in ENV.noise_calls if c[0] is nz) for nz in {id(c[0]): c[0] for c in ENV.noise_calls}.values()]
            ctx.eq(sorted(calls), sorted([2**active - 1, 1]), "each region and the total are noised exactly once")
        else:
            ctx.eq(len(ENV.noise_calls), 0, "nothing is released")
        ctx.close(tracker.privacy_consumption.epsilon, sum(w[0] for w in want_all), "total epsilon")
        ctx.close(tracker.privacy_consumption.delta, sum(w[1] for w in want_all), "total delta", atol=1e-15)
        ctx.eq(list(tracker.mechanisms), [w[2] for w in want_all], "mechanisms in order")
        if want:
            ctx.close(sum(w[0] for w in want), req[2][0], "the request uses its budget")


# ---- refused requests use nothing ------------------------------------------------
def cases_refused(tier):
    for prior in (0, 1):
        for what in ("frequency0", "frequency2", "frequency5", "empty"):
            yield (prior, what)
        yield (prior, "too_many")
        for what in ("no_registers", "nobody", "estimator_fails", "too_long"):
            yield (prior, what)


def check_refused(ctx, case):
    prior, what = case
    ENV.reset()
    p = 22 if what == "too_many" else 2
    logs = [((1, 1.0), (2, 2.0), (3, 3.0))] * p
    # every register is hit several times: there is nothing to sample
    g = sim.Scripted(multinomial=lambda n, probs: [n + 2] * len(probs)) if what == "no_registers" else None
    h, params, tracker = sim.halo(logs, [1.0] * p, generator=g)
    if prior:
        h.simulated_reach_by_spend([2.0] * p, PrivacyBudget(1.0, 0.1), 0.5, 2)
    before = sim.events(tracker)
    ENV.noise_calls.clear()
    ctx.state(case)
    b = PrivacyBudget(1.0, 0.1)
    if what == "too_many":
        ctx.raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend([2.0] * 21 + [0.0], b), "too many publishers")
    elif what == "no_registers":
        ctx.raises(RuntimeError, lambda: h.simulated_venn_diagram_reach_by_spend([2.0, 1.0], b), "no register to sample")
    elif what == "nobody":
        ctx.raises(RuntimeError, lambda: h.simulated_venn_diagram_reach_by_spend([0.5, 0.5], b), "nobody reached")
    elif what == "estimator_fails":
        def fail(est, sk):
            raise ArithmeticError("estimator")
        ENV.estimate = fail
        ctx.raises(ArithmeticError, lambda: h.simulated_reach_by_spend([2.0, 1.0], b, 0.5, 2), "estimator fails")
    elif what == "too_long":
        try:
            h.simulated_reach_by_spend([2.0, 1.0, 1.0], b, 0.5, 2)
        except Exception:
            pass
        else:
            return  # answered, and accounted for: nothing to refuse
    elif what == "empty":
        ctx.eq(h.simulated_venn_diagram_reach_by_spend([0.0, 0.0], b), [], "no spend")
    else:
        f = int(what[-1])
        ctx.raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend([2.0, 1.0], b, 0.5, f), what)
    ctx.eq(sim.events(tracker), before, "a request that releases nothing is recorded")
    ctx.eq(len(ENV.noise_calls), 0, "a request that releases nothing adds noise")


# ---- whole fits --------------------------------------------------------------------
def cases_fits(tier):
    for strat in ("m3", "single"):
        for p in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
            if strat == "single" and p > 2:
                continue
            for b in BUDGETS:
                for reps in (1, 2):
                    for gt in (False, True) if strat == "m3" else (False,):
                        for fr in (1.0, 0.5):
                            yield (strat, p, b, reps, gt, fr)
    for p in (5, 8, 11):
        yield ("m3", p, BUDGETS[0], 1, False, 1.0)


def many_logs(p):
    out = []
    for i in range(p):
        ids = [1 + (j * (i + 2)) % 40 for j in range(60)]
        out.append(tuple((u, float(j + 1)) for j, u in enumerate(ids)))
    return out


def check_fits(ctx, case):
    strat, p, (eps, delta), reps, gt, fr = case
    ENV.reset()
    h, params, tracker = sim.halo(many_logs(p), [fr] * p)
    ENV.exact = False
    ENV.noise = lambda noiser, v: v
    if strat == "m3":
        s = M3Strategy(GoergModel, {}, PairwiseUnionReachSurface, {}, use_ground_truth_for_reach_curves=gt)
    else:
        s = SinglePublisherStrategy(GoergModel, {}, PairwiseUnionReachSurface, {})
    planner = PlannerSimulator(h, s, params, tracker)
    for n in range(reps):
        before = len(sim.events(tracker))
        ENV.noise_calls.clear()
        ENV.estimators.clear()
        ctx.state((strat, p, eps, n))
        if strat == "single" and p > 1:
            ctx.raises(ValueError, lambda: planner.fit_model(PrivacyBudget(eps, delta)), "several publishers")
            ctx.eq(len(sim.events(tracker)), before, "a refused fit uses budget")
            continue
        planner.fit_model(PrivacyBudget(eps, delta))
        ev = sim.events(tracker)[before:]
        nreq = sum(e.calls for e in ENV.estimators)
        ctx.eq(len(ev), 2 * nreq, "events recorded per request")
        ctx.true(sum(e[0] for e in ev) <= eps * (1 + 1e-9), f"the fit records epsilon {sum(e[0] for e in ev)} > {eps}")
        ctx.true(sum(e[1] for e in ev) <= delta * (1 + 1e-9) + 1e-18, f"the fit records delta {sum(e[1] for e in ev)} > {delta}")
        ctx.close(sorted(used()), sorted(e[0] for e in ev), "epsilon of all noise added during the fit")
        ctx.close(tracker.privacy_consumption.epsilon, sum(e[0] for e in sim.events(tracker)), "total epsilon")
        if strat == "single":
            ctx.close(sum(e[0] for e in ev), eps, "the whole budget is used")
            ctx.close(sum(e[1] for e in ev), delta, "the whole budget is used", atol=1e-15)
        k = len(tracker.mechanisms)
        sp = [10.0] * p
        planner.modeled_reach_by_spend(sp, 1)
        planner.true_reach_by_spend(sp, 1)
        ctx.eq(len(tracker.mechanisms), k, "querying the fitted model uses no budget")


UNITS = [
    Unit("requests", cases_requests, check_requests, "every request of the grid, every pair (triple) of a sub-grid", chunk=20),
    Unit("refused", cases_refused, check_refused, "refused and empty requests after each prior history", timeout=300, chunk=1),
    Unit("fits", cases_fits, check_fits, "every strategy, publisher count, budget and repetition", chunk=2),
]
