"""Noised reach measurements under every outcome of the estimator."""
import itertools

import numpy as np
from vmc_env import ENV

from vmc import sim
from vmc.core import Unit
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters

ASSUMPTIONS = ["the estimator may return any finite real numbers (explored on a grid)",
               "the stand-in sketch is exact"]
B = PrivacyBudget(1.0, 1e-5)


def points(rp):
    return [float(rp.reach(k)) for k in range(1, rp.max_frequency + 1)]


def usable(ctx, rp, f, imps, spends, universe):
    k = points(rp)
    ctx.eq(len(k), f, "number of frequencies")
    ctx.true(all(x == int(x) for x in k), f"whole reaches: {k}")
    ctx.true(min(k) >= 0, f"non-negative: {k}")
    ctx.true(all(a >= b for a, b in zip(k, k[1:])), f"never increasing: {k}")
    total = sum(imps)
    ctx.true(k[0] < total or k[0] == 1, f"1+ reach {k[0]} of {total} impressions")
    ctx.eq([int(x) for x in rp.impressions], list(imps), "impressions of the request")
    ctx.eq([float(x) for x in rp.spends], list(spends), "spends of the request")
    ctx.eq(rp.universe_size, universe, "universe size")
    return k


VALS = (-3.2, -0.4, 0.0, 0.6, 2.2, 3.0, 4.7, 9.0, 1e7, 2.0 ** 32 + 2, 3 - 2.0 ** 32)


def cases_estimates(tier):
    spends = [(0.0,), (1.0,), (2.0,), (9.0,)]
    for f in (1, 2):
        for v in itertools.product(VALS, repeat=f):
            for s in spends:
                yield (1, s, v)
    two = [(0.0, 0.0), (1.0, 0.0), (2.0, 2.0), (8.0, 8.0)]
    for v in itertools.product(VALS if tier != "quick" else VALS[:9:2] + VALS[9:10], repeat=3):
        for s in two:
            yield (2, s, v)
    if tier != "quick":
        for v in itertools.product(VALS[1::2], repeat=5):
            yield (2, (8.0, 8.0), v)


def check_estimates(ctx, case):
    p, spends, vals = case
    f = len(vals)
    for kind in (list, np.array):
        ENV.reset()
        ENV.estimate = lambda est, sk: kind(list(vals))
        h, _, _ = sim.halo(sim.LOGS[:p], [1.0] * p)
        rp = h.simulated_reach_by_spend(list(spends), B, 0.5, f)
        imps = [sum(sim.counts(lg, s).values()) for lg, s in zip(sim.LOGS, spends)]
        universe = sim.UNIVERSE
        k = usable(ctx, rp, f, imps, spends, universe)
        ctx.state((case, kind.__name__))
        want, cur = [], None
        for x in vals:
            y = max(0, round(x))
            cur = y if cur is None else min(cur, y)
            want.append(cur)
        if sum(imps) <= want[0]:
            want = [max(sum(imps) - 1, 1)] + [0] * (f - 1)
        ctx.eq(k, [float(w) for w in want], f"estimates {vals} with {sum(imps)} impressions")
        ctx.eq([e.max_freq for e in ENV.estimators if e.calls], [f], "frequencies requested from the estimator")


# ---- what enters the sketch ---------------------------------------------------------
def cases_sketch(tier):
    fr = (0.0, 0.5, 1.0)
    sp = (0.0, 1.0, 2.0, 4.0, 100.0)
    for p in (1, 2, 3):
        vec = itertools.product(sp if tier != "quick" else sp[::2] + (1.0,), repeat=p)
        for s in vec:
            for fs in itertools.product(fr, repeat=p):
                yield (p, fs, s)


def check_sketch(ctx, case):
    p, fs, spends = case
    logs = sim.LOGS[:p]
    for ll in (LiquidLegionsParameters(12, 1000, 7), LiquidLegionsParameters(3.5, 64.0, 0)):
        ENV.reset()
        ENV.exact = True
        h, params, _ = sim.halo(logs, fs, ll=ll)
        camp = [f * max(pr for _, pr in lg) for f, lg in zip(fs, logs)]
        ctx.close(list(h.campaign_spends), camp, "campaign spends")
        ctx.eq(list(h.max_spends), [max(pr for _, pr in lg) for lg in logs], "maximum spends")
        f = 3
        rp = h.simulated_reach_by_spend(list(spends), B, 0.5, f)
        bought = [sim.counts(lg, min(s, c)) for lg, s, c in zip(logs, spends, camp)]
        allc = sim.merge(bought)
        ctx.state((case, ll.sketch_size))
        ctx.eq(ENV.estimators[-1].last_sketch.counts, allc, "users in the combined sketch")
        for sk in ENV.sketches:
            ctx.eq((sk.length, sk.decay_rate, sk.random_seed), (int(ll.sketch_size), ll.decay_rate, ll.random_seed),
                   "sketch parameters")
            ctx.true(isinstance(sk.length, int), "sketch length is an integer")
        ctx.true(len(ENV.sketches) >= p, "one sketch per publisher")
        imps = [sum(sim.counts(lg, s).values()) for lg, s in zip(logs, spends)]
        universe = sim.UNIVERSE
        k = usable(ctx, rp, f, imps, spends, universe)
        want = sim.kplus(allc, f)
        if sum(imps) <= want[0]:
            want = [max(sum(imps) - 1, 1)] + [0] * (f - 1)
        ctx.eq(k, [float(w) for w in want], "noise-free measurement")
        for i, (lg, s, c) in enumerate(zip(logs, spends, camp)):
            vec = [0.0] * p
            vec[i] = s
            t = h.true_reach_by_spend(vec, f)
            ctx.eq(points(t), [float(x) for x in sim.kplus(sim.counts(lg, s), f)], "true reach of one publisher")


# ---- histories, sizes, kinds of vectors ------------------------------------------------
def cases_history(tier):
    one = [((0.0,), 1), ((2.0,), 3), ((3.0,), 2), ((9.0,), 5)]
    two = [((0.0, 0.0), 1), ((1.0, 4.0), 3), ((4.0, 1.0), 2), ((3.0, 0.0), 3), ((100.0, 2.0), 7)]
    for p, reqs in ((1, one), (2, two)):
        for fs in ([1.0] * p, [0.5] * p):
            for hist in itertools.product(reqs, repeat=3 if tier == "quick" else 4):
                yield (p, tuple(fs), hist)


def check_history(ctx, case):
    p, fs, hist = case
    logs = [tuple((u - 1, x) for u, x in lg) for lg in sim.LOGS[:p]]  # a user may be number 0
    ENV.reset()
    ENV.exact = True
    h, _, _ = sim.halo(logs, fs)
    camp = [f * max(pr for _, pr in lg) for f, lg in zip(fs, logs)]
    for n, (spends, f) in enumerate(hist):
        kind = (list, tuple)[n % 2]
        vec = kind(spends)
        rp = h.simulated_reach_by_spend(vec, B, 0.5, f)
        ctx.eq(vec, kind(spends), "the caller's spends are left alone")
        ctx.state((p, fs, hist[: n + 1]))
        allc = sim.merge([sim.counts(lg, min(s, c)) for lg, s, c in zip(logs, spends, camp)])
        imps = [sum(sim.counts(lg, s).values()) for lg, s in zip(logs, spends)]
        k = usable(ctx, rp, f, imps, spends, sim.UNIVERSE)
        want = sim.kplus(allc, f)
        if sum(imps) <= want[0]:
            want = [max(sum(imps) - 1, 1)] + [0] * (f - 1)
        ctx.eq(k, [float(w) for w in want], f"measurement {n + 1} of {hist[: n + 1]}")
        t = h.true_reach_by_spend(list(spends), f)
        allt = sim.merge([sim.counts(lg, s) for lg, s in zip(logs, spends)])
        ctx.eq(points(t), [float(x) for x in sim.kplus(allt, f)], "true reach")


def cases_large(tier):
    # a user seen very often, many users, many publishers
    for shape in ("often", "users", "publishers"):
        for f in (1, 10, 20, 300) if shape != "publishers" else (1, 10):
            for est in ("exact", "wild"):
                yield (shape, f, est)


def check_large(ctx, case):
    shape, f, est = case
    if shape == "often":
        logs = [tuple((j % 7 if j % 3 else 11, 0.5 * (j + 1)) for j in range(900)),
                tuple((j % 5, 0.25 * (j + 1)) for j in range(1300))]
    elif shape == "users":
        logs = [tuple((j * 3, 0.5 * (j + 1)) for j in range(40000)), tuple((j * 5, 0.5 * (j + 1)) for j in range(30000))]
    else:
        logs = [tuple(((j * (i + 1)) % 17, float(j + 1)) for j in range(20 + i)) for i in range(30)]
    p = len(logs)
    ENV.reset()
    ENV.exact = True
    total = sum(len(lg) for lg in logs)
    vals = [(-1) ** k * (total * 0.8) / (k + 1) + 0.2 for k in range(f)]
    if est == "wild":
        ENV.estimate = lambda e, sk: list(vals)
    h, _, _ = sim.halo(logs, [1.0] * p)
    spends = [max(x for _, x in lg) for lg in logs]
    rp = h.simulated_reach_by_spend(spends, B, 0.5, f)
    ctx.state(case)
    k = usable(ctx, rp, f, [len(lg) for lg in logs], spends, sim.UNIVERSE)
    if est == "exact":
        want = sim.kplus(sim.merge([sim.counts(lg, s) for lg, s in zip(logs, spends)]), f)
    else:
        want = [int(x) for x in np.minimum.accumulate([max(0, round(v)) for v in vals])]
    ctx.eq(k, [float(w) for w in want], f"{shape}, {f} frequencies, {est} estimate")


UNITS = [
    Unit("estimates", cases_estimates, check_estimates, "every estimator outcome of the grid", chunk=50),
    Unit("sketches", cases_sketch, check_sketch, "every spend and campaign fraction vector of the grid", chunk=20),
    Unit("history", cases_history, check_history, "every history of three requests of a small set on one simulator", chunk=20),
    Unit("large", cases_large, check_large, "frequent users, many users, many publishers", chunk=1, timeout=300),
]
