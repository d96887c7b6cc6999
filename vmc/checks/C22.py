"""Which measurements the modeling strategies train their models on."""
import itertools

import numpy as np
from vmc_env import ENV

from vmc import sim
from vmc.core import Unit
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

ASSUMPTIONS = ["recording models stand for the configured model classes",
               "the estimator's outcome for every measurement is chosen by the explorer"]
MADE = []


class Recorder:
    def record(self, kind, args, kwargs):
        self.kind, self.args, self.kwargs, self.fits, self.queries = kind, args, dict(kwargs), 0, []
        MADE.append(self)

    def _fit(self):
        self.fits += 1

    def by_spend(self, spends, max_frequency=1):
        self.queries.append((list(spends), max_frequency))
        return ("answer", self.kind, tuple(spends), max_frequency)


class Curve(Recorder, ReachCurve):
    def __init__(self, data, **kwargs):
        self.record("curve", (list(data),), kwargs)


class OtherCurve(Curve):
    pass


class Surface(Recorder, ReachSurface):
    def __init__(self, curves, data, **kwargs):
        self.record("surface", (list(curves), list(data)), kwargs)


class OtherSurface(Surface):
    pass


def settle(raw, imps):
    """What a measurement request returns for the estimator's raw values (property C10)."""
    out, cur = [], None
    for x in raw:
        y = max(0, round(x))
        cur = y if cur is None else min(cur, y)
        out.append(float(cur))
    if imps <= out[0]:
        out = [float(max(imps - 1, 1))] + [0.0] * (len(out) - 1)
    return out


def cases_m3(tier):
    for p in (1, 2, 3, 4):
        n = 1 + p + (p if p > 2 else 0)
        if p <= 2:
            fracs = list(itertools.product((0.0, 0.25, 0.5, 1.0), repeat=p))
            noise = list(itertools.product((0, -1, 2), repeat=n))
        elif p == 3:
            fracs = list(itertools.product((0.0, 0.5, 1.0), repeat=p))
            noise = list(itertools.product((0, 1), repeat=n))
            if tier == "quick":
                noise = noise[::9]
        else:
            fracs = list(itertools.product((0.0, 0.5, 1.0) if tier != "quick" else (0.5, 1.0), repeat=p))
            noise = [tuple(int(i == j) for i in range(n)) for j in range(n + 1)]
        for fs in fracs:
            for nz in noise:
                for truth in (False, True):
                    yield (p, fs, nz, truth)


def kreaches(rp):
    return [float(rp.reach(k)) for k in range(1, rp.max_frequency + 1)]


def check_m3(ctx, case):
    p, fs, nz, truth = case
    logs = sim.LOGS[:p]
    answers = []

    def estimate(est, sk):
        d = nz[len(answers) % len(nz)]
        raw = [x + d + 0.1 * len(answers) for x in sim.kplus(sk.counts, est.max_freq)]
        answers.append((tuple(sorted(sk.counts.items())), raw))
        return raw

    ENV.reset()
    ENV.estimate = estimate
    del MADE[:]
    h, params, tracker = sim.halo(logs, fs)
    ck, sk = {"a": 1, "b": [2]}, {"x": "y"}
    cm, sm = (Curve, Surface) if sum(fs) > 1 else (OtherCurve, OtherSurface)
    strat = M3Strategy(cm, ck, sm, sk, truth)
    planner = PlannerSimulator(h, strat, params, tracker)
    planner.fit_model(PrivacyBudget(1.0, 1e-5))
    ctx.state(case)

    camp = [f * max(pr for _, pr in lg) for f, lg in zip(fs, logs)]

    def expect(mask, f):
        spends = [c if m else 0.0 for c, m in zip(camp, mask)]
        bought = [sim.counts(lg, s) for lg, s in zip(logs, spends)]
        imps = [sum(b.values()) for b in bought]
        key = tuple(sorted(sim.merge(bought).items()))
        return spends, imps, [settle(raw, sum(imps)) for k, raw in answers if k == key and len(raw) == f]

    def matches(rp, mask, only=None):
        spends, imps, ok = expect(mask, rp.max_frequency)
        if only is not None:
            spends, imps = [spends[only]], [imps[only]]
        return (len(rp.impressions) == len(imps)
                and [int(x) for x in rp.impressions] == imps
                and all(abs(a - b) < 1e-9 for a, b in zip(rp.spends, spends))
                and kreaches(rp) in ok)

    curves = [m for m in MADE if m.kind == "curve"]
    surfaces = [m for m in MADE if m.kind == "surface"]
    if truth:
        ctx.eq(len(curves), 0, "no fitted curves when true curves are requested")
    else:
        ctx.eq(len(curves), p, "one curve per publisher")
        left = list(curves)
        for i in range(p):
            mask = [j == i for j in range(p)]
            hit = [c for c in left if len(c.args[0]) == 1 and matches(c.args[0][0], mask, i)]
            ctx.true(hit, f"a curve is trained on publisher {i}'s own measurement at its campaign spend; got "
                     + str([[(list(q.impressions), kreaches(q), q.spends) for q in c.args[0]] for c in left]))
            left.remove(hit[0])
        for c in curves:
            ctx.eq(c.kwargs, {"a": 1, "b": [2]}, "curve options")
            ctx.true(type(c) is cm, "configured curve class")
            ctx.true(c.fits >= 1, "curve is fitted")
    model = planner._model if hasattr(planner, "_model") else strat.fit(h, params, PrivacyBudget(1.0, 1e-5))
    if p == 1:
        ctx.eq(len(surfaces), 0, "a single publisher needs no surface")
        ctx.true(type(model) is (GroundTruthReachCurveModel if truth else cm), "the model is the publisher's curve")
    else:
        ctx.eq(len(surfaces), 1, "one surface")
        s = surfaces[0]
        ctx.true(type(s) is sm, "configured surface class")
        ctx.eq(s.kwargs, {"x": "y"}, "surface options")
        ctx.true(s.fits >= 1, "surface is fitted")
        got = s.args[0]
        ctx.eq(len(got), p, "curves of the surface")
        for i, c in enumerate(got):
            if truth:
                ctx.true(type(c) is GroundTruthReachCurveModel, "true curve")
                n = len(logs[i])
                for k in range(n + 1):
                    price = sorted(pr for _, pr in logs[i])[k - 1] if k else 0.0
                    ctx.eq(kreaches(c.by_impressions([k], 2)), [float(x) for x in sim.kplus(sim.counts(logs[i], price), 2)],
                           f"true curve {i} at {k}")
            else:
                ctx.true(matches(c.args[0][0], [j == i for j in range(p)], i), f"curve {i} is publisher {i}'s")
        masks = [[True] * p] + ([[j != i for j in range(p)] for i in range(p)] if p > 2 else [])
        pts = list(s.args[1])
        ctx.eq(len(pts), len(masks), "number of training points")
        for m in masks:
            hit = [q for q in pts if matches(q, m)]
            ctx.true(hit, f"training point for publishers {m}; remaining "
                     + str([(list(q.impressions), kreaches(q), q.spends) for q in pts]))
            pts.remove(hit[0])
    ctx.eq((ck, sk), ({"a": 1, "b": [2]}, {"x": "y"}), "options are not modified")
    # the planner
    for q in ([0.5] * p, [float(i) for i in range(p)], [1e3] * p):
        for f in (1, 3):
            t = planner.true_reach_by_spend(q, f)
            ctx.eq(kreaches(t), [float(x) for x in sim.kplus(sim.merge(sim.counts(lg, s) for lg, s in zip(logs, q)), f)],
                   "true reach answered by the planner")
            got = planner.modeled_reach_by_spend(q, f)
            if p == 1 and truth:
                ctx.eq(kreaches(got), kreaches(model.by_spend(q, f)), "modeled reach answered by the planner")
            else:
                ctx.eq(got, ("answer", "curve" if p == 1 else "surface", tuple(q), f), "modeled reach answered by the planner")


def cases_single(tier):
    for p in (1, 2, 3):
        for i in range(4):
            for f in (0.0, 0.25, 0.5, 0.75, 1.0):
                for d in (-5, -1, 0, 1, 7):
                    yield (p, i, f, d)


def check_single(ctx, case):
    p, i, f, d = case
    logs = [sim.LOGS[(i + j) % 4] for j in range(p)]
    answers = []

    def estimate(est, sk):
        raw = [x + d for x in sim.kplus(sk.counts, est.max_freq)]
        answers.append(raw)
        return raw

    ENV.reset()
    ENV.estimate = estimate
    del MADE[:]
    h, params, tracker = sim.halo(logs, [f] * p)
    strat = SinglePublisherStrategy(Curve, {"o": 5}, Surface, {})
    ctx.state(case)
    if p != 1:
        ctx.raises(ValueError, lambda: strat.fit(h, params, PrivacyBudget(1.0, 1e-5)), f"{p} publishers")
        ctx.eq(len(tracker.mechanisms), 0, "refused before any budget is used")
        return
    model = strat.fit(h, params, PrivacyBudget(1.0, 1e-5))
    ctx.true(type(model) is Curve and model.fits >= 1, "the fitted curve is returned")
    ctx.eq(model.kwargs, {"o": 5}, "curve options")
    ctx.eq(len(model.args[0]), 1, "one training point")
    rp = model.args[0][0]
    camp = f * max(pr for _, pr in logs[0])
    n = sum(sim.counts(logs[0], camp).values())
    ctx.eq([int(x) for x in rp.impressions], [n], "impressions")
    ctx.close(list(rp.spends), [camp], "spends")
    ctx.eq(len(answers), 1, "one measurement")
    ctx.eq(kreaches(rp), settle(answers[0], n), "reaches")


UNITS = [
    Unit("m3", cases_m3, check_m3, "every publisher count 1-4, campaign fractions and noise pattern", chunk=40),
    Unit("single", cases_single, check_single, "single-publisher strategy", chunk=40),
]
