"""Venn-diagram measurements for every small overlap pattern, sample and noise outcome."""
import itertools

import numpy as np
from vmc_env import ENV

from vmc import sim
from vmc.core import Unit
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters

ASSUMPTIONS = ["draws and noise are chosen by the explorer: sampled users, cardinality draw, region noise"]
B = PrivacyBudget(1.0, 1e-5)
LL = LiquidLegionsParameters(12, 50, 7)


def subsets(items):
    return [s for n in range(1, len(items) + 1) for s in itertools.combinations(items, n)]


def logs_for(members, p):
    """members: one subset of publishers per user; every user costs 1, 2, ... in its publisher."""
    logs = [[] for _ in range(p)]
    for u, s in enumerate(members):
        for i in s:
            logs[i].append((u, float(len(logs[i]) + 1)))
            if (u + i) % 2:
                logs[i].append((u, float(len(logs[i]) + 1)))
    # every publisher sells something
    for i in range(p):
        logs[i].append((90 + i, 64.0))
    return [tuple(lg) for lg in logs]


def truth(logs, spends):
    where = {}
    for i, (lg, s) in enumerate(zip(logs, spends)):
        if s:
            for u in sim.counts(lg, s):
                where.setdefault(u, set()).add(i)
    reg = {}
    for u, s in where.items():
        k = tuple(sorted(s))
        reg[k] = reg.get(k, 0) + 1
    return reg


def by_subset(ctx, pts, logs, spends):
    active = [i for i, s in enumerate(spends) if s]
    want = subsets(active)
    ctx.eq(len(pts), len(want), "number of points")
    imps = [sum(sim.counts(lg, s).values()) for lg, s in zip(logs, spends)]
    universe = sim.UNIVERSE
    out = {}
    for rp in pts:
        s = tuple(i for i, x in enumerate(rp.spends) if x)
        ctx.true(s in want and s not in out, f"exactly one point for subset {s}")
        ctx.eq([float(x) for x in rp.spends], [spends[i] if i in s else 0.0 for i in range(len(spends))], "spends")
        ctx.eq([int(x) for x in rp.impressions], [imps[i] if i in s else 0 for i in range(len(spends))], "impressions")
        ctx.eq(rp.max_frequency, 1, "one frequency")
        ctx.eq(rp.universe_size, universe, "universe size")
        out[s] = float(rp.reach())
    return out


def regions_of(reach, active):
    """Moebius inversion: the disjoint regions that explain the union reaches."""
    tot = reach[tuple(active)]
    miss = {(): tot}
    for s in subsets(active):
        rest = tuple(i for i in active if i not in s)
        miss[s] = tot - (reach[rest] if rest else 0.0)  # users only inside s
    reg = {}
    for s in subsets(active):
        reg[s] = sum((-1) ** (len(s) - len(t)) * miss[t] for t in subsets(s))
    return reg


def check_laws(ctx, reach, active):
    tol = 1e-9 * (1 + abs(reach[tuple(active)]))
    for s in subsets(active):
        ctx.true(reach[s] >= -tol, f"negative reach of {s}")
        for t in subsets(active):
            if set(s) <= set(t):
                ctx.true(reach[s] <= reach[t] + tol, f"{s} reaches more than {t}")
            u = tuple(sorted(set(s) | set(t)))
            ctx.true(reach[u] <= reach[s] + reach[t] + tol, f"{u} reaches more than {s} plus {t}")


def run(ctx, logs, spends, fr, hyper, card, noise, sample=None, split=0.5):
    """card(true) -> cardinality draw; noise(eps, value) -> noised value."""
    ENV.reset()
    ENV.noise = noise
    reg = truth(logs, spends)
    n = sum(reg.values())
    k = n if sample is None else sample

    def multinomial(m, probs):
        v = [0] * len(probs)
        for j in range(k):
            v[j] = 1
        if m - k:
            v[k] = max(2, m - k) if m - k > 1 else 2
        return v

    g = sim.Scripted(multinomial=multinomial, hyper=hyper, normal=lambda loc, sc: card(loc))
    h, params, tracker = sim.halo(logs, fr, generator=g, ll=LL)
    pts = h.simulated_venn_diagram_reach_by_spend(list(spends), B, split, 1)
    return pts, reg, n, g, tracker


def members_of(p, users):
    subs = subsets(range(p))
    for n in range(1, users + 1):
        yield from itertools.combinations_with_replacement(subs, n)


def cases_exact(tier):
    for p, users in ((1, 3), (2, 4), (3, 3 if tier == "quick" else 4)):
        for m in members_of(p, users):
            full = {1: [(64.0,), (2.0,)], 2: [(64.0, 64.0), (2.0, 1.0), (64.0, 0.0), (0.0, 0.0), (0.5, 64.0), (1e-9, 64.0), (1e9, 2.5)],
                    3: [(64.0, 64.0, 64.0), (2.0, 0.0, 1.0), (1.0, 1.0, 1.0)]}[p]
            for s in full:
                yield (p, m, s)
    # many publishers, few of them active: every pair of positions around powers of two
    pos = (0, 7, 8, 15, 16, 31, 32, 33)
    for a, b in itertools.combinations(pos, 2):
        for m in (((a,), (b,)), ((a, b),), ((a, b), (b,), (a,))):
            yield (34, m, tuple(64.0 if i in (a, b) else 0.0 for i in range(34)))
    for act in ((0, 8, 33), (7, 15, 16, 32), (1, 2, 9, 17, 30)):
        m = (act, act[:2], act[1:], act[:1], act[-1:])
        yield (34, m, tuple(64.0 if i in act else 0.0 for i in range(34)))
    if tier != "quick":
        for m in members_of(4, 2):
            yield (4, m, (64.0, 64.0, 0.0, 2.0))
            yield (4, m, (64.0, 64.0, 64.0, 64.0))


def check_exact(ctx, case):
    p, m, spends = case
    logs = logs_for(m, p)
    fr = [0.5] * p  # the campaign fraction does not cap this measurement
    same = lambda noiser, v: v
    reg = truth(logs, spends)
    active = [i for i, s in enumerate(spends) if s]
    ctx.state(case)
    if not active:
        pts, _, _, _, tr = run(ctx, logs, spends, fr, lambda c, n: c, lambda t: t, same)
        ctx.eq(list(pts), [], "no spend yields no points")
        ctx.eq(len(tr.mechanisms), 0, "no spend uses no budget")
        return
    if not reg:
        ENV.reset()
        ctx.raises(RuntimeError, lambda: run(ctx, logs, spends, fr, None, lambda t: t, same), "nobody reached")
        return
    pts, reg, n, g, tr = run(ctx, logs, spends, fr, lambda c, k: c, lambda t: t, same)
    reach = by_subset(ctx, pts, logs, spends)
    for s in subsets(active):
        want = sum(v for r, v in reg.items() if set(r) & set(s))
        ctx.close(reach[s], want, f"noise-free, unsampled reach of {s}")
    check_laws(ctx, reach, active)
    hyp = [e for e in g.log if e[0] == "hyper"][0]
    ctx.eq(sorted(hyp[1]), sorted([reg.get(s, 0) for s in subsets(active)]), "sampled population is the true regions")
    ctx.eq(hyp[2], n, "sample size is the number of registers hit once")
    mul = [e for e in g.log if e[0] == "multinomial"][0]
    ctx.eq(mul[1], n, "users hashed into the sketch")
    ctx.eq(len(mul[2]), LL.sketch_size, "number of registers")
    ctx.close([float(x) / float(mul[2][0]) for x in mul[2]],
              [float(np.exp(-LL.decay_rate * j / LL.sketch_size)) for j in range(int(LL.sketch_size))], "register probabilities")
    nor = [e for e in g.log if e[0] == "normal"][0]
    ctx.close(nor[1], n, "cardinality estimate is centred at the truth")
    ctx.true(nor[2] >= 0, "spread of the cardinality estimate")


def cases_noise(tier):
    for p, users in ((1, 2), (2, 3), (3, 2)):
        for m in members_of(p, users):
            for d in (-2, -1, 0, 1, 3):
                for e in ("true", "zero", "more", "half"):
                    yield (p, m, d, e)


def check_noise(ctx, case):
    p, m, d, e = case
    logs = logs_for(m, p)
    spends = [64.0] * p if len(m) % 2 else [2.0] + [64.0] * (p - 1)
    est = {"true": lambda t: t, "zero": lambda t: 0.0, "more": lambda t: t + 3.5, "half": lambda t: t / 2}[e]
    calls = []
    # the budget split tells the region noise from the cardinality noise
    split = 0.75

    def noise(noiser, v):
        calls.append((noiser.epsilon, v))
        return v + d if abs(noiser.epsilon - 0.75) < 1e-9 else v

    pts, reg, n, g, _ = run(ctx, logs, spends, [1.0] * p, lambda c, k: c, est, noise, split=split)
    active = list(range(p))
    reach = by_subset(ctx, pts, logs, spends)
    ctx.state(case)
    noised = {s: max(0, reg.get(s, 0) + d) for s in subsets(active)}
    tot = sum(noised.values())
    scale = est(n) / tot if tot else 0.0
    for s in subsets(active):
        want = scale * sum(v for r, v in noised.items() if set(r) & set(s))
        ctx.close(reach[s], want, f"reach of {s} with region noise {d} and estimate {e}")
    check_laws(ctx, reach, active)


def cases_samples(tier):
    for p, users in ((2, 4), (3, 3)):
        for m in members_of(p, users):
            for k in range(1, len(m) + 1):
                yield (p, m, k)


def vectors(colors, n):
    if not colors:
        if n == 0:
            yield ()
        return
    for x in range(min(colors[0], n) + 1):
        for rest in vectors(colors[1:], n - x):
            yield (x,) + rest


def check_samples(ctx, case):
    p, m, k = case
    logs = logs_for(m, p)
    spends = [64.0] * p
    active = list(range(p))
    todo = [0]
    total = [1]
    while todo[0] < total[0]:
        pick = todo[0]

        def hyper(colors, n):
            vs = list(vectors(tuple(colors), n))
            total[0] = len(vs)
            return list(vs[pick])

        pts, reg, n, g, _ = run(ctx, logs, spends, [1.0] * p, hyper, lambda t: t, lambda nz, v: v, sample=k)
        hyp = [x for x in g.log if x[0] == "hyper"][0]
        ctx.eq(hyp[2], k, "sample size is the number of registers hit once")
        reach = by_subset(ctx, pts, logs, spends)
        check_laws(ctx, reach, active)
        ctx.close(reach[tuple(active)], n, "total is the cardinality estimate")
        back = regions_of(reach, active)
        pairs = sorted((reg.get(s, 0), round(back[s] * k / n, 6)) for s in subsets(active))
        ctx.close(pairs, sorted((c, float(x)) for c, x in zip(hyp[1], hyp[3])), "regions are the sampled ones", atol=1e-5)
        ctx.state((case, pick))
        todo[0] += 1


def cases_refuse(tier):
    for p, act in ((21, 21), (22, 21), (3, 3), (19, 2)):
        for f in (0, 1, 2, 3):
            yield (p, act, f)
    # some of the publishers sell nothing at their spend
    yield (21, 21, 1, 2)
    yield (22, 21, 1, 18)


def check_refuse(ctx, case):
    p, act, f = case[:3]
    idle = case[3] if len(case) > 3 else 0
    logs = [((1, 1.0), (2 + i, 2.0)) for i in range(p)]
    ENV.reset()
    h, params, tr = sim.halo(logs, [1.0] * p)
    spends = [0.5] * idle + [2.0] * (act - idle) + [0.0] * (p - act)
    ctx.state(case)
    call = lambda: h.simulated_venn_diagram_reach_by_spend(spends, B, 0.5, f)
    if f != 1 or act > 20:
        ctx.raises(ValueError, call, f"{act} active publishers, frequency {f}")
        ctx.eq(len(tr.mechanisms), 0, "refused before any budget is used")
        ctx.eq(len(ENV.noise_calls), 0, "refused before any noise is added")
    else:
        ctx.eq(len(call()), 2**act - 1, "points")
        ctx.eq(len(tr.mechanisms), 2, "events")


# ---- several measurements on one simulator; many users ---------------------------------
def cases_history(tier):
    vecs = {2: [(64.0, 64.0), (2.0, 1.0), (64.0, 0.0), (0.0, 0.0), (0.5, 64.0)],
            3: [(64.0, 64.0, 64.0), (2.0, 0.0, 1.0), (0.0, 0.0, 64.0)]}
    for p in (2, 3):
        for m in ([s for s in subsets(range(p))], [tuple(range(p))] * 3 + [(0,)]):
            for hist in itertools.product(vecs[p], repeat=2 if tier == "quick" else 3):
                yield (p, tuple(m), hist)


def check_history(ctx, case):
    p, m, hist = case
    logs = logs_for(m, p)
    ENV.reset()
    ENV.noise = lambda noiser, v: v
    g = sim.Scripted(multinomial=lambda n, probs: [1] * n + [0] * (len(probs) - n), hyper=lambda c, n: c,
                     normal=lambda loc, sc: loc)
    h, params, tracker = sim.halo(logs, [1.0] * p, generator=g, ll=LL)
    used = 0
    for n, spends in enumerate(hist):
        ctx.state((p, m, hist[: n + 1]))
        reg = truth(logs, spends)
        active = [i for i, s in enumerate(spends) if s]
        vec = (list, tuple)[n % 2](spends)
        pts = h.simulated_venn_diagram_reach_by_spend(vec, B, 0.5, 1)
        ctx.eq(list(vec), list(spends), "the caller's spends are left alone")
        used += 2 if active else 0
        ctx.eq(len(tracker.mechanisms), used, "recorded events")
        if not active:
            ctx.eq(list(pts), [], "no spend yields no points")
            continue
        reach = by_subset(ctx, pts, logs, spends)
        for s in subsets(active):
            ctx.close(reach[s], sum(v for r, v in reg.items() if set(r) & set(s)), f"reach of {s} after {hist[: n]}")


def cases_large(tier):
    for p in (1, 2, 3, 6):
        for users in (300, 40000 if p < 4 else 1000):
            yield (p, users)


def check_large(ctx, case):
    p, users = case
    subs = subsets(range(p))
    m = [subs[(u * u + u // 7) % len(subs)] for u in range(users)]
    logs = [[] for _ in range(p)]
    for u, s in enumerate(m):
        for i in s:
            logs[i].append((u, 0.5 * (len(logs[i]) + 1)))
    spends = [0.5 * len(lg) for lg in logs]
    ENV.reset()
    ENV.noise = lambda noiser, v: v
    k = users // 2
    g = sim.Scripted(multinomial=lambda n, probs: [1] * k + [2] * ((n - k) // 2) + [0] * (len(probs) - k - (n - k) // 2),
                     hyper=lambda c, n: halves(c, n), normal=lambda loc, sc: loc + 0.25)

    def halves(c, n):
        out = [x // 2 for x in c]
        j = 0
        while sum(out) < n:
            if out[j % len(out)] < c[j % len(out)]:
                out[j % len(out)] += 1
            j += 1
        return out

    h, params, tracker = sim.halo(logs, [1.0] * p, generator=g, ll=LiquidLegionsParameters(12, 100000, 7))
    pts = h.simulated_venn_diagram_reach_by_spend(spends, B, 0.5, 1)
    ctx.state(case)
    reach = by_subset(ctx, pts, logs, spends)
    hyp = [e for e in g.log if e[0] == "hyper"][0]
    reg = truth(logs, spends)
    ctx.eq(sorted(hyp[1]), sorted(reg.get(s, 0) for s in subs), "regions sampled from")
    ctx.eq(hyp[2], k, "sample size")
    ctx.close(reach[tuple(range(p))], users + 0.25, "total is the cardinality estimate")
    back = regions_of(reach, list(range(p)))
    got = sorted(round(back[s] * k / (users + 0.25), 4) for s in subs)
    ctx.close(got, sorted(float(x) for x in hyp[3]), "regions are the sampled ones", atol=1e-3)


UNITS = [
    Unit("exact", cases_exact, check_exact, "every membership pattern up to 3-4 users and spend vector, noise-free", chunk=20),
    Unit("noise", cases_noise, check_noise, "every region noise and cardinality outcome", chunk=20),
    Unit("samples", cases_samples, check_samples, "every sample outcome", chunk=4, timeout=300),
    Unit("refusals", cases_refuse, check_refuse, "unsupported requests", chunk=1),
    Unit("history", cases_history, check_history, "every sequence of measurements on one simulator", chunk=10),
    Unit("large", cases_large, check_large, "many users and publishers", chunk=1, timeout=300),
]
