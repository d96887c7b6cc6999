"""Ground-truth reach: exact counting over all small multi-publisher data sets."""
import itertools

from vmc.core import Unit, Violation, plain
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker
from wfa_planning_evaluation_framework.simulator.publisher import Publisher
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters

ASSUMPTIONS = ["publisher logs are non-empty; prices are not negative"]


def logs(ids, prices, lengths):
    ev = list(itertools.product(ids, prices))
    return [l for n in lengths for l in itertools.product(ev, repeat=n)]


def canonical(logs_):
    """One log per multiset, in both a sorted and a reversed order."""
    out = []
    for l in logs_:
        s = tuple(sorted(l, key=lambda e: (e[1], e[0])))
        if l == s or l == s[::-1]:
            out.append(l)
    return out


def cases_small(tier):
    one = canonical(logs((0, 1, 2), (1.0, 2.0, 2.5), (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)))
    for l in one:
        yield (l,)
    two = canonical(logs((0, 1, 2), (1.0, 2.0), (1, 2)))
    yield from itertools.product(two, repeat=2)
    if tier == "thorough":
        yield from itertools.product(canonical(logs((0, 1), (1.0, 2.0), (1, 2, 3))), repeat=2)
    three = canonical(logs((0, 1), (1.0, 2.0), (1, 2)))
    yield from itertools.product(three, repeat=3)
    heavy = [((0, 1.0),) * 2 + ((1, 2.0),), ((1, 1.0), (1, 1.5), (0, 2.0), (1, 2.0)), ((2, 3.0),), ((0, 0.5), (2, 0.25))]
    yield from itertools.product(heavy, repeat=4)
    # free impressions (price 0), and ids that are far apart
    free = canonical(logs((0, 1), (0.0, 1.0), (1, 2)))
    for l in canonical(logs((0, 1), (0.0, 1.0), (3,))):
        yield (l,)
    yield from itertools.product(free, repeat=2)
    big = [((10 ** 12, 1.0), (3, 1.0), (10 ** 12, 2.0)), ((3, 0.0), (2 ** 40, 0.5)), ((10 ** 12, 0.001), (2 ** 40, 0.003))]
    yield from itertools.product(big, repeat=3)


def kplus(counts, f):
    return [sum(1 for c in counts.values() if c >= k) for k in range(1, f + 1)]


def tally(lists):
    d = {}
    for l in lists:
        for i in l:
            d[i] = d.get(i, 0) + 1
    return d


def observed(rp):
    return [rp.reach(k) for k in range(1, rp.max_frequency + 1)]


MAXF = (1, 2, 3, 5)


def build(logs_):
    return DataSet([PublisherData(list(l), f"pub{i}") for i, l in enumerate(logs_)], "ds")


def check_small(ctx, case):
    ds = build(case)
    P = len(case)
    universe = set(i for l in case for i, _ in l)
    ctx.eq(ds.publisher_count, P, "publisher count")
    ctx.eq(ds.name, "ds", "name")
    ctx.eq(ds.maximum_reach, len(universe), "maximum reach")
    ctx.eq(ds.universe_size, 2 * len(universe), "default universe size")
    grids = []
    for l in case:
        ps = sorted(set(p for _, p in l))
        g = [0.0] + ps + [ps[-1] + 1]
        if len(ps) > 1:
            g.append((ps[0] + ps[1]) / 2)
        grids.append(sorted(set(g)) if P < 4 else [0.0, ps[0], ps[-1] + 1])
    table = {}
    params = SystemParameters([1.0] * P)
    tracker = PrivacyTracker()
    halo = HaloSimulator(ds, params, tracker)
    planner = PlannerSimulator(halo, None, params, tracker)
    for spends in itertools.product(*grids):
        ctx.state(spends)
        bought = [[i for i, p in l if p <= s] for l, s in zip(case, spends)]
        counts = tally(bought)
        for f in MAXF if P < 3 else (1, 3):
            rp = ds.reach_by_spend(list(spends), f)
            exp = kplus(counts, f)
            ctx.eq(rp.max_frequency, f, "number of frequencies")
            ctx.eq(observed(rp), exp, f"k+ reach by spend {spends}, max frequency {f}")
        ctx.eq(list(rp.impressions), [len(b) for b in bought], f"impressions for spend {spends}")
        ctx.eq(list(rp.spends), list(spends), "recorded spends")
        ctx.eq(rp.universe_size, 2 * len(universe), "universe size of the point")
        ctx.eq(ds.impressions_by_spend(list(spends)), [len(b) for b in bought], f"impressions by spend {spends}")
        # the simulators' notion of truth is the same
        ctx.eq(observed(halo.true_reach_by_spend(list(spends), 2)), kplus(counts, 2), f"halo truth at {spends}")
        ctx.eq(observed(planner.true_reach_by_spend(list(spends), 3)), kplus(counts, 3), f"planner truth at {spends}")
        r1 = kplus(counts, 1)[0]
        table[spends] = r1
        # equal to the query by the equivalent impressions
        rp2 = ds.reach_by_impressions([len(b) for b in bought], 3)
        ctx.eq(observed(rp2), kplus(counts, 3), f"reach by impressions equivalent to {spends}")
    for a in table:
        for j in range(P):
            g = grids[j]
            k = g.index(a[j])
            if k + 1 < len(g):
                b = a[:j] + (g[k + 1],) + a[j + 1:]
                ctx.true(table[a] <= table[b], f"reach falls from {a} to {b}")
    # impression queries
    ordered = [sorted(l, key=lambda e: e[1]) for l in case]
    for imps in itertools.product(*[range(0, len(l) + 2) for l in case]):
        ctx.state(("imp",) + imps)
        exp_spend = [0.0 if n == 0 else o[min(n, len(o)) - 1][1] for n, o in zip(imps, ordered)]
        ctx.eq(ds.spend_by_impressions(list(imps)), exp_spend, f"spend by impressions {imps}")
        rp = ds.reach_by_impressions(list(imps), 2)
        ctx.eq(list(rp.impressions), list(imps), "recorded impressions")
        ctx.eq(list(rp.spends), exp_spend, f"spends for impressions {imps}")
        if all(n == 0 or n >= len(o) or o[n][1] > o[n - 1][1] for n, o in zip(imps, ordered)):
            # no tie at the cut: the buy is determined
            counts = tally([[i for i, _ in o[:n]] for n, o in zip(imps, ordered)])
            ctx.eq(observed(rp), kplus(counts, 2), f"k+ reach by impressions {imps}")
    # wrong dimension is refused
    for bad in ([1.0] * (P + 1), [1.0] * (P - 1)):
        ctx.raises(ValueError, lambda: ds.reach_by_spend(bad), "wrong spend dimension")
        ctx.raises(ValueError, lambda: ds.reach_by_impressions([1 for _ in bad]), "wrong impression dimension")
    # per-publisher truth and ground truth curves
    for j, l in enumerate(case):
        curve = GroundTruthReachCurveModel(ds, j)
        pub = Publisher(PublisherData(list(l), "x"), j, params, tracker)
        ctx.eq(curve.max_reach, len(set(i for i, _ in l)), "maximum reach of the true curve")
        for s in grids[j]:
            c = tally([[i for i, p in l if p <= s]])
            if not any(p <= 0 for i, o in enumerate(case) if i != j for _, p in o):
                # (spending nothing with the others buys nothing there)
                ctx.eq(observed(curve.by_spend([s], 3)), kplus(c, 3), f"true curve of publisher {j} at spend {s}")
            ctx.eq(curve.impressions_for_spend(s), sum(c.values()), f"true curve impressions at spend {s}")
            rp = pub.true_reach_by_spend(s, 3)
            ctx.eq(observed(rp), kplus(c, 3), f"publisher truth at {s}")
            ctx.eq([list(rp.impressions), list(rp.spends)], [[sum(c.values())], [s]], "publisher truth point")
        for n, e in enumerate(ordered[j]):
            if n + 1 == len(ordered[j]) or ordered[j][n + 1][1] > e[1]:
                c = tally([[i for i, _ in ordered[j][:n + 1]]])
                ctx.eq(observed(curve.by_impressions([n + 1], 2)), kplus(c, 2), f"true curve at {n + 1} impressions")
        ctx.raises(ValueError, lambda: curve.by_spend([1.0, 1.0]), "true curve: wrong dimension")
        ctx.raises(ValueError, lambda: curve.by_impressions([1, 1]), "true curve: wrong dimension")
    ctx.eq(tracker.mechanisms, [], "reading the truth consumed privacy budget")


def cases_ctor(tier):
    for u in (None, 0, 1, 5, 100):
        for name in (None, "", "n"):
            yield (u, name)


def check_ctor(ctx, case):
    u, name = case
    pubs = [PublisherData([(1, 1.0), (2, 2.0)], "a"), PublisherData([(2, 1.0), (3, 2.0)], "b")]
    ctx.state(case)
    ds = DataSet(pubs, name, u)
    ctx.eq(ds.universe_size, 6 if u is None else u, "universe size")
    ctx.eq(ds.reach_by_spend([9.0, 9.0]).universe_size, 6 if u is None else u, "universe size of points")
    ctx.eq(ds.reach_by_impressions([9, 9]).universe_size, 6 if u is None else u, "universe size of points")
    if name:
        ctx.eq(ds.name, name, "name")
    else:
        ctx.true(isinstance(ds.name, str) and ds.name.isdigit(), f"generated name {ds.name!r}")
    # the data set is isolated from its inputs
    pubs[0].name = "changed"
    pubs.append(pubs[0])
    ctx.eq(ds.publisher_count, 2, "publisher count after the caller changed its list")
    ctx.eq(ds.reach_by_spend([9.0, 9.0]).reach(), 3, "reach")
    # the default maximum frequency is ten buckets
    ctx.eq(ds.reach_by_spend([9.0, 9.0]).max_frequency, 10, "default number of frequencies by spend")
    ctx.eq(ds.reach_by_impressions([9, 9]).max_frequency, 10, "default number of frequencies by impressions")


def cases_freq(tier):
    """Users shown up to 7 times, spread over two publishers, every cap."""
    top = 4 if tier == "quick" else 5
    for a in itertools.product(range(top), repeat=2):
        for b in itertools.product(range(top), repeat=2):
            if any(a) and any(b):
                yield (a, b)


def check_freq(ctx, case):
    pubs, counts = [], {}
    for j, c in enumerate(case):
        log = []
        for u, n in enumerate(c):
            for _ in range(n):
                log.append((u + 5, float(len(log) + 1)))
            counts[u + 5] = counts.get(u + 5, 0) + n
        pubs.append(PublisherData(log, str(j)))
    ds = DataSet(pubs, "d")
    for f in range(1, 10):
        ctx.state(f)
        ctx.eq(observed(ds.reach_by_spend([99.0, 99.0], f)), kplus(counts, f), f"capped at {f}")
        ctx.eq(observed(ds.reach_by_impressions([99, 99], f)), kplus(counts, f), f"capped at {f} by impressions")


HSETS = [
    (((1, 1.0), (2, 2.0), (1, 2.0)), ((2, 1.0), (3, 3.0))),
    (((4, 1.0), (5, 1.0)), ((4, 0.5), (4, 1.5), (6, 2.0))),
]
HOPS = [(w, kind, a, f) for w in (0, 1) for kind in ("spend", "imp", "truth")
        for a in ((0, 0), (1, 2), (2, 1), (9, 9)) for f in (1, 3)]


def cases_history(tier):
    for n in (2,) if tier == "quick" else (2, 3):
        yield from itertools.product(range(len(HOPS)), repeat=n)


def check_history(ctx, seq):
    """Sequences of queries of two data sets (same name); what is returned or passed in is then defaced."""
    sets = [build(c) for c in HSETS]
    halos = [HaloSimulator(ds, SystemParameters([1.0] * 2), PrivacyTracker()) for ds in sets]
    ctx.state(seq)
    for i, o in enumerate(seq):
        w, kind, a, f = HOPS[o]
        case = HSETS[w]
        ordered = [sorted(l, key=lambda e: e[1]) for l in case]
        if kind == "imp":
            bought = [[i for i, _ in l[:n]] for n, l in zip(a, ordered)]
            # cut no tie
            a = [n if n == 0 or n >= len(l) or l[n][1] > l[n - 1][1] else len(l) for n, l in zip(a, ordered)]
            bought = [[i for i, _ in l[:n]] for n, l in zip(a, ordered)]
            arg = list(a)
            rp = sets[w].reach_by_impressions(arg, f)
        else:
            bought = [[i for i, p in l if p <= s] for l, s in zip(case, a)]
            arg = [float(s) for s in a]
            rp = sets[w].reach_by_spend(arg, f) if kind == "spend" else halos[w].true_reach_by_spend(arg, f)
        what = f"query {i} of {[HOPS[x] for x in seq]}"
        ctx.eq(arg, [float(s) for s in a], f"{what}: the vector passed in")
        ctx.eq(observed(rp), kplus(tally(bought), f), f"{what}: reach")
        ctx.eq(list(rp.impressions), [len(b) for b in bought] if kind != "imp" else list(a), f"{what}: impressions")
        if kind != "imp":
            ctx.eq(list(rp.spends), list(a), f"{what}: spends")
        arg[0] = -1
        for x in (rp.impressions, rp.spends):
            if isinstance(x, list):
                x[0] = 10 ** 6


def cases_large(tier):
    yield from itertools.product((2, 9, 12), ("same", "shifted", "apart"))


def check_large(ctx, case):
    """Many publishers with longer logs and up to 40 impressions per user."""
    P, kind = case
    logs_ = []
    for j in range(P):
        off = {"same": 0, "shifted": j * 11, "apart": j * 1000}[kind]
        logs_.append([(off + (i * i + j) % 37, 0.25 * (i // 2 + 1)) for i in range(60 + j)])
    ds = build(logs_)
    universe = set(i for l in logs_ for i, _ in l)
    ctx.eq([ds.publisher_count, ds.maximum_reach], [P, len(universe)], "size")
    vectors = [[float(s)] * P for s in (0, 1, 5, 99)] + [[float((j * k) % 8) for j in range(P)] for k in range(1, 8)]
    vectors += [[99.0 if j == k else 0.0 for j in range(P)] for k in range(P)]
    for v in vectors + vectors[::-1]:
        ctx.state((case, tuple(v)))
        bought = [[i for i, p in l if p <= s] for l, s in zip(logs_, v)]
        for f in (1, 10, 50):
            rp = ds.reach_by_spend(list(v), f)
            ctx.eq(observed(rp), kplus(tally(bought), f), f"reach at {v}")
            ctx.eq(list(rp.impressions), [len(b) for b in bought], f"impressions at {v}")
            rp = ds.reach_by_impressions([len(b) for b in bought], f)
            ctx.eq(observed(rp), kplus(tally(bought), f), f"reach by the impressions of {v}")


UNITS = [
    Unit("history", cases_history, check_history, "every pair of queries of two data sets, defacing what is returned and passed", chunk=200),
    Unit("large", cases_large, check_large, "up to 12 publishers with longer logs", chunk=1),
    Unit("datasets", cases_small, check_small, "every data set of 1-4 publishers over small logs, every spend and impression vector", chunk=40),
    Unit("constructor", cases_ctor, check_ctor, "every combination of name and universe size"),
    Unit("frequencies", cases_freq, check_freq, "every frequency pattern of two users over two publishers, every cap", chunk=16),
]
