"""Multi-publisher surfaces for every training set of a bounded family."""
import copy
import itertools

import numpy as np

from vmc import optim  # noqa: F401
from vmc.core import Unit, near
from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import (
    GeneralizedMixtureReachSurface,
)
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import (
    PairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface,
)

ASSUMPTIONS = ["single-publisher curves are valid Goerg curves (C05)",
               "numeric solvers are accurate to 1e-5 of the audience"]

# (impressions, reach, cost per impression)
CURVES = [(200, 100, 0.5), (400, 200, 2.0), (150, 100, 0.25), (1000, 40, 1.0), (50, 0, 1.0),
          (3, 2, 1.0), (2, 1, 0.5), (5, 1, 2.0), (2 * 10 ** 6, 10 ** 6, 0.001), (3 * 10 ** 6, 5 * 10 ** 5, 0.01), (10 ** 7, 9 * 10 ** 6, 1e-4)]


def curves(idx):
    return [GoergModel([ReachPoint([CURVES[i][0]], [CURVES[i][1]], [CURVES[i][0] * CURVES[i][2]])]) for i in idx]


def level(name, rs):
    hi, s = max(rs), sum(rs)
    return {"max": hi, "near": hi + 0.75 * (s - hi), "most": hi + 0.95 * (s - hi), "sum": s, "low": 0.5 * hi,
            "high": 2 * s + 1, "zero": 0.0}[name]


def build(kind, cs, pts):
    if kind == "P":
        return PairwiseUnionReachSurface(cs, pts)
    if kind == "R":
        return RestrictedPairwiseUnionReachSurface(cs, pts)
    return GeneralizedMixtureReachSurface(cs, pts, num_clusters=int(kind[1:]))


def points(cs, spec, base):
    """spec: ((pattern of fractions), level) per training point."""
    out = []
    for pat, lv in spec:
        imp = [int(b * f) for b, f in zip(base, pat)]
        rs = [c.by_impressions([x]).reach() for c, x in zip(cs, imp)]
        out.append(ReachPoint(imp, [level(lv, rs)]))
    return out


def lattice(base, fr=(0, 0.5, 1, 10)):
    return [[b * f for b, f in zip(base, t)] for t in itertools.product(fr, repeat=len(base))]


def check_surface(ctx, m, kind, cs, base, fr):
    p = len(cs)
    m_i = [c.max_reach for c in cs]
    scale = sum(m_i)
    tol = 1e-5 * scale
    N = 2 * max(m_i)
    val = {}
    for v in lattice(base, fr):
        rs = [c.by_impressions([x]).reach() for c, x in zip(cs, v)]
        rp = m.by_impressions(list(v), 1)
        r = float(rp.reach())
        val[tuple(v)] = r
        ctx.state((ctx.case, tuple(v)))
        ctx.eq(list(rp.impressions), list(v), "reported impressions")
        ctx.true(np.isfinite(r), f"reach at {v} is {r}")
        ctx.true(r >= max(rs) - tol, f"reach {r} at {v} is below the largest single reach of {rs}")
        ctx.true(r <= sum(rs) + tol, f"reach {r} at {v} exceeds the sum of {rs}")
        active = [x for x in rs if x > 0]
        if not active:
            ctx.close(r, 0.0, "reach without impressions", atol=1e-9)
        elif len(active) == 1:
            ctx.close(r, active[0], f"only one publisher active at {v}", rtol=0, atol=tol)
    # by spend
    cost = [CURVES[i][2] for i in m_idx(ctx)]
    for v in list(val)[:: max(1, len(val) // 20)]:
        s = [x * c for x, c in zip(v, cost)]
        rp = m.by_spend(s, 1)
        ctx.close(float(rp.reach()), val[v], f"by spend {s} differs from by impressions {v}", rtol=1e-7, atol=1e-7)
        ctx.close([float(x) for x in rp.impressions], list(v), "impressions bought by the spend", rtol=1e-9)
    # wrong dimensions
    for bad in ([], base[:-1], list(base) + [1]):
        ctx.raises((ValueError, IndexError), lambda: m.by_impressions(bad), f"impressions {bad}")
        ctx.raises((ValueError, IndexError), lambda: m.by_spend([float(x) for x in bad]), f"spends {bad}")
    # overlap parameters, recovered from the surface itself
    r1 = [c.by_impressions([b]).reach() for c, b in zip(cs, base)]

    if not all(r1):
        return  # the overlaps of a publisher that reaches nobody cannot be observed

    def at(on):
        return float(m.by_impressions([b if i in on else 0 for i, b in enumerate(base)]).reach())

    a = np.zeros((p, p))
    for i, j in itertools.combinations(range(p), 2):
        over = r1[i] + r1[j] - at((i, j))
        top = max(m_i[i], m_i[j]) if kind in "PR" else N
        a[i, j] = a[j, i] = over * top / (r1[i] * r1[j])
    ptol = 1e-5 * scale * max(m_i) / min(r1) ** 2
    ctx.true(a.min() >= -ptol, f"negative overlap parameter {a.tolist()}")
    if kind in "PR":
        ctx.true(max(a.sum(axis=1)) <= 1 + p * ptol, f"overlap parameters of a publisher exceed 1: {a.tolist()}")
        for on in itertools.chain(itertools.combinations(range(p), 3), [tuple(range(p))]):
            want = sum(r1[i] for i in on) - sum(
                a[i, j] * r1[i] * r1[j] / max(m_i[i], m_i[j]) for i, j in itertools.combinations(on, 2))
            ctx.close(at(on), want, f"reach of {on} is not given by the pairwise overlaps", rtol=0, atol=tol)
        # bilinear: the same parameters explain other budgets
        for v in list(val)[:: max(1, len(val) // 30)]:
            rs = [c.by_impressions([x]).reach() for c, x in zip(cs, v)]
            want = sum(rs) - sum(a[i, j] * rs[i] * rs[j] / max(m_i[i], m_i[j])
                                 for i, j in itertools.combinations(range(p), 2))
            ctx.close(val[v], want, f"reach at {v} is not given by the pairwise overlaps", rtol=0, atol=5 * tol)
        if kind == "R" and p >= 4:
            ctx.close(a[0, 1] * a[2, 3], a[0, 2] * a[1, 3], "overlaps are not a product of publisher factors",
                      rtol=1e-3, atol=1e-4)
            ctx.close(a[0, 1] * a[2, 3], a[0, 3] * a[1, 2], "overlaps are not a product of publisher factors",
                      rtol=1e-3, atol=1e-4)
    else:
        c = int(kind[1:])
        ctx.true(a.max() <= 1 + ptol, f"clusters overlap more than completely: {a.tolist()}")
        if c == 1:
            for v in list(val)[:: max(1, len(val) // 30)]:
                rs = [q.by_impressions([x]).reach() for q, x in zip(cs, v)]
                ctx.close(val[v], N * (1 - np.prod([1 - x / N for x in rs])), f"one cluster is independence at {v}",
                          rtol=1e-6)
        w = getattr(m, "a", None)
        if w is not None and len(w) == p * c:
            w = np.array(w).reshape(p, c)
            ctx.true(w.min() >= -1e-6, "negative cluster weight")
            ctx.close(w.sum(axis=1), [1.0] * p, "cluster weights of a publisher add up to one", rtol=1e-6, atol=1e-6)


def m_idx(ctx):
    return ctx.case[1]


def check_fit(ctx, case):
    kind, idx, spec = case[:3]
    fr = (0, 0.5, 1, 10) if len(idx) <= 3 else (0, 1, 3)
    cs = curves(idx)
    base = [CURVES[i][0] for i in idx]
    pts = points(cs, spec, base)
    before = [(list(q.impressions), q.reach()) for q in pts]
    np.random.seed(12345)
    m = build(kind, cs, pts)
    m._fit()
    probe = [b * 0.7 for b in base]
    first = float(m.by_impressions(probe).reach())
    check_surface(ctx, m, kind, cs, base, fr)
    ctx.eq(float(m.by_impressions(probe).reach()), first, "the answer changed with the queries in between")
    ctx.eq([(list(q.impressions), q.reach()) for q in pts], before, "the training points changed")
    # repeatable whatever ran before
    if case[3]:
        np.random.seed(777)
        np.random.rand(5)
        m2 = build(kind, curves(idx), points(cs, spec, base))
        np.random.rand(3)
        m2._fit()
        ctx.eq(float(m2.by_impressions(probe).reach()), first, "the fit depends on what ran before it")
        m2._fit()
        ctx.eq(float(m2.by_impressions(probe).reach()), first, "fitting again changes the fit")


def m3_spec(p, levels):
    """All publishers together, then every leave-one-out, as the strategy trains."""
    pats = [tuple([1.0] * p)]
    if p > 2:
        pats = [tuple(0 if j == i else 1.0 for j in range(p)) for i in range(p)] + pats
    for lv in itertools.product(levels, repeat=len(pats)):
        yield tuple(zip(pats, lv))


def cases_two(tier):
    kinds = ("P", "R", "G1", "G2", "G4")
    lv = ("max", "near", "most", "sum", "low", "high")
    pats = [(1.0, 1.0), (0.5, 2.0), (1.0, 0), (0, 0)]
    for idx in ((0, 1), (1, 2), (2, 3), (0, 0)) if tier != "quick" else ((0, 1), (2, 3)):
        one = [((pat, l),) for pat in pats[:2] for l in lv] + [((pats[2], "sum"),), ((pats[3], "zero"),), ((pats[2], "low"),)]
        for k in kinds:
            for s in one:
                yield (k, idx, s, True)
            for s, t in itertools.product(one, repeat=2):
                if tier == "quick" and (hash_of(s, t) % 4):
                    continue
                yield (k, idx, s + t, False)


# ---- publishers whose curve reaches nobody ---------------------------------------
def cases_nobody(tier):
    for kind in ("P", "R", "G1", "G2"):
        for idx in ((0, 4), (4, 1), (4, 4)):
            for l in ("max", "sum", "zero", "high"):
                yield (kind, idx, (((1.0, 1.0), l),), True)
        for idx in ((0, 1, 4), (4, 1, 2), (4, 0, 4), (4, 4, 4)):
            for l in itertools.product(("near", "sum"), repeat=1 if tier == "quick" else 4):
                for s in m3_spec(3, l[:1]) if tier == "quick" else (tuple(zip([q[0] for q in next(m3_spec(3, ("sum",)))], l)),):
                    yield (kind, idx, s, False)


def hash_of(s, t):
    # a fixed arithmetic thinning of the pair space in the quick tier
    names = ("max", "near", "most", "sum", "low", "high", "zero")
    return names.index(s[0][1]) * 3 + names.index(t[0][1])


def cases_three(tier):
    lv = ("max", "near", "sum") if tier == "quick" else ("max", "near", "most", "sum", "low", "high")
    for kind in ("P", "R", "G1", "G3"):
        for n, spec in enumerate(m3_spec(3, lv)):
            if kind == "R" and tier == "quick" and n % 4:
                continue
            yield (kind, (0, 1, 2), spec, n % 5 == 0)
        # a publisher reaching nobody in training, single-publisher points only, nobody at all
        yield (kind, (0, 1, 2), (((1.0, 1.0, 0), "near"),), True)
        yield (kind, (0, 1, 2), (((1.0, 0, 0), "sum"), ((0, 1.0, 0), "sum")), True)
        yield (kind, (0, 1, 2), (((0, 0, 0), "zero"), ((1.0, 1.0, 1.0), "near")), True)


def cases_four(tier):
    lv = ("near", "sum") if tier == "quick" else ("max", "near", "sum")
    for kind in ("P", "G2") if tier == "quick" else ("P", "R", "G2"):
        for n, spec in enumerate(m3_spec(4, lv)):
            yield (kind, (0, 1, 2, 3) if n % 3 else (2, 0, 3, 1), spec, n % 4 == 0)
    for kind, idx in (("G1", (2, 0, 3, 1)), ("G1", (3, 0, 2, 1)), ("G3", (0, 0, 0, 0)), ("P", (0, 0, 0, 0)), ("R", (0, 0, 0, 0))):
        yield (kind, idx, next(m3_spec(4, ("near",))), True)
    for kind, idx in (("G1", (2, 0, 3, 0, 1)), ("G2", (0, 1, 2, 3, 0)), ("P", (3, 2, 1, 0, 0))):
        yield (kind, idx, next(m3_spec(5, ("near",))), True)
    if tier == "quick":
        for l in ("near", "sum", "high"):
            yield ("R", (0, 1, 2, 3), next(m3_spec(4, (l,))), False)


# ---- tiny and huge audiences ---------------------------------------------------
def cases_scale(tier):
    lv = ("max", "near", "sum", "high")
    for kind in ("P", "R", "G1", "G2"):
        for idx in ((5, 6), (6, 7), (8, 9), (10, 8)):
            for l in lv:
                yield (kind, idx, (((1.0, 1.0), l),), l == "near")
        for idx in ((5, 6, 7), (8, 9, 10)):
            for l in lv[1:3]:
                yield (kind, idx, next(m3_spec(3, (l,))), l == "near")


# ---- recovery: training points that lie on a surface of the family -----------
def cases_recover(tier):
    vals = (0.0, 0.2, 0.45) if tier == "quick" else (0.0, 0.1, 0.25, 0.5)
    for p, idx in ((2, (0, 1)), (2, (2, 3)), (3, (0, 1, 2)), (3, (1, 2, 3))):
        for a in itertools.product(vals, repeat=p * (p - 1) // 2):
            yield (p, idx, a)


def check_recover(ctx, case):
    p, idx, flat = case
    cs = curves(idx)
    mi = [c.max_reach for c in cs]
    base = [CURVES[i][0] for i in idx]
    a = dict(zip(itertools.combinations(range(p), 2), flat))

    def truth(v):
        rs = [c.by_impressions([x]).reach() for c, x in zip(cs, v)]
        return sum(rs) - sum(w * rs[i] * rs[j] / max(mi[i], mi[j]) for (i, j), w in a.items())

    train = [v for v in lattice(base, (0, 1, 3)) if sum(x > 0 for x in v) >= 2]
    m = PairwiseUnionReachSurface(cs, [ReachPoint(v, [truth(v)]) for v in train])
    m._fit()
    ctx.state(case)
    for v in lattice(base, (0, 0.5, 2)):
        ctx.close(float(m.by_impressions(v).reach()), truth(v), f"fit does not recover the surface it was trained on at {v}",
                  rtol=0, atol=2e-4 * sum(mi))


# ---- refusals -------------------------------------------------------------------
def cases_refuse(tier):
    yield from itertools.product(("P", "R", "G1", "G2"), ("none", "mixed", "mixed_last"))


def check_refuse(ctx, case):
    kind, what = case
    cs = curves((0, 1))
    P = lambda *v: ReachPoint(list(v), [10])
    ctx.state(case)
    if what == "none":
        ctx.raises((ValueError, IndexError), lambda: build(kind, cs, []), "no training points")
    elif what == "mixed":
        ctx.raises(ValueError, lambda: build(kind, cs, [P(10, 10), P(10, 10, 10)]), "training points of two dimensions")
    else:
        ctx.raises(ValueError, lambda: build(kind, cs, [P(10, 10), P(20, 5), P(3)]), "training points of two dimensions")


UNITS = [
    Unit("three", cases_three, check_fit, "p=3: every level assignment of the strategy's training points", timeout=400, chunk=2),
    Unit("four", cases_four, check_fit, "p=4: every level assignment of the strategy's training points", timeout=600, chunk=1),
    Unit("nobody", cases_nobody, check_fit, "publishers whose measured reach is zero", timeout=300, chunk=2),
    Unit("scale", cases_scale, check_fit, "tiny and huge audiences", timeout=300, chunk=2),
    Unit("two", cases_two, check_fit, "p=2: every one- and two-point training set of the family", timeout=300, chunk=4),
    Unit("recovery", cases_recover, check_recover, "every parameter matrix of the grid is recovered", chunk=4),
    Unit("refusals", cases_refuse, check_refuse, "inadmissible training data"),
]
