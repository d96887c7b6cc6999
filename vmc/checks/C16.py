"""Test point generators: every configuration around the documented thresholds."""
import itertools
import random

import numpy as np
import pyDOE
import pyDOE.doe_lhs as doe

from vmc.core import Unit, Violation
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import (
    LatinHypercubeRandomTestPointGenerator,
)
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import (
    UniformlyRandomTestPointGenerator,
)
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

ASSUMPTIONS = ["the distance table of pyDOE's maximin criterion is computed by an equivalent vectorised function",
               "documented thresholds: at least 100 points, at most 2000 Latin hypercube points, 100 points per publisher by default"]


def _pdist(x):
    x = np.atleast_2d(x)
    if len(x) < 2:
        return []
    return np.concatenate([np.sqrt(((x[i + 1:] - x[i]) ** 2).sum(axis=1)) for i in range(len(x) - 1)])


_x = np.random.RandomState(0).rand(7, 3)
assert np.allclose(_pdist(_x), doe._pdist(_x), rtol=1e-14)
doe._pdist = _pdist

MAXES = [0.05, 3.0, 1000.0, 0.7]
GENERATORS = {"uniformly_random": UniformlyRandomTestPointGenerator, "latin_hypercube": LatinHypercubeRandomTestPointGenerator,
              "grid": GridTestPointGenerator}


def data(maxes):
    """Publishers with the given maximum spends (the dearest event comes first in the file)."""
    return DataSet([PublisherData([(1, m), (2, m / 3), (3, m / 2)], str(i + 1)) for i, m in enumerate(maxes)], "t")


def points(gen):
    return [tuple(float(x) for x in p) for p in gen.test_points()]


def bounds(ctx, pts, maxes, what):
    for p in pts:
        ctx.eq(len(p), len(maxes), f"{what}: spends per point")
        for x, m in zip(p, maxes):
            ctx.true(0 <= x <= m * (1 + 1e-12), f"{what}: spend {x} with maximum {m}")


# ---- grid ------------------------------------------------------------------------------
def cases_grid(tier):
    for n in (1, 2, 3, 4):
        for maxes in itertools.permutations(MAXES, n):
            for g in range(1, 6 if n < 4 or tier == "thorough" else 4):
                yield (maxes, g)
    for g in range(1, 12 if tier == "quick" else 40):
        yield ((0.1,), g)
        yield ((0.0, 2.0), min(g, 9))
    # long grids, and many publishers
    for g in (50, 99, 100, 101, 250, 1001):
        yield ((2.5,), g)
    yield ((2.5, 1.0), 40)
    for n in (6, 8, 10):
        yield (tuple(0.5 + i for i in range(n)), 2)


def check_grid(ctx, case):
    maxes, g = case
    ctx.state(case)
    what = f"grid of {g} over {maxes}"
    ds = data(maxes)
    pts = points(GridTestPointGenerator(ds, np.random.default_rng(1), grid_size=g))
    want = list(itertools.product(*([m * k / (g + 1) for k in range(1, g + 1)] for m in maxes)))
    ctx.eq(len(pts), g ** len(maxes), f"{what}: number of points")
    bounds(ctx, pts, maxes, what)
    for a, b in zip(sorted(pts), sorted(want)):
        ctx.close(list(a), list(b), f"{what}: points", rtol=1e-12, atol=0)
    gen = GridTestPointGenerator(ds, np.random.default_rng(2), g)
    np.random.seed(9)
    ctx.eq(points(gen), pts, f"{what}: another generator state")
    ctx.eq(points(gen), pts, f"{what}: asked again")
    e = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, "grid", {"grid_size": g})
    ctx.eq([tuple(map(float, p)) for p in e.generate_test_points(ds, np.random.default_rng(3))], pts, f"{what}: through the parameters")
    e2 = e.update_from_dataset(ds)
    ctx.eq([tuple(map(float, p)) for p in e2.generate_test_points(ds, np.random.default_rng(3))], pts, f"{what}: adapted to the data set")


# ---- number and range of random points ---------------------------------------------------
NPOINTS = [1, 99, 100, 101, 150, 500]
BIG = [1999, 2000, 2001, 2500]


def expected(kind, npoints, npub, per):
    n = max(100 if npoints is None else npoints, (1 if npub is None else npub) * (100 if per is None else per), 100)
    return min(n, 2000) if kind == "latin_hypercube" else n


def cases_random(tier):
    for kind in ("uniformly_random", "latin_hypercube"):
        for p in (1, 2, 3, 4):
            for npoints in [None] + NPOINTS:
                for npub, per in ((None, None), (p, None), (p, 10), (p, 49), (p, 51), (p, 101), (p, 150), (None, 130), (3, 34)):
                    yield (kind, p, npoints, npub, per, 1)
            for npoints in BIG if tier == "thorough" or p == 2 else BIG[2:3]:
                yield (kind, p, npoints, None, None, 2)
            yield (kind, p, 5, 30, 100, 3)   # 30 publishers announced
            yield (kind, p, None, 5, 999, 3)


def make(kind, ds, rng, npoints, npub, per):
    kw = {k: v for k, v in (("npoints", npoints), ("npublishers", npub), ("minimum_points_per_publisher", per)) if v is not None}
    return GENERATORS[kind](ds, rng, **kw), kw


def slices(ctx, pts, maxes, what):
    n = len(pts)
    for j, m in enumerate(maxes):
        xs = sorted(p[j] for p in pts)
        for k, x in enumerate(xs):
            lo, hi = m * k / n, m * (k + 1) / n
            ctx.true(lo - 1e-9 * m <= x <= hi + 1e-9 * m,
                     f"{what}: slice {k} of {n} of publisher {j} ({lo}..{hi}) holds {x}")


def check_random(ctx, case):
    kind, p, npoints, npub, per, seed = case
    maxes = MAXES[:p]
    ds = data(maxes)
    ctx.state(case)
    what = f"{kind}{(npoints, npub, per)} on {p} publishers"
    np.random.seed(seed)
    gen, kw = make(kind, ds, np.random.default_rng(seed), npoints, npub, per)
    pts = points(gen)
    ctx.eq(len(pts), expected(kind, npoints, npub, per), f"{what}: number of points")
    bounds(ctx, pts, maxes, what)
    ctx.eq(len(set(pts)), len(pts), f"{what}: distinct points")
    if kind == "latin_hypercube":
        slices(ctx, pts, maxes, what)
    # a function of the data set and the seed only
    for disturbance in (0, 1):
        np.random.seed(12345 + disturbance)
        random.seed(disturbance)
        np.random.rand(disturbance + 3)
        gen2, _ = make(kind, data(maxes), np.random.default_rng(seed), npoints, npub, per)
        ctx.eq(points(gen2), pts, f"{what}: repeated with the same seed")
        if len(pts) > 500:
            break
    e = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, kind, dict(kw))
    np.random.seed(4)
    ctx.eq([tuple(map(float, q)) for q in e.generate_test_points(ds, np.random.default_rng(seed))], pts, f"{what}: through the parameters")
    if len(pts) <= 200:
        other, _ = make(kind, ds, np.random.default_rng(seed + 100), npoints, npub, per)
        q = points(other)
        ctx.eq(len(q), len(pts), f"{what}: number of points with another seed")
        ctx.true(q != pts, f"{what}: another seed gives other points")


# ---- uniform points for every outcome of the draws ------------------------------------------
class Scripted(np.random.Generator):
    """A generator whose uniform draws are taken from a script (cyclically)."""

    def __new__(cls, script):
        return super().__new__(cls, np.random.PCG64(1))

    def __init__(self, script):
        super().__init__(np.random.PCG64(1))
        self.script, self.at = list(script), 0

    def _next(self):
        v = self.script[self.at % len(self.script)]
        self.at += 1
        return v

    def random(self, size=None, *a, **k):
        if size is None:
            return self._next()
        n = int(np.prod(size))
        return np.array([self._next() for _ in range(n)]).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        shape = size if size is not None else np.broadcast(np.asarray(low), np.asarray(high)).shape
        return low + (np.asarray(high) - low) * self.random(shape if shape != () else None)


def cases_outcomes(tier):
    vals = (0.0, 0.5, 1 - 2 ** -53, 2 ** -53) if tier == "thorough" else (0.0, 0.5, 1 - 2 ** -53)
    for p in (1, 2, 3):
        for script in itertools.product(vals, repeat=p + 1):
            yield (p, script)


def check_outcomes(ctx, case):
    """Each spend is the draw times the maximum spend of that publisher, whatever is drawn."""
    p, script = case
    maxes = MAXES[:p]
    pts = points(UniformlyRandomTestPointGenerator(data(maxes), Scripted(script)))
    ctx.eq(len(pts), 100, "number of points")
    bounds(ctx, pts, maxes, f"draws {script}")
    for j, m in enumerate(maxes):
        for q in pts:
            ctx.true(any(abs(q[j] - m * u) <= 1e-12 * m for u in script), f"spend {q[j]} of publisher {j} for draws {script}")
    for u in script:
        ctx.state((p, script, u))
    drawn = sorted(round(x / m, 12) for q in pts for x, m in zip(q, maxes))
    want = sorted(round(script[k % len(script)], 12) for k in range(100 * p))
    ctx.eq(drawn, want, f"one fresh draw per publisher and point for draws {script}")


# ---- successive use of one generator -----------------------------------------------------------
def cases_histories(tier):
    kinds = ["grid", "uniformly_random", "latin_hypercube"]
    for n in (1, 2, 3):
        yield from itertools.product(kinds, repeat=n)


def check_histories(ctx, seq):
    """A sequence of generators sharing one random generator equals the same sequence after any disturbance."""
    ds = data(MAXES[:2])

    def play(seed, noise):
        rng = np.random.default_rng(seed)
        out = []
        for k in seq:
            if noise:
                np.random.seed(noise)
                np.random.rand(noise)
            kw = {"grid_size": 2} if k == "grid" else {"npoints": 10}
            out.append(points(GENERATORS[k](ds, rng, **kw)))
        return out
    a = play(3, 0)
    ctx.state(seq)
    for noise in (1, 2, 3):
        ctx.eq(play(3, noise), a, f"sequence {seq} with global random state disturbed")


def cases_refused(tier):
    return ["", "Grid", "lhs", "grid ", None, "sobol"]


def check_refused(ctx, name):
    ctx.state(name)
    e = ExperimentParameters(PrivacyBudget(1.0, 0.0), 1, 1, name, {})
    ctx.raises(ValueError, lambda: list(e.generate_test_points(data(MAXES[:1]), np.random.default_rng(1))), f"strategy {name!r}")


UNITS = [
    Unit("grid", cases_grid, check_grid, "all orders of publisher maxima, grid sizes 1..5 (and more)", chunk=8),
    Unit("random", cases_random, check_random, "requested counts and minimums around the thresholds", chunk=2, timeout=300),
    Unit("outcomes", cases_outcomes, check_outcomes, "every script of uniform draws over corner values", chunk=4),
    Unit("histories", cases_histories, check_histories, "sequences of generators sharing one random source", chunk=2),
    Unit("refused", cases_refused, check_refused, "unknown strategies", chunk=6),
]
