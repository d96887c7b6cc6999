"""Shared pieces of the simulator checks."""
import itertools

import numpy as np
from vmc_env import ENV

from vmc import optim  # noqa: F401
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)


class Scripted(np.random.Generator):
    """A numpy Generator whose relevant draws are chosen by the explorer."""

    def __new__(cls, *a, **k):
        return np.random.Generator.__new__(cls, np.random.PCG64(1))

    def __init__(self, multinomial=None, hyper=None, normal=None):
        super().__init__(np.random.PCG64(1))
        self.h_multinomial, self.h_hyper, self.h_normal = multinomial, hyper, normal
        self.log = []

    def multinomial(self, n, pvals, *a, **k):
        out = self.h_multinomial(int(n), pvals) if self.h_multinomial else super().multinomial(n, pvals, *a, **k)
        self.log.append(("multinomial", int(n), pvals, out))
        return np.asarray(out)

    def multivariate_hypergeometric(self, colors, nsample, *a, **k):
        colors = [int(c) for c in colors]
        out = self.h_hyper(colors, int(nsample)) if self.h_hyper else super().multivariate_hypergeometric(colors, nsample)
        self.log.append(("hyper", colors, int(nsample), list(out)))
        return np.asarray(out)

    def normal(self, loc=0.0, scale=1.0, size=None):
        out = self.h_normal(loc, scale) if self.h_normal else super().normal(loc, scale, size)
        self.log.append(("normal", float(loc), float(scale), out))
        return out


UNIVERSE = 321


def dataset(logs, name="d"):
    return DataSet([PublisherData(list(lg), str(i + 1)) for i, lg in enumerate(logs)], name, universe_size=UNIVERSE)


def counts(log, spend):
    c = {}
    for u, price in log:
        if price <= spend:
            c[u] = c.get(u, 0) + 1
    return c


def merge(cs):
    out = {}
    for c in cs:
        for u, n in c.items():
            out[u] = out.get(u, 0) + n
    return out


def kplus(c, f):
    return [sum(1 for v in c.values() if v >= k) for k in range(1, f + 1)]


class Recorder(PrivacyTracker):
    """A privacy tracker that also keeps what was appended to it."""

    def __init__(self):
        super().__init__()
        self.recorded = []

    def append(self, event):
        self.recorded.append(event)
        return super().append(event)


def halo(logs, fractions, generator=None, ll=None):
    tracker = Recorder()
    params = SystemParameters(
        list(fractions), ll or LiquidLegionsParameters(12, 1000, 7),
        generator if generator is not None else np.random.default_rng(5))
    return HaloSimulator(dataset(logs), params, tracker), params, tracker


def events(tracker):
    return [(e.budget.epsilon, e.budget.delta, e.mechanism, dict(e.params), tuple(e.sampling_buckets))
            for e in tracker.recorded]


# three small logs sharing users; prices are dyadic
LOGS = [
    ((1, 1.0), (2, 2.0), (1, 3.0), (3, 4.0)),
    ((2, 0.5), (2, 1.0), (4, 2.0), (5, 4.0)),
    ((1, 0.25), (5, 0.5), (5, 0.75), (6, 1.0)),
    ((7, 1.0), (1, 2.0), (7, 4.0), (2, 8.0)),
]
