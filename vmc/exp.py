"""Shared pieces of the experiment checks: small designs, rows, failures."""
import contextlib
import math

import numpy as np
import pandas as pd
from vmc_env import ENV

from vmc import csvshim, optim  # noqa: F401
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)


def log(p, i):
    """A deterministic log of about 60 impressions shared over 40 users."""
    return [((7 * k * (i + 2) + 3 * i) % (31 + 4 * i) + i, (k + 1) * (0.5 + 0.25 * i)) for k in range(60 + 8 * i)]


def logs(p):
    return [log(p, i) for i in range(p)]


def write_design(root, fs, counts=(("a", 1), ("b", 2))):
    fs.mkdir(root, parents=True, exist_ok=True)
    dd = DataDesign(root, fs)
    for name, p in counts:
        dd.add(DataSet([PublisherData(log(p, i), str(i + 1)) for i in range(p)], name))
    return root


def half(ds):
    return [0.5] * ds.publisher_count


def two_thirds(ds):
    return [0.625] * ds.publisher_count


STRATEGIES = {
    "m3": ("m3strategy", {}, "goerg", {}, "pairwise_union", {}),
    "m3truth": ("m3strategy", {"use_ground_truth_for_reach_curves": True}, "goerg", {}, "pairwise_union", {}),
    "single": ("single_publisher", {}, "goerg", {}, "none", {}),
    "m3r": ("m3strategy", {}, "goerg", {}, "restricted_pairwise_union", {}),
}
POINTS = {
    "grid": ("grid", {"grid_size": 2}),
    "uniform": ("uniformly_random", {"npoints": 3, "npublishers": 1, "minimum_points_per_publisher": 3}),
    "lhs": ("latin_hypercube", {"npoints": 10, "npublishers": 1, "minimum_points_per_publisher": 5}),
}


def trial(strategy="m3", points="grid", replica=1, eps=8.0, fracs=half, freq=2, generator=None, seed=1):
    return TrialDescriptor(
        ModelingStrategyDescriptor(*[dict(x) if isinstance(x, dict) else x for x in STRATEGIES[strategy]]),
        SystemParameters([0.5], LiquidLegionsParameters(12, 1000, 1),
                         generator if generator is not None else np.random.default_rng(seed), fracs),
        ExperimentParameters(PrivacyBudget(eps, 1e-5), replica, freq, POINTS[points][0], dict(POINTS[points][1])),
    )


def design(root, work, fs, trials, **kw):
    return ExperimentalDesign(work, DataDesign(root, fs), trials, filesystem=fs, **kw)


def value(x):
    """Normal form of a table cell, equal before and after a trip through CSV."""
    if hasattr(x, "item"):
        x = x.item()
    if x is None:
        return ""
    if isinstance(x, float):
        return "" if math.isnan(x) else x
    if isinstance(x, bool):
        return int(x)
    return x


def rows(df):
    cols = list(df.columns)
    return [dict(zip(cols, (value(v) for v in r))) for r in df.itertuples(index=False, name=None)]


def reason(text):
    lines = [l for l in str(text).strip().splitlines() if l.strip()]
    return lines[-1] if lines else ""


def diff(a, b, skip=()):
    """None, or the first difference between two rows (floats up to 1e-9)."""
    if list(a) != list(b):
        return f"columns differ: {[c for c in a if c not in b]} / {[c for c in b if c not in a]} (or their order)"
    for c in a:
        if c in skip:
            continue
        x, y = a[c], b[c]
        if c == "model_exception":
            x, y = reason(x), reason(y)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if x != y and not abs(x - y) <= 1e-9 * max(abs(x), abs(y)):
                return f"{c}: {x!r} != {y!r}"
        elif str(x) != str(y):
            return f"{c}: {x!r} != {y!r}"
    return None


def key(r):
    return (str(r["dataset"]), str(r["trial"]))


def same_rows(ctx, got, want, what, ordered=True):
    g, w = list(got), list(want)
    if not ordered:
        g, w = sorted(g, key=key), sorted(w, key=key)
    ctx.eq([key(r) for r in g], [key(r) for r in w], f"{what}: the trials listed")
    for a, b in zip(g, w):
        d = diff(a, b)
        ctx.true(d is None, f"{what}: {key(b)}: {d}")


@contextlib.contextmanager
def patched(cls, name, fn):
    """Replaces cls.name by fn(original) for the duration."""
    had = name in cls.__dict__
    old = cls.__dict__.get(name)
    orig = getattr(cls, name)
    setattr(cls, name, fn(orig))
    try:
        yield
    finally:
        if had:
            setattr(cls, name, old)
        else:
            delattr(cls, name)
