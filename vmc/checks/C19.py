"""Synthetic data designs: every configuration of a product, every history of generation."""
import hashlib
import importlib.util
import itertools
import math
import os
import random
import subprocess
import sys

import numpy as np
from vmc_env import ENV

from vmc.core import ROOT, Unit
from vmc import fsutil
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters, GeneratorParameters
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
    SequentiallyCorrelatedOverlapDataSet,
)
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator

ASSUMPTIONS = ["the overlap generators of the absent package are stand-ins with the same constructor interface; "
               "their randomness comes from the random state they are handed",
               "where a size falls within 1e-9 of a whole number both roundings are accepted"]

SRC = os.path.join(ROOT, "pypath", "wfa_planning_evaluation_framework", "data_generators")
IMPS = {
    "hom": (HomogeneousImpressionGenerator, {"poisson_lambda": 1.5}),
    "het": (HeterogeneousImpressionGenerator, {"gamma_shape": 2.0, "gamma_scale": 0.5}),
    "heavy": (HeavyTailedImpressionGenerator, {"zeta_s": 4.0}),
}
OVERS = {
    "full": (DataSet, {}),
    "ind": (IndependentOverlapDataSet, {"universe_size": 400, "random_generator": 1}),
    "seq": (SequentiallyCorrelatedOverlapDataSet,
            {"order": "original", "correlated_sets": "all", "shared_prop": 0.5, "random_generator": 1}),
}


def params(p, n, ratio, cpi, imp, over, name="", ident=""):
    return DataSetParameters(
        name=name, num_publishers=p, largest_publisher_size=n, largest_to_smallest_publisher_ratio=ratio,
        pricing_generator_params=GeneratorParameters("Fixed", FixedPriceGenerator, {"cost_per_impression": cpi}),
        impression_generator_params=GeneratorParameters(imp, *IMPS[imp]),
        overlap_generator_params=GeneratorParameters(over, *OVERS[over]), id=ident)


def described(p, n, ratio, cpi, imp, over, name="", ident=""):
    """The descriptive name of a data set: its parameters, as in the shipped designs."""
    if name:
        return name

    def g(label, kw):
        return label + ("(" + ",".join(f"{k}={v}" for k, v in kw.items()) + ")" if kw else "")

    return (f"P={p},N={n},pub_ratio={ratio},pricing={g('Fixed', {'cost_per_impression': cpi})},"
            f"impressions={g(imp, IMPS[imp][1])},overlaps={g(over, OVERS[over][1])}" + (f",id={ident}" if ident else ""))


def sizes(p, n, ratio):
    """Admissible sizes of each publisher (more than one only at a rounding boundary)."""
    out = [{n}]
    for _ in range(p - 1):
        nxt = set()
        for m in out[-1]:
            x = m * ratio ** (1.0 / (p - 1))
            nxt |= {math.floor(x - 1e-9), math.floor(x), math.floor(x + 1e-9)}
        out.append({m for m in nxt if m >= 0})
    return out


CFG = "import vmc.checks.C19 as c\n\n\ndef generate_data_design_config(random_generator):\n    return {body}\n"


def config(where, entries, style="list"):
    """Writes a configuration file; it also checks what it is handed."""
    body = {"list": f"[c.params(*e) for e in {entries!r}]",
            "gen": f"(c.params(*e) for e in {entries!r})",
            "lhs": f"c.by_lhs({entries!r})"}[style]
    path = os.path.join(where, "config-" + hashlib.md5((style + repr(entries)).encode()).hexdigest()[:8] + ".py")
    with open(path, "w") as f:
        f.write(CFG.format(body=body))
    return path


def by_lhs(entries):
    """Orders the entries by pyDOE's Latin hypercube, as the shipped designs do."""
    from pyDOE import lhs
    for i, row in enumerate(lhs(n=1, samples=len(entries), criterion="maximin")):
        yield params(*entries[int(row[0] * len(entries))][:6], "", str(i))


def generate(where, cfg, seed):
    ENV.reset()
    dd = SyntheticDataDesignGenerator(where, cfg, seed, False)()
    return dd


def files(where):
    return fsutil.tree(where)[0]


def judge(ctx, where, entries, what):
    """The tree below `where` holds exactly the data sets described by `entries`."""
    tree, dirs = fsutil.tree(where)
    names = [described(*e) for e in entries]
    ctx.eq(sorted(dirs), sorted(names), f"{what}: data sets stored")
    dd = DataDesign(where)
    ctx.eq(sorted(dd.names), sorted(names), f"{what}: names listed")
    ctx.eq(dd.count, len(entries), f"{what}: number of data sets")
    for e, name in zip(entries, names):
        p, n, ratio, cpi, imp, over = e[:6]
        mine = {k[len(name) + 1:]: v for k, v in tree.items() if k.startswith(name + "/")}
        ctx.eq(sorted(mine), sorted(str(i + 1) for i in range(p)), f"{what}: {name}: publisher files")
        ok = sizes(p, n, ratio)
        logs = []
        for i in range(p):
            log = []
            for line in mine[str(i + 1)].splitlines():
                u, price = line.split(",")
                log.append((int(u), float(price)))
            logs.append(log)
            reach = len(set(u for u, _ in log))
            ctx.true(reach in ok[i], f"{what}: {name}: publisher {i + 1} reaches {reach} users, expected {sorted(ok[i])}")
            ctx.close([pr for _, pr in log], [(k + 1) * cpi for k in range(len(log))], f"{what}: {name}: prices of publisher {i + 1}")
            ctx.state((e, i, reach))
            if over == "full":
                ctx.eq(sorted(set(u for u, _ in log)), list(range(reach)), f"{what}: {name}: users of publisher {i + 1}")
        ds = dd.by_name(name)
        ctx.eq(ds.publisher_count, p, f"{what}: {name}: publishers")
        ctx.eq(ds.maximum_reach, len(set(u for l in logs for u, _ in l)), f"{what}: {name}: reach")


# ---- what one configuration produces -----------------------------------------------------------
def cases_product(tier):
    ps = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7, 10)
    ns = (1, 20, 64) if tier == "quick" else (1, 2, 20, 64, 100, 201)
    for p, n, ratio in itertools.product(ps, ns, (1, 0.5, 0.1, 0.25)):
        if sizes(p, n, ratio)[-1] & {0}:
            continue
        for imp in IMPS:
            for over in OVERS:
                yield (p, n, ratio, 0.1 if p % 2 else 0.25, imp, over)


def check_product(ctx, e):
    with fsutil.scratch() as d:
        cfg = config(d, [e])
        out = os.path.join(d, "out")
        os.mkdir(out)
        generate(out, cfg, 3)
        judge(ctx, out, [e], f"{e}")
        p, n, ratio, _, imp, over = e
        gens = [(type(g).__name__, g.set_sizes, {k: v for k, v in g.kwargs.items() if k != "random_state"}) for g in ENV.set_generators]
        if over == "full":
            ctx.eq(gens, [], f"{e}: overlap generators")
        else:
            ctx.eq(len(gens), 1, f"{e}: overlap generators")
            kw = {k: v for k, v in OVERS[over][1].items() if k != "random_generator"}
            ctx.eq({k: (v.value if hasattr(v, "value") else v) for k, v in gens[0][2].items()}, kw, f"{e}: overlap options")


# ---- designs of several entries, histories of generation ----------------------------------------
A = (2, 20, 0.5, 0.1, "hom", "full")
B = (3, 16, 0.25, 0.1, "het", "ind")
C = (2, 12, 1, 0.5, "heavy", "seq")
D = (1, 9, 0.9, 0.1, "hom", "full", "given name")
DESIGNS = {
    "d1": ([A, B], "list"),
    "d2": ([B, C, D], "gen"),
    "d3": ([A, B, C], "lhs"),
}


def disturb(k):
    if k == 1:
        np.random.seed(1234)
        random.seed(4)
    elif k == 2:
        np.random.rand(7)
        np.random.default_rng(5).random()
        random.random()
    elif k == 3:
        np.random.shuffle(list(range(5)))
        np.random.seed(1)


def reference(design, seed):
    """The design generated on its own, in a fresh generator."""
    with fsutil.scratch() as d:
        cfg = config(d, *DESIGNS[design])
        out = os.path.join(d, "out")
        os.mkdir(out)
        np.random.seed(99)
        generate(out, cfg, seed)
        return files(out)


JOBS = [(d, s) for d in sorted(DESIGNS) for s in (1, 2)]


def cases_hist(tier):
    # construction and call orders of two generators, with disturbances in between
    for a, b in itertools.product(JOBS, repeat=2):
        for order in ("aAbB", "abAB", "abBA"):
            for k in range(4):
                yield (a, b, order, k)
    if tier == "thorough":
        for a, b, c in itertools.product(JOBS, repeat=3):
            for order in ("aAbBcC", "abcABC", "abcCBA", "abBcAC"):
                yield (a, b, c, order, 2)


_REF = {}


def check_hist(ctx, case):
    jobs, order, k = case[:-2], case[-2], case[-1]
    for j in jobs:
        if j not in _REF:
            _REF[j] = reference(*j)
    with fsutil.scratch() as d:
        gens = {}
        ENV.reset()
        for step in order:
            i = "abc".index(step.lower())
            design, seed = jobs[i]
            out = os.path.join(d, f"out{i}")
            if step.islower():
                os.mkdir(out)
                gens[i] = SyntheticDataDesignGenerator(out, config(d, *DESIGNS[design]), seed, False)
            else:
                gens[i]()
                ctx.state((case, step))
                ctx.eq(files(out), _REF[jobs[i]], f"design {jobs[i]} generated in history {order}, disturbance {k}")
            disturb(k)


def cases_multi(tier):
    for name in DESIGNS:
        for seed in (1, 2, 3):
            yield (name, seed)


def check_multi(ctx, case):
    """Several entries in one design; equal seeds give equal files, different seeds different logs."""
    design, seed = case
    entries, style = DESIGNS[design]
    with fsutil.scratch() as d:
        cfg = config(d, entries, style)
        out = os.path.join(d, "out")
        os.mkdir(out)
        generate(out, cfg, seed)
        first = files(out)
        if style != "lhs":
            judge(ctx, out, entries, f"{case}")
        else:
            names = sorted(fsutil.tree(out)[1])
            ctx.eq(len(names), len(entries), f"{case}: data sets")
        ctx.state(case)
        for other in (1, 2, 3):
            if other == seed:
                continue
            o = reference(design, other)
            same = [k for k in o if k in first and o[k] == first[k] and len(o[k]) > 200]
            ctx.eq(same, [], f"{case}: publishers equal to those of seed {other}")
        # independent publishers and data sets within a design do not share their randomness
        texts = [v for v in first.values() if len(v) > 200]
        ctx.eq(len(set(texts)), len(texts), f"{case}: distinct logs")


def cases_process(tier):
    for name in DESIGNS:
        for hs in ("1", "77"):
            yield (name, hs)


SCRIPT = """
import sys, os, hashlib
from vmc import fsutil
from vmc.checks import C19
t = C19.reference(sys.argv[1], 1)
print("DIGEST", hashlib.md5(repr(sorted(t.items())).encode()).hexdigest())
"""


def check_process(ctx, case):
    """Another process (with other hash seeds) produces the same bytes."""
    design, hs = case
    env = dict(os.environ, PYTHONHASHSEED=hs)
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT, design], env=env, capture_output=True, text=True, cwd=ROOT)
    got = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("DIGEST")]
    if not got:
        raise AssertionError(r.stderr[-2000:])
    ctx.state(case)
    ctx.eq(got[0], hashlib.md5(repr(sorted(reference(design, 1).items())).encode()).hexdigest(), f"{case}: design of another process")


def cases_existing(tier):
    for names in itertools.product("xy", repeat=2):
        yield names


def check_existing(ctx, names):
    """Entries with the same name cannot both be stored: the design says so instead of losing one."""
    with fsutil.scratch() as d:
        entries = [(1, 9, 1, 0.1, "hom", "full", names[0]), (1, 5, 1, 0.1, "hom", "full", names[1])]
        cfg = config(d, entries)
        out = os.path.join(d, "out")
        os.mkdir(out)
        ctx.state(names)
        if names[0] == names[1]:
            ctx.raises(Exception, lambda: generate(out, cfg, 1), f"{names}: two entries of the same name")
        else:
            generate(out, cfg, 1)
            judge(ctx, out, entries, f"{names}")


# ---- names ---------------------------------------------------------------------------------------
def name_space(tier):
    cps = (0.1, 0.2)
    return list(itertools.product((1, 2, 11), (1, 12, 20), (1, 0.5, 0.1), cps, IMPS, OVERS, ("",), ("", "1", "2")))


def cases_names(tier):
    yield tier


def check_names(ctx, tier):
    seen = {}
    for e in name_space(tier):
        s = str(params(*e))
        ctx.state(s)
        ctx.eq(s, str(params(*e)), f"{e}: name of an equal configuration")
        ctx.true(s not in seen, f"configurations {e} and {seen.get(s)} share the name {s}")
        ctx.true("/" not in s, f"{e}: name usable as a directory")
        seen[s] = e
    base = params(2, 10, 0.5, 0.1, "hom", "ind")
    variants = [
        base._replace(impression_generator_params=GeneratorParameters("hom", HomogeneousImpressionGenerator, {"poisson_lambda": 2.5})),
        base._replace(overlap_generator_params=GeneratorParameters("ind", IndependentOverlapDataSet, {"universe_size": 401, "random_generator": 1})),
        base._replace(overlap_generator_params=GeneratorParameters("ind", IndependentOverlapDataSet, {"universe_size": 400, "random_generator": 2})),
        base._replace(impression_generator_params=GeneratorParameters("het", HeterogeneousImpressionGenerator, {"gamma_shape": 2.0, "gamma_scale": 1.5})),
        base._replace(pricing_generator_params=GeneratorParameters("Other", FixedPriceGenerator, {"cost_per_impression": 0.1})),
    ]
    names = [str(v) for v in [base] + variants]
    ctx.eq(len(set(names)), len(names), f"names of configurations that differ in one option: {names}")


# ---- the shipped configurations -------------------------------------------------------------------
def load(name):
    spec = importlib.util.spec_from_file_location("shipped_" + name, os.path.join(SRC, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


SHIPPED = {"simple_data_design_example": 27, "lhs_data_design_example": 10, "m3_data_design": 100,
           "analysis_example_data_design": 72, "single_publisher_design": 80}


def cases_shipped(tier):
    for name in SHIPPED:
        for seed in range(2 if tier == "quick" else 8):
            yield (name, seed)


def check_shipped(ctx, case):
    name, seed = case
    m = load(name)
    np.random.seed(seed)
    entries = list(m.generate_data_design_config(np.random.default_rng(seed)))
    ctx.eq(len(entries), SHIPPED[name], f"{case}: entries")
    names = [str(e) for e in entries]
    ctx.eq(len(set(names)), len(names), f"{case}: distinct names")
    again = list(load(name).generate_data_design_config(np.random.default_rng(seed))) if name not in (
        "lhs_data_design_example", "m3_data_design") else None
    if again is not None:
        ctx.eq([str(e) for e in again], names, f"{case}: repeated")
    for e in entries:
        ctx.state((case, str(e)))
        ctx.true(e.num_publishers >= 1 and e.largest_publisher_size >= 1, f"{case}: {e}: sizes")
        ctx.true(0 < e.largest_to_smallest_publisher_ratio <= 1, f"{case}: {e}: ratio")
    if hasattr(m, "LEVELS"):
        n = len(entries)
        for key, levels in m.LEVELS.items():
            got = [getattr(e, key) for e in entries]
            if key == "overlap_generator_params" and name == "m3_data_design":
                got = [(g.name, g.params.get("random_generator")) for g in got]
                levels = [(g.name, g.params.get("random_generator")) for g in levels]
            counts = [sum(1 for g in got if g == l) for l in levels]
            ctx.eq(sum(counts), n, f"{case}: {key}: every entry uses a listed level")
            if "lhs" in name or "m3" in name:  # balanced as a Latin hypercube is
                lo, hi = n // len(levels), -(-n // len(levels))
                # a level owns an interval of the cube; it holds lo-1..hi+1 slices
                ctx.true(all(lo - 1 <= c <= hi + 1 for c in counts), f"{case}: {key}: {counts} entries per level")
            else:
                ctx.eq(len(set(counts)), 1, f"{case}: {key}: {counts} entries per level")
    if name == "m3_data_design" and hasattr(m, "OVERLAP_GENERATORS"):
        ratios = {g.params["random_generator"]: g.params["largest_pub_to_universe_ratio"]
                  for g in m.OVERLAP_GENERATORS if g.name == "Independent"}
        for e in entries:
            o = e.overlap_generator_params
            if o.name == "Independent":
                ctx.eq(sorted(o.params), ["random_generator", "universe_size"], f"{case}: {e}: overlap options")
                want = e.largest_publisher_size / ratios[o.params["random_generator"]]
                ctx.true(abs(o.params["universe_size"] - want) < 1, f"{case}: {e}: universe {o.params['universe_size']}, expected {want}")
    if name == "single_publisher_design":
        ctx.eq(sorted(set(e.num_publishers for e in entries)), [1], f"{case}: publishers")
        for size in getattr(m, "PUBLISHER_SIZES", ()) if hasattr(m, "IMPRESSION_GENERATORS") else ():
            mine = [e.impression_generator_params for e in entries if e.largest_publisher_size == size]
            ctx.eq(mine, list(m.IMPRESSION_GENERATORS), f"{case}: impression generators at size {size}")


def cases_run(tier):
    yield ("simple_data_design_example", 1)
    yield ("lhs_data_design_example", 1)
    if tier == "thorough":
        for s in range(2, 8):
            yield ("lhs_data_design_example", s)
        yield ("analysis_example_data_design", 1)


def check_run(ctx, case):
    """The shipped examples generated for real, twice in different histories."""
    name, seed = case
    trees = []
    for k in (0, 1):
        with fsutil.scratch() as d:
            out = os.path.join(d, "out")
            os.mkdir(out)
            disturb(k)
            g = SyntheticDataDesignGenerator(out, os.path.join(SRC, name + ".py"), seed, False)
            disturb(2 * k)
            dd = g()
            trees.append(files(out))
            ctx.eq(dd.count, SHIPPED[name], f"{case}: data sets")
            by = {}
            for f, text in trees[-1].items():
                by.setdefault(os.path.dirname(f), {})[os.path.basename(f)] = len(set(l.split(",")[0] for l in text.splitlines()))
            ctx.eq(len(by), SHIPPED[name], f"{case}: directories")
            for dn, pubs in by.items():
                kv = dict(x.split("=", 1) for x in dn.split(",pricing")[0].split(","))
                p, n, ratio = int(kv["P"]), int(kv["N"]), float(kv["pub_ratio"])
                ok = sizes(p, n, ratio)
                ctx.eq(sorted(pubs), sorted(str(i + 1) for i in range(p)), f"{case}: {dn}: publishers")
                for i in range(p):
                    ctx.true(pubs[str(i + 1)] in ok[i], f"{case}: {dn}: publisher {i + 1} reaches {pubs[str(i + 1)]}, expected {ok[i]}")
                ctx.state((case, dn))
    ctx.eq(trees[1], trees[0], f"{case}: repeated in another history")


UNITS = [
    Unit("product", cases_product, check_product, "publishers x sizes x ratios x impression and overlap generators", chunk=4),
    Unit("multi", cases_multi, check_multi, "designs of several entries, several seeds", chunk=1),
    Unit("histories", cases_hist, check_hist, "all orders of constructing and calling two (thorough: three) generators, with disturbances", chunk=2),
    Unit("process", cases_process, check_process, "generation in other processes with other hash seeds", chunk=1),
    Unit("existing", cases_existing, check_existing, "equal names within a design", chunk=1),
    Unit("names", cases_names, check_names, "names of all configurations of a product", chunk=1),
    Unit("shipped", cases_shipped, check_shipped, "configurations of the five shipped designs", chunk=1, timeout=300),
    Unit("run", cases_run, check_run, "shipped example designs generated twice", chunk=1, timeout=600),
]
