"""Stored data sets: all operation histories against a model of the directory tree."""
import itertools
import os

from vmc.core import Unit, Violation
from vmc import fsutil
from vmc.peek import publishers
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

ASSUMPTIONS = [
    "one process at a time uses a design directory",
    "the cloud store is cloudpathlib's own local emulation of GCS",
    "reading a name that was never stored is performed (it may prime caches) but its outcome is not judged",
]

# contents: publisher name -> log; each publisher is identifiable through public queries
CONTENTS = {
    "c0": {"a": ((1, 0.5), (2, 1.5)), "b": ((2, 0.25), (3, 0.75), (2, 2.0))},
    "c1": {"a": ((4, 0.1),), "b": ((1, 7.0), (1, 8.0), (5, 9.0), (6, 9.5))},
    "c2": {"z": ((7, 0.30000000000000004), (8, 1e-9))},
}


def make(cid, name):
    return DataSet([PublisherData(list(l), p) for p, l in CONTENTS[cid].items()], name)


def same_content(ctx, ds, pubs, what):
    """ds holds exactly the publishers `pubs` (file name order), by public queries only."""
    names = sorted(pubs)
    ctx.eq(ds.publisher_count, len(names), f"{what}: publisher count")
    held = publishers(ds)
    if held is not None:
        ctx.eq([p.name for p in held], names, f"{what}: publisher names")
    logs = [pubs[n] for n in names]
    ctx.eq(ds.maximum_reach, len(set(i for l in logs for i, _ in l)), f"{what}: maximum reach")
    for j, l in enumerate(logs):
        for s in sorted(set(p for _, p in l)):
            spends = [-1.0] * len(logs)
            spends[j] = s
            rp = ds.reach_by_spend(spends, 3)
            c = {}
            for i, p in l:
                if p <= s:
                    c[i] = c.get(i, 0) + 1
            ctx.eq([rp.reach(k) for k in (1, 2, 3)],
                   [sum(1 for v in c.values() if v >= k) for k in (1, 2, 3)], f"{what}: reach of publisher {j} at {s}")
            ctx.eq(list(rp.impressions)[j], sum(c.values()), f"{what}: impressions of publisher {j} at {s}")
            below = [-1.0] * len(logs)
            below[j] = s - max(abs(s) * 1e-15, 1e-300)
            ctx.eq(ds.impressions_by_spend(below)[j], sum(1 for _, p in l if p <= below[j]),
                   f"{what}: impressions of publisher {j} just below {s}")


OPS = ([("add", d, n, c) for d in "AB" for n in ("x", "y") for c in ("c0", "c1")]
       + [("read", d, n) for d in "AB" for n in ("x", "y")]
       + [("copy", "A", "x", "B"), ("copy", "B", "y", "A")]
       + [("reopen", "A"), ("write", "A", "x", "c2"), ("writeas", "A", "x", "c1")])

# histories for one design at greater depth
OPS1 = [("add", "A", "x", "c0"), ("add", "A", "y", "c1"), ("read", "A", "x"), ("read", "A", "y"),
        ("reopen", "A"), ("write", "A", "x", "c1"), ("write", "A", "y", "c2"), ("copy", "A", "x", "B")]


def cases_hist(tier):
    for n in range(1, 4):
        yield from itertools.product(OPS, repeat=n)
    for n in range(4, 5 if tier == "quick" else 6):
        yield from itertools.product(OPS1, repeat=n)


def drive(ctx, ops, dirs, fs, kwargs, store_tree):
    model = {d: {} for d in dirs}
    # `known` follows the names an open design object has seen
    open_ = {d: DataDesign(dirs[d], **kwargs) for d in dirs}
    known = {d: set() for d in dirs}
    for op in ops:
        ctx.note(op)
        kind, d = op[0], op[1]
        ctx.state((op, str(sorted((k, sorted((n, sorted(v)) for n, v in m.items())) for k, m in model.items()))))
        if kind == "add":
            _, _, name, cid = op
            ds = make(cid, name)
            if name in model[d]:
                before = store_tree()
                ctx.raises(ValueError, lambda: open_[d].add(ds), f"adding the existing name {name}")
                ctx.eq(store_tree(), before, f"a refused add changed the store")
            else:
                open_[d].add(ds)
                model[d][name] = dict(CONTENTS[cid])
                known[d].add(name)
        elif kind == "read":
            name = op[2]
            if name in model[d]:
                ds = open_[d].by_name(name)
                ctx.eq(ds.name, name, "name of the read data set")
                same_content(ctx, ds, model[d][name], f"read {d}/{name}")
            else:
                try:
                    open_[d].by_name(name)
                except Exception:
                    pass
        elif kind == "reopen":
            open_[d] = DataDesign(dirs[d], **kwargs)
            known[d] = set(model[d])
        elif kind in ("write", "writeas"):
            _, _, name, cid = op
            if kind == "write":
                make(cid, name).write_data_set(dirs[d], **({"filesystem": fs} if kwargs else {}))
            else:
                make(cid, "other").write_data_set(dirs[d], name, **({"filesystem": fs} if kwargs else {}))
            model[d].setdefault(name, {}).update(CONTENTS[cid])
        elif kind == "copy":
            _, _, name, to = op
            if name not in model[d]:
                continue
            ds = open_[d].by_name(name)
            if name in model[to]:
                ctx.raises(ValueError, lambda: open_[to].add(ds), f"copying onto the existing name {name}")
            else:
                open_[to].add(ds)
                model[to][name] = dict(model[d][name])
                known[to].add(name)
        for k in dirs:
            listed = open_[k].names
            ctx.true(list(listed) == sorted(listed) and known[k] <= set(listed) <= set(model[k]),
                     f"names listed by {k}: {listed}, stored {sorted(model[k])}")
            ctx.eq(open_[k].count, len(listed), f"count of {k}")
    # final audit through fresh objects and on the raw store
    for k in dirs:
        fresh = DataDesign(dirs[k], **kwargs)
        ctx.eq(fresh.names, sorted(model[k]), f"names of the reopened design {k}")
        for name, pubs in model[k].items():
            same_content(ctx, fresh.by_name(name), pubs, f"final read {k}/{name}")
    return model


def audit_tree(ctx, root, model):
    files, _ = fsutil.tree(root)
    expected = {}
    for d, m in model.items():
        for name, pubs in m.items():
            for p, l in pubs.items():
                expected[f"{d}/{name}/{p}"] = sorted(l)
    ctx.eq(sorted(files), sorted(expected), "files in the store")
    for path, text in files.items():
        rows = sorted((int(a), float(b)) for a, b in (x.split(",") for x in text.splitlines()))
        ctx.eq(rows, expected[path], f"contents of {path}")


def check_hist(ctx, ops):
    with fsutil.scratch() as root:
        dirs = {d: os.path.join(root, d) for d in "AB"}
        model = drive(ctx, ops, dirs, None, {}, lambda: fsutil.tree(root))
        audit_tree(ctx, root, model)


CLOUD_OPS = [("add", "A", "x", "c0"), ("add", "A", "y", "c1"), ("read", "A", "x"), ("reopen", "A"),
             ("write", "A", "x", "c1"), ("copy", "A", "x", "B")]


def cases_cloud(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        yield from itertools.product(CLOUD_OPS, repeat=n)


def check_cloud(ctx, ops):
    with fsutil.scratch() as root, fsutil.cloud(root) as fs:
        bucket = os.path.join(root, "buckets", "bucket")
        for d in "AB":
            os.makedirs(os.path.join(bucket, d), exist_ok=True)
        dirs = {d: f"gs://bucket/{d}" for d in "AB"}
        model = drive(ctx, ops, dirs, fs, {"filesystem": fs}, lambda: fsutil.tree(bucket))
        audit_tree(ctx, bucket, model)


def cases_bad(tier):
    for names in itertools.product(("ok", "bad", "short"), repeat=3):
        yield names


def check_bad(ctx, kinds):
    """Unreadable publisher files are reported by name; foreign entries are not data."""
    texts = {"ok": "1,0.5\n2,1.0\n", "bad": "1,0.5\nnonsense\n", "short": "1,0.5\n7\n"}
    with fsutil.scratch() as root:
        os.makedirs(os.path.join(root, "D", "ds", "subdir"))
        with open(os.path.join(root, "D", "readme"), "w") as f:
            f.write("not a data set")
        for j, k in enumerate(kinds):
            with open(os.path.join(root, "D", "ds", f"pub{j}"), "w") as f:
                f.write(texts[k])
        dd = DataDesign(os.path.join(root, "D"))
        ctx.state(kinds)
        ctx.eq(dd.names, ["ds"], "names")
        bad = [j for j, k in enumerate(kinds) if k != "ok"]
        if not bad:
            ctx.eq(dd.by_name("ds").publisher_count, 3, "publishers")
            return
        for _ in range(2):  # an error is not cached as an answer
            try:
                dd.by_name("ds")
            except RuntimeError as e:
                ctx.true(any(f"pub{j}" in str(e) for j in bad), f"error does not name an unreadable file: {e}")
            except Exception as e:  # noqa
                raise Violation(f"unreadable file gave {type(e).__name__}: {e}")
            else:
                raise Violation("an unreadable publisher file was accepted")
        # repairing the file makes it readable
        for j in bad:
            with open(os.path.join(root, "D", "ds", f"pub{j}"), "w") as f:
                f.write(texts["ok"])
        ctx.eq(dd.by_name("ds").publisher_count, 3, "publishers after the repair")


FL = [0.1, 1 / 3, 0.30000000000000004, 1e-9, 5e-324, 1e300, 123456789.12345679, 1e22, 0.0, 2.0]


def cases_floats(tier):
    yield from itertools.product(FL, repeat=2)


def check_floats(ctx, prices):
    log = [(k + 1, p) for k, p in enumerate(prices)] + [(2 ** 70, prices[0])]
    with fsutil.scratch() as root:
        dd = DataDesign(os.path.join(root, "D"))
        dd.add(DataSet([PublisherData(log, "p,1"), PublisherData(log[:1], "q")], "n=1,(x)"))
        back = DataDesign(os.path.join(root, "D")).by_name("n=1,(x)")
        ctx.state(prices)
        for s in prices:
            ctx.eq(back.impressions_by_spend([s, s]),
                   [sum(1 for _, p in log if p <= s), 1 if prices[0] <= s else 0], f"round trip at price {s!r}")
            ctx.eq(back.reach_by_spend([s, s]).reach(),
                   len(set(i for i, p in log if p <= s)), f"round trip reach at price {s!r}")
        ctx.eq(back.spend_by_impressions([3, 3]), [max(prices), prices[0]], "round trip maximum spend")
        for via in ("dir", None):
            back.write_data_set(os.path.join(root, "E"), via)
            sub = via or "n=1,(x)"
            files, _ = fsutil.tree(os.path.join(root, "E", sub))
            ctx.eq(sorted(files), ["p,1", "q"], "publisher files of the copy")
            orig, _ = fsutil.tree(os.path.join(root, "D", "n=1,(x)"))
            ctx.eq(files, orig, "copy equals the original")


def cases_many(tier):
    yield from itertools.product(("sets", "publishers", "long", "nested", "odd"), (False, True))


def check_many(ctx, case):
    """More data sets than any cache holds, many publishers, long logs, nested directories."""
    kind, twice = case
    ctx.state(case)
    with fsutil.scratch() as root:
        path = os.path.join(root, "one", "two", "D")
        if kind == "sets":
            want = {f"set {i}": {f"p.{j}": tuple((i + 3 * j + k, 0.25 * (k + i + 1)) for k in range(1 + i % 3))
                                 for j in range(1 + i % 2)} for i in range(150)}
        elif kind == "publishers":
            want = {"d": {str(j + 1): tuple((j * 2 + k, 0.5 + k) for k in range(3)) for j in range(23)}}
        elif kind == "long":
            want = {"l": {"big": tuple(((k * k) % 701 + 10 ** 11, 0.001 * (k + 1)) for k in range(2500)),
                          "small": ((1, 0.5),)}}
        elif kind == "odd":
            odd = (".a", "a.", "_x", "~b", "#c", "a b ", "-d", "x.csv", "x.tmp", "x~", "[e]", "f*", "001", "1", "01", "A", "n" * 120, "é", "*", "?")
            want = {n: {m: ((i + 1, 0.5), (i + j, 1.5)) for j, m in enumerate(odd)} for i, n in enumerate(odd)}
        else:
            want = {"a=1,b=(2)": {"x y": ((1, 0.1),)}, "A": {"Ä": ((2, 0.2),)}, "a": {"b": ((3, 0.3),)}}
        dd = DataDesign(path)
        for name, pubs in want.items():
            dd.add(DataSet([PublisherData(list(l), p) for p, l in pubs.items()], name))
        if twice:
            dd = DataDesign(path)
        ctx.eq(dd.names, sorted(want), "names")
        ctx.eq(dd.count, len(want), "count")
        for order in (list(want), list(want)[::-1]):
            for name in order:
                ds = dd.by_name(name)
                ctx.eq(ds.name, name, "name")
                if kind == "long":
                    held = want[name]["big"]
                    for s in (0.001, 0.5, 1.2345, 2.5, 99.0):
                        rp = ds.reach_by_spend([s, -1.0])
                        ctx.eq([rp.reach(), list(rp.impressions)[0]],
                               [len(set(u for u, p in held if p <= s)), sum(1 for _, p in held if p <= s)], f"reach at {s}")
                else:
                    same_content(ctx, ds, want[name], f"read {name}")
        # rewriting one of them is seen, the others stay
        first = list(want)[0]
        new = {p: tuple((u + 1000, q) for u, q in l[:1]) for p, l in want[first].items()}
        DataSet([PublisherData(list(l), p) for p, l in new.items()], first).write_data_set(path)
        same_content(ctx, dd.by_name(first), new, "rewritten")
        if len(want) > 1:
            last = list(want)[-1]
            same_content(ctx, dd.by_name(last), want[last], "not rewritten")


UNITS = [
    Unit("many", cases_many, check_many, "150 data sets, 23 publishers, 2500 events, nested paths", chunk=1),
    Unit("histories", cases_hist, check_hist, "every operation history up to depth 3 on two designs (depth 4 with a smaller alphabet)", chunk=40),
    Unit("cloud", cases_cloud, check_cloud, "every history up to depth 3 on the emulated cloud store", chunk=10),
    Unit("unreadable", cases_bad, check_bad, "every combination of readable and unreadable publisher files"),
    Unit("floats", cases_floats, check_floats, "round trips of adversarial prices and names"),
]
