"""Publisher log: prefix semantics against a reference log, for all small logs."""
import io
import itertools

from vmc.core import Unit, Violation, plain
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

ASSUMPTIONS = [
    "logs are non-empty lists of (int id, float price >= 0); prices within a log are not NaN",
    "among events with equal price any fixed order is accepted as long as every query path agrees with it",
]


def _logs(ids, prices, lengths):
    events = list(itertools.product(ids, prices))
    for n in lengths:
        for log in itertools.product(events, repeat=n):
            yield log


def cases_logs(tier):
    yield from _logs((0, 7, 3), (0.0, 0.5, 2.25), range(1, 5 if tier == "quick" else 6))
    yield from _logs((1, 2), (1.0, 1.5, 3.0), range(5, 6 if tier == "quick" else 7))
    yield from _logs((4,), (0.1, 0.2, 0.30000000000000004, 0.3), range(1, 6 if tier == "quick" else 7))
    # prices far below and far above one unit, and ids that are far apart
    yield from _logs((10 ** 12, 3), (1e-9, 3e-9, 1e-3, 1.0000001e9), range(1, 4 if tier == "quick" else 5))


def count(ids):
    d = {}
    for i in ids:
        d[i] = d.get(i, 0) + 1
    return d


def check_log(ctx, log):
    given = [tuple(e) for e in log]
    keep = list(given)
    pub = PublisherData(given, "p")
    n = len(log)
    prices = sorted(set(p for _, p in log))
    ctx.eq(pub.name, "p", "name")
    ctx.eq(pub.max_impressions, n, "total impressions")
    ctx.eq(pub.max_spend, max(p for _, p in log), "total spend")
    ctx.eq(pub.max_reach, len(set(i for i, _ in log)), "total unique users")

    # spend queries: on, between, below and above the prices
    grid = sorted(set(prices + [(a + b) / 2 for a, b in zip(prices, prices[1:])]
                      + [prices[-1] + 1.0, 0.0, prices[0] / 2]))
    for s in grid:
        bought = [i for i, p in log if p <= s]
        ctx.state(("spend", s))
        ctx.eq(pub.impressions_by_spend(s), len(bought), f"impressions bought for spend {s}")
        ctx.eq(pub.user_counts_by_spend(s), count(bought), f"user frequencies for spend {s}")

    # impression queries: growing prefixes of one ordered log
    ordered = sorted(log, key=lambda e: e[1])
    prev = {}
    for k in range(0, n + 3):
        ctx.state(("imp", k))
        m = min(k, n)
        got = plain(pub.user_counts_by_impressions(k))
        price = pub.spend_by_impressions(k)
        if k == 0:
            ctx.eq(price, 0.0, "price of 0 impressions")
            ctx.eq(got, {}, "users of 0 impressions")
            prev = got
            continue
        ctx.eq(price, ordered[m - 1][1], f"price of {k} impressions")
        ctx.eq(sum(got.values()), m, f"number of impressions in a buy of {k}")
        cheaper = count(i for i, p in log if p < price)
        upto = count(i for i, p in log if p <= price)
        for u in set(got) | set(upto):
            ctx.true(cheaper.get(u, 0) <= got.get(u, 0) <= upto.get(u, 0),
                     f"a buy of {k} impressions is not the {k} cheapest events: {got}")
            ctx.true(got.get(u, 0) > 0 or u not in got, "zero frequency listed")
            ctx.true(got.get(u, 0) >= prev.get(u, 0), f"a buy of {k} loses impressions of user {u}")
        prev = got
        # spending the price of k impressions buys at least those k
        ctx.true(pub.impressions_by_spend(price) >= m, f"spend for {k} impressions buys fewer")

    ctx.eq(given, keep, "the caller's log was altered")
    # later changes of the caller's list do not reach the object
    given.append((99, 0.0))
    ctx.eq(pub.max_impressions, n, "log shared with the caller")
    ctx.eq(pub.user_counts_by_spend(prices[-1]), count(i for i, _ in log), "log shared with the caller")

    # written form holds exactly these events, cheapest first, and reads back to an equal object
    f = io.StringIO()
    pub.write_publisher_data(f)
    lines = f.getvalue().splitlines()
    rows = [(int(a), float(b)) for a, b in (x.split(",") for x in lines)]
    ctx.eq(sorted(rows), sorted(log), "written events")
    ctx.eq([b for _, b in rows], [b for _, b in ordered], "written order")
    back = PublisherData.read_publisher_data(io.StringIO(f.getvalue()))
    f2 = io.StringIO()
    back.write_publisher_data(f2)
    ctx.eq(f2.getvalue(), f.getvalue(), "round trip of the written log")
    ctx.eq([back.max_impressions, back.max_spend, back.max_reach],
           [pub.max_impressions, pub.max_spend, pub.max_reach], "round trip totals")


GOOD = {"1,0.5": (1, 0.5), "2,1.5": (2, 1.5), "1,0.25": (1, 0.25), "3,1e-3": (3, 0.001)}
BAD = ["abc", "1", "1,2,3", "1.5,2", "1,x", "", ",", "1;2"]


def cases_files(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for lines in itertools.product(list(GOOD) + BAD, repeat=n):
            for eol in (True, False):
                if not eol and lines[-1] == "":
                    continue
                yield (lines, eol)


def check_file(ctx, case):
    lines, eol = case
    text = "\n".join(lines) + ("\n" if eol else "")
    bad = [k + 1 for k, l in enumerate(lines) if l not in GOOD]
    ctx.state(case)
    if bad:
        try:
            PublisherData.read_publisher_data(io.StringIO(text))
        except RuntimeError as e:
            ctx.step()
            digits = [int(w.strip(":,.")) for w in str(e).split() if w.strip(":,.").isdigit()]
            ctx.true(bad[0] in digits and str(e).find(str(bad[0])) >= 0,
                     f"error does not name line {bad[0]}: {e}")
            return
        except Exception as e:  # noqa
            raise Violation(f"malformed line {bad[0]} raised {type(e).__name__} instead of a located error: {e}")
        raise Violation(f"malformed line {bad[0]} accepted: {text!r}")
    pub = PublisherData.read_publisher_data(io.StringIO(text))
    events = [GOOD[l] for l in lines]
    ctx.eq(pub.max_impressions, len(events), "events read")
    f = io.StringIO()
    pub.write_publisher_data(f)
    rows = sorted((int(a), float(b)) for a, b in (x.split(",") for x in f.getvalue().splitlines()))
    ctx.eq(rows, sorted(events), "events read")


FLOATS = [0.1, 1 / 3, 0.30000000000000004, 1e-9, 5e-324, 1.7976931348623157e308, 123456789.12345679,
          9007199254740993.0, 1e22, 2.5, 0.0, 1e-7, 100.0]


def cases_floats(tier):
    yield from itertools.product(FLOATS, repeat=2 if tier == "quick" else 3)


def check_floats(ctx, prices):
    log = [(10 ** k + k, p) for k, p in enumerate(prices)]
    f = io.StringIO()
    PublisherData(log, "x").write_publisher_data(f)
    back = PublisherData.read_publisher_data(io.StringIO(f.getvalue()))
    ctx.state(prices)
    for u, p in log:
        ctx.true(back.user_counts_by_spend(p).get(u) == 1, f"user {u} lost at its own price {p!r}")
        below = p * (1 - 2 ** -53) if p > 1e-300 else p / 2
        if below < p:
            ctx.true(u not in back.user_counts_by_spend(below), f"user {u} became cheaper than {p!r}")


def cases_names(tier):
    yield from ["x", "a b", None, ""]


def check_names(ctx, name):
    pub = PublisherData([(1, 1.0)], name) if name is not None else PublisherData([(1, 1.0)])
    ctx.state(name)
    if name:
        ctx.eq(pub.name, name, "name")
    else:
        ctx.true(isinstance(pub.name, str) and pub.name.isdigit(), f"generated name {pub.name!r}")
    pub.name = "new"
    ctx.eq(pub.name, "new", "renamed")


HLOGS = [
    ((1, 2.0), (2, 1.0), (1, 1.0), (3, 3.0), (2, 3.0)),
    ((5, 0.25), (5, 0.5), (6, 0.75)),
]


def cases_history(tier):
    ops = [(w, q, a) for w in (0, 1) for q in ("imp", "buy", "users", "price") for a in (0, 1, 2)]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        yield from itertools.product(range(len(ops)), repeat=n) if n < 4 else itertools.product(range(0, len(ops), 2), repeat=n)


def ask(ctx, pub, log, q, a, what):
    """One query, compared with the log; what is handed out is then defaced."""
    ordered = sorted(log, key=lambda e: e[1])
    s = (ordered[0][1], ordered[-1][1], (ordered[0][1] + ordered[-1][1]) / 2)[a]
    k = (1, len(log), 0)[a]
    if q == "imp":
        ctx.eq(pub.impressions_by_spend(s), sum(1 for _, p in log if p <= s), f"{what}: impressions for spend {s}")
    elif q == "buy":
        got = pub.user_counts_by_spend(s)
        ctx.eq(dict(got), count(i for i, p in log if p <= s), f"{what}: users for spend {s}")
        got[1] = got.get(1, 0) + 5
        got[77] = 3
    elif q == "users":
        got = pub.user_counts_by_impressions(k)
        ctx.eq(sum(got.values()), k, f"{what}: users of {k} impressions")
        if k == len(log):
            ctx.eq(dict(got), count(i for i, _ in log), f"{what}: users of {k} impressions")
        got.clear()
        got[77] = 3
    else:
        ctx.eq(pub.spend_by_impressions(k), ordered[k - 1][1] if k else 0.0, f"{what}: price of {k} impressions")


def check_history(ctx, seq):
    ops = [(w, q, a) for w in (0, 1) for q in ("imp", "buy", "users", "price") for a in (0, 1, 2)]
    pubs = [PublisherData(list(l), "same name") for l in HLOGS]
    ctx.state(seq)
    for i, o in enumerate(seq):
        w, q, a = ops[o]
        ask(ctx, pubs[w], HLOGS[w], q, a, f"query {i} of {[ops[x] for x in seq]}")
    for w in (0, 1):
        ctx.eq([pubs[w].max_impressions, pubs[w].max_spend, pubs[w].max_reach],
               [len(HLOGS[w]), max(p for _, p in HLOGS[w]), len(set(i for i, _ in HLOGS[w]))], "totals afterwards")


def cases_large(tier):
    for n in (101, 1500) if tier == "quick" else (101, 1500, 6000):
        for kind in ("distinct", "ties", "descending", "one user", "one price"):
            yield (n, kind)


def check_large(ctx, case):
    """Long logs: every prefix, in growing and in shrinking order."""
    n, kind = case
    log = [((i * 7919) % (n // 3), {"distinct": 0.01 * (i + 1), "ties": float((i * 31) % 17), "descending": float(n - i),
                                    "one user": 0.5 * i, "one price": 2.0}[kind]) for i in range(n)]
    if kind == "one user":
        log = [(4, p) for _, p in log]
    pub = PublisherData(list(log), "big")
    ctx.eq([pub.max_impressions, pub.max_spend, pub.max_reach],
           [n, max(p for _, p in log), len(set(i for i, _ in log))], "totals")
    ordered = sorted(log, key=lambda e: e[1])
    prices = sorted(set(p for _, p in log))
    import bisect
    ps = [p for _, p in ordered]
    ks = sorted(set(list(range(0, n + 1, max(1, n // 60))) + [1, 2, n - 1, n, n + 1, 2 * n, 10 ** 9]))
    for k in ks + ks[::-1]:
        ctx.state((case, k))
        m = min(k, n)
        ctx.eq(pub.spend_by_impressions(k), ps[m - 1] if k else 0.0, f"price of {k} impressions")
        got = pub.user_counts_by_impressions(k)
        ctx.eq(sum(got.values()), m, f"impressions in a buy of {k}")
        if m == n or not m or ps[m] > ps[m - 1]:
            ctx.eq(dict(got), count(i for i, _ in ordered[:m]), f"users of {k} impressions")
    grid = prices[:: max(1, len(prices) // 60)] + [0.0, prices[-1], prices[-1] * 10 + 1]
    for s in grid + grid[::-1]:
        m = bisect.bisect_right(ps, s)
        ctx.eq(pub.impressions_by_spend(s), m, f"impressions for spend {s}")
        ctx.eq(dict(pub.user_counts_by_spend(s)), count(i for i, _ in ordered[:m]), f"users for spend {s}")


UNITS = [
    Unit("history", cases_history, check_history, "every sequence of 2-3 queries on two publishers, defacing what is returned", chunk=400),
    Unit("large", cases_large, check_large, "logs of up to 1500 events, prefixes in both orders", chunk=1),
    Unit("logs", cases_logs, check_log, "every log over small id/price alphabets, every query", chunk=200),
    Unit("files", cases_files, check_file, "every file of up to 3 lines over good and malformed lines", chunk=200),
    Unit("floats", cases_floats, check_floats, "round trip of adversarial prices", chunk=50),
    Unit("names", cases_names, check_names, "names"),
]
