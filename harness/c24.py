"""C24: Nsight reports."""
import os
from harness.common import Config, Rigid, isnull
from harness.readers import Texts, csvs, tempdir, write_csv

FUNCTIONS = ["pipit.readers.nsight_reader.NsightReader", "pipit.trace.Trace.from_nsight", "pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee", "pipit.trace.Trace.calc_inc_metrics"]
STUBS = ["as C25: the report is really written and parsed, symbolic numbers are placeholders in it"]
ASSUMPTIONS = ["start <= end; intervals of a thread are disjoint, touching or properly nested",
               "of two intervals of a thread with the same start and end either may be the outer one", "a report in which every PID equals its TID may have no Thread column", "no name is one that stands for a missing value in CSV files (NA, null, nan, ...)"]
IDS = {  # layouts of (PID, TID)
    "one": [(700, 700)],
    "single": [(700, 31)],
    "threads": [(700, 700), (700, 12)],
    "processes": [(900, 900), (20, 20)],
    "swapped": [(900, 20), (20, 900), (900, 900)],
    "big": [(4194304, 2 ** 31 + 5), (4194304, 2 ** 31 + 6), (99999, 2 ** 31 + 5)],
    "140 threads": [(700, 1000 - j) for j in range(140)],
    "140 processes": [(2000 - 3 * j, 2000 - 3 * j) for j in range(140)],
    "300 threads": [(700, 5000 - j) for j in range(300)] + [(800, 5000 - j) for j in range(4)],
    "mixed": [(900, 5), (20, 5), (20, 900), (900, 900)],
}
COLS = ["Start (ns)", "End (ns)", "Duration (ns)", "PID", "TID", "Name", "Note"]


def apart(a, b):
    return bool(a["e"] <= b["s"]) or bool(b["e"] <= a["s"])


def inside(a, b):
    return bool(b["s"] <= a["s"]) and bool(a["e"] <= b["e"])


def run(ctx, n, ids, names=("foo",), tmax=2 ** 50, shape="any", analyse=True, order=(0,), odd=False):
    places = IDS[ctx.choice("ids", ids)]
    txt = Texts(ctx)
    iv = []
    for i in range(n):
        if shape == "any":
            s = ctx.int("s%d" % i, 0, tmax)
            e = ctx.int("e%d" % i, 0, tmax)
            ctx.assume(s <= e)
        else:
            # many calls of few different lengths, one after the other
            gap = ctx.int("gap", 0, 1) if i == 0 else gap  # noqa: F821
            s = iv[-1]["e"] + gap if iv else 0
            e = s + (i % 3)
        pid, tid = places[ctx.choice("w%d" % i, list(range(len(places)))) if len(places) < 99 else i % len(places)]
        iv.append({"s": s, "e": e, "pid": pid, "tid": tid, "n": ctx.choice("n%d" % i, names), "note": "call %d" % i, "d": e - s if not odd else ctx.int("d%d" % i, 0, tmax)})
    related = {}
    for i, a in enumerate(iv if analyse or shape != "row" else []):
        for j in range(i):
            b = iv[j]
            if (a["pid"], a["tid"]) == (b["pid"], b["tid"]):
                if apart(a, b):
                    related[i, j] = "apart"
                    if shape == "any" and bool(a["e"] == b["s"]):
                        ctx.cover("touching")
                elif inside(a, b) and inside(b, a):
                    related[i, j] = "equal"
                elif inside(a, b):
                    related[i, j] = "in"
                elif inside(b, a):
                    related[i, j] = "out"
                else:
                    ctx.assume(False)
                ctx.cover(related[i, j])
    head = [COLS, COLS[::-1]][ctx.choice("columns", order)]
    with tempdir() as d, csvs(ctx, txt):
        path = os.path.join(d, "report.csv")
        val = {"Start (ns)": lambda x: txt(x["s"]), "End (ns)": lambda x: txt(x["e"]), "Duration (ns)": lambda x: txt(x["d"]), "PID": lambda x: str(x["pid"]),
               "TID": lambda x: str(x["tid"]), "Name": lambda x: x["n"], "Note": lambda x: x["note"]}
        write_csv(path, head, [[val[h](x) for h in head] for x in iv])
        from pipit import Trace
        t = Trace.from_nsight(path)
    ev = t.events
    ctx.check(len(ev) == 2 * n, "two rows per interval", lambda: len(ev))
    if analyse:
        t._match_events()
        t._match_caller_callee()
        t.calc_inc_metrics()
        ev = t.events
    cols = {c: list(ev[c]) for c in ev.columns}
    times = cols["Timestamp (ns)"]
    for a, b in zip(times, times[1:]):
        ctx.check(a <= b, "times do not decrease", lambda: times)
    where = {}
    for i, x in enumerate(iv):
        rows = [r for r in range(len(ev)) if cols["Note"][r] == x["note"]]
        kinds = [cols["Event Type"][r] for r in rows]
        ctx.check(kinds == ["Enter", "Leave"], "one Enter, then one Leave", lambda: (iv, cols["Note"], cols["Event Type"]))
        if kinds != ["Enter", "Leave"]:
            return
        where[i] = rows
        for r, tm in zip(rows, (x["s"], x["e"])):
            d = lambda: (x, {c: cols[c][r] for c in cols})  # noqa: E731,B023
            ctx.check(ctx.eq(times[r], tm), "time of an event", d)
            ctx.check(cols["Name"][r] == x["n"], "name of an event", d)
            ctx.check(cols["PID"][r] == x["pid"] and cols["TID"][r] == x["tid"], "PID and TID of an event", d)
            ctx.check(ctx.eq(cols["Duration (ns)"][r], x["d"]), "other columns of an event", d)
            x.setdefault("at", []).append((int(cols["Process"][r]), int(cols["Thread"][r]) if "Thread" in cols else 0))
    ctx.check("Thread" in cols or all(x["pid"] == x["tid"] for x in iv), "thread numbers", lambda: list(cols))
    ctx.check(all(len(set(x["at"])) == 1 for x in iv), "both events of an interval are at the same place")
    proc = {x["pid"]: x["at"][0][0] for x in iv}
    ctx.check(sorted(proc.values()) == list(range(len(proc))) and all(proc[x["pid"]] == x["at"][0][0] for x in iv), "processes are numbered from 0, one per PID", lambda: iv)
    for p in proc:
        th = {x["tid"]: x["at"][0][1] for x in iv if x["pid"] == p}
        ctx.check(sorted(th.values()) == list(range(len(th))) and all(th[x["tid"]] == x["at"][0][1] for x in iv if x["pid"] == p), "threads are numbered from 0 per process", lambda: iv)
    if len(proc) == 1:
        ctx.cover("single process")
    if not analyse:
        return
    for i, x in enumerate(iv):
        a, b = where[i]
        ctx.check(cols["_matching_event"][a] == b and cols["_matching_event"][b] == a, "matching of an interval's own events", lambda: (iv, cols["_matching_event"]))
        ctx.check(ctx.eq(cols["time.inc"][a], x["e"] - x["s"]), "inclusive time of an interval", lambda: (x, cols["time.inc"]))
        up, seen = cols["_parent"][a], []
        while not isnull(up) and len(seen) <= n:
            seen.append(int(up))
            up = cols["_parent"][int(up)]
        for j, y in enumerate(iv):
            rel = related.get((i, j)) or {"in": "out", "out": "in"}.get(related.get((j, i)), related.get((j, i)))
            if j == i or rel == "equal":
                continue
            ctx.check((where[j][0] in seen) == (rel == "in"), "nesting of intervals", lambda: (x, y, rel, cols))
        ctx.check(cols["_depth"][a] == len(seen), "depth of an interval", lambda: (iv, cols["_depth"]))


def run_report(ctx, lengths, ids):
    """reports of many intervals"""
    n = ctx.choice("intervals", lengths)
    run(Rigid(ctx, ("d%d" % (n - 3), "gap"), ctx.choice("salt", [0, 1])), n, [ctx.choice("layout", ids)], names=("foo", " foo", "foo ", "a, b", "say \"x\""), order=(0, 1), shape="row", odd=True, analyse=False)


def configs(tier):
    q = tier == "quick"
    rel = ["apart", "touching", "in", "out"]
    return [
        Config("late", run, dict(n=2, ids=["one"], tmax=2 ** 62), rel + ["equal"], "times up to 2^62"),
        Config("one", run, dict(n=3, ids=["one"], names=("foo",)), rel + ["equal", "single process"], "three intervals of one function on one thread, any times"),
        Config("names", run, dict(n=2 if q else 3, ids=["one"], names=("foo", " foo", "a, b"), order=(0, 1), odd=True), rel, "names, orders of the columns, a duration column of its own"),
        Config("places", run, dict(n=2 if q else 3, ids=["single", "threads", "processes", "mixed"]), ["apart", "in"], "several processes and threads"),
        Config("numbers", run, dict(n=4 if q else 6, ids=["mixed", "threads", "processes", "swapped", "big"], shape="row", analyse=False), [], "numbering of processes and threads"),
        Config("crowd", run, dict(n=310, ids=["140 threads", "140 processes", "300 threads"], shape="row", analyse=False), [], "many threads or processes"),
        Config("report", run_report, dict(lengths=[130, 700] if q else [64, 130, 300, 700, 3000], ids=["mixed", "140 threads"]), [], "reports of 700 (thorough: 3000) intervals"),
        Config("long", run, dict(n=30 if q else 60, ids=["one"], shape="row"), ["apart"], "many short calls one after the other, zero-length and touching ones among them"),
    ] + ([] if q else [Config("four", run, dict(n=4, ids=["one"], tmax=2 ** 50), rel, "four intervals")])
