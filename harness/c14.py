"""C14: analyses do not disturb the trace or each other."""
import copy
import json
import numpy as np
import pandas as pd
from harness.common import Config, times, make_trace, isnull, same, Sym, SymEnum

FUNCTIONS = ["pipit.trace.Trace: _match_events, _match_caller_callee, calc_inc_metrics, calc_exc_metrics, flat_profile, load_imbalance, "
             "idle_time, time_profile, comm_matrix, comm_by_process, comm_over_time, message_histogram, multirun_analysis, create_cct, to_chrome",
             "pipit.util.cct.create_cct", "pipit.writers.chrome_writer.ChromeWriter"]
STUBS = ["numpy.histogram/linspace/zeros as in C10-C12", "DataFrame.to_json is replaced by capturing the exported records (symbolic runs)"]
ASSUMPTIONS = ["default RangeIndex"]

# (kind, name, process); times and the metric A are symbolic
SHAPES = {
    "nested": [("Enter", "foo", 0), ("Enter", "bar", 0), ("Enter", "foo", 1), ("Instant", "MpiSend", 0), ("Leave", "bar", 0),
               ("Leave", "foo", 1), ("Instant", "MpiRecv", 1), ("Leave", "foo", 0)],
    "unmatched": [("Enter", "foo", 1), ("Leave", "bar", 0), ("Enter", "Idle", 0), ("Instant", "MpiIsend", 1), ("Enter", "MPI_Wait", 0),
                  ("Leave", "MPI_Wait", 0), ("Leave", "Idle", 0)],
    "recursive": [("Enter", "Idle", 0), ("Enter", "Idle", 0), ("Enter", "foo", 1), ("Enter", "foo", 1), ("Instant", "MpiSend", 1), ("Leave", "foo", 1),
                  ("Leave", "Idle", 0), ("Leave", "foo", 1), ("Leave", "Idle", 0)],
    # the rows are not in time order (the reader grouped them by process)
    "grouped": [("Enter", "foo", 0), ("Leave", "foo", 0), ("Instant", "MpiSend", 0), ("Enter", "foo", 1), ("Enter", "Idle", 1), ("Leave", "Idle", 1), ("Leave", "foo", 1)],
    "threads": [("Enter", "foo", 0, 1), ("Enter", "foo", 0, 0), ("Leave", "foo", 0, 1), ("Instant", "MpiSend", 0, 0), ("Enter", "bar", 0, 0),
                ("Enter", "foo", 1, 0), ("Leave", "bar", 0, 0), ("Leave", "foo", 0, 0)],
}
ORDER = {"grouped": [2, 4, 6, 0, 1, 3, 5]}    # position in time of each row
IDLE = ["Idle"]
BUDGET = {"quick": 200, "thorough": 600}


def derived(t, suffix):
    return {c: list(t.events[c]) for c in sorted(t.events.columns) if c.endswith(suffix)}


def cct(t):
    t.create_cct()

    def tree(n):
        return (n.level, [tree(c) for c in n.children])
    ids = {}
    return ([tree(r) for r in t.cct.roots],
            [None if n is None else ids.setdefault(id(n), len(ids)) for n in t.events["Graph_Node"]])


def match(t):
    t._match_events()
    return {c: list(t.events[c]) for c in ("_matching_event", "_matching_timestamp")}


def callers(t):
    t._match_caller_callee()
    return {c: list(t.events[c]) for c in ("_depth", "_parent", "_children")}


def calc(kind, cols, suffix):
    def f(t):
        getattr(t, kind)(None if cols is None else list(cols))
        names = [x for x in ("A", "time")] if cols is None else [{"Timestamp (ns)": "time"}.get(c, c) for c in cols]
        return {n: list(t.events[n + suffix]) for n in sorted(names)}
    return f


def idle(mpi):
    def f(t):
        return t.idle_time(IDLE, mpi)
    return f


def ops(bins=2):
    from pipit.trace import Trace
    T = ["Timestamp (ns)"]
    return {
        "match": match, "callers": callers, "cct": cct,
        "inc": calc("calc_inc_metrics", None, ".inc"), "inc time": calc("calc_inc_metrics", T, ".inc"), "inc A": calc("calc_inc_metrics", ["A"], ".inc"),
        "exc": calc("calc_exc_metrics", None, ".exc"), "exc time": calc("calc_exc_metrics", T, ".exc"), "exc A": calc("calc_exc_metrics", ["A"], ".exc"),
        "profile": lambda t: t.flat_profile(), "profile inc": lambda t: t.flat_profile(["time.inc"]),
        "profile per process": lambda t: t.flat_profile(["time.inc", "time.exc"], per_process=True),
        "profile A": lambda t: t.flat_profile("A"),
        "idle": idle(False), "idle mpi": idle(True), "idle default": lambda t: t.idle_time(), "idle default mpi": lambda t: t.idle_time(mpi_events=True),
        "time profile": lambda t: t.time_profile(bins), "time profile 1": lambda t: t.time_profile(1),
        "matrix": lambda t: t.comm_matrix(), "matrix count": lambda t: t.comm_matrix("count"), "by process": lambda t: t.comm_by_process(),
        "over time": lambda t: t.comm_over_time(bins=bins), "sizes": lambda t: t.message_histogram(bins=bins),
        "imbalance": lambda t: t.load_imbalance("A", 2), "imbalance time": lambda t: t.load_imbalance("time.inc", 2),
        "multirun": lambda t: Trace.multirun_analysis([t]), "multirun A": lambda t: Trace.multirun_analysis([t, t], metric_column="A"),
        "chrome": chrome,
        "profile site": lambda t: t.flat_profile(groupby_column="Site"), "profile A site": lambda t: t.flat_profile("A", groupby_column="Site"),
        "profile per process exc": lambda t: t.flat_profile(per_process=True), "profile both": lambda t: t.flat_profile(["A", "time.exc"]),
        "profile swapped": lambda t: t.flat_profile(["time.exc", "A"]), "profile site per process": lambda t: t.flat_profile("time.inc", "Site", True),
        "idle foo": lambda t: t.idle_time(["foo"]), "idle none": lambda t: t.idle_time([], True),
        "time profile 3": lambda t: t.time_profile(3), "time profile share": lambda t: t.time_profile(1, normalized=True),
        "by process count": lambda t: t.comm_by_process("count"), "over time count": lambda t: t.comm_over_time("count", "receive", 1),
        "over time 1": lambda t: t.comm_over_time(bins=1), "sizes 1": lambda t: t.message_histogram(bins=1), "imbalance 1": lambda t: t.load_imbalance("A", 1),
        "imbalance default": lambda t: t.load_imbalance("A"), "multirun inc": lambda t: Trace.multirun_analysis([t], metric_column="time.exc"),
    }


def chrome(t):
    from symx import core
    c = core.CTX
    if c is not None:
        out = []

        c.json_hook = out.append
        t.to_chrome(None)
        return out[0] if out else None
    return json.loads(t.to_chrome(None))


def equal(ctx, a, b):
    """structural equality; numbers by ctx.eq"""
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        return isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and \
            list(a.index) == list(b.index) and a.index.names == b.index.names and all(equal(ctx, list(a.iloc[:, j]), list(b.iloc[:, j])) for j in range(a.shape[1]))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and equal(ctx, list(a.ravel()), list(b.ravel()))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(equal(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (int, float, np.number)) and not isinstance(a, bool):
        return bool(same(ctx, a, b))
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    return a == b


def kept(ctx, a, b):
    """exactly the same value, for concrete numbers"""
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)) and not isnull(a) and not isnull(b):
        a, b = (x.item() if isinstance(x, np.number) else x for x in (a, b))
        return a == b
    return equal(ctx, a, b)


def run(ctx, shapes, steps, names, bins=2, strict=True):
    shape = ctx.choice("shape", shapes)
    rows = []
    ts = times(ctx, len(SHAPES[shape]), lo=0, strict=strict)
    ctx.assume(ts[0] < ts[-1])
    ctx.assume(ts[-1] <= 2 ** 30)
    ts = [ts[i] for i in ORDER.get(shape, range(len(ts)))]
    for i, (k, n, p, *th) in enumerate(SHAPES[shape]):
        at = {"region": "Region 1", "source": {"line": i}} if i % 3 == 0 else None
        if n.startswith("Mpi"):
            at = {"receiver": 1 - p, "sender": 1 - p, "msg_length": ctx.int("size%d" % i, 0, 2 ** 30), "communicator": "c", "region": "Region 2"}
        rows.append({"t": ts[i], "k": k, "n": n, "p": p, "A": 3 * i - i * i + (2 ** 40 + 1 if i % 2 else 0), "Site": "xyx"[i % 3], "Attributes": at, **({"th": th[0]} if th else {})})
    extra = ["A", "Site", "Attributes"]
    t = make_trace(ctx, rows, extra)
    before = {c: list(t.events[c]) for c in t.events.columns}
    attrs = copy.deepcopy(before["Attributes"])
    cols = list(t.events.columns)
    every = ops(bins)
    seq = []
    for s in range(steps):
        op = ctx.choice("op%d" % s, (names[s] if names and isinstance(names[0], list) else names) or list(every))
        seq.append(op)
        IDLE[:] = ["Idle"]
        want = outcome(ctx, every[op], make_trace(ctx, rows, extra))
        IDLE[:] = ["Idle"]
        got = outcome(ctx, every[op], t)
        ctx.check(equal(ctx, got, want), "result of %s" % op, lambda: (seq, rows, got, want))
        ctx.check(IDLE == ["Idle"], "argument of %s unchanged" % op)
        ctx.check(len(t.events) == len(rows) and list(t.events.index) == list(range(len(rows))), "rows", lambda: seq)
        ctx.check([c for c in t.events.columns if c in cols] == cols, "original columns", lambda: (seq, list(t.events.columns)))
        for c in cols:
            now = attrs if c == "Attributes" else before[c]
            ctx.check(all(kept(ctx, x, y) for x, y in zip(list(t.events[c]), now)), "column %s unchanged" % c, lambda: (seq, rows))
    ctx.cover("sequence")


def outcome(ctx, f, t):
    try:
        return f(t)
    except (ZeroDivisionError, KeyError, IndexError, ValueError, TypeError) as e:
        return ("raised", type(e).__name__)


def configs(tier):
    q = tier == "quick"
    every = list(ops())
    basic = every[:every.index("profile site")]
    light = [n for n in basic if n not in ("imbalance time", "time profile", "multirun", "over time", "sizes")]
    allops = basic
    forking = [n for n in allops if n not in light]
    variants = ["profile", "profile A", "profile per process", "profile inc"] + every[every.index("profile site"):]
    if q:
        variants = [v for v in variants if v not in ("time profile 3", "multirun inc", "over time count", "over time 1", "sizes 1")]
    some = ["cct", "inc", "inc A", "exc", "exc A", "profile", "idle", "idle mpi", "idle default mpi", "time profile 1", "multirun A", "matrix"]
    few = ["callers", "inc", "exc A", "profile inc", "idle mpi", "chrome", "cct", "matrix count"]
    return [
        Config("pairs", run, dict(shapes=["nested"] if q else list(SHAPES), steps=2, names=light), ["sequence"], "every pair of %d analyses" % len(light)),
        Config("shapes", run, dict(shapes=["unmatched", "recursive", "threads"], steps=2, names=some), ["sequence"], "every pair of %d analyses on three more trace shapes" % len(some)),
        Config("grouped", run, dict(shapes=["grouped"], steps=1 if q else 2, names=every if q else [every, few]), ["sequence"], "every analysis of a trace whose rows are grouped by process, not in time order"),
        Config("forking", run, dict(shapes=["nested"], steps=2, names=[forking, few] if q else allops, strict=q), ["sequence"], "analyses that sort or bin, then others"),
        Config("variants", run, dict(shapes=["nested"], steps=2, names=variants), ["sequence"], "every pair of calls of the same analysis with other arguments (%d forms)" % len(variants)),
        Config("forking2", run, dict(shapes=["nested"], steps=2, names=[few, forking]), ["sequence"], "others, then analyses that sort or bin"),
        Config("triples", run, dict(shapes=["unmatched"] if q else list(SHAPES), steps=3, names=["idle mpi", "idle", "exc A", "inc", "profile", "time profile 1", "chrome", "cct"] if q else some), ["sequence"],
               "every triple of analyses"),
        Config("long", run, dict(shapes=["recursive"], steps=4 if q else 6, names=["exc", "inc A", "profile"] if q else ["exc", "inc A", "profile", "idle mpi"]), ["sequence"], "every sequence of 4 (6) of a few analyses"),
    ]
