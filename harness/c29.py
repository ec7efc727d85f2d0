"""C29: what detect_pattern searches and what it returns (the motif search itself is a stub)."""
import sys
import types
from contextlib import contextmanager

import numpy as np
import pandas as pd

from harness.common import Config, col, isnull

FUNCTIONS = ["pipit.trace.Trace.detect_pattern"]
STUBS = ["stumpy.stump returns an opaque matrix profile; stumpy.motifs returns any segments of the series it is given, at most max_matches of them (every choice of segments is explored)"]
ASSUMPTIONS = ["default RangeIndex, rows in time order", "the start event is entered and left on the process; the window has at least 3 values and fits into the series (stumpy accepts no others)"]
LEVEL_NOTE = "stumpy's numerical search is outside the claim: the check decides what is handed to it and how the segments it finds are turned into events."


@contextmanager
def stumpy_stub(ctx, log):
    """Stands in for the library: records its arguments and answers with arbitrary segments."""
    mod = types.ModuleType("stumpy")

    def stump(T_A, m, *a, **kw):
        log["stump"] = (list(T_A), m)
        n = max(len(T_A) - m + 1, 0)
        prof = np.empty((n, 4), dtype=object)
        for i in range(n):
            prof[i] = [1000.0 + i, 0, -1, -1]
        log["profile"] = [1000.0 + i for i in range(n)]
        return prof

    def motifs(T, P, min_neighbors=1, max_distance=None, cutoff=None, max_matches=10, max_motifs=1, **kw):
        log["motifs"] = (list(T), list(P), max_matches)
        found, last = [], len(P)
        limit = min(max_matches, log["most"])
        for i in range(limit):
            at = ctx.choice("match%d" % i, list(range(last)) + (["end"] if i else []))
            if at == "end":
                break
            found.append(at)
        log["found"] = found
        return np.array([[0.0] * len(found)]), np.array([found])
    mod.stump, mod.motifs = stump, motifs
    old = sys.modules.get("stumpy")
    sys.modules["stumpy"] = mod
    try:
        yield
    finally:
        if old is None:
            del sys.modules["stumpy"]
        else:
            sys.modules["stumpy"] = old


def rows_(ctx, shape, proc, other, ties, noise, threads):
    """the events of the run: [name, kind, process, has a metric value]"""
    out = []

    def call(name, p=proc, val=True, leave_val=False, inner=()):
        out.append([name, "Enter", p, val])
        for f in inner:
            f()
        out.append([name, "Leave", p, leave_val])
    # before the first iteration: events that are not part of the search
    for f in ctx.choice("before", noise["before"]):
        {"other": lambda: call("loop", other), "call": lambda: call("init"), "leave": lambda: out.append(["loop", "Leave", proc, False]),
         "open": lambda: out.append(["loop", "Enter", other, True]), "close": lambda: out.append(["loop", "Leave", other, False])}[f]()
    body = {"call": lambda: call("f"), "nested": lambda: call("f", inner=[lambda: call("g")]), "other": lambda: call("f", other), "instant": lambda: out.append(["mark", "Instant", proc, True]),
            "unfinished": lambda: out.append(["f", "Enter", proc, False]), "plain": lambda: out.append(["mark", "Instant", proc, False]), "valued leave": lambda: call("f", leave_val=True),
            "otherloop": lambda: call("loop", other)}
    for it in range(shape["loops"]):
        call("loop", inner=[body[b] for b in shape["body"]] + [body[b] for b in ctx.choice("extra%d" % it, noise["in"])])
    for f in ctx.choice("after", noise["after"]):
        {"other": lambda: call("loop", other), "call": lambda: call("end"), "enter": lambda: out.append(["loop", "Enter", proc, True]),
         "open": lambda: out.append(["loop", "Enter", other, True]), "close": lambda: out.append(["loop", "Leave", other, False])}[f]()
    t, ts = ctx.int("t0", 0, 2 ** 40), []
    for i in range(len(out)):
        ts.append(t)
        t = t + ctx.int("d%d" % i, 0 if i in ties else 1, 2 ** 30)
    return [{"t": ts[i], "n": r[0], "k": r[1], "p": r[2], "v": ctx.int("v%d" % i, 0, 2 ** 40) if r[3] else None, "i": i} for i, r in enumerate(out)]


def run(ctx, shapes, asks, noise, ties=(), procs=((0, 1),), most=2, metric="time.exc", threads=False):
    from pipit.trace import Trace
    proc, other = ctx.choice("procs", list(procs))
    shape = ctx.choice("shape", shapes)
    tied = ctx.choice("ties", list(ties)) if ties else ()
    rows = rows_(ctx, shape, proc, other, tied, noise, threads)
    vals = [float("nan") if r["v"] is None else r["v"] for r in rows]
    df = pd.DataFrame({"Timestamp (ns)": col(ctx, [r["t"] for r in rows]), "Event Type": [r["k"] for r in rows], "Name": [r["n"] for r in rows], "Process": [r["p"] for r in rows],
                       metric: col(ctx, vals), "Mark": [r["i"] for r in rows]})
    df = df.astype({"Event Type": "category", "Name": "category", "Process": "category"})
    t = Trace(None, df)
    iters, window = ctx.choice("ask", asks)
    mine = [i for i, r in enumerate(rows) if r["n"] == "loop" and r["p"] == proc]
    enters, leaves = [i for i in mine if rows[i]["k"] == "Enter"], [i for i in mine if rows[i]["k"] == "Leave"]
    part = [r for r in rows[enters[0] + 1:leaves[-1]] if r["v"] is not None and r["p"] == proc]
    k = iters if iters is not None else len(enters)
    w = window if window is not None else len(part) // k
    ctx.assume(3 <= w <= len(part))
    kw = {}
    if iters is not None:
        kw["iterations"] = iters
    if window is not None:
        kw["window_size"] = window
    if proc != 0:
        kw["process"] = proc
    if metric != "time.exc":
        kw["metric"] = metric
    log = {"most": most}
    with stumpy_stub(ctx, log):
        got = t.detect_pattern("loop", **kw)
    y, m = log["stump"]
    why = lambda: ([(r["n"], r["k"], r["p"], r["v"]) for r in rows], y, m, [r["i"] for r in part])  # noqa: E731
    for series, what in ((y, "values searched"), (log["motifs"][0], "values matched")):
        ctx.check(len(series) == len(part), what, why)
        if len(series) != len(part):
            return
        for a, r in zip(series, part):
            ctx.check(not isnull(a) and ctx.eq(a, r["v"]), what, why)
    ctx.check(m == w, "window size", why)
    ctx.check(log["motifs"][1] == log["profile"], "profile handed on", why)
    ctx.check(log["motifs"][2] == k, "matches asked for", why)
    found = log["found"]
    ctx.check(len(got) == len(found), "one result per match", lambda: (found, len(got)))
    for f, g in zip(found, got):
        want = part[f:f + w]
        marks = list(g["Mark"])
        why = lambda: (found, marks, [(r["i"], r["t"]) for r in rows])  # noqa: E731,B023
        ctx.check(all(a < b for a, b in zip(marks, marks[1:])), "events of a match in trace order", why)
        ctx.check(set(r["i"] for r in want) <= set(marks), "every event of a match", why)
        for c in ("Timestamp (ns)", "Event Type", "Name", "Process", metric):
            for i, v in zip(marks, list(g[c])):
                x = {"Timestamp (ns)": "t", "Event Type": "k", "Name": "n", "Process": "p", metric: "v"}[c]
                ctx.check(isnull(v) if rows[i][x] is None else (ctx.eq(v, rows[i][x]) if x in "tv" else v == rows[i][x]), "contents of a match", why)
        for i in set(marks) - set(r["i"] for r in want):
            ctx.check(any(bool(rows[i]["t"] == r["t"]) for r in want), "no other events in a match", why)
            ctx.cover("simultaneous event")
    ctx.check(list(t.events["Mark"]) == list(range(len(rows))), "trace unchanged")
    if len(enters) > 1:
        ctx.cover("several loops")
    if len(found) > 1:
        ctx.cover("several matches")
    if any(r["p"] != proc for r in rows[enters[0]:leaves[-1]]):
        ctx.cover("other process inside")


def configs(tier):
    q = tier == "quick"
    one = [{"loops": 1, "body": ["call"] * 6}, {"loops": 1, "body": ["nested"] * 3}]
    many = [{"loops": 2, "body": ["call"] * 3}, {"loops": 3, "body": ["call"] * 3}, {"loops": 2, "body": ["call", "nested", "instant", "valued leave"]}]
    quiet = {"before": [()], "in": [()], "after": [()]}
    noisy = {"before": [(), ("other",), ("call",), ("leave", "call"), ("open", "call"), ("other", "call")], "in": [(), ("other",), ("unfinished",), ("instant", "plain"), ("otherloop",), ("valued leave",)], "after": [(), ("other",), ("call",), ("enter",), ("enter", "call"), ("call", "other"), ("call", "close")]}
    return [
        Config("segments", run, dict(shapes=one, asks=[(2, None), (1, 3), (2, 4), (3, 3)], noise=quiet, most=2 if q else 3), ["several matches"], "one loop of 6 calls, flat and nested; every pair (triple) of segments"),
        Config("loops", run, dict(shapes=many, asks=[(None, None), (2, None), (3, None), (None, 3), (1, None)], noise=quiet, most=1 if q else 2, procs=[(0, 1), (3, 0)]), ["several loops"], "2 or 3 loops; iterations and window given or not"),
        Config("around", run, dict(shapes=many[:1], asks=[(None, None), (None, 3)], noise=dict(noisy, **{"in": [()]}), most=1, procs=[(0, 1), (7, 0)], metric="PAPI.exc"), [], "events of the process and of another before and after the loops"),
        Config("inside", run, dict(shapes=many[:1], asks=[(None, None)] if q else [(None, None), (2, 3)], noise=dict(noisy, before=[("other",)], after=[("call",)]), most=1, procs=[(0, 1)] if q else [(0, 1), (7, 0)]), ["other process inside"], "events of the process and of another inside the loops"),
        Config("ties", run, dict(shapes=many[:1] + one[:1], asks=[(2, 3), (2, 4)], noise={"before": [("other",), ("call",)], "in": [(), ("other",)], "after": [("other",)]}, most=1 if q else 2,
                                 ties=[(0, 2), (3, 4), (1, 6, 7), (5, 8, 12), (9, 10, 11)]), ["simultaneous event"], "up to three pairs of neighbouring events may be simultaneous"),
    ]
