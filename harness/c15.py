"""C15: Chrome export."""
import copy
import json
import os
import shutil
import tempfile
from harness.common import Config, make_trace, rows_any, rows_balanced, growth, times, isnull, Sym

FUNCTIONS = ["pipit.trace.Trace.to_chrome", "pipit.writers.chrome_writer.ChromeWriter"]
STUBS = ["DataFrame.to_json and json.dump(s) of symbolic records are replaced by capturing the records (a token is written where the text would go); concrete replays parse the real JSON"]
ASSUMPTIONS = ["default RangeIndex", "timestamps are integers of at most 62 bits, or multiples of a quarter of at most 45"]
ATTRS = [None, {"receiver": 3, "msg_length": 4096, "k": "Enter"}, {}, {"nested": {"a": [1, 2], "b": "Leave"}, "text": "\u00e9 \"q\""},
         {k: i for i, k in enumerate(["region", "sender", "receiver", "msg_length", "size", "communicator", "msg_tag", "name", "ts", "pid", "tid", "ph", "args", "Name", "Process", "Thread", "Timestamp (ns)", "Event Type",
                                      "stacktrace", "source", "line", "_matching_event", "id", "metric", "request_id", "User", "Perf", ""])},
         {"zero": 0, "none": None, "empty": "", "no": False, "list": [], 7: "seven", "big": 2 ** 53 - 1, "float": 0.5}]


def run(ctx, n, names, threads=False, attrs=None, tlo=0, gap=None, ask=("string",), procs=(0, 3), analyse=(None,), kinds=("Enter", "Leave", "Instant"), quarters=False):
    rows, prev = [], None
    for i in range(n):
        t = ctx.quarter("t%d" % i, tlo, 2 ** 45) if quarters else ctx.int("t%d" % i, tlo, 2 ** 62)
        if prev is not None:
            ctx.assume(prev <= t)
        if gap is not None:
            q = ctx.int("q%d" % i, 0, 2 ** 53)
            ctx.assume(t == q * 1000 + gap)
        prev = t
        r = {"t": t, "k": ctx.choice("k%d" % i, kinds), "n": ctx.choice("n%d" % i, names), "p": ctx.choice("p%d" % i, procs)}
        if threads:
            r["th"] = ctx.choice("th%d" % i, [0, 12])
        if attrs:
            r["Attributes"] = copy.deepcopy(ATTRS[ctx.choice("a%d" % i, attrs)])
        rows.append(r)
    t = make_trace(ctx, rows, ["Attributes"] if attrs else [])
    rows = copy.deepcopy(rows)
    an = ctx.choice("analyse", analyse)
    if an:
        getattr(t, an)()
    before = {c: list(t.events[c]) for c in t.events.columns}
    att = copy.deepcopy(before.get("Attributes"))
    how = ctx.choice("ask", ask)
    recs = export(ctx, t, how)
    ctx.check(isinstance(recs, list) and len(recs) == n, "one record per event", lambda: (rows, recs))
    for i, (r, x) in enumerate(zip(rows, recs)):
        ctx.check(x.get("name") == r["n"], "name of record %d" % i, lambda: (rows, recs))
        ctx.check(x.get("ph") == {"Enter": "B", "Leave": "E", "Instant": "i"}[r["k"]], "kind of record %d" % i, lambda: (rows, recs))
        ts = x.get("ts")
        ctx.check(isinstance(ts, (int, Sym)) and (not isinstance(ts, Sym) or ts.isint) and (ctx.eq(ts, r["t"] // 1000)), "time of record %d" % i, lambda: (rows, recs))
        ctx.check(x.get("pid") == r["p"], "process of record %d" % i, lambda: (rows, recs))
        ctx.check(("tid" in x and x["tid"] == r["th"]) if threads else "tid" not in x, "thread of record %d" % i, lambda: (rows, recs))
        if attrs:
            a = x.get("args")
            ctx.check((isnull(a) and r["Attributes"] is None) or plain(a) == plain(r["Attributes"]), "attributes of record %d" % i, lambda: (rows, recs))
            ctx.cover("attributes")
        else:
            ctx.check("args" not in x, "no attributes", lambda: recs)
        ctx.cover(r["k"])
    ctx.check(list(t.events.columns) == list(before), "trace keeps its columns", lambda: list(t.events.columns))
    for c in before:
        old = att if c == "Attributes" else before[c]
        ctx.check(all(same_value(ctx, a, b) for a, b in zip(list(t.events[c]), old)), "trace keeps " + c)


def run_many(ctx, many):
    """many events, in part at the same time; only a few times are symbolic"""
    ts = [ctx.int("t0", 0, 2 ** 60)]
    for i in (1, 2):
        ts.append(ctx.int("t%d" % i, 0, 2 ** 60))
        ctx.assume(ts[i - 1] + many * 1000 <= ts[i])
    what = ["Instant", "Enter", "Instant", "Instant", "Leave"]
    rows = [{"t": ts[3 * i // many] + i // 4 * 300 if i % 4999 < 2 else i // 4 * 300, "k": what[i % 5], "n": "foo" if i % 7 else "bar", "p": i % 3} for i in range(many)]
    t = make_trace(ctx, rows)
    recs = export(ctx, t, "string")
    ctx.check(isinstance(recs, list) and len(recs) == many, "one record per event", lambda: len(recs))
    for i, (r, x) in enumerate(zip(rows, recs)):
        ctx.check(x.get("name") == r["n"] and x.get("pid") == r["p"] and x.get("ph") == {"Enter": "B", "Leave": "E", "Instant": "i"}[r["k"]], "record %d" % i, lambda: (r, x))
        ctx.check(ctx.eq(x.get("ts"), r["t"] // 1000), "time of record %d" % i, lambda: (r, x))


def plain(a):
    """JSON turns the keys into text"""
    return {str(k): v for k, v in a.items()} if isinstance(a, dict) else a


def same_value(ctx, a, b):
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    return bool(ctx.eq(a, b)) if isinstance(b, (int, float, Sym)) else a == b


def export(ctx, t, how):
    out = []
    if ctx.sym:
        from symx.patches import JSON_TOKEN
        ctx.json_hook = out.append
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "out.json")
        r = t.to_chrome() if how == "string" else t.to_chrome(f)
        ctx.check((r is not None) == (how == "string"), "returned text")
        ctx.check(os.path.exists(f) == (how == "file"), "written file")
        if how == "file":
            with open(f, encoding="utf-8") as fh:
                r = fh.read()
    finally:
        shutil.rmtree(d)
    if ctx.sym:
        ctx.check(r == JSON_TOKEN, "destination", lambda: r)
        return out[0] if len(out) == 1 else None
    return json.loads(r)


def configs(tier):
    q = tier == "quick"
    cov = ["Enter", "Leave", "Instant"]
    odd = ["foo", "Enter", "i"] if q else ["foo", "Enter", "i", "Leave", "q\"\\\u00fc", ""]
    n = 2 if q else 3
    return [
        Config("plain", run, dict(n=n, names=odd, ask=("string", "file")), cov, "%d events of any kind and name from %r, 2 processes" % (n, odd)),
        Config("full", run, dict(n=2, names=["foo"] if q else ["foo", "q\"\u00fc"], threads=True, attrs=range(3) if q else range(4)), cov + ["attributes"], "2 events with threads and attributes"),
        Config("names", run, dict(n=1, names=["foo", "Enter", "Leave", "Instant", "B", "i", "", "q\"\\\u00fc\n"], attrs=range(len(ATTRS)), procs=(0, 1, 100000)), ["attributes"], "odd names, processes, attributes"),
        Config("late", run, dict(n=2, names=["foo"], tlo=2 ** 53, gap=999), cov, "timestamps beyond 2^53, just below a whole microsecond"),
        Config("epoch", run, dict(n=2, names=["foo"], tlo=1600000000 * 10 ** 9, ask=("file",)), cov, "timestamps of the order of today's nanoseconds since 1970"),
        Config("order", run, dict(n=4 if q else 6, names=["foo"], procs=(0,)), cov, "%d events, one name" % (4 if q else 6)),
        Config("after", run, dict(n=2 if q else 3, names=["foo"], analyse=("calc_exc_metrics", "create_cct"), attrs=(0, 1), threads=not q), cov, "export after analyses"),
        Config("signed", run, dict(n=2, names=["foo"], tlo=-2 ** 62, ask=("string", "file")), cov, "timestamps may be negative"),
        Config("quarters", run, dict(n=2, names=["foo"], tlo=-2 ** 45, quarters=True, ask=("string", "file")), cov, "timestamps are multiples of a quarter"),
        Config("many", run_many, dict(many=12000 if q else 70000), [], "12,000 (70,000) events, many at the same microsecond; a few symbolic times"),
    ]
