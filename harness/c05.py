"""C05: exclusive metrics."""
from harness.common import (Config, make_trace, match_oracle, inc_oracle, exc_oracle, tree_oracle, require_nested, same, isnull, OTHER)
from harness.metrics import build, metric_name, RANGES

FUNCTIONS = ["pipit.trace.Trace.__init__", "pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee",
             "pipit.trace.Trace.calc_inc_metrics", "pipit.trace.Trace.calc_exc_metrics"]
STUBS = ["machine numbers are modelled as exact integers/rationals"]
ASSUMPTIONS = ["default RangeIndex", "matched calls properly nested"]


def run(ctx, gen, metric, calls, **kw):
    rows = build(ctx, gen, metric, **kw)
    m = match_oracle(ctx, rows)
    require_nested(ctx, rows, m)
    t = make_trace(ctx, rows, metric)
    how = ctx.choice("calls", calls)
    cols = []
    for kind, c in how:
        if kind == "inc":
            t.calc_inc_metrics(None if c is None else list(c))
        else:
            t.calc_exc_metrics(None if c is None else list(c))
            cols += [x for x in (["Timestamp (ns)"] + metric if c is None else c) if x not in cols]
    ev = t.events
    ctx.check(len(ev) == len(rows), "row count")
    _, _, children = tree_oracle(rows, m)
    for c in cols:
        key = "t" if c == "Timestamp (ns)" else c
        inc = inc_oracle(rows, m, key)
        want = exc_oracle(rows, m, children, inc)
        name = metric_name(c, ".exc")
        ctx.check(name in ev.columns, "column " + name)
        got = list(ev[name])
        for i in range(len(rows)):
            ctx.check(same(ctx, got[i], want[i]), "%s of row %d" % (name, i), lambda: (rows, got))
            if children[i]:
                ctx.cover("parent")
            if want[i] is not None and key == "t" and not isnull(got[i]):
                ctx.check(got[i] >= 0, "exclusive time not negative")
        # conservation over the whole subtree
        for i in range(len(rows)):
            if inc[i] is not None and not isnull(inc[i]):
                tot, todo, ok = 0, [i], True
                while todo:
                    j = todo.pop()
                    if isnull(got[j]):
                        ok = False
                        break
                    tot = tot + got[j]
                    todo += children[j]
                if ok:
                    ctx.check(ctx.eq(tot, inc[i]), "subtree of %d adds up" % i)
                    ctx.cover("conservation")
    plain = ["Process.exc", "Thread.exc"] if getattr(ctx, "dtypes", "") == "plain" else []    # numeric columns then
    extra = [c for c in ev.columns if c.endswith(".exc") and c not in plain + [metric_name(x, ".exc") for x in cols]]
    ctx.check(not extra, "no further exclusive columns", lambda: extra)


T = ["Timestamp (ns)"]
CALLS = [(("exc", None),), (("exc", T),), (("exc", ["A"]), ("exc", None)), (("inc", T), ("exc", None)), (("inc", None), ("exc", ["A"])),
         (("exc", T), ("exc", ["A"])), (("exc", None), ("exc", None)), (("inc", ["A"]), ("exc", T))]


def configs(tier):
    q = tier == "quick"
    return [
        Config("any", run, dict(gen="any", metric=["A"], calls=CALLS[:1], n=5 if q else 6, names=2, kinds=["Enter", "Leave"]),
               ["conservation"], "every properly nested trace of %d Enter/Leave rows, 2 names" % (5 if q else 6)),
        Config("calls", run, dict(gen="bal", metric=["A"], calls=CALLS, n=5 if q else 6, names=1, instant=True),
               ["conservation", "parent"], "every order of requesting columns"),
        Config("deep", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=10 if q else 14, names=1),
               ["conservation", "parent"], "innermost-first sequences of %d rows" % (10 if q else 14)),
        Config("locations", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5 if q else 7, names=1, procs=2, threads=2),
               ["conservation", "parent"], "%d rows on 2x2 locations" % (5 if q else 7)),
        Config("chain", run, dict(gen="deep", metric=["A"], calls=CALLS[:1], depths=[35, 70] if q else [35, 70, 130]), ["conservation", "parent"],
               "chains of 35 and 70 (130) nested calls, partly returned and called again"),
        Config("missing", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=4 if q else 6, names=1, missing=True),
               ["missing value"], "metric values may be missing (NaN)"),
        Config("other-kinds", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5 if q else 7, names=1, instant=OTHER), ["conservation", "parent"], "%d rows some of which have other event types (%r)" % (5 if q else 7, OTHER)),
        Config("columns", run, dict(gen="bal", metric=["Device Timestamp", "Timestamp", "Process ID", "timeout"], calls=[(("exc", None),), (("exc", ["timeout", "Device Timestamp"]),), (("exc", ["Timestamp"]), ("exc", None))], n=4, names=1), ["conservation", "parent"], "metric columns whose names resemble other columns; 4 rows"),
        Config("dtypes", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5, names=1, procs=2, dtypes=("plain", "unused")), ["conservation", "parent"], "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5, names=2, clock="quarters"), ["conservation", "parent"], "5 rows; times are multiples of a quarter"),
        Config("storage", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=4, names=1, open_end=False, storage=list(RANGES)), ["conservation"],
               "4 rows; the metric is stored as any of " + ", ".join(RANGES) + ", over the whole range of the type (int64 and uint64: differences to 2^52)"),
        Config("tiny", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=4, names=1, tiny=True), ["conservation"], "4 rows; metric values are multiples of 2^-40 below 2^-20"),
        Config("signed", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5, names=2, clock="signed"), ["conservation", "parent"], "5 rows; times may be negative"),
        Config("abyss", run, dict(gen="deep", metric=["A"], calls=CALLS[:1], depths=[1200] if q else [1200, 3000], backs=[700]), ["conservation"], "1200 (3000) nested calls"),
        Config("huge", run, dict(gen="huge", metric=["A"], calls=CALLS[:1], many=33000 if q else 70000), ["conservation", "parent"], "a function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", metric=["A"], calls=CALLS[:1], many=1, places=300, threads=150), ["conservation", "parent"], "2 processes of 150 threads"),
        Config("epoch", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=4, names=1, clock="epoch"), ["conservation", "parent"], "4 rows; times of about 2^60, within 2^50 of each other"),
        Config("grouped", run, dict(gen="bal", metric=["A"], calls=CALLS[:1], n=5, names=1, procs=2, grouped=True), ["conservation", "parent"], "5 rows grouped by process instead of ordered by time"),
    ]
