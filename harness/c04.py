"""C04: inclusive metrics."""
from harness.common import Config, make_trace, match_oracle, inc_oracle, same, OTHER
from harness.metrics import build, metric_name, RANGES

FUNCTIONS = ["pipit.trace.Trace.__init__", "pipit.trace.Trace._match_events", "pipit.trace.Trace.calc_inc_metrics"]
STUBS = ["machine numbers are modelled as exact integers/rationals"]
ASSUMPTIONS = ["default RangeIndex"]


def others(t, what):
    """analyses that may run before or in between"""
    if what == "exc":
        t.calc_exc_metrics()
    elif what == "profile":
        t.flat_profile(["time.exc"])
    elif what == "cct":
        t.create_cct()


def run(ctx, gen, metric, calls, **kw):
    rows = build(ctx, gen, metric, **kw)
    t = make_trace(ctx, rows, metric)
    how = ctx.choice("calls", calls)
    cols = []
    for c in how:
        if isinstance(c, str):
            others(t, c)
            if c == "profile":
                cols += [x for x in ["Timestamp (ns)"] if x not in cols]
            elif c != "cct":
                cols += [x for x in ["Timestamp (ns)"] + metric if x not in cols]
            continue
        t.calc_inc_metrics(None if c is None else list(c))
        cols += [x for x in (["Timestamp (ns)"] + metric if c is None else c) if x not in cols]
    m = match_oracle(ctx, rows)
    ev = t.events
    ctx.check(len(ev) == len(rows), "row count")
    for c in cols:
        key = "t" if c == "Timestamp (ns)" else c
        want = inc_oracle(rows, m, key)
        name = metric_name(c, ".inc")
        ctx.check(name in ev.columns, "column " + name)
        got = list(ev[name])
        for i in range(len(rows)):
            if want[i] is not None:
                ctx.cover("inclusive")
            ctx.check(same(ctx, got[i], want[i]), "%s of row %d" % (name, i), lambda: (rows, got))
    plain = ["Process.inc", "Thread.inc"] if getattr(ctx, "dtypes", "") == "plain" else []    # numeric columns then
    extra = [c for c in ev.columns if c.endswith(".inc") and c not in plain + [metric_name(x, ".inc") for x in cols]]
    ctx.check(not extra, "no further inclusive columns", lambda: extra)
    if None in how:
        ctx.cover("default columns")


CALLS = [(None,), (["Timestamp (ns)"],), (["A"], None), (["A", "Timestamp (ns)"],), (["Timestamp (ns)"], ["A"]), (None, None)]


def configs(tier):
    q = tier == "quick"
    return [
        Config("any", run, dict(gen="any", metric=["A"], calls=CALLS[:1] if q else CALLS, n=4 if q else 5, names=2),
               ["inclusive", "default columns"], "every trace of %d rows, 2 names, symbolic times and one metric" % (4 if q else 5)),
        Config("calls", run, dict(gen="bal", metric=["A"], calls=CALLS, n=4 if q else 6, names=2, stray=True, instant=True),
               ["inclusive", "default columns"], "every order of requesting columns; innermost-first traces of %d rows" % (4 if q else 6)),
        Config("two-metrics", run, dict(gen="bal", metric=["A", "B C"], calls=[(None,), (["B C"],), (["B C", "A"],)], n=4 if q else 6, names=2, procs=2),
               ["inclusive"], "two metric columns, 2 processes"),
        Config("history", run, dict(gen="bal", metric=["A"], calls=[("exc", None), ("profile", None), ("cct", None), (None, "exc", None), ("exc", ["A"]), ("profile", ["A"], None)],
                                    n=4 if q else 6, names=2), ["inclusive", "default columns"], "exclusive metrics, flat profile or CCT computed before; %d rows" % (4 if q else 6)),
        Config("chain", run, dict(gen="deep", metric=["A"], calls=[(None,)], depths=[35, 70] if q else [35, 70, 130]), ["inclusive"],
               "chains of 35 and 70 (130) nested calls"),
        Config("missing", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=4 if q else 5, names=1, missing=True),
               ["inclusive", "missing value"], "metric values may be missing (NaN) on any row"),
        Config("deep", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=8 if q else 12, names=1),
               ["inclusive"], "innermost-first sequences of %d rows" % (8 if q else 12)),
        Config("other-kinds", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=4 if q else 5, names=1, instant=OTHER), ["inclusive"], "%d rows some of which have other event types (%r)" % (4 if q else 5, OTHER)),
        Config("columns", run, dict(gen="bal", metric=["Device Timestamp", "Timestamp", "Process ID", "timeout"], calls=[(None,), (["timeout", "Device Timestamp"],), (["Timestamp"], None)], n=3, names=1), ["inclusive"], "metric columns whose names resemble other columns; 3 rows"),
        Config("dtypes", run, dict(gen="bal", metric=["A"], calls=CALLS[:2], n=4, names=2, procs=2, dtypes=("plain", "unused")), ["inclusive"], "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=5, names=2, clock="quarters"), ["inclusive"], "5 rows; times are multiples of a quarter"),
        Config("storage", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=4, names=1, open_end=False, storage=list(RANGES)), ["inclusive"],
               "4 rows; the metric is stored as any of " + ", ".join(RANGES) + ", over the whole range of the type (int64 and uint64: differences to 2^52)"),
        Config("tiny", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=4, names=1, tiny=True), ["inclusive"], "4 rows; metric values are multiples of 2^-40 below 2^-20"),
        Config("signed", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=5, names=2, clock="signed"), ["inclusive"], "5 rows; times may be negative"),
        Config("abyss", run, dict(gen="deep", metric=["A"], calls=[(None,)], depths=[1200] if q else [1200, 3000], backs=[700]), ["inclusive"], "1200 (3000) nested calls"),
        Config("huge", run, dict(gen="huge", metric=["A"], calls=[(None,)], many=33000 if q else 70000), ["inclusive"], "a function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", metric=["A"], calls=[(None,)], many=1, places=300, threads=150), ["inclusive"], "2 processes of 150 threads"),
        Config("epoch", run, dict(gen="bal", metric=["A"], calls=[(None,)], n=4, names=1, clock="epoch"), ["inclusive"], "4 rows; times of about 2^60, within 2^50 of each other"),
    ]
