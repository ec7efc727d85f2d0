"""C08: load imbalance."""
from harness.common import Config, And, Or, rows_balanced, rows_flat, rows_huge, rows_variety, make_trace, isnull, same, TMAX, NAMES, OTHER
from harness.metrics import tiny_value
from harness.c07 import totals, metric_values

FUNCTIONS = ["pipit.trace.Trace.load_imbalance", "pipit.trace.Trace.flat_profile", "pipit.trace.Trace.calc_inc_metrics",
             "pipit.trace.Trace.calc_exc_metrics"]
STUBS = ["pandas group means are computed exactly; sorting decides order by symbolic comparisons, ties resolved by the real pandas algorithm"]
ASSUMPTIONS = ["default RangeIndex", "matched calls properly nested", "every function's total is positive (max/mean is undefined at 0)"]


def check(ctx, rows, res, metric, num):
    tot = totals(rows, metric_values(rows, metric), lambda r: r["n"])
    imb, mean, top = metric + ".imbalance", metric + ".mean", "Top processes"
    ctx.check(set(res.columns) == {imb, mean, top}, "columns", lambda: list(res.columns))
    ctx.check(len(res) == len(tot) and sorted(res.index) == sorted(tot), "one row per function", lambda: (rows, list(res.index)))
    prev = None
    for f in list(res.index):
        per = tot[f]
        s = 0
        for v in per.values():
            s = s + v
        row = res.loc[f]
        ctx.check(ctx.eq(row[mean] * len(per), s), "mean of %s" % f, lambda: (rows, row))
        tops = list(row[top])
        want = min(num, len(per))
        ctx.check(len(tops) == want and len(set(tops)) == want and all(p in per for p in tops), "top processes of %s" % f,
                  lambda: (rows, tops, num))
        if len(tops) > 1:
            ctx.cover("several top processes")
        if tops and tops[0] in per:
            ctx.check(ctx.eq(row[imb], per[tops[0]] / (s / len(per))), "imbalance of %s" % f, lambda: (rows, row[imb], per))
            for a, b in zip(tops, tops[1:]):
                ctx.check(per[a] >= per[b], "top processes of %s are sorted" % f, lambda: (rows, tops, per))
            for p in per:
                if p not in tops:
                    ctx.check(per[tops[-1]] >= per[p], "top processes of %s are the largest" % f, lambda: (rows, tops, per))
        if prev is not None:
            ctx.check(prev >= row[mean], "rows ordered by mean", lambda: (rows, list(res[mean])))
            ctx.cover("several functions")
        prev = row[mean]


def run(ctx, gen, asks, tiny=False, **kw):
    rows = {"flat": rows_flat, "bal": rows_balanced, "huge": rows_huge, "variety": rows_variety}[gen](ctx, **kw)
    metric, num = ctx.choice("ask", asks)
    if metric.startswith("A"):
        for i, r in enumerate(rows):
            r["A"] = tiny_value(ctx, "A%d" % i) if tiny else ctx.int("A%d" % i, 0, 2 ** 40)
    t = make_trace(ctx, rows, ["A"] if metric.startswith("A") else [])
    if metric.startswith("A."):
        t.calc_exc_metrics()
    tot = totals(rows, metric_values(rows, metric), lambda r: r["n"])
    for per in tot.values():
        s = 0
        for v in per.values():
            s = s + v
        ctx.assume(s > 0)
    if not tot:
        ctx.assume(False)
    if metric == "time.exc" and num == 1:
        res = t.load_imbalance()
    else:
        res = t.load_imbalance(metric, num)
    check(ctx, rows, res, metric, num)


def configs(tier):
    q = tier == "quick"
    cov = ["several top processes", "several functions"]
    return [
        Config("top", run, dict(gen="flat", asks=[("time.exc", 2), ("time.inc", 3)], calls=4 if q else 5, names=2, procs=3, proc_ids=[11, 4, 7]), cov,
               "%d calls, 2 functions, 3 processes; symbolic times" % (4 if q else 5)),
        Config("metric", run, dict(gen="flat", asks=[("A", 1), ("A.inc", 2), ("A.exc", 5)], calls=3, names=2, procs=2), cov,
               "3 calls, 2 functions, 2 processes, another metric"),
        Config("tiny", run, dict(gen="flat", asks=[("A", 1), ("A.exc", 2)], calls=2, names=2, procs=2, tiny=True), ["several functions"], "2 calls; metric values are multiples of 2^-40 below 2^-20"),
        Config("falling", run, dict(gen="flat", asks=[("A.inc", 1)] if q else [("A.inc", 1), ("A.exc", 2)], calls=3, names=1, procs=3), ["several top processes"] if not q else [], "3 calls on up to 3 processes; the metric may fall during a call"),
        Config("one-function", run, dict(gen="flat", asks=[("time.inc", 1), ("time.inc", 2), ("time.exc", 4)], calls=4, names=1, procs=4), ["several top processes"],
               "4 calls of one function on 4 processes"),
        Config("nested", run, dict(gen="bal", asks=[("time.exc", 1), ("time.exc", 2), ("time.inc", 9)], n=4 if q else 6, names=2, procs=2, stray=not q), ["several functions"],
               "%d rows of nested and unfinished calls" % (4 if q else 6)),
        Config("other-kinds", run, dict(gen="bal", asks=[("time.inc", 2)], n=4 if q else 6, names=1, procs=2, instant=OTHER), [], "%d rows some of which have other event types (%r)" % (4 if q else 6, OTHER)),
        Config("dtypes", run, dict(gen="flat", asks=[("time.exc", 2)], calls=3, names=2, procs=2, dtypes=("plain", "unused")), cov, "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(gen="flat", asks=[("time.exc", 2), ("time.inc", 1)], calls=3, names=1, procs=3, clock="quarters"), ["several top processes"], "3 calls; times are multiples of a quarter"),
        Config("signed", run, dict(gen="flat", asks=[("time.exc", 2)], calls=3, names=2, procs=2, clock="signed"), cov, "3 calls; times may be negative"),
        Config("crowd", run, dict(gen="huge", asks=[("time.exc", 1), ("time.inc", 70), ("time.exc", 200)], many=2, places=140), cov, "140 processes"),
        Config("team", run, dict(gen="huge", asks=[("time.inc", 3)], many=2, places=12, threads=4), cov, "3 processes of 4 threads"),
        Config("epoch", run, dict(gen="flat", asks=[("time.exc", 2)], calls=3, names=1, procs=2, clock="epoch"), ["several top processes"], "times of about 2^60, within 2^50 of each other"),
        Config("variety", run, dict(gen="variety", asks=[("time.exc", 1)], funcs=120 if q else 600, places=[2]), ["several functions"], "120 (600) different functions that call the same two, on 2 processes"),
        Config("grouped", run, dict(gen="flat", asks=[("time.exc", 1)], calls=3, names=2, procs=2, grouped=True), ["several functions"], "3 calls, grouped by process instead of ordered by time"),
    ]
