"""C07: flat profiles."""
from harness.common import (Config, rows_balanced, rows_flat, rows_huge, rows_variety, make_trace, match_oracle, tree_oracle, inc_oracle, exc_oracle, same, isnull, growth, NAMES, TMAX, OTHER)
from harness.metrics import metric_name, tiny_value

FUNCTIONS = ["pipit.trace.Trace.flat_profile", "pipit.trace.Trace.calc_inc_metrics", "pipit.trace.Trace.calc_exc_metrics",
             "pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee"]
STUBS = ["pandas group means are computed exactly (sum/count) instead of in floating point"]
ASSUMPTIONS = ["default RangeIndex", "matched calls properly nested", "a group without any Enter row may be absent or missing (NaN) in the result"]


def add(a, b):
    return a if isnull(b) else b if isnull(a) else a + b


def totals(rows, values, group):
    """group -> process -> sum over its Enter rows (missing values count as nothing)"""
    out = {}
    for i, r in enumerate(rows):
        if r["k"] == "Enter":
            d = out.setdefault(group(r), {})
            d[r["p"]] = add(d.get(r["p"], 0), values[i]) if not isnull(values[i]) else d.get(r["p"], 0)
    return out


def metric_values(rows, metric):
    """oracle values of a metric name such as time.exc, A.inc, A"""
    m = match_oracle(None, rows)
    base = metric.rsplit(".", 1)[0] if "." in metric else metric
    key = "t" if base == "time" else base
    if not metric.endswith((".inc", ".exc")):
        return [r[key] for r in rows]
    inc = inc_oracle(rows, m, key)
    if metric.endswith(".inc"):
        return inc
    return exc_oracle(rows, m, tree_oracle(rows, m)[2], inc)


def lookup(res, *key):
    for k in res.index:
        if (k if isinstance(k, tuple) else (k,)) == key:
            return res.loc[k]
    return None


def several(group):
    return group if isinstance(group, tuple) else (group,)


def check_profile(ctx, rows, res, metrics, group, per_process):
    ctx.check(list(res.columns) == metrics, "columns", lambda: list(res.columns))
    n = 0
    for j, metric in enumerate(metrics):
        tot = totals(rows, metric_values(rows, metric), group)
        for g, per in tot.items():
            if per_process:
                for p, v in per.items():
                    n += j == 0
                    row = lookup(res, *several(g), p)
                    ctx.check(row is not None, "entry %r %r" % (g, p), lambda: rows)
                    if row is not None:
                        ctx.check(same(ctx, row[metric], v), "sum of %s for %r on %r" % (metric, g, p), lambda: (rows, row[metric], v))
            else:
                n += j == 0
                row = lookup(res, *several(g))
                ctx.check(row is not None, "entry %r" % (g,), lambda: rows)
                want = 0
                for v in per.values():
                    want = want + v
                want = want / len(per)
                if row is not None:
                    ctx.check(same(ctx, row[metric], want), "mean of %s for %r" % (metric, g), lambda: (rows, row[metric], want))
                if len(per) > 1:
                    ctx.cover("several processes")
    # nothing else, except missing rows of groups that never occur
    extra = [k for k in range(len(res)) if not all(isnull(x) for x in res.iloc[k])]
    ctx.check(len(extra) == n, "no further entries", lambda: (rows, list(res.index)))
    if n > 1:
        ctx.cover("several groups")


def run(ctx, asks, extra=("A",), groups=None, metric=("A",), tiny=False, flat=False, gen=None, **kw):
    rows = {"huge": rows_huge, "variety": rows_variety, "flat": rows_flat, "bal": rows_balanced}[gen or ("flat" if flat else "bal")](ctx, **kw)
    for i, r in enumerate(rows):
        for c in metric:
            r[c] = tiny_value(ctx, "%s%d" % (c, i)) if tiny else ctx.quarter("%s%d" % (c, i), -2 ** 40, 2 ** 40)
        if groups:
            r["G"] = groups[growth(ctx, "g%d" % i, ctx_used(ctx), len(groups))]
    names, how, per_process, pre = ctx.choice("ask", asks)
    t = make_trace(ctx, rows, list(metric) + (["G"] if groups else []))
    for kind, c in pre:
        getattr(t, kind)(c)
    arg = list(names) if isinstance(names, (list, tuple)) else names
    ml = list(names) if isinstance(names, (list, tuple)) else [names]
    kw = {} if how == "Name" and not groups else {"groupby_column": how}
    if per_process is not None:
        kw["per_process"] = per_process
    res = t.flat_profile(**kw) if names is None else t.flat_profile(arg, **kw)
    if names is None:
        ml = ["time.exc"]
    key = {"Name": "n", "G": "G", "Event Type": "k", "Process": "p", "Thread": "th"}
    group = (lambda r: tuple(r[key[h]] for h in how)) if isinstance(how, list) else (lambda r: r[key[how]])
    check_profile(ctx, rows, res, ml, group, bool(per_process))
    if per_process:
        ctx.cover("per process")


def ctx_used(ctx):
    if not hasattr(ctx, "_used_groups"):
        ctx._used_groups = []
    return ctx._used_groups


PRE = (("calc_inc_metrics", None), ("calc_exc_metrics", None))
ASKS = [(None, "Name", None, ()), ("time.exc", "Name", True, ()), ("time.inc", "Name", False, ()), (["time.inc", "time.exc"], "Name", False, ()),
        (["time.inc", "time.exc"], "Name", True, ()), ("A.exc", "Name", False, PRE), (["A.inc", "time.exc", "A"], "Name", True, PRE), ("A", "Name", False, ()), (["time.exc", "time.inc"], "Name", False, ()), (["time.exc", "A"], "Name", True, ()),
        (["time.inc", "A"], "Name", False, ())]
GASKS = [("time.exc", "G", False, ()), ("time.inc", "G", True, ()), (["A", "time.exc"], "G", False, ())]


LISTS = [("time.exc", ["Name", "G"], False, ()), ("time.inc", ["G"], True, ()), (["A", "time.exc"], ["G", "Name"], True, ()), ("time.exc", ["Name"], False, ())]


def configs(tier):
    q = tier == "quick"
    cov = ["several groups", "several processes"]
    return [
        Config("default", run, dict(asks=ASKS[:2], n=6 if q else 7, names=2, procs=2, stray=False, open_end=False), cov + ["per process"],
               "%d rows, complete calls, 2 functions, 2 processes" % (6 if q else 7)),
        Config("asks", run, dict(asks=ASKS, n=4 if q else 5, names=2, procs=2, proc_ids=[7, 2]), cov + ["per process"],
               "%d rows with unfinished calls; all forms of the question" % (4 if q else 5)),
        Config("stray", run, dict(asks=ASKS[:2], n=4 if q else 6, names=2, procs=2, stray=True, instant=True), cov,
               "%d rows with unmatched Leaves and Instants" % (4 if q else 6)),
        Config("groupby", run, dict(asks=GASKS, groups=["x", "y"], n=4 if q else 5, names=1, procs=2), cov,
               "grouping by another column; %d rows" % (4 if q else 5)),
        Config("lists", run, dict(asks=LISTS, groups=["x", "y"], n=4 if q else 5, names=2, procs=2), cov + ["per process"],
               "grouping by lists of columns; %d rows" % (4 if q else 5)),
        Config("thread-lists", run, dict(asks=[("time.exc", ["Thread", "Name"], False, ()), ("time.exc", ["Name", "Thread"], True, ())], n=4, names=2, procs=2, threads=2), cov + ["per process"],
               "grouping by function and thread; 4 rows"),
        Config("threads", run, dict(asks=ASKS[:2], n=4 if q else 6, names=2, procs=2, threads=2), cov,
               "%d rows, 2 processes x 2 threads" % (4 if q else 6)),
        Config("calls", run, dict(flat=True, asks=ASKS[:2], calls=4 if q else 5, names=3, procs=3, proc_ids=[10, 2, 5]), cov + ["per process"],
               "%d calls, 3 functions, 3 processes (ids 10, 2, 5)" % (4 if q else 5)),
        Config("other-kinds", run, dict(asks=ASKS[:2], n=4 if q else 6, names=1, procs=2, instant=OTHER), ["several processes"], "%d rows some of which have other event types (%r)" % (4 if q else 6, OTHER)),
        Config("dtypes", run, dict(asks=ASKS[:3], n=4, names=2, procs=2, dtypes=("plain", "unused")), cov, "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(asks=ASKS[:2], n=4, names=1, procs=2, clock="quarters"), ["several processes"], "4 rows; times are multiples of a quarter"),
        Config("signed", run, dict(asks=ASKS[:2], n=4, names=1, procs=2, clock="signed"), ["several processes"], "4 rows; times may be negative"),
        Config("tiny", run, dict(asks=[ASKS[5], ASKS[7], ("A.exc", "Name", True, PRE)], tiny=True, n=4, names=1, procs=2), ["several processes"], "4 rows; metric values are multiples of 2^-40 below 2^-20"),
        Config("huge", run, dict(gen="huge", asks=ASKS[:2], metric=(), many=33000 if q else 70000), ["several groups", "per process"], "a function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", asks=ASKS[:2], metric=(), many=1, places=140), cov + ["per process"], "140 processes"),
        Config("team", run, dict(gen="huge", asks=ASKS[:2], metric=(), many=1, places=140, threads=70), cov + ["per process"], "2 processes of 70 threads"),
        Config("epoch", run, dict(asks=ASKS[:2], n=4, names=1, procs=2, clock="epoch"), ["several processes"], "4 rows; times of about 2^60, within 2^50 of each other"),
        Config("variety", run, dict(gen="variety", asks=ASKS[:2], metric=(), funcs=300 if q else 3000, places=[1, 2]), ["several groups", "per process"], "300 (3,000) different functions that call the same two"),
        Config("grouped", run, dict(asks=ASKS[:2], n=4, names=2, procs=2, grouped=True), cov, "4 rows grouped by process instead of ordered by time"),
    ]
