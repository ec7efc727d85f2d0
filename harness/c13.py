"""C13: multi-run analysis."""
from harness.common import Config, rows_flat, make_trace, isnull
from harness.metrics import tiny_value
from harness.c07 import totals, metric_values

FUNCTIONS = ["pipit.trace.Trace.multirun_analysis", "pipit.trace.Trace.flat_profile", "pipit.trace.Trace.calc_exc_metrics"]
STUBS = ["pandas group means are computed exactly; sorting decides order by symbolic comparisons"]
ASSUMPTIONS = ["default RangeIndex", "complete, properly nested calls"]


class Sub:
    """prefixes the variable names of one trace"""

    def __init__(self, ctx, prefix):
        self.ctx, self.prefix = ctx, prefix
        self.sym = ctx.sym

    def int(self, name, *a):
        return self.ctx.int(self.prefix + name, *a)

    def quarter(self, name, *a):
        return self.ctx.quarter(self.prefix + name, *a)

    def choice(self, name, o):
        return self.ctx.choice(self.prefix + name, o)

    def __getattr__(self, n):
        return getattr(self.ctx, n)


def run(ctx, runs, metric="Timestamp (ns)", group="Name", nest=False, tiny=False):
    traces, all_rows = [], []
    for k, (calls, names, procs) in enumerate(runs):
        c = Sub(ctx, "r%d" % k)
        rows = rows_flat(c, calls, procs=procs, name_list=names, nest=nest, proc_ids=[4, 1, 9])
        for i, r in enumerate(rows):
            if metric == "A":
                r["A"] = tiny_value(ctx, "r%dA%d" % (k, i)) if tiny else ctx.int("r%dA%d" % (k, i), 0, 2 ** 40)
            r["G"] = "g%d" % (i // 2 % 2)
        extra = (["A"] if metric == "A" else []) + (["G"] if group == "G" else [])
        traces.append(make_trace(ctx, rows, extra))
        all_rows.append(rows)
    res = type(traces[0]).multirun_analysis(traces) if metric != "A" and group == "Name" else \
        type(traces[0]).multirun_analysis(traces, metric_column=metric, groupby_column=group)
    ctx.check(len(res) == len(traces), "one row per trace", lambda: res)
    ctx.check(list(res.index) == [len({r["p"] for r in rows}) for rows in all_rows], "labels are process counts", lambda: (list(res.index), all_rows))
    mname = "time.exc" if metric != "A" else "A.exc"
    want = []
    for rows in all_rows:
        tot = totals(rows, metric_values(rows, mname), lambda r: r["n" if group == "Name" else "G"])
        w = {}
        for f, per in tot.items():
            s = 0
            for v in per.values():
                s = s + v
            w[f] = s / len(per)
            if len(per) > 1:
                ctx.cover("several processes")
        want.append(w)
    funcs = set().union(*want)
    cols = list(res.columns)
    ctx.check(len(cols) == len(set(cols)) and set(cols) == funcs, "columns are the groups", lambda: (cols, funcs))
    sums = []
    for j, c in enumerate(cols):
        total = 0
        for k, w in enumerate(want):
            g = res.iloc[k, j]
            if c in w:
                ctx.check(not isnull(g) and ctx.eq(g, w[c]), "run %d %s" % (k, c), lambda: (all_rows, res))
                total = total + w[c]
            else:
                ctx.check(isnull(g), "run %d has no %s" % (k, c), lambda: (all_rows, res))
                ctx.cover("missing group")
        sums.append(total)
    for a, b in zip(sums, sums[1:]):
        ctx.check(a >= b, "columns ordered by decreasing total", lambda: (all_rows, res))
        ctx.cover("several groups")


def configs(tier):
    q = tier == "quick"
    F, G = ["foo", "bar"], ["bar", "qux"]
    cov = ["several groups", "missing group"]
    return [
        Config("two-runs", run, dict(runs=[(2, F, 2), (2, G, 2)] if q else [(3, F, 2), (2, G, 2)]), cov + ["several processes"], "two traces of 2 calls each (thorough 3 and 2)"),
        Config("three-runs", run, dict(runs=[(1, F + ["qux"], 1), (2, F[:1], 2), (1, G, 1)] if q else [(1, F + ["qux"], 1), (2, F, 2), (1, G, 1)]), cov, "three traces"),
        Config("nested", run, dict(runs=[(1, F, 1), (1, F, 1)] if q else [(2, F, 1), (1, F, 1)], nest=True), ["several groups"], "nested calls"),
        Config("tiny", run, dict(runs=[(1, F, 1), (1, F, 1)], metric="A", tiny=True), [], "metric values are multiples of 2^-40 below 2^-20"),
        Config("metric", run, dict(runs=[(2, F, 2), (1, F, 1)], metric="A"), cov, "another metric column"),
        Config("groups", run, dict(runs=[(2, F[:1], 2), (1, F[:1], 1)], group="G"), cov, "another grouping column"),
        Config("one-run", run, dict(runs=[(3, F, 2)]), ["several groups"], "a single trace"),
        Config("quarters", run, dict(runs=[(2, F[:1], 2), (1, F, 1)], clock="quarters"), ["several groups"], "times are multiples of a quarter"),
    ]
