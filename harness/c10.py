"""C10: time profile."""
from fractions import Fraction
from harness.common import Config, rows_balanced, rows_flat, rows_variety, make_trace, match_oracle, tree_oracle, isnull, OTHER

FUNCTIONS = ["pipit.trace.Trace.time_profile", "pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee",
             "pipit.trace.Trace.calc_inc_metrics"]
STUBS = ["numpy.linspace with symbolic ends is computed exactly"]
ASSUMPTIONS = ["default RangeIndex", "calls properly nested", "with several threads in a process idle_time is not specified", "every process makes at least one call",
               "timestamps in 0..2^30 (beyond that the code's floating point bin edges are only approximate)", "the trace's span is positive"]
HI = 2 ** 30


def span(rows):
    lo = hi = rows[0]["t"]
    for r in rows[1:]:
        lo = r["t"] if r["t"] < lo else lo
        hi = r["t"] if r["t"] > hi else hi
    return lo, hi


def lim(ctx, rows):
    lo, hi = span(rows) if getattr(ctx, "grouped", False) else (rows[0]["t"], rows[-1]["t"])
    ctx.assume(hi <= HI)
    ctx.assume(lo < hi)
    return lo, hi


def overlap(a, b, start, end):
    lo = a if a >= start else start
    hi = b if b <= end else end
    return hi - lo if hi > lo else 0


def close(ctx, a, b):
    if ctx.sym:
        return ctx.eq(a, b)
    return abs(float(a) - float(b)) <= 1e-5 * max(1.0, abs(float(b)))


def check(ctx, rows, df, bins, normalized, t0, t1):
    m = match_oracle(ctx, rows)
    _, _, children = tree_oracle(rows, m)
    one = Fraction(1, bins) if not ctx.sym else Fraction(1, bins)
    nproc = len({r["p"] for r in rows})
    names = list(dict.fromkeys(r["n"] for r in rows if r["k"] == "Enter"))
    ctx.check(len(df) == bins, "one row per bin", lambda: len(df))
    ctx.check(set(df.columns) == set(names) | {"bin_start", "bin_end", "idle_time"} and len(df.columns) == len(names) + 3, "columns", lambda: (rows, list(df.columns)))
    got = {c: list(df[c]) for c in df.columns}
    width = (t1 - t0) * one
    total = width * nproc
    for b in range(bins):
        start = t0 + (t1 - t0) * one * b
        end = t0 + (t1 - t0) * one * (b + 1)
        ctx.check(close(ctx, got["bin_start"][b], start) and close(ctx, got["bin_end"][b], end), "edges of bin %d" % b, lambda: (rows, got["bin_start"], got["bin_end"]))
        used = 0
        amounts = {}
        for f in names:
            w = 0
            for i, r in enumerate(rows):
                if r["k"] == "Enter" and r["n"] == f and m[i] is not None:
                    v = overlap(r["t"], rows[m[i]]["t"], start, end)
                    for c in children[i]:
                        v = v - overlap(rows[c]["t"], rows[m[c]]["t"], start, end)
                        ctx.cover("nested")
                    w = w + v
            amounts[f] = w
            used = used + w
        if not any("th" in r for r in rows):
            amounts["idle_time"] = total - used
        for f, w in amounts.items():
            g = got[f][b]
            small = bool(w < Fraction(1, 100))
            w = 0 if small else w
            if not small:
                ctx.cover("idle" if f == "idle_time" else "function")
            if normalized:
                w = w / total
            if isnull(g):
                ctx.check(small, "entry of %s in bin %d" % (f, b), lambda: (rows, got))
            else:
                ctx.check(close(ctx, g, w), "entry of %s in bin %d" % (f, b), lambda: (rows, got, w))


def rows_chain(ctx, depths):
    """nested calls of as many functions, at fixed distances from a symbolic beginning"""
    n, t0 = ctx.choice("depth", depths), ctx.int("t0", 0, 2 ** 20)
    return [{"t": t0 + 24 * i, "k": "Enter" if i < n else "Leave", "n": "f%d" % (i if i < n else 2 * n - 1 - i), "p": 0} for i in range(2 * n)]


def run(ctx, gen, bins, normalized=False, **kw):
    rows = {"flat": rows_flat, "bal": rows_balanced, "variety": rows_variety, "chain": rows_chain}[gen](ctx, **kw)
    t0, t1 = lim(ctx, rows)
    with_enter = {r["p"] for r in rows if r["k"] == "Enter"}
    if {r["p"] for r in rows} != with_enter:
        from symx.core import Infeasible
        raise Infeasible()
    t = make_trace(ctx, rows)
    b = ctx.choice("bins", bins)
    df = t.time_profile(num_bins=b, normalized=True) if normalized else t.time_profile(b) if b != 50 else t.time_profile()
    check(ctx, rows, df, b, normalized, t0, t1)
    if len(with_enter) > 1:
        ctx.cover("several processes")


def configs(tier):
    q = tier == "quick"
    cov = ["nested", "function", "idle"]
    return [
        Config("complete", run, dict(gen="bal", bins=[2] if q else [1, 2, 3], n=6, names=1 if q else 2, open_end=False), cov,
               "6 rows of complete calls, 2 bins (thorough: 1 to 3 bins, 2 names)"),
        Config("names", run, dict(gen="bal", bins=[1, 2], n=4, names=2, open_end=False), cov, "4 rows of complete calls, 2 names"),
        Config("three-bins", run, dict(gen="bal", bins=[3] if q else [4], n=4, names=2, open_end=False), cov, "4 rows, 3 (4) bins"),
        Config("processes", run, dict(gen="bal", bins=[1, 2] if q else [2, 3], n=4 if q else 6, names=2, procs=2, proc_ids=[8, 3], open_end=False), ["function", "idle", "several processes"], "4 (6) rows on 2 processes"),
        Config("unmatched", run, dict(gen="bal", bins=[2], n=3 if q else 4, names=2, procs=2, stray=True, instant=True), ["function", "idle"], "unfinished calls, unmatched Leaves, Instants"),
        Config("normalized", run, dict(gen="bal", bins=[1, 2], normalized=True, n=4, names=2, procs=2, open_end=False), ["nested", "function", "idle"], "normalized=True"),
        Config("threads", run, dict(gen="bal", bins=[1, 2], n=4, names=1, procs=2, threads=2, open_end=False), ["function", "several processes"], "4 rows on 2 processes of 2 threads"),
        Config("normalized-threads", run, dict(gen="bal", bins=[1, 2], normalized=True, n=4, names=2, procs=1, threads=2, open_end=False), ["nested", "function"], "normalized=True, 2 threads of a process"),
        Config("flat", run, dict(gen="flat", bins=[2] if q else [3], calls=2 if q else 3, names=2, procs=2), ["function", "idle", "several processes"], "2 (3) successive calls"),
        Config("deep", run, dict(gen="bal", bins=[1] if q else [2], n=6 if q else 8, names=2 if q else 1, open_end=False), ["nested", "function"], "6 rows, 1 bin (8 rows, 2 bins)"),
        Config("chain", run, dict(gen="chain", bins=[1, 3], depths=[70] if q else [70, 140, 300]), ["nested", "function"], "70 (to 300) nested calls"),
        Config("many-bins", run, dict(gen="bal", bins=[50] if q else [20], n=2 if q else 3, names=1), ["function"], "50 bins, 2 rows (20 bins, 3 rows)"),
        Config("other-kinds", run, dict(gen="bal", bins=[2], n=3 if q else 4, names=1, instant=OTHER), ["function"], "%d rows some of which have other event types (%r)" % (3 if q else 4, OTHER)),
        Config("dtypes", run, dict(gen="flat", bins=[1, 2], calls=2, names=2, procs=2, dtypes=("plain", "unused")), ["function"], "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(gen="flat", bins=[1, 2], calls=2, names=2, procs=1, clock="quarters"), ["function"], "2 calls; times are multiples of a quarter"),
        Config("signed", run, dict(gen="flat", bins=[1, 2], calls=2, names=2, procs=1, clock="signed"), ["function"], "2 calls; times may be negative"),
        Config("variety", run, dict(gen="variety", bins=[1, 3], funcs=25 if q else 60, places=[1, 2], rigid=True), ["function", "nested"], "25 (60) different functions that call the same two"),
        Config("grouped", run, dict(gen="bal", bins=[2], n=4, names=1, procs=2, open_end=False, grouped=True), ["function", "several processes"], "4 rows grouped by process instead of ordered by time"),
    ]
