"""C01: event matching."""
from harness.common import Config, rows_any, rows_deep, rows_flat, rows_huge, rows_skip, make_trace, loc_rows, match_oracle, isnull, OTHER

PROP = "C01"
FUNCTIONS = ["pipit.trace.Trace.__init__", "pipit.trace.Trace._match_events"]
STUBS = []
ASSUMPTIONS = ["events frame has a default RangeIndex (as every reader produces)"]


def run(ctx, gen="any", **kw):
    rows = {"any": rows_any, "deep": rows_deep, "flat": rows_flat, "huge": rows_huge, "skip": rows_skip}[gen](ctx, **kw)
    t = make_trace(ctx, rows)
    t._match_events()
    ev = t.events
    m = match_oracle(ctx, rows)
    got_m, got_t = list(ev["_matching_event"]), list(ev["_matching_timestamp"])
    ctx.check(len(got_m) == len(rows), "row count")
    for i in range(len(rows)):
        if m[i] is None:
            ctx.check(isnull(got_m[i]), "row %d must be unmatched" % i, lambda: (rows, got_m))
            ctx.check(isnull(got_t[i]), "row %d must have no matching timestamp" % i)
        else:
            ctx.cover("matched")
            ctx.check((not isnull(got_m[i])) and int(got_m[i]) == m[i], "matching row of %d" % i, lambda: (rows, got_m))
            want, label = rows[m[i]]["t"], "matching timestamp of %d" % i
            if getattr(ctx, "wide", False) and None in m and not isnull(got_t[i]) and bool(abs(got_t[i] - want) <= 256):
                label = "matching timestamp rounded beside unmatched rows"
            ctx.check(ctx.eq(got_t[i], want), label, lambda: (rows, got_t))
        ctx.observe("m%d" % i, None if isnull(got_m[i]) else int(got_m[i]))
    if any(r["k"] == "Leave" and m[i] is None for i, r in enumerate(rows)):
        ctx.cover("unmatched leave")
    if any(r["k"] == "Enter" and m[i] is None for i, r in enumerate(rows)):
        ctx.cover("unmatched enter")


def configs(tier):
    q = tier == "quick"
    n = 6 if q else 7
    cov = ["matched", "unmatched leave", "unmatched enter"]
    return [
        Config("one-location", run, dict(n=n, names=3), cov, "every trace of %d rows on one location, kinds Enter/Leave/Instant, 3 names" % n),
        Config("locations", run, dict(n=4 if q else 5, names=2, procs=2, threads=2, kinds=["Enter", "Leave"]), cov,
               "every trace of %d Enter/Leave rows on 2 processes x 2 threads, 2 names" % (4 if q else 5)),
        Config("other-kinds", run, dict(n=4 if q else 5, names=2, kinds=["Enter", "Leave"] + OTHER), cov, "every trace of %d rows whose event types include %r" % (4 if q else 5, OTHER)),
        Config("one-name", run, dict(n=7 if q else 10, names=1), cov, "every trace of %d rows of one function, with Instants" % (7 if q else 10)),
        Config("deep", run, dict(gen="deep", depths=[40, 70] if q else [40, 70, 130, 260]), ["matched", "unmatched enter"],
               "chains of 40 and 70 (130, 260) nested calls, partly returned and called again"),
        Config("dtypes", run, dict(n=4, names=2, procs=2, kinds=["Enter", "Leave"], dtypes=("plain", "unused")), ["matched"], "every trace of 4 Enter/Leave rows on 2 processes; columns not categorical, or with unused categories"),
        Config("signed", run, dict(n=4, names=2, kinds=["Enter", "Leave"], clock="signed"), ["matched"], "4 rows; times may be negative"),
        Config("quarters", run, dict(n=4, names=2, kinds=["Enter", "Leave"], clock="quarters"), ["matched"], "4 rows; times are multiples of a quarter"),
        Config("abyss", run, dict(gen="deep", depths=[1200] if q else [1200, 3000], backs=[700]), ["matched"], "1200 (3000) nested calls"),
        Config("huge", run, dict(gen="huge", many=33000 if q else 70000), ["matched", "unmatched enter"], "a function with 33,000 (70,000) calls; the times of the last rows are symbolic"),
        Config("crowd", run, dict(gen="huge", many=1, places=300, threads=150), ["matched", "unmatched enter"], "2 processes of 150 threads"),
        Config("late", run, dict(n=3, names=1, kinds=["Enter", "Leave"], clock="late"), ["matched"], "3 rows; times from 2^53 to 2^62"),
        Config("skip", run, dict(gen="skip", depths=[3, 70, 130] if q else [3, 70, 130, 260, 1030, 5000]), ["matched", "unmatched enter"], "up to 130 (5,000) calls that are still open when an outer one returns"),
        Config("grouped", run, dict(n=4, names=2, procs=3, kinds=["Enter", "Leave"], grouped=True), ["matched"], "4 rows grouped by process instead of ordered by time"),
    ]
