"""C03: parent, depth and children."""
from harness.common import Config, rows_any, rows_deep, rows_balanced, rows_huge, make_trace, match_oracle, require_nested, tree_oracle, isnull, OTHER

FUNCTIONS = ["pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee"]
STUBS = []
ASSUMPTIONS = ["default RangeIndex", "the matched calls of every location are properly nested (otherwise the property says nothing)"]


def run(ctx, gen, **kw):
    rows = {"any": rows_any, "bal": rows_balanced, "deep": rows_deep, "huge": rows_huge}[gen](ctx, **kw)
    m = match_oracle(ctx, rows)
    require_nested(ctx, rows, m)
    t = make_trace(ctx, rows)
    t._match_caller_callee()
    ev = t.events
    ctx.check(len(ev) == len(rows), "row count")
    parent, depth, children = tree_oracle(rows, m)
    P, D, C = list(ev["_parent"]), list(ev["_depth"]), list(ev["_children"])
    for i, r in enumerate(rows):
        info = lambda: (rows, P, D, C)  # noqa: E731
        ctx.check(isnull(P[i]) if parent[i] is None else (not isnull(P[i]) and int(P[i]) == parent[i]), "parent of %d" % i, info)
        ctx.check(isnull(D[i]) if depth[i] is None else (not isnull(D[i]) and int(D[i]) == depth[i]), "depth of %d" % i, info)
        ctx.check(isnull(C[i]) if not children[i] else (isinstance(C[i], list) and [int(x) for x in C[i]] == children[i]),
                  "children of %d" % i, info)
        if parent[i] is not None:
            ctx.cover("child")
        if len(children[i]) > 1:
            ctx.cover("two children")
        if r["k"] != "Instant" and m[i] is None:
            ctx.cover("unmatched")


def configs(tier):
    q = tier == "quick"
    return [
        Config("any", run, dict(gen="any", n=5 if q else 7, names=2), ["child", "two children", "unmatched"] if not q else ["child", "unmatched"],
               "every properly nested trace of %d rows, 2 names, one location" % (5 if q else 7)),
        Config("any-locations", run, dict(gen="any", n=4 if q else 5, names=2, procs=2, threads=2, kinds=["Enter", "Leave"]), ["child", "unmatched"],
               "every properly nested trace of %d rows, 2 names, 2x2 locations" % (4 if q else 5)),
        Config("deep", run, dict(gen="bal", n=10 if q else 14, names=1), ["child", "two children", "unmatched"],
               "every innermost-first Enter/Leave sequence of %d rows of one (recursive) function" % (10 if q else 14)),
        Config("stray", run, dict(gen="bal", n=6 if q else 8, names=1, stray=True, instant=True), ["child", "unmatched"],
               "innermost-first sequences of %d rows with Leaves of never-entered functions and Instants" % (6 if q else 8)),
        Config("chain", run, dict(gen="deep", depths=[40, 70] if q else [40, 70, 130]), ["child", "unmatched"],
               "chains of 40 and 70 (130) nested calls, partly returned and called again"),
        Config("two-proc", run, dict(gen="bal", n=7 if q else 9, names=1, procs=2), ["child", "two children", "unmatched"],
               "innermost-first sequences of %d rows on 2 processes" % (7 if q else 9)),
        Config("other-kinds", run, dict(gen="bal", n=5 if q else 7, names=1, instant=OTHER), ["child", "unmatched"], "%d rows some of which have other event types (%r)" % (5 if q else 7, OTHER)),
        Config("dtypes", run, dict(gen="bal", n=5, names=1, procs=2, dtypes=("plain", "unused")), ["child", "unmatched"], "columns not categorical, or with unused categories"),
        Config("signed", run, dict(gen="bal", n=6, names=1, clock="signed"), ["child", "unmatched"], "6 rows; times may be negative"),
        Config("abyss", run, dict(gen="deep", depths=[1200] if q else [1200, 3000], backs=[700]), ["child"], "1200 (3000) nested calls"),
        Config("huge", run, dict(gen="huge", many=33000 if q else 70000), ["child", "two children", "unmatched"], "a function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", many=1, places=300, threads=150), ["child", "unmatched"], "2 processes of 150 threads"),
        Config("grouped", run, dict(gen="bal", n=6, names=1, procs=2, grouped=True), ["child", "unmatched"], "6 rows grouped by process instead of ordered by time"),
    ]
