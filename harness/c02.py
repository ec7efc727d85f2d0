"""C02: each location is analysed as if it were alone."""
from harness.common import *  # noqa: F401,F403
from harness.common import Config, rows_any, rows_balanced, make_trace, isnull, same, times, growth, OTHER

FUNCTIONS = ["pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee",
             "pipit.trace.Trace.calc_inc_metrics", "pipit.trace.Trace.calc_exc_metrics",
             "pipit.util.cct.create_cct", "pipit.graph.Node"]
STUBS = ["symbolic process/thread ids all hash alike (hash collisions are resolved by ==, which forks)"]
ASSUMPTIONS = ["default RangeIndex"]


def compare(ctx, rows, cct, metrics):
    whole = make_trace(ctx, rows)
    analyse(whole, cct, metrics)
    ev = whole.events
    got = {c: list(ev[c]) for c in ev.columns if c.startswith("_") or c in ("time.inc", "time.exc", "Graph_Node")}
    groups = []
    for i, r in enumerate(rows):
        for g in groups:
            f = rows[g[0]]
            if f["p"] == r["p"] and ("th" not in r or f["th"] == r["th"]):
                g.append(i)
                break
        else:
            groups.append([i])
    if len(groups) > 1:
        ctx.cover("several locations")
    for g in groups:
        alone = make_trace(ctx, [rows[i] for i in g])
        analyse(alone, cct, metrics)
        ref = {c: list(alone.events[c]) for c in got}
        back = dict(enumerate(g))
        nodes = {}
        for a, i in back.items():
            for c in got:
                x, y = got[c][i], ref[c][a]
                lab = "%s of row %d" % (c, i)
                if c in ("_matching_event", "_parent"):
                    ctx.check(isnull(x) == isnull(y) and (isnull(x) or int(x) == back[int(y)]), lab, lambda: (rows, x, y))
                elif c == "_children":
                    ctx.check((x is None and y is None) or (x is not None and y is not None and list(x) == [back[k] for k in y]),
                              lab, lambda: (rows, x, y))
                elif c == "Graph_Node":
                    ctx.check((x is None) == (y is None), lab)
                    if x is not None and y is not None:
                        px, py = path(x), path(y)
                        ctx.check(len(px) == len(py) and x.level == y.level, lab + " level", lambda: rows)
                        for u, v in zip(px, py):
                            if id(v) in nodes:
                                ctx.check(nodes[id(v)] is u, lab + " node", lambda: rows)
                            nodes[id(v)] = u
                else:
                    ctx.check(same(ctx, x, y), lab, lambda: (rows, x, y))
        if "Graph_Node" in got:
            ctx.check(len({id(u) for u in nodes.values()}) == len(nodes), "distinct nodes stay distinct", lambda: rows)
            ctx.cover("cct")
    if any(not isnull(x) for x in got.get("_matching_event", [])):
        ctx.cover("matched")


def path(node):
    out = []
    while node is not None:
        out.append(node)
        node = node.parent
    return out


def analyse(t, cct, metrics):
    if metrics:
        t.calc_exc_metrics(["Timestamp (ns)"])
    else:
        t._match_events()
    if cct:
        t.create_cct()


def run(ctx, cct, metrics, balanced=False, **kw):
    rows = (rows_balanced if balanced else rows_any)(ctx, **kw)
    compare(ctx, rows, cct, metrics)


def run_ids(ctx, n, metrics, thread=True, locations=2):
    """process and thread numbers are arbitrary integers"""
    ts = times(ctx, n, lo=0)
    ids = [(ctx.int("p%d" % j, 0, 2 ** 20), ctx.int("th%d" % j, 0, 2 ** 20) if thread else None) for j in range(locations)]
    rows, used = [], []
    for i in range(n):
        p, th = ids[growth(ctx, "loc%d" % i, used, locations)]
        r = {"t": ts[i], "k": ctx.choice("k%d" % i, ["Enter", "Leave"]), "n": "foo", "p": p}
        if thread:
            r["th"] = th
        rows.append(r)
    from harness import common
    import pandas as pd
    if ctx.sym:
        orig = common.frame

        def frame(ctx, rows, extra=(), categorical=True):
            d = {"Timestamp (ns)": common.col(ctx, [r["t"] for r in rows]), "Event Type": [r["k"] for r in rows],
                 "Name": [r["n"] for r in rows], "Process": common.col(ctx, [r["p"] for r in rows])}
            if thread:
                d["Thread"] = common.col(ctx, [r["th"] for r in rows])
            return pd.DataFrame(d)
        common.frame = frame
        try:
            compare(ctx, rows, False, metrics)
        finally:
            common.frame = orig
    else:
        compare(ctx, rows, False, metrics)


def run_numbers(ctx, ps, ths):
    """two locations whose numbers look alike"""
    ts = times(ctx, 4, lo=0)
    ids = [(ctx.choice("p%d" % j, ps), ctx.choice("th%d" % j, ths)) for j in range(2)]
    ctx.assume(ids[0] < ids[1])
    rows = [{"t": ts[i], "k": "EELL"[i], "n": "foo", "p": ids[i % 2][0], "th": ids[i % 2][1]} for i in range(4)]
    for r in rows:
        r["k"] = {"E": "Enter", "L": "Leave"}[r["k"]]
    compare(ctx, rows, True, True)


def configs(tier):
    q = tier == "quick"
    cov = ["several locations", "matched"]
    return [
        Config("match-any", run, dict(n=4 if q else 5, names=1 if q else 2, procs=2, threads=2, kinds=["Enter", "Leave"], cct=False, metrics=False),
               cov, "every trace of %d Enter/Leave rows, 1 (2) names, 2 processes x 2 threads" % (4 if q else 5)),
        Config("metrics", run, dict(balanced=True, n=5 if q else 6, names=1 if q else 2, procs=2, threads=2, cct=False, metrics=True),
               cov, "every trace of %d rows with innermost-first Leaves, 1 (2) names, 2x2 locations" % (5 if q else 6)),
        Config("cct", run, dict(balanced=True, n=4 if q else 5, names=2, procs=2, threads=2, cct=True, metrics=True),
               cov + ["cct"], "as above, %d rows, with calling context tree" % (4 if q else 5)),
        Config("cct-nothread", run, dict(balanced=True, n=4 if q else 6, names=2, procs=3, cct=True, metrics=True),
               cov + ["cct"], "%d rows, 3 processes, no Thread column" % (4 if q else 6)),
        Config("other-kinds", run, dict(balanced=True, n=3 if q else 4, names=1, procs=2, threads=2, instant=OTHER, cct=True, metrics=True), cov + ["cct"],
               "%d rows some of which have other event types (%r)" % (3 if q else 4, OTHER)),
        Config("ids", run_ids, dict(n=4 if q else 6, metrics=True, locations=2 if q else 3), cov,
               "%d rows of one function; process and thread ids are arbitrary integers 0..2^20" % (4 if q else 6)),
        Config("numbers", run_numbers, dict(ps=[0, 1, 11, 110, 256], ths=[0, 1, 11, 101]) if q else dict(ps=[0, 1, 2, 10, 11, 12, 110, 111, 256, 65536], ths=[0, 1, 10, 11, 101, 111, 256, 65536]), cov + ["cct"],
               "interleaved calls of two locations whose process and thread numbers look alike (digits of one another, 0, powers of two)"),
        Config("signed", run, dict(balanced=True, n=4, names=1, procs=2, cct=False, metrics=True, clock="signed"), cov, "4 rows; times may be negative"),
    ]
