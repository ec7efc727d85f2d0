"""C33: analyses of traces read from files."""
from harness.common import Config, isnull, loc, match_oracle, inc_oracle, exc_oracle, tree_oracle, nested, same
from harness import c07, c09, c10, c11
from harness.c06 import check_cct
from harness.readers import tempdir
from harness.sources import source

FUNCTIONS = ["pipit.readers.*.read", "pipit.trace.Trace.__init__", "pipit.trace.Trace._match_events", "pipit.trace.Trace._match_caller_callee", "pipit.trace.Trace.calc_inc_metrics", "pipit.trace.Trace.calc_exc_metrics",
             "pipit.trace.Trace.flat_profile", "pipit.trace.Trace.load_imbalance", "pipit.trace.Trace.idle_time", "pipit.trace.Trace.time_profile", "pipit.trace.Trace.comm_matrix", "pipit.trace.Trace.create_cct", "pipit.trace.Trace.to_chrome"]
STUBS = ["archives, databases, logs and reports as in C18, C20, C22, C24, C25"]
ASSUMPTIONS = ["at least one event", "matched calls properly nested", "for the calling context tree: every Leave either ends the innermost open call of its location or no open call has its name", "for the time profile: a positive span"]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401


def rows_of(t):
    ev = t.events
    th = list(ev["Thread"]) if "Thread" in ev.columns else None
    out = []
    for i, (a, k, n, p) in enumerate(zip(ev["Timestamp (ns)"], ev["Event Type"], ev["Name"], ev["Process"])):
        r = {"t": a, "k": k, "n": n, "p": p}
        if th:
            r["th"] = th[i]
        if "Attributes" in ev.columns:
            r["Attributes"] = list(ev["Attributes"])[i]
        out.append(r)
    return out


def metrics(ctx, t, rows):
    m = match_oracle(ctx, rows)
    kids = tree_oracle(rows, m)[2]
    t.calc_inc_metrics(["Timestamp (ns)"])
    t.calc_exc_metrics(["Timestamp (ns)"])
    inc = inc_oracle(rows, m, "t")
    exc = exc_oracle(rows, m, kids, inc)
    ev = t.events
    got = {c: list(ev[c]) for c in ("_matching_event", "time.inc", "time.exc")}
    for i in range(len(rows)):
        d = lambda: (rows, got)  # noqa: E731
        x = got["_matching_event"][i]
        ctx.check(isnull(x) if m[i] is None else not isnull(x) and int(x) == m[i], "matching event", d)
        for c, want in (("time.inc", inc), ("time.exc", exc)):
            if rows[i]["k"] == "Enter":
                ctx.check(same(ctx, got[c][i], want[i]), c, d)
    if any(x is not None for x in m):
        ctx.cover("matched")
    if any(kids):
        ctx.cover("nested")


def default_metrics(ctx, t, rows):
    """without arguments: for every numeric column; at least the time"""
    t.calc_exc_metrics()
    metrics(ctx, t, rows)


def profile(ctx, t, rows):
    for per in (False, True):
        for metric in ("time.exc", "time.inc"):
            c07.check_profile(ctx, rows, t.flat_profile(metric, per_process=per), [metric], lambda r: r["n"], per)


def imbalance(ctx, t, rows):
    tot = c07.totals(rows, c07.metric_values(rows, "time.inc"), lambda r: r["n"])
    if not tot:
        return
    for per in tot.values():
        s = 0
        for v in per.values():
            s = s + v
        ctx.assume(s > 0)
    from harness import c08
    c08.check(ctx, rows, t.load_imbalance("time.inc", 2), "time.inc", 2)


def idle(ctx, t, rows):
    for funcs, mpi in ((["Idle", "main", "foo", "work"], False), (["Idle"], True)):
        c09.check(ctx, rows, t.idle_time(funcs, mpi), funcs, mpi, 0)


def time_profile(ctx, t, rows):
    if not rows or {r["p"] for r in rows} != {r["p"] for r in rows if r["k"] == "Enter"} or len({loc(r) for r in rows}) != len({r["p"] for r in rows}):
        return
    lo, hi = c10.span(rows)
    ctx.assume(lo < hi)
    ctx.assume(hi <= c10.HI)
    c10.check(ctx, rows, t.time_profile(num_bins=2), 2, False, lo, hi)


def cct(ctx, t, rows):
    opened = {}
    for r in rows:
        st = opened.setdefault(loc(r), [])
        if r["k"] == "Enter":
            st.append(r["n"])
        elif r["k"] == "Leave" and r["n"] in st:
            if st.pop() != r["n"]:
                return
    t.create_cct()
    check_cct(ctx, rows, t)


def matrix(ctx, t, rows):
    if "Attributes" not in t.events.columns:
        return
    procs = len({r["p"] for r in rows})
    m = t.comm_matrix()
    n = t.comm_matrix("count")
    ctx.check(tuple(m.shape) == (procs, procs), "shape", lambda: m.shape)
    want = {}
    for r in rows:
        if r["n"] in c11.SENDS:
            k = (r["p"], r["Attributes"]["receiver"])
            a, b = want.get(k, (0, 0))
            want[k] = (a + r["Attributes"]["msg_length"], b + 1)
            ctx.cover("message")
    for i in range(procs):
        for j in range(procs):
            a, b = want.get((i, j), (0, 0))
            ctx.check(ctx.eq(m[i][j], a) and ctx.eq(n[i][j], b), "communication", lambda: (rows, m, n))


def chrome(ctx, t, rows):
    from harness.c15 import export
    recs = export(ctx, t, "string")
    ctx.check(len(recs) == len(rows), "one record per event")
    for r, x in zip(rows, recs):
        ctx.check(x["name"] == r["n"] and bool(ctx.eq(x["pid"], r["p"])) and x["ph"] == {"Enter": "B", "Leave": "E", "Instant": "i"}.get(r["k"], r["k"]), "record", lambda: (r, x))
        ctx.check(ctx.eq(x["ts"], r["t"] // 1000), "time of a record", lambda: (r, x))


ALL = {"metrics": metrics, "default metrics": default_metrics, "profile": profile, "imbalance": imbalance, "idle": idle, "time profile": time_profile, "cct": cct, "matrix": matrix, "chrome": chrome}


def run(ctx, fmt, n, places, asks, variant=0, two=False, more={}):
    s = source(ctx, fmt, "a", n, places, variant, **more)
    with tempdir() as d:
        s.put(d)
        with s.mounted(d):
            t = s.load(d)
    if not len(t.events):
        from symx.core import Infeasible
        raise Infeasible()
    rows = rows_of(t)
    for name in [ctx.choice("ask", asks)] + ([ctx.choice("then", asks)] if two else []):
        m = match_oracle(ctx, rows)
        if not nested(rows, m):
            from symx.core import Infeasible
            raise Infeasible()
        ALL[name](ctx, t, rows)
        ctx.cover(name)


def configs(tier):
    q = tier == "quick"
    out = []
    short = ["metrics", "profile", "idle", "cct"]
    sizes = [("otf2", 3, 1, None), ("otf2", 1, 3, ["matrix", "metrics", "cct"]), ("otf2", 2, 2, ["profile"]), ("projections", 3, 1, None), ("projections", 1, 2, None), ("nsight", 2, 1, None), ("nsight", 1, 2, None),
             ("csv", 3, 1, None), ("csv", 1, 2, None), ("csv", 2, 2, short[:1]), ("hpctoolkit", 2, 1, None), ("hpctoolkit", 1, 2, None), ("hpctoolkit", 1, 3, ["cct"])]
    for fmt, n, places, some in sizes:
        asks = [a for a in ALL if not (a == "matrix" and fmt != "otf2") and not (a == "chrome" and fmt == "hpctoolkit")]
        if fmt == "csv" and n == 1:
            asks.remove("imbalance")
        if some and q:
            asks = some
        k = n if q else n + 1
        out.append(Config("%s %dx%d" % (fmt, n, places), run, dict(fmt=fmt, n=k, places=places, asks=asks), [a for a in asks if not (a == "time profile" and fmt == "hpctoolkit")],
                          "%s: %d events (calls, samples) on each of %d locations, then any of %d analyses" % (fmt, k, places, len(asks))))
    for fmt, asks in (("otf2", ["metrics", "profile", "cct"]), ("projections", ["metrics", "profile"]), ("nsight", ["metrics", "profile", "cct"]), ("csv", ["metrics", "profile", "cct"]), ("hpctoolkit", ["metrics", "profile", "cct"])):
        out.append(Config(fmt + " long", run, dict(fmt=fmt, n=24, places=2, asks=asks, more={"rigid": True}), asks, "%s: 24 events on each of 2 locations, one duration symbolic" % fmt))
        if fmt != "csv":
            out.append(Config(fmt + " one", run, dict(fmt=fmt, n=1, places=1, asks=["metrics", "profile", "cct"]), [], "%s: one record" % fmt))
    return out
