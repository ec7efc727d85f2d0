"""C30: readers asked for the calling context tree."""
import os

from harness.common import Config, Rigid, isnull, loc
from harness import proj
from harness.c06 import check_cct
from harness.readers import Texts, csvs, pools, tempdir, write_csv

FUNCTIONS = ["pipit.readers.otf2_reader.OTF2Reader.read", "pipit.readers.projections_reader.ProjectionsReader.read", "pipit.readers.nsight_reader.NsightReader.read",
             "pipit.trace.Trace.from_otf2 / from_projections / from_nsight", "pipit.util.cct.create_cct", "pipit.trace.Trace.create_cct"]
STUBS = ["archives, logs and reports as in C18, C22, C24"]
ASSUMPTIONS = ["every Leave either ends the innermost open call of its process/thread or no open call has its name"]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401


def same(ctx, a, b, what):
    if isinstance(a, dict) or isinstance(b, dict):
        ctx.check(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), what, lambda: (a, b))
        return
    ctx.check((isnull(a) and isnull(b)) or bool(ctx.eq(a, b)), what, lambda: (a, b))


def compare(ctx, plain, asked, later):
    ctx.check(plain.cct is None, "no tree unless asked for")
    ctx.check("Graph_Node" not in plain.events.columns, "no node column unless asked for")
    ctx.check(asked.cct is not None, "the tree asked for")
    ev = asked.events
    ctx.check(sorted(c for c in ev.columns if c != "Graph_Node") == sorted(plain.events.columns), "columns", lambda: (list(ev.columns), list(plain.events.columns)))
    ctx.check(len(ev) == len(plain.events), "number of events", lambda: (len(ev), len(plain.events)))
    for c in plain.events.columns:
        for a, b in zip(list(ev[c]), list(plain.events[c])):
            same(ctx, a, b, "events do not depend on the option")
    th = list(ev["Thread"]) if "Thread" in ev.columns else [None] * len(ev)
    rows = [{"k": k, "n": n, "p": p, "th": x} for k, n, p, x in zip(ev["Event Type"], ev["Name"], ev["Process"], th)]
    opened = {}
    for r in rows:  # the assumption
        st = opened.setdefault(loc(r), [])
        if r["k"] == "Enter":
            st.append(r["n"])
        elif r["k"] == "Leave" and r["n"] in st:
            ctx.assume(st[-1] == r["n"])
            st.pop()
    check_cct(ctx, rows, asked)
    if later:
        plain.create_cct()
        check_cct(ctx, rows, plain)
    if len(opened) > 1:
        ctx.cover("several locations")


def otf2_(ctx, ask, n, locs):
    from pipit import Trace
    from harness.otf2mem import Archive, mounted
    import otf2
    def archive(times, picks):
        ar = Archive()
        regs = [ar.region("main"), ar.region("work")]
        for l in range(locs):
            place = ar.location(l // 2, l)
            open_ = []
            for i in range(n):
                k = picks[l][i]
                if k == "leave" and open_:
                    ar.streams[place].append(otf2.events.Leave(times[l][i], open_.pop()))
                elif k == "leave" or k == "other":
                    ar.streams[place].append(otf2.events.OmpTaskCreate(times[l][i], 3))
                else:
                    open_.append(regs[k])
                    ar.streams[place].append(otf2.events.Enter(times[l][i], regs[k]))
        return ar
    times, picks = [], []
    for l in range(locs):
        t, ts = 0, []
        for i in range(n):
            t = t + ctx.int("dt%d.%d" % (l, i), 0, 2 ** 40)
            ts.append(t)
        times.append(ts)
        picks.append([ctx.choice("k%d.%d" % (l, i), [0, 1, "leave"] + (["other"] if locs == 1 else [])) for i in range(n)])
    ar = archive(times, picks)
    def read(**kw):
        with mounted(ar), pools(ctx):
            return Trace.from_otf2("nowhere", num_processes=1, **kw)
    return read


def proj_(ctx, ask, n, pes):
    from pipit import Trace
    logs = []
    rigid = getattr(ctx, "rigid", False)
    codes = {"idle": 14, "end idle": 15, "pack": 16, "end pack": 17, "memory": 27}
    for pe in range(pes):
        t, lines = 0, []
        for i in range(n):
            t = t + ctx.int("dt%d.%d" % (pe, i), 0, 2 ** 40)
            k = [14, 16, 27, 17, 15, 18, 19, 15][i % 8] if rigid else codes[ctx.choice("k%d.%d" % (pe, i), list(codes))]
            lines.append([27, 4, t] if k == 27 else [k, t, pe])
        logs.append(lines + [[7, t]])
    def read(**kw):
        with tempdir() as d, pools(ctx):
            proj.write(ctx, d, logs)
            return Trace.from_projections(d, **kw)
    return read


def nsight_(ctx, ask, n, tids):
    from pipit import Trace
    iv = []
    if getattr(ctx, "rigid", False):
        # a call of many short ones, each with one in it
        t = ctx.int("first", 1, 9)
        for i in range(n):
            iv.append({"s": 10 * i + t, "e": 10 * i + t + 4, "tid": i % tids, "n": "foo"} if i % 2 else {"s": 10 * (i + 1) + t - 1, "e": 10 * (i + 1) + t + 6, "tid": (i + 1) % tids, "n": "bar"})
    for i in range(0 if iv else n):
        s, e = ctx.int("s%d" % i, 0, 2 ** 40), ctx.int("e%d" % i, 0, 2 ** 40)
        ctx.assume(s < e)
        tid = ctx.choice("tid%d" % i, list(range(tids)))
        for a in iv:
            if a["tid"] == tid:
                ctx.assume((e < a["s"]) | (a["e"] < s) | ((s < a["s"]) & (a["e"] < e)) | ((a["s"] < s) & (e < a["e"])))
        iv.append({"s": s, "e": e, "tid": tid, "n": ctx.choice("n%d" % i, ["foo", "bar"])})
    def read(**kw):
        txt = Texts(ctx)
        with tempdir() as d, csvs(ctx, txt):
            path = os.path.join(d, "report.csv")
            write_csv(path, ["Start (ns)", "End (ns)", "Duration (ns)", "PID", "TID", "Name"],
                      [[txt(x["s"]), txt(x["e"]), txt(x["e"] - x["s"]), "700", str(700 + x["tid"]), x["n"]] for x in iv])
            return Trace.from_nsight(path, **kw)
    return read


READERS = {"otf2": otf2_, "projections": proj_, "nsight": nsight_}


def run(ctx, fmt, **kw):
    ask = ctx.choice("default", [True, False])
    read = READERS[fmt](ctx, ask, **kw)
    plain = read() if ask else read(create_cct=False)
    compare(ctx, plain, read(create_cct=True), ask)


def run_long(ctx, fmt, lengths, **kw):
    n = ctx.choice("length", lengths)
    run(Rigid(ctx, (3, "first"), ctx.choice("salt", [0, 1])), fmt, n=n, **kw)


def configs(tier):
    q = tier == "quick"
    c = ["nested", "shared node"]
    return [
        Config("otf2", run, dict(fmt="otf2", n=3 if q else 5, locs=1), c, "one location, %d events" % (3 if q else 5)),
        Config("otf2 locations", run, dict(fmt="otf2", n=2 if q else 3, locs=2), c + ["several locations"], "two locations"),
        Config("projections", run, dict(fmt="projections", n=3 if q else 4, pes=1), ["nested"], "one processor, %d records" % (3 if q else 4)),
        Config("projections processors", run, dict(fmt="projections", n=1 if q else 2, pes=2), ["several locations", "shared node"], "two processors"),
        Config("nsight", run, dict(fmt="nsight", n=3 if q else 4, tids=1), c, "%d intervals of a thread" % (3 if q else 4)),
        Config("long", run_long, dict(fmt="otf2", lengths=[300, 4200] if q else [300, 4200, 20000], locs=1), c, "one location, up to 4200 (thorough: 20000) events, one symbolic time"),
        Config("long logs", run_long, dict(fmt="projections", lengths=[300, 4200] if q else [300, 4200, 20000], pes=1), ["nested"], "logs of up to 4200 (thorough: 20000) records"),
        Config("long reports", run_long, dict(fmt="nsight", lengths=[300, 2100] if q else [300, 2100, 8000], tids=2), ["nested"], "reports of up to 2100 (thorough: 8000) intervals"),
        Config("nsight threads", run, dict(fmt="nsight", n=2 if q else 3, tids=2), ["nested", "several locations"], "intervals of two threads"),
    ]
