"""C26: order of the events readers return."""
from harness.common import Config
from harness import hpct, proj
from harness.hpct import Ctx, Entry, Db
from harness.readers import Texts, pools, tempdir

FUNCTIONS = ["pipit.readers.otf2_reader.OTF2Reader.read_events", "pipit.readers.projections_reader.ProjectionsReader.read", "pipit.readers.hpctoolkit_reader.HPCToolkitReader.read",
             "pipit.trace.Trace.from_otf2 / from_projections / from_hpctoolkit"]
STUBS = ["archives and logs as in C18, C20, C22", "sort_values of symbolic times runs numpy's own sort on the ranks of the times, so an unstable sort shows as such"]
ASSUMPTIONS = ["events of a location are recorded in non-decreasing time order"]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401


def check(ctx, ev, marks, want):
    """marks: the identity of each row; want: location -> [(mark, time)] in recording order"""
    t = list(ev["Timestamp (ns)"])
    for a, b in zip(t, t[1:]):
        ctx.check(a <= b, "times do not decrease", lambda: t)
    ctx.check(len(marks) == sum(len(w) for w in want.values()), "no event lost or duplicated", lambda: (marks, want))
    for l, w in want.items():
        got = [(m, x) for m, x in zip(marks, t) if m[0] == l]
        ctx.check([m for m, _ in got] == [m for m, _ in w], "recording order of a location's events", lambda: (got, w))
        for (m, x), (_, y) in zip(got, w):
            ctx.check(ctx.eq(x, y), "time of an event", lambda: (m, x, y))


def steps(ctx, locs, per, gap):
    out = []
    for l in range(locs):
        t = 0
        ts = []
        for i in range(per):
            t = t + ctx.int("dt%d.%d" % (l, i), 0, gap)
            ts.append(t)
        out.append(ts)
    return out


def blocks(ctx, locs, per):
    """many events at few (symbolic) times"""
    out = []
    for l in range(locs):
        a = ctx.int("a%d" % l, 0, 9)
        out.append([a] * (per // 2) + [a + ctx.int("b%d" % l, 0, 1)] * (per - per // 2))
    return out


def otf2_(ctx, times, workers):
    from pipit import Trace
    from harness.otf2mem import Archive, mounted
    import otf2
    ar = Archive()
    want = {}
    for l, ts in enumerate(times):
        loc = ar.location(l // 2, l)
        want[l] = []
        for i, t in enumerate(ts):
            ar.streams[loc].append(otf2.events.OmpTaskCreate(t, 100 * l + i))
            want[l].append(((l, i), t))
    with mounted(ar), pools(ctx):
        ev = Trace.from_otf2("nowhere", num_processes=workers).events
    ids = [a["task_id"] for a in ev["Attributes"]]
    return ev, [(x // 100, x % 100) for x in ids], want


def proj_(ctx, times, workers):
    from pipit import Trace
    want, logs = {}, []
    for l, ts in enumerate(times):
        want[l], lines = [], []
        for i, t in enumerate(ts):
            if i < len(ts) - 1:
                lines.append([27, 100 * l + i, t])
            else:
                lines.append([7, t])  # ends with Computation
            want[l].append(((l, i), t * 1000))
        logs.append(lines)
    with tempdir() as d, pools(ctx):
        proj.write(ctx, d, logs, txt=Texts(ctx))
        ev = Trace.from_projections(d, num_processes=workers).events
    marks = []
    for n, p, a in zip(ev["Name"], ev["Process"], ev["Attributes"]):
        marks.append((p, len(times[p]) - 1) if n == "Computation" else (a["Memory Usage"] // 100, a["Memory Usage"] % 100))
    return ev, marks, want


def otf2_calls(ctx, times, workers):
    """calls of one region; rows are told apart by place, kind and name only"""
    from pipit import Trace
    from harness.otf2mem import Archive, mounted
    import otf2
    ar = Archive()
    want, r = {}, [ar.region("foo"), ar.region("ba")]
    for l, ts in enumerate(times):
        loc = ar.location(l // 2, l)
        want[l] = []
        for i, t in enumerate(ts):
            k, x = [("Enter", 0), ("Enter", 1), ("Leave", 1), ("Enter", 1), ("Leave", 1), ("Leave", 0)][(i + l) % 6]
            ar.streams[loc].append(getattr(otf2.events, k)(t, r[x]))
            want[l].append(((l, (k, r[x].name)), t))
    with mounted(ar), pools(ctx):
        ev = Trace.from_otf2("nowhere", num_processes=workers).events
    th = list(ev["Thread"]) if "Thread" in ev.columns else [0] * len(ev)
    return ev, list(zip([2 * p + x for p, x in zip(ev["Process"], th)], zip(ev["Event Type"], ev["Name"]))), want


def proj_kinds(ctx, times, workers):
    """records of many kinds, told apart by place, kind and name only"""
    from pipit import Trace
    want, logs = {}, []
    line = [lambda t: [14, t, 0], lambda t: [16, t, 0], lambda t: [17, t, 0], lambda t: [15, t, 0], lambda t: [27, 5, t], lambda t: [14, t, 0], lambda t: [15, t, 0], lambda t: [4, 1, t, 2, 0],
            lambda t: [2, 1, 0, t, 3, 0, 8, 1, 1], lambda t: [3, 1, 0, t, 3, 0, 8, 1], lambda t: [8, t, 1, 0], lambda t: [9, t, 1, 0], lambda t: [18, t, 0], lambda t: [19, t, 0]]
    names = [("Enter", "Idle"), ("Enter", "Pack"), ("Leave", "Pack"), ("Leave", "Idle"), ("Instant", "Memory Usage"), ("Enter", "Idle"), ("Leave", "Idle"), ("Instant", "Enque"),
             ("Enter", "dummy"), ("Leave", "dummy"), ("Enter", "Interrupt"), ("Leave", "Interrupt"), ("Enter", "Unpack"), ("Leave", "Unpack")]
    for l, ts in enumerate(times):
        want[l], lines = [], []
        for i, t in enumerate(ts):
            j = (i + 2 * l) % 14
            last = i == len(ts) - 1
            lines.append([7, t] if last else line[j](t))
            want[l].append(((l, ("Leave", "Computation") if last else names[j]), t * 1000))
        logs.append(lines)
    with tempdir() as d, pools(ctx):
        proj.write(ctx, d, logs, txt=Texts(ctx))
        ev = Trace.from_projections(d, num_processes=workers).events
    return ev, list(zip(ev["Process"], zip(ev["Event Type"], ev["Name"]))), want


def hpc_loops(ctx, times, workers):
    return hpc_(ctx, times, workers, [Entry(1, "main thread", [Ctx(7, func=0, children=[Ctx(9, "loop", src=(0, 4), children=[Ctx(2, func=0)])])]), Entry(3, "other", [Ctx(4, "loop", src=(0, 5))])])


def hpc_(ctx, times, workers, entries=None):
    """every sample ends one call and starts another"""
    entries = entries or [Entry(1, "main thread", [Ctx(2, func=0)]), Entry(3, "other", [Ctx(4, func=0)])]
    lines, want, hi = [], {}, 0
    for l, ts in enumerate(times):
        lines.append((1 + l, [(t, 2 + 2 * (i % 2)) for i, t in enumerate(ts)]))
        if ts and hi < ts[-1]:
            hi = ts[-1]
    db = Db(entries, [("main", 0, 0, 0, 10)], ["a.c"], ["exe"], tuples=[((2, 5), (3, l)) for l in range(len(times))], profiles=[None] + list(range(len(times))), traces=lines, tmin=0, tmax=hi)
    for l, (_, ss) in enumerate(lines):
        want[l] = [((l, (kind, c.id)), t) for t, kind, c in hpct.replay(db, ss)]
    ev = hpct.read(ctx, db).events
    return ev, list(zip(ev["Thread"], zip(ev["Event Type"], ev["Calling Context ID"]))), want


READERS = {"otf2": otf2_, "otf2 calls": otf2_calls, "projections": proj_, "projections kinds": proj_kinds, "hpctoolkit": hpc_, "hpctoolkit loops": hpc_loops}


def run(ctx, fmt, locs, per, shape="steps", workers=(1,), gap=2 ** 40):
    times = steps(ctx, locs, per, gap) if shape == "steps" else blocks(ctx, locs, per)
    w = ctx.choice("workers", workers)
    ev, marks, want = READERS[fmt](ctx, times, w)
    check(ctx, ev, marks, want)
    t = [x for l in times for x in l]
    if any(bool(a == b) for a, b in zip(t, t[1:])):
        ctx.cover("ties")


def configs(tier):
    q = tier == "quick"
    out = []
    for f in READERS:
        many = (1, 2) if not f.startswith("hpctoolkit") else (1,)
        out.append(Config(f, run, dict(fmt=f, locs=2, per=(2 if f.startswith("hpctoolkit") else 3) if q else 4, workers=many), ["ties"], f + ": two locations, any times"))
        out.append(Config(f + " ties", run, dict(fmt=f, locs=2, per=20, shape="blocks", workers=many), ["ties"], f + ": two locations with 20 events at two times each"))
    out.append(Config("otf2 threads", run, dict(fmt="otf2", locs=3, per=2, workers=(1, 2, 3) if not q else (2,)), ["ties"], "three locations"))
    out.append(Config("projections processors", run, dict(fmt="projections", locs=3, per=2, workers=(2,)), ["ties"], "three processors"))
    out.append(Config("long", run, dict(fmt="otf2", locs=1, per=40 if q else 90, shape="blocks"), [], "one location with many simultaneous events"))
    return out
