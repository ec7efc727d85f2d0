"""C22: OTF2 events."""
import inspect
from harness.common import Config, Rigid, isnull
from harness.readers import pools, equal

FUNCTIONS = ["pipit.readers.otf2_reader.OTF2Reader (__init__, read, read_definitions, read_events, events_reader, handle_data, field_to_val)", "pipit.trace.Trace.from_otf2"]
STUBS = ["otf2.reader.open returns an archive held in memory, made of the otf2 package's own definition registry and event objects; per location the events are in recording order, locations are merged by time as the library does",
         "the worker pool runs in-process (real pool in the final replay)"]
ASSUMPTIONS = ["every definition an event refers to is in the archive", "at least one CPU location", "events of a location are in non-decreasing time order"]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401


def classes():
    import otf2.events as E
    return [n for n, c in vars(E).items() if isinstance(c, type) and issubclass(c, E._Event) and n not in ("_Event", "Metric") and not n.startswith("Parameter")] + [
        "ParameterInt", "ParameterString", "ParameterUnsignedInt"]


def event(ctx, ar, kind, time, prefix, region=None, attrs=None):
    """an event of the given class, every field symbolic where it is a number"""
    import otf2
    from otf2.enums import ParameterType, MeasurementMode, CollectiveOp
    cls = getattr(otf2.events, kind)
    args = []
    for f in list(inspect.signature(cls.__init__).parameters)[2:]:
        if f == "attributes":
            args.append(attrs)
        elif f == "region":
            args.append(region or ar.region("foo"))
        elif f == "measurement_mode":
            args.append(MeasurementMode.OFF)
        elif f == "collective_op":
            args.append(CollectiveOp.ALLREDUCE)
        elif f == "root":
            args.append(ctx.choice(prefix + f, [None, 0]))
        elif f == "parameter":
            args.append(ar.reg.parameter("par " + kind, parameter_type={"ParameterInt": ParameterType.INT64, "ParameterString": ParameterType.STRING, "ParameterUnsignedInt": ParameterType.UINT64}[kind]))
        elif f in ("string", "program_name"):
            args.append(ctx.choice(prefix + f, ["", "otf2.definitions", "a b"]))
        elif f == "program_arguments":
            args.append(ctx.choice(prefix + f, [[], ["-x", "1"]]))
        elif f == "calling_context":
            scl = ar.reg.source_code_location("f.c", 3)
            args.append(ar.reg.calling_context(ar.region("foo"), scl, None))
        elif f == "value":
            args.append(0)
        elif f == "communicator":
            g = ar.reg.group("ranks", group_type=otf2.enums.GroupType.COMM_LOCATIONS, members=[])
            args.append(ar.reg.comm("world", g))
        else:
            args.append(ctx.int(prefix + f, 0, 2 ** 40))
    e = cls(time, *args)
    if "value" in vars(e):
        e.value = ctx.int(prefix + "value", 0, 2 ** 40)
    return e


def read(ctx, ar, workers=None, cpus=None):
    from pipit import Trace
    from harness.otf2mem import mounted
    with mounted(ar), pools(ctx, cpus):
        return Trace.from_otf2("nowhere") if workers is None else Trace.from_otf2("nowhere", num_processes=workers)


def compare(ctx, ar, ev, what="", skip=()):
    """events of every location against the archive, location by location"""
    from harness.otf2mem import expected
    import otf2
    seen = 0
    cols = {c: list(ev[c]) for c in ("Name", "Event Type", "Timestamp (ns)", "Process", "Thread", "Attributes") if c not in skip}
    for loc, events in ar.streams.items():
        if str(loc.type) != "LocationType.CPU_THREAD":
            continue
        want = [expected(ar, loc, e) for e in events if not isinstance(e, otf2.events.Metric)]
        if want:
            p, th = want[0]["Process"], want[0]["Thread"]
            ixs = [i for i in range(len(ev)) if cols["Process"][i] == p and cols["Thread"][i] == th]
        else:
            ixs = []
        ctx.check(len(ixs) == len(want), what + "number of rows of a location", lambda: (loc, want, cols))
        seen += len(ixs)
        for i, w in zip(ixs, want):
            for c in cols:
                got = cols[c][i]
                if c == "Attributes" and w[c] is None:
                    ok = isnull(got)
                elif c == "Attributes":
                    ok = isinstance(got, dict) and equal(ctx, got, w[c])
                elif c in ("Name", "Event Type"):
                    ok = got == w[c]
                else:
                    ok = ctx.eq(got, w[c])
                ctx.check(ok, what + c + " of an event", lambda: (w, {c: cols[c][i] for c in cols}))
    ctx.check(seen == len(ev), what + "rows of unknown locations", lambda: cols)


def run_kinds(ctx, n, kinds, attrs=False, same=False):
    from harness.otf2mem import Archive
    ar = Archive(offset=ctx.int("offset", 0, 2 ** 40))
    loc = ar.location(0, 0)
    t = ar.reg.clock_properties._global_offset
    for i in range(n):
        dt = ctx.int("dt%d" % i, 0, 2 ** 40)
        t = t + dt
        kind = ctx.choice("k%d" % i, kinds) if not same or i == 0 else kind  # noqa: F821
        extra = None
        if attrs:
            a = [ar.reg.attribute("a%d" % j) for j in range(3)]
            extra = ctx.choice("attrs%d" % i, ["none", "empty", "some"])
            extra = {"none": None, "empty": {}, "some": {a[2]: ctx.int("av%d" % i, 0, 2 ** 30), a[0]: "text", a[1]: loc}}[extra]
        ar.streams[loc].append(event(ctx, ar, kind, t, "f%d." % i, attrs=extra))
        ctx.cover(kind)
    compare(ctx, ar, read(ctx, ar).events)


# (process, location, kind)
LAYOUTS = [
    [(0, 0, "CPU_THREAD"), (1, 1, "CPU_THREAD")],
    [(0, 0, "CPU_THREAD"), (0, 1, "CPU_THREAD"), (1, 2, "CPU_THREAD")],
    [(1, 0, "CPU_THREAD"), (0, 1, "CPU_THREAD"), (1, 2, "CPU_THREAD")],
    [(3, 12, "CPU_THREAD"), (7, 5, "CPU_THREAD"), (3, 10, "CPU_THREAD")],
    [(0, 0, "CPU_THREAD"), (0, 3, "GPU"), (1, 4, "CPU_THREAD")],
    [(2, 9, "CPU_THREAD")],
    [(0, 0, "GPU"), (0, 3, "CPU_THREAD"), (1, 4, "METRIC"), (1, 5, "CPU_THREAD"), (1, 7, "CPU_THREAD")],
]


def run_places(ctx, layouts, per, gap=2 ** 40):
    from harness.otf2mem import Archive
    ar = Archive()
    regs = [ar.region("foo"), ar.region("bar", 4)]
    for j, (p, ref, kind) in enumerate(LAYOUTS[ctx.choice("layout", layouts)]):
        loc = ar.location(p, ref, kind)
        t = 0
        for i in range(per):
            t = t + ctx.int("dt%d.%d" % (j, i), 0, gap)
            ar.streams[loc].append(event(ctx, ar, ["Enter", "ThreadTeamBegin", "Leave"][(i + j) % 3] if per > 1 else "Enter", t, "f%d.%d." % (j, i), region=regs[j % 2]))
        if kind != "CPU_THREAD":
            ctx.cover("other location")
    compare(ctx, ar, read(ctx, ar).events)


def run_clock(ctx, resolutions):
    from harness.otf2mem import Archive
    res = ctx.choice("resolution", resolutions)
    off = ctx.int("offset", 0, 2 ** 50)
    ar = Archive(res, off)
    loc = ar.location(0, 0)
    t = ctx.int("t", 0, 2 ** 51)
    ar.streams[loc] = [event(ctx, ar, k, t, k) for k in ("Enter", "Leave")]
    compare(ctx, ar, read(ctx, ar).events)
    ctx.cover("ns" if res == 10 ** 9 else "other")


def run_names(ctx, names, n):
    from harness.otf2mem import Archive
    ar = Archive()
    locs = [ar.location(0, 0), ar.location(1, 1)]
    regs = [ar.region(n, 10 * i) for i, n in enumerate(names)]
    t = 0
    for i in range(n):
        t = t + ctx.int("dt%d" % i, 0, 9)
        loc = ctx.choice("l%d" % i, [0, 1])
        r = ctx.choice("r%d" % i, list(range(len(names))))
        ar.streams[locs[loc]].append(event(ctx, ar, ctx.choice("k%d" % i, ["Enter", "Leave"]), t, "f%d." % i, region=regs[r]))
    compare(ctx, ar, read(ctx, ar).events)


def run_long(ctx, lengths, layouts):
    """many events of every class"""
    from harness.otf2mem import Archive
    n = ctx.choice("length", lengths)
    r = Rigid(ctx, ("dt1.%d" % (n - 4),), ctx.choice("salt", [0, 1]))
    ar, ks = Archive(), classes()
    regs = [ar.region("function %d" % i) for i in range(300)]
    for j, (p, ref, kind) in enumerate(LAYOUTS[ctx.choice("layout", layouts)]):
        loc, t = ar.location(p, ref, kind), 0
        for i in range(n):
            t = t + r.int("dt%d.%d" % (j, i), 0, 2 ** 20)
            x = r.choice("a%d.%d" % (j, i), [None, {}, 1])
            ar.streams[loc].append(event(r, ar, r.choice("k%d.%d" % (j, i), ks + ["Enter", "Leave"] * 20), t, "f%d.%d." % (j, i), region=regs[i * 7 % 300], attrs={ar.reg.attribute("a"): "v%d" % i} if x == 1 else x))
    compare(ctx, ar, read(ctx, ar).events)


def run_crowd(ctx, sizes):
    """many locations"""
    from harness.otf2mem import Archive
    n, procs = ctx.choice("size", sizes)
    r = Rigid(ctx, ("t%d" % (n - 5),), ctx.choice("salt", [0, 1]))
    ar, reg = Archive(), None
    for j in range(n):
        loc = ar.location(j % procs, j * 3)
        reg = ar.region("f%d" % j)
        for k in ("Enter", "Leave"):
            ar.streams[loc].append(event(r, ar, k, r.int("t%d" % j, 0, 50) if k == "Enter" else 60, "%s%d" % (k, j), region=reg))
    compare(ctx, ar, read(ctx, ar, 1).events)


def configs(tier):
    q = tier == "quick"
    ks = classes()
    return [
        Config("kinds", run_kinds, dict(n=1, kinds=ks, attrs=True), ks, "every event class of the otf2 package (all numeric fields symbolic, optional fields absent or present), with and without attached attributes"),
        Config("pairs", run_kinds, dict(n=2 if q else 3, kinds=["Enter", "Leave", "MpiSend", "MpiCollectiveEnd", "OmpJoin", "ProgramBegin"]), ["Enter", "Leave"], "sequences of two (thorough: three) events"),
        Config("repeated", run_kinds, dict(n=2 if q else 3, kinds=ks, same=True), ks, "two (thorough: three) events of the same class, every class"),
        Config("places", run_places, dict(layouts=list(range(len(LAYOUTS))), per=2 if q else 3), ["other location"], "locations with unusual numbers, shared processes and non-CPU locations"),
        Config("clock", run_clock, dict(resolutions=[10 ** 9, 10 ** 6, 3 * 10 ** 9, 10 ** 12, 1, 999999937]), ["ns", "other"], "timer resolutions and offsets"),
        Config("long", run_long, dict(lengths=[64, 400] if q else [32, 64, 100, 256, 400, 1000, 4096], layouts=[3] if q else list(range(len(LAYOUTS)))), [], "several locations of 64 to 400 (thorough: 4096) events each, of every class"),
        Config("crowd", run_crowd, dict(sizes=[(300, 1), (300, 2), (300, 300)] if q else [(300, 1), (300, 2), (300, 300), (600, 2), (1000, 500)]), [], "300 (thorough: 1000) locations on one to 300 (500) processes"),
        Config("names", run_names, dict(names=["foo", "bar", "Enter"] if q else ["foo", "bar", "Enter", "foo"], n=2 if q else 3), [], "regions with equal and odd names"),
    ]
