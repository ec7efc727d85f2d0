"""C18: Projections records."""
from harness.common import Config, Rigid, isnull
from harness import proj
from harness.readers import pools, tempdir, stable_sorted, equal

FUNCTIONS = ["pipit.readers.projections_reader.ProjectionsReader (__init__, read, _read_log_file)", "pipit.readers.projections_reader.STSReader",
             "pipit.readers.projections_reader._add_to_trace_dict", "pipit.trace.Trace.from_projections"]
STUBS = ["log files are really written and read; numeric fields are placeholders that int()/float() inside pipit turn into symbolic numbers",
         "the worker pool runs in-process (real pool in the final replay)"]
ASSUMPTIONS = ["logs have no blank lines, times do not decrease within a log", "a log without END_COMPUTATION does not end with USER_SUPPLIED (which has no time)",
               "attributes of END_PROCESSING rows are not specified", "names of entries are the entry names without their chare (as the existing test requires)"]


def read_back(ctx, logs, papi, workers=None, cct=False):
    from pipit import Trace
    with tempdir() as d, pools(ctx):
        proj.write(ctx, d, logs, papi)
        return Trace.from_projections(d) if workers is None else Trace.from_projections(d, num_processes=workers)


def compare(ctx, ev, expected):
    """expected: [(pe, event)] already in the order of the trace"""
    ctx.check(len(ev) == len(expected), "number of events", lambda: (expected, len(ev)))
    cols = {c: list(ev[c]) for c in ("Name", "Event Type", "Timestamp (ns)", "Process", "Attributes")}
    for i, (pe, (name, kind, t, attrs)) in enumerate(expected[:len(ev)]):
        d = lambda: (expected, {c: cols[c][i] for c in cols})  # noqa: E731
        ctx.check(cols["Name"][i] == name, "name of event %d" % i, d)
        ctx.check(cols["Event Type"][i] == kind, "kind of event %d" % i, d)
        ctx.check(ctx.eq(cols["Timestamp (ns)"][i], t), "time of event %d" % i, d)
        ctx.check(cols["Process"][i] == pe, "process of event %d" % i, d)
        got = cols["Attributes"][i]
        if attrs is None:
            ctx.check(isnull(got), "attributes of event %d" % i, d)
        elif attrs is not proj.ANY:
            ctx.check(isinstance(got, dict) and equal(ctx, got, attrs), "attributes of event %d" % i, d)


def run(ctx, n, kinds, papi=(0,), end=True, fixed=False, pes=1):
    p = ctx.choice("papi", papi)
    ctx.hash_keys = sorted(set(proj.ENTRIES) | set(proj.EVENTS) | set(proj.STATS))
    logs, events = [], []
    for pe in range(pes):
        ks = [ctx.choice("k%d.%d" % (pe, i), kinds) for i in range(n)]
        if end:
            ks.append("END_COMPUTATION")
        elif ks and ks[-1] == "USER_SUPPLIED":
            ctx.assume(False)
        lines, ev = proj.log_events(ctx, "r%d." % pe, ks, p, fixed)
        if ev and not end and ev[-1][0] == "Computation" and ev[-1][3] is None and ks[-1] not in ("BEGIN_COMPUTATION", "END_COMPUTATION"):
            ctx.cover("closing Leave added")
        logs.append(lines)
        events += [(pe, e) for e in ev]
        for k in ks:
            ctx.cover(k)
    if not events:
        ctx.assume(False)
    t = read_back(ctx, logs, p)
    want = stable_sorted(events, key=lambda x: x[1][2])
    if pes == 1:
        compare(ctx, t.events, want)
    else:
        ev = t.events
        ctx.check(len(ev) == len(want), "number of events")
        for pe in range(pes):
            compare(ctx, ev[ev["Process"] == pe], [w for w in want if w[0] == pe])


def run_long(ctx, lengths, ends, papi=(0,), free=(3, 40), pes=1):
    """logs of realistic length, records of every kind"""
    r = Rigid(ctx, free, ctx.choice("salt", [0, 1]))
    ctx.late = r.salt == 1
    n, end, p = ctx.choice("length", lengths), ctx.choice("end", ends), ctx.choice("papi", papi)
    ctx.hash_keys = sorted(set(proj.ENTRIES) | set(proj.EVENTS) | set(proj.STATS))
    kinds = [k for k in proj.RECORDS if k != "USER_SUPPLIED"]
    logs, want = [], []
    for pe in range(pes):
        lines, ev = proj.log_events(r, "r%d." % pe, [r.choice("k%d.%d" % (pe, i), kinds) for i in range(n - 1)] + [end], p)
        logs.append(lines)
        want += [(pe, e) for e in ev]
    t = read_back(ctx, logs, p)
    if pes == 1:
        compare(ctx, t.events, stable_sorted(want, key=lambda x: x[1][2]))
    for pe in range(pes if pes > 1 else 0):
        compare(ctx, t.events[t.events["Process"] == pe], stable_sorted([w for w in want if w[0] == pe], key=lambda x: x[1][2]))
    ctx.cover(end)


def configs(tier):
    q = tier == "quick"
    ks = list(proj.RECORDS)
    return [
        Config("each", run, dict(n=1, kinds=ks, papi=(0, 2)), ks, "every record kind, all fields symbolic, with and without performance counters"),
        Config("alone", run, dict(n=1, kinds=[k for k in ks if k not in ("UNSUPPORTED",)], end=False), ["closing Leave added"], "logs that consist of a single record"),
        Config("pairs", run, dict(n=2, kinds=ks, end=False, fixed=True), ks + ["closing Leave added"], "every sequence of two records"),
        Config("sequences", run, dict(n=3 if q else 4, kinds=["BEGIN_PROCESSING", "END_IDLE", "USER_EVENT", "BRACKETED_NOTE", "UNSUPPORTED", "BEGIN_COMPUTATION"], end=False, fixed=True), ["closing Leave added"],
               "every sequence of %d of six kinds" % (3 if q else 4)),
        Config("processors", run, dict(n=1 if q else 2, kinds=["CREATION", "BEGIN_PROCESSING", "END_PROCESSING", "NOTE", "UNSUPPORTED", "USER_STAT"], end=False, fixed=True, pes=2), ["closing Leave added"],
               "two processors"),
        Config("long", run_long, dict(lengths=[64, 1024, 4200] if q else [16, 17, 32, 64, 65, 128, 256, 300, 512, 1000, 1024, 4096, 20000], ends=["END_COMPUTATION", "NOTE", "BEGIN_PROCESSING"], papi=(0, 12)), ["NOTE"],
               "logs of 64 to 4200 (thorough: 20000) records of all kinds; two symbolic fields"),
        Config("many processors", run_long, dict(lengths=[12], ends=["BEGIN_PROCESSING"], papi=(1,), pes=13 if q else 120), ["BEGIN_PROCESSING"], "13 (thorough: 120) processors"),
    ]
