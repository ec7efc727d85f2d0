"""C23: OTF2 metrics."""
from harness.common import Config, Rigid, isnull
from harness.c22 import event, read, compare, warm  # noqa: F401

FUNCTIONS = ["pipit.readers.otf2_reader.OTF2Reader (events_reader, read_definitions, read_events)", "pipit.trace.Trace.from_otf2"]
STUBS = ["as C22: archive held in memory, worker pool in-process"]
ASSUMPTIONS = ["one metric class; every metric record has one value per member", "a metric no record was made of may have no column", "metric names are distinct and differ from the trace's own columns"]


def archive(ctx, members, locs, extra=0, first=0, class_at=0):
    from harness.otf2mem import Archive
    from otf2.definitions import MetricClass
    ar = Archive()
    ar.region("foo")
    ar.region("bar")
    reg = ar.reg
    reg._metric_members._ref = first - 1
    before = [reg.metric_member("other %d" % i) for i in range(extra)]
    ms = [reg.metric_member("m%d" % i) for i in range(members)]
    if class_at:
        ms = ms[class_at:] + ms[:class_at]
    cls = reg._metrics.create(ms, _type=MetricClass)
    return ar, before, ms, cls, [ar.location(p, r) for p, r in locs]


def run(ctx, n, members, locs=((0, 0),), extra=(0,), first=(0,), workers=None, steps=("event", "metric", "pair"), kinds=("Enter", "Leave", "MpiSend"), order=(0,), names=None):
    import otf2
    k = ctx.choice("members", members)
    ar, others, ms, cls, ls = archive(ctx, k, locs, ctx.choice("extra", extra), ctx.choice("first", first), ctx.choice("order", order))
    want = {l: [] for l in ls}
    now = {l: 0 for l in ls}
    last = {l: None for l in ls}
    for i in range(n):
        l = ls[ctx.choice("l%d" % i, list(range(len(ls))))] if len(ls) > 1 else ls[0]
        step = ctx.choice("s%d" % i, steps)
        now[l] = now[l] + ctx.int("dt%d" % i, 0, 2 ** 30)
        if step != "event":
            vals = [ctx.int("v%d.%d" % (i, j), -2 ** 40, 2 ** 40) for j in range(k)]
            ar.streams[l].append(otf2.events.Metric(now[l], cls, vals))
            last[l] = (now[l], dict(zip([m.name for m in ms], vals)))
        if step != "metric":
            ar.streams[l].append(event(ctx, ar, ctx.choice("k%d" % i, kinds), now[l], "f%d." % i))
            if last[l] is not None and last[l][0] == now[l]:
                want[l].append(last[l][1])
                ctx.cover("metric on event")
            else:
                want[l].append(None)
                ctx.cover("event without metric")
                if last[l] is not None:
                    ctx.cover("metric without event")
            last[l] = None
    w = workers and ctx.choice("workers", workers)
    ev = read(ctx, ar, w, 4).events
    compare(ctx, ar, ev, skip=("Attributes",))
    shown = {}
    for m in ms:
        recorded = any(x is not None for l in ls for x in want[l])
        if m.name not in ev.columns:
            ctx.check(not recorded, "no column for a recorded metric", lambda: (want, list(ev.columns)))
            continue
        shown[m.name] = list(ev[m.name])
    ctx.check(not [c for c in ev.columns if str(c).startswith("other") and not all(isnull(x) for x in ev[c])], "column of a metric that is not in the class")
    proc, th = list(ev["Process"]), list(ev["Thread"])
    low = {p: min(l._ref for l in ls if l.group._ref == p) for p in {l.group._ref for l in ls}}
    for l in ls:
        ixs = [i for i in range(len(ev)) if proc[i] == l.group._ref and th[i] == l._ref - low[l.group._ref]]
        for i, w in zip(ixs, want[l]):
            for name, vals in shown.items():
                ctx.check(isnull(vals[i]) if w is None else (not isnull(vals[i]) and ctx.eq(vals[i], w[name])), "metric value of an event", lambda: (l, want, vals))
    ctx.cover("%d members" % k)


def run_long(ctx, lengths, members, locs, workers=(1, 2), **kw):
    """many metric records"""
    n = ctx.choice("length", lengths)
    run(Rigid(ctx, ("dt%d" % (n - 9), "v5.1"), ctx.choice("salt", [0, 1])), n, [ctx.choice("members", members)], locs, workers=[ctx.choice("workers", workers)], **kw)


def configs(tier):
    q = tier == "quick"
    return [
        Config("one", run, dict(n=3 if q else 4, members=[2], kinds=["Enter"]), ["metric on event", "event without metric", "metric without event"], "one location, records and events in any order"),
        Config("members", run, dict(n=2, members=[0, 1, 3, 12], extra=(0, 2), first=(0, 8), steps=("event", "pair"), kinds=("Leave",), order=(0, 1)), ["%d members" % i for i in (0, 1, 3, 12)],
               "any number of members, unused members, member numbers from 0 and across 9/10, members listed in another order"),
        Config("locations", run, dict(n=3 if q else 4, members=[1], locs=((0, 0), (1, 1)), workers=(1, 2), kinds=("Enter",)), ["metric on event"], "two locations, one or two workers"),
        Config("threads", run, dict(n=3 if q else 4, members=[2], locs=((0, 0), (0, 1)), workers=(1,), kinds=("Leave",), steps=("event", "pair") if q else ("event", "metric", "pair")), ["metric on event"], "two threads of a process read together"),
        Config("long", run_long, dict(lengths=[60, 500] if q else [30, 60, 130, 260, 500, 1000, 2100], members=[2, 13], locs=((0, 0), (0, 1), (1, 2))), ["metric on event"], "three locations, 60 to 500 (thorough: 2100) records and events"),
        Config("crowd", run_long, dict(lengths=[300] if q else [700, 2000], members=[2], locs=tuple((j % 3, j) for j in range(200)), workers=(1, 2), steps=("metric", "metric", "metric", "metric", "pair")), ["metric on event"], "200 locations, most with records no event belongs to"),
        Config("kinds", run, dict(n=2, members=[1], kinds=("Enter", "Leave", "MpiSend", "OmpFork")), ["metric on event"], "kinds of event"),
    ]
