"""C19: parallel reading."""
from harness.common import Config
from harness import proj
from harness.readers import FakePool, pools, tempdir, stable_sorted

FUNCTIONS = ["pipit.readers.projections_reader.ProjectionsReader (__init__, read, _read_log_file)", "pipit.readers.otf2_reader.OTF2Reader (__init__, read, read_events, events_reader)",
             "pipit.trace.Trace.from_projections", "pipit.trace.Trace.from_otf2"]
STUBS = ["the worker pool runs its tasks in-process and records its size (real pool in the final replay)", "the number of CPUs is a symbolic number", "OTF2 archives as in C22, Projections logs as in C18"]
ASSUMPTIONS = ["at least one processor/location", "one or two events per location (what a worker reads of one location is C18, C22, C23)"]
TIMES = [5, 0, 5, 3, 5, 9, 3, 0, 7, 5, 1, 5]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401
    import pipit.readers.projections_reader  # noqa: F401


def projections(ctx, n, workers, cpus):
    from pipit import Trace
    logs, want = [], []
    for pe in range(n):
        t = TIMES[pe % 12]
        lines = [[14, t, pe], [15, t, pe], [6, 9]]
        logs.append(lines)
        want += [(t * 1000, pe, 0, "Enter", "Idle"), (t * 1000, pe, 0, "Leave", "Idle"), (9000, pe, 0, "Enter", "Computation")]
    with tempdir() as d, pools(ctx, cpus):
        proj.write(ctx, d, logs)
        t = Trace.from_projections(d, **workers)
    return t.events, want


def otf2_(ctx, n, workers, cpus):
    from pipit import Trace
    from harness.otf2mem import Archive, mounted
    import otf2
    ar = Archive()
    f = ar.region("foo")
    want = []
    for i in range(n):
        p, ref = i // 2, 3 * i + 1
        loc = ar.location(p, ref)
        for k in ("Enter", "Leave"):
            ar.streams[loc].append(getattr(otf2.events, k)(TIMES[i % 12], f))
            want.append((TIMES[i % 12], p, 3 * (i % 2), k, "foo"))
    with mounted(ar), pools(ctx, cpus):
        t = Trace.from_otf2("nowhere", **workers)
    return t.events, want


def run(ctx, fmt, counts, default=(False,), few=None):
    n = ctx.choice("locations", counts)
    cpus = ctx.int("cpus", 1, 4096) if few is None else 64
    if few is not None:
        req = ctx.choice("workers", few)
        workers = {"num_processes": req}
    elif ctx.choice("default", default):
        req, workers = None, {}
    else:
        req = ctx.int("workers", -2 ** 31, 2 ** 31)
        workers = {"num_processes": req}
    ev, want = (projections if fmt == "projections" else otf2_)(ctx, n, workers, cpus)
    sizes = list(FakePool.sizes)
    want = stable_sorted(want, key=lambda w: w[0])
    cols = [list(ev[c]) if c in ev.columns else [0] * len(ev) for c in ("Timestamp (ns)", "Process", "Thread", "Event Type", "Name")]
    got = [tuple(x[i] for x in cols) for i in range(len(ev))]
    ctx.check(sorted(map(str, got)) == sorted(map(str, [(float(w[0]) if fmt == "otf2" else w[0],) + w[1:] for w in want])), "every location is read exactly once", lambda: (got, want))
    ctx.check(all(g == w for g, w in zip(got, want)), "the order of the events does not depend on the workers", lambda: (got, want))
    use = cpus if req is None or req < 1 or req > cpus else req
    ctx.cover("all CPUs" if use is cpus else "as requested")
    if use > n:
        use = n
        ctx.cover("one worker per location")
    if not getattr(ctx, "real_env", False):
        if not (use == 1 and not sizes):
            ctx.check(len(sizes) == 1 and bool(ctx.eq(sizes[0], use)), "number of workers", lambda: (n, req, cpus, sizes, use))


def configs(tier):
    q = tier == "quick"
    cov = ["all CPUs", "as requested", "one worker per location"]
    counts = list(range(1, 9 if q else 13))
    return [
        Config("projections", run, dict(fmt="projections", counts=counts, default=(False, True)), cov, "Projections, any requested number of workers and CPUs"),
        Config("otf2", run, dict(fmt="otf2", counts=counts, default=(False, True)), cov, "OTF2, any requested number of workers and CPUs"),
    ] + [Config(f + " many", run, dict(fmt=f, counts=[13, 17, 40] if q else [13, 16, 17, 25, 32, 33, 40, 65, 100, 129], few=[1, 2, 3, 7] if q else [1, 2, 3, 5, 7, 12, 13, 31, 64]), ["as requested"], f + ", many locations per worker") for f in ("projections", "otf2")]
