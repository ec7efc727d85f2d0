"""C09: idle time."""
from harness.common import Config, rows_balanced, rows_flat, rows_huge, make_trace, match_oracle, inc_oracle, isnull, OTHER, NAMES

FUNCTIONS = ["pipit.trace.Trace.idle_time", "pipit.trace.Trace._calculate_idle_time_for_process", "pipit.trace.Trace.calc_inc_metrics",
             "pipit.trace.Trace._match_events"]
STUBS = []
ASSUMPTIONS = ["default RangeIndex"]
MPI = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]


def check(ctx, rows, res, funcs, mpi, step):
    m = match_oracle(ctx, rows)
    inc = inc_oracle(rows, m, "t")
    want = {}
    for i, r in enumerate(rows):
        want.setdefault(r["p"], 0)
        if r["k"] == "Enter" and not isnull(inc[i]) and (r["n"] in funcs or (mpi and r["n"] in MPI)):
            want[r["p"]] = want[r["p"]] + inc[i]
            ctx.cover("idle call")
    ctx.check(list(res.columns) == ["Process", "Idle Time"], "columns")
    procs = list(res["Process"])
    ctx.check(len(procs) == len(set(procs)) and set(procs) == set(want), "every process once (call %d)" % step, lambda: (rows, procs))
    for p, v in zip(procs, list(res["Idle Time"])):
        ctx.check(ctx.eq(v, want[p]), "idle time of process %s (call %d)" % (p, step), lambda: (rows, v, want[p]))


def run(ctx, gen, steps, asks, **kw):
    rows = {"flat": rows_flat, "bal": rows_balanced, "huge": rows_huge}[gen](ctx, **kw)
    t = make_trace(ctx, rows)
    shared = {}
    for s in range(steps):
        funcs, mpi, how = ctx.choice("ask%d" % s, asks)
        if how == "default":
            res = t.idle_time(mpi_events=mpi) if mpi else t.idle_time()
            check(ctx, rows, res, ["Idle"], mpi, s)
            continue
        lst = shared.setdefault(funcs, list(funcs))
        if how == "pos":
            res = t.idle_time(lst, mpi)
        elif how == "kw":
            res = t.idle_time(idle_functions=lst, mpi_events=mpi)
        ctx.check(lst == list(funcs), "caller's list unchanged (call %d)" % s, lambda: lst)
        check(ctx, rows, res, funcs, mpi, s)
        if s and mpi is False:
            ctx.cover("plain call after others")
    if len({r["p"] for r in rows}) > 1:
        ctx.cover("several processes")


ASKS = [(("Idle",), False, "default"), (("Idle",), True, "default"), (("Idle", "foo"), True, "kw"), (("Idle", "foo"), False, "pos"),
        ((), True, "pos"), ((), False, "kw"), (("MPI_Wait", "MPI_Wait", "Idle"), True, "kw")]


def configs(tier):
    q = tier == "quick"
    names = ["Idle", "MPI_Wait", "MPI_Waitall", "MPI_Recv", "foo"]
    return [
        Config("functions", run, dict(gen="flat", steps=1, asks=ASKS, calls=3 if q else 4, procs=2, proc_ids=[5, 3], name_list=names),
               ["idle call", "several processes"], "%d calls, each of Idle, MPI_Wait, MPI_Waitall, MPI_Recv or another function, 2 processes; every form of request" % (3 if q else 4)),
        Config("similar", run, dict(gen="flat", steps=1, asks=ASKS[:4] if q else ASKS, calls=2, procs=1, name_list=names + ["Idle thread", "idle", "MyIdle", "MPI_Waitsome", "mpi_recv", "xMPI_Wait", "MPI_Irecv", "fo"]),
               ["idle call"], "functions whose names resemble idle functions"),
        Config("history", run, dict(gen="flat", steps=2 if q else 3, asks=ASKS, calls=2, procs=2, name_list=["Idle", "MPI_Wait"]),
               ["idle call", "plain call after others"], "every sequence of %d requests; 2 calls" % (2 if q else 3)),
        Config("shapes", run, dict(gen="bal", steps=1, asks=[ASKS[0], ASKS[2]], n=3 if q else 5, procs=2, name_list=["Idle", "MPI_Recv", "foo"], stray=True, instant=True),
               ["idle call", "several processes"], "%d rows: nested idle calls, unfinished calls, unmatched Leaves" % (3 if q else 5)),
        Config("nested", run, dict(gen="bal", steps=1, asks=[ASKS[0], ASKS[2]], n=6 if q else 8, name_list=["Idle", "foo"], open_end=False),
               ["idle call"], "%d rows: nested and recursive idle calls on one process" % (6 if q else 8)),
        Config("other-kinds", run, dict(gen="bal", steps=1, asks=[ASKS[0], ASKS[2]], n=4 if q else 5, procs=2, name_list=["Idle"], instant=OTHER), ["idle call"], "%d rows some of which have other event types (%r)" % (4 if q else 5, OTHER)),
        Config("dtypes", run, dict(gen="flat", steps=1, asks=[ASKS[0], ASKS[2]], calls=2, procs=2, name_list=["Idle", "foo", "MPI_Wait"], dtypes=("plain", "unused")), ["idle call"], "columns not categorical, or with unused categories"),
        Config("quarters", run, dict(gen="flat", steps=1, asks=ASKS[:3], calls=2, procs=2, name_list=["Idle", "foo", "MPI_Wait"], clock="quarters"), ["idle call"], "2 calls; times are multiples of a quarter"),
        Config("signed", run, dict(gen="flat", steps=1, asks=ASKS[:3], calls=2, procs=2, name_list=["Idle", "foo", "MPI_Wait"], clock="signed"), ["idle call"], "2 calls; times may be negative"),
        Config("huge", run, dict(gen="huge", steps=1, asks=[((NAMES[2],), False, "kw")], many=33000 if q else 70000), ["idle call"], "an idle function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", steps=1, asks=[((NAMES[2],), False, "kw"), ((NAMES[0], NAMES[1]), True, "pos")], many=1, places=140), ["idle call", "several processes"], "140 processes"),
        Config("threads", run, dict(gen="bal", steps=1, asks=[ASKS[0], ASKS[2]], n=3 if q else 5, procs=2, threads=2, name_list=["Idle", "foo"]), ["idle call", "several processes"], "2 processes of 2 threads"),
        Config("team", run, dict(gen="huge", steps=1, asks=[((NAMES[2],), False, "kw")], many=1, places=140, threads=70), ["idle call", "several processes"], "2 processes of 70 threads"),
        Config("epoch", run, dict(gen="flat", steps=1, asks=ASKS[:3], calls=2, procs=2, name_list=["Idle", "foo"], clock="epoch"), ["idle call"], "times of about 2^60, within 2^50 of each other"),
        Config("grouped", run, dict(gen="flat", steps=1, asks=ASKS[:3], calls=2, procs=2, name_list=["Idle", "foo"], grouped=True), ["idle call"], "rows grouped by process instead of ordered by time"),
    ]
