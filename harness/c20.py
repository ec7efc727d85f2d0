"""C20: HPCToolkit samples."""
from harness.common import Config, Rigid, isnull
from harness import hpct
from harness.hpct import Ctx, Entry, Db

FUNCTIONS = ["pipit.readers.hpctoolkit_reader.TraceReader", "pipit.readers.hpctoolkit_reader.HPCToolkitReader.read", "pipit.graph.Node (get_intersection, get_node_list, get_level)", "pipit.trace.Trace.from_hpctoolkit"]
STUBS = ["the database files hold symbolic fields: int.from_bytes / struct.unpack of their bytes gives the symbolic number; fields are split into symbolic bytes when read in other units"]
ASSUMPTIONS = ["well-formed databases of format 4.0", "samples of a thread in non-decreasing time order between the recorded minimum and maximum"]

FUNS = [("main", 0, 0, 0, 10), ("foo", 0, 16, 0, 20), ("bar", None, 0, None, 0), ("foo", 0, 32, 0, 40)]


def trees(which):
    """context trees with unusual ids"""
    if which == "calls":
        return [Entry(1, "main thread", [Ctx(5, func=0, children=[Ctx(8, func=1, children=[Ctx(9, func=2)]), Ctx(70000, func=2)])])]
    if which == "folded":
        return [Entry(3, "main thread", [Ctx(4, func=0, children=[
            Ctx(12, "loop", src=(0, 11), children=[Ctx(6, "line", src=(0, 12), children=[Ctx(7, func=1)]), Ctx(11, "instruction", point=(0, 5))]),
            Ctx(2, "line", src=(0, 13))])])]
    if which == "recursive":
        return [Entry(1, "main thread", [Ctx(2, func=1, children=[Ctx(3, func=1, children=[Ctx(4, func=1)])])]), Entry(9, "other", [Ctx(10, func=1)])]
    if which == "wide":
        return [Entry(1, "main thread", [Ctx(2, func=0, children=[Ctx(3, func=1, children=[Ctx(5, "loop", children=[Ctx(6, func=3)])]), Ctx(4, func=3, children=[Ctx(7, "loop", children=[Ctx(8, func=3)])])])])]
    if which == "loops":
        return [Entry(1, "main thread", [Ctx(2, "loop", children=[Ctx(3, func=0), Ctx(4, "loop", func=1)]), Ctx(5, func=2, children=[Ctx(6, "loop")])])]
    if which.startswith("chain"):
        c = Ctx(2, func=1)
        for i in range(int(which[5:])):
            c = Ctx(3 + i, "loop" if i % 7 == 3 else "function", func=None if i % 7 == 3 else i % 3, children=[c] + ([Ctx(100000 + i, func=3)] if i % 9 == 4 else []))
        return [Entry(1, "main thread", [c])]
    raise KeyError(which)


def run(ctx, n, tree, threads=1, empty=(False,), fixed_min=False):
    entries = trees(tree)
    ids = [0] + sorted(c.id for e in entries for c in Db([e]).all())
    if tree.startswith("chain"):
        ids = ids[:3] + ids[3:-1:len(ids) // 8] + ids[-1:]
    tmin = 7 if fixed_min else ctx.int("tmin", 0, 2 ** 62)
    lines, hi = [], tmin
    for th in range(threads):
        t, samples = tmin, []
        for i in range(0 if ctx.choice("empty%d" % th, empty) else n):
            t = t + ctx.int("dt%d.%d" % (th, i), 0, 2 ** 40)
            samples.append((t, ctx.choice("c%d.%d" % (th, i), ids)))
        lines.append((1 + th, samples))
        if hi < t:
            hi = t
    tmax = hi + ctx.int("end", 0, 2 ** 40)
    db = Db(entries, FUNS, ["a.c"], ["exe"], tuples=[((2, 5), (3, th)) for th in range(threads)], profiles=[None] + list(range(threads)), traces=lines, tmin=tmin, tmax=tmax)
    compare(ctx, db, hpct.read(ctx, db))


def run_ids(ctx, n):
    """any context ids"""
    ids = []
    for i in range(3):
        ids.append(ctx.int("id%d" % i, 1, 2 ** 32 - 1))
        for j in ids[:-1]:
            ctx.assume(j != ids[-1])
    entries = [Entry(ids[0], "main thread", [Ctx(ids[1], func=0, children=[Ctx(ids[2], func=2)])])]
    samples = [(10 * i, ([0] + ids)[ctx.choice("c%d" % i, [0, 1, 2, 3])]) for i in range(n)]
    db = Db(entries, FUNS, ["a.c"], ["exe"], tuples=[((2, 5), (3, 0))], profiles=[None, 0], traces=[(1, samples)], tmax=1000)
    compare(ctx, db, hpct.read(ctx, db))


def run_long(ctx, lengths, trees_, threads=1, free=(1, 60)):
    """threads with many samples"""
    r = Rigid(ctx, free, ctx.choice("salt", [0, 1]))
    n, tree = ctx.choice("length", lengths), ctx.choice("tree", trees_)
    run(r, n, tree, threads, fixed_min=True)


def compare(ctx, db, t, identity=None):
    ev = t.events
    cols = {c: hpct.column(ev, c) for c in ("Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "Calling Context ID")}
    total = 0
    for th, (prof, samples) in enumerate(db.traces):
        want = hpct.replay(db, samples)
        ixs = [i for i in range(len(ev)) if len(db.traces) == 1 or cols["Thread"][i] == th]
        ctx.check(len(ixs) == len(want), "number of events of a thread", lambda: (samples, [(str(w[0]), w[1], w[2].id) for w in want], cols))
        total += len(ixs)
        for i, (time, kind, c) in zip(ixs, want):
            d = lambda: (samples, (str(time), kind, c.id), {k: cols[k][i] for k in cols})  # noqa: E731,B023
            ctx.check(cols["Event Type"][i] == kind, "kind of an event", d)
            ctx.check(cols["Name"][i] == hpct.shown(db, c)[0], "name of an event", d)
            ctx.check(ctx.eq(cols["Timestamp (ns)"][i], time), "time of an event", d)
            ctx.check(ctx.eq(cols["Calling Context ID"][i], c.id), "context of an event", d)
            ctx.check(not isnull(cols["Process"][i]) and ctx.eq(cols["Process"][i], 5), "process of an event", d)
            ctx.cover(kind)
    ctx.check(total == len(ev), "events of no thread")


def configs(tier):
    q = tier == "quick"
    el = ["Enter", "Leave"]
    return [
        Config("calls", run, dict(n=3 if q else 4, tree="calls"), el, "every sequence of samples, any times"),
        Config("folded", run, dict(n=3 if q else 4, tree="folded"), el + ["Loop Enter", "Loop Leave"], "loops, source lines and instructions"),
        Config("recursive", run, dict(n=3 if q else 4, tree="recursive"), el, "recursion and two entry points"),
        Config("wide", run, dict(n=2 if q else 4, tree="wide"), el + ["Loop Enter"], "equal functions and loops on different branches"),
        Config("loops", run, dict(n=2 if q else 4, tree="loops"), el + ["Loop Enter", "Loop Leave"], "loops without calls in them, loops directly below an entry point"),
        Config("chain", run, dict(n=2, tree="chain40" if q else "chain75"), el + ["Loop Enter"], "call chains of 40 (75) calls"),
        Config("long", run_long, dict(lengths=[64, 256, 1000] if q else [16, 32, 64, 100, 256, 400, 1000, 2048], trees_=["calls", "wide"] if q else ["calls", "folded", "wide", "loops", "chain40"]), el, "threads with 64 to 1000 (thorough: 2048) samples; two symbolic times"),
        Config("long threads", run_long, dict(lengths=[50], trees_=["wide"], threads=12 if q else 70, free=(599,) if q else (3499,)), el, "12 (thorough: 70) threads"),
        Config("abyss", run_long, dict(lengths=[3], trees_=["chain1200"] if q else ["chain1200", "chain4000"]), el + ["Loop Enter"], "call chains of 1200 (4000) calls"),
        Config("ids", run_ids, dict(n=3 if q else 4), el, "any context numbers"),
        Config("threads", run, dict(n=1 if q else 2, tree="calls", threads=2, empty=(False, True), fixed_min=True), el, "two threads, also without samples"),
    ]
