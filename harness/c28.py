"""C28: identity of HPCToolkit threads."""
from harness.common import Config, Rigid, isnull
from harness import hpct
from harness.hpct import Ctx, Entry, Db

FUNCTIONS = ["pipit.readers.hpctoolkit_reader.ProfileReader", "pipit.readers.hpctoolkit_reader.MetaReader (identifier names)", "pipit.readers.hpctoolkit_reader.TraceReader", "pipit.readers.hpctoolkit_reader.HPCToolkitReader.read"]
STUBS = ["as C20: the database files hold symbolic fields (identifier values)"]
ASSUMPTIONS = ["well-formed databases of format 4.0", "a trace line refers to a profile with an identifier tuple that names no identifier twice", "a column no event has a value for may be absent"]
SHOWN = {"RANK": "Process", "THREAD": "Thread", "CORE": "Core", "NODE": "Host"}
TABLES = [("SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"), ("CORE", "THREAD", "RANK", "NODE"), ("RANK", "X", "THREAD", "SUMMARY", "NODE")]


def run(ctx, threads, tables, size, bits=64, layouts=(False,), perm=False, symbolic=True, share=False):
    names = TABLES[ctx.choice("names", tables)]
    used, tuples, lines = [], [], []
    for t in range(threads):
        k = ctx.choice("n%d" % t, size)
        tup, left = [], list(range(len(names)))
        for j in range(k):
            kind = ctx.choice("kind%d.%d" % (t, j), left)
            left = [x for x in left if x != kind and (perm or x > kind)]
            tup.append((kind, ctx.int("id%d.%d" % (t, j), 0, 2 ** bits - 1) if symbolic else 10 * t + j))
            if not left and j + 1 < k:
                ctx.assume(False)
        tuples.append(tuple(tup))
        used.append({names[a]: b for a, b in tup})
    if getattr(ctx, "rigid", False):
        ctx.hash_keys = sorted({v for x in tuples for _, v in x if isinstance(v, int)})
    profs = [None] + list(range(threads))
    if ctx.choice("summary first", [True, False]):
        first = 1
    else:
        first, profs = 0, profs[1:] + [None]
    order = list(range(threads))
    if ctx.choice("reversed", [False, True]):
        order.reverse()
    if share and ctx.choice("share", [False, True]):
        profs = [None if p is None else 0 for p in profs]
        used = [used[0]] * threads
    for t in order:
        lines.append((first + t, [(100 * t, 2), (100 * t + 50, 0)]))
    entries = [Entry(1, "main thread", [Ctx(2, func=0)])]
    slack = ctx.choice("slack", layouts)
    db = Db(entries, [("main", 0, 0, 0, 10)], ["a.c"], ["exe"], names=names, tuples=tuples, profiles=profs, traces=lines, tmax=1000, slack=int(slack), gap=11 if slack else 0)
    ev = hpct.read(ctx, db).events
    cols = {c: hpct.column(ev, c) for c in SHOWN.values()}
    time = list(ev["Timestamp (ns)"])
    ctx.check(len(ev) == 4 * threads, "number of events", lambda: len(ev))
    for i in range(len(ev)):
        me = used[int(time[i]) // 100]
        for what, c in SHOWN.items():
            d = lambda: (me, what, cols[c][i])  # noqa: E731,B023
            if what in me:
                ctx.check(not isnull(cols[c][i]) and ctx.eq(cols[c][i], me[what]), c + " of an event", d)
                ctx.cover(what)
            else:
                ctx.check(isnull(cols[c][i]), "missing " + c, d)
                ctx.cover("missing")


def run_many(ctx, threads, tables):
    """many threads"""
    run(Rigid(ctx, (3,), ctx.choice("salt", [0, 1, 2, 3])), ctx.choice("threads", threads), tables, [2, 3, 4], perm=True, layouts=(False, True), share=False)


def configs(tier):
    q = tier == "quick"
    cov = ["RANK", "THREAD", "CORE", "NODE", "missing"]
    return [
        Config("one", run, dict(threads=1, tables=[0, 1, 2], size=[0, 1, 2, 3] if q else [0, 1, 2, 3, 4], perm=True, layouts=(False, True)), cov, "one thread: every choice and order of identifiers, any 64-bit values"),
        Config("all", run, dict(threads=1, tables=[0, 1], size=[4] if q else [5, 6, 7]), cov[:4], "tuples with many identifiers"),
        Config("many", run_many, dict(threads=[12, 70] if q else [12, 33, 64, 100, 130, 257, 300, 1000], tables=[0]), cov, "12 to 70 (thorough: 1000) threads; a symbolic identifier"),
        Config("two", run, dict(threads=2, tables=[2] if q else [1, 2], size=[0, 1, 2], perm=not q, share=True), ["RANK", "THREAD", "NODE", "missing"], "two threads, also sharing one profile"),
    ]
