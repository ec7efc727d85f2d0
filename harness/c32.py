"""C32: reading depends on nothing but the files."""
import copy
import os

from harness.common import Config, isnull
from harness.fresh import fresh
from harness.readers import tempdir
from harness.sources import source
from symx.core import Infeasible

FUNCTIONS = ["pipit.trace.Trace.from_otf2 / from_projections / from_nsight / from_csv / from_hpctoolkit", "pipit.readers.*.read", "pipit.util.cct.create_cct"]
STUBS = ["archives, databases, logs and reports as in C18, C20, C22, C24, C25"]
ASSUMPTIONS = ["histories within one process"]


def warm():
    import pipit.readers.otf2_reader  # noqa: F401


def raw(path):
    """the bytes on disk, whatever open() has been made to give"""
    fd = os.open(path, os.O_RDONLY)
    try:
        return os.read(fd, os.fstat(fd).st_size)
    finally:
        os.close(fd)


def content(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in names:
            out[os.path.relpath(os.path.join(root, x), d)] = raw(os.path.join(root, x))
    return out


def snapshot(t):
    """all that can be seen in a trace just read, apart from later changes to it"""
    ev, df = t.events, t.definitions
    cells = {c: [plain(x) for x in ev[c]] for c in ev.columns}
    if df is not None:
        cells.update({("definitions", c): [plain(x) for x in df[c]] for c in df.columns})
    return list(ev.columns), [str(x) for x in ev.dtypes], cells, list(ev.index), None if t.cct is None else [tree(x) for x in t.cct.roots], [list(x) for x in (t.numeric_cols, t.inc_metrics, t.exc_metrics)]


def plain(x):
    if hasattr(x, "get_level") and hasattr(x, "children"):
        return lineage(x)
    return copy.deepcopy(x) if isinstance(x, (dict, list)) else x


def lineage(node):
    out = []
    while node is not None:
        out.append((getattr(node, "name", None), node.level, len(node.children)))
        node = node.parent
    return out


def tree(node):
    return getattr(node, "name", None), [tree(x) for x in node.children]


def equal(ctx, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(equal(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(ctx, x, y) for x, y in zip(a, b))
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    try:
        return bool(ctx.eq(a, b))
    except Exception:
        return a == b


def compare(ctx, a, b, what):
    ctx.check(a[0] == b[0], what + ": columns", lambda: (a[0], b[0]))
    ctx.check(a[1] == b[1], what + ": column types", lambda: (a[1], b[1]))
    ctx.check(a[3] == b[3], what + ": row numbers", lambda: (a[3], b[3]))
    ctx.check(a[4] == b[4], what + ": calling context tree")
    ctx.check(a[5] == b[5], what + ": metric columns", lambda: (a[5], b[5]))
    ctx.check(list(a[2]) == list(b[2]), what + ": definitions")
    for c in a[2]:
        ctx.check(len(a[2][c]) == len(b[2][c]), what + ": number of rows")
        for x, y in zip(a[2][c], b[2][c]):
            ctx.check(equal(ctx, x, y), what + ": " + (c if isinstance(c, str) else " ".join(c)), lambda: (x, y))  # noqa: B023


def use(t):
    """what a user may do with a trace"""
    t.calc_exc_metrics()
    t.flat_profile()
    t.create_cct()


def spoil(t):
    ev = t.events
    for c in ev.columns:
        for x in ev[c]:
            if isinstance(x, dict):
                x["Event Type"] = "spoiled"
            elif isinstance(x, list):
                x.append("spoiled")
    t.events = ev.iloc[:0]
    if t.cct is not None:
        t.cct.roots.clear()


def run(ctx, first, second, steps, n=1, places=(1, 1), options=({},), again=("same place", "other place"), more={}):
    kw = ctx.choice("options", list(options))
    src = [source(ctx, first, "a", n, places[0], 0, **more), source(ctx, second, "b", n, places[1], 1, **dict(more, base=3))]
    how = [kw if f in ("otf2", "projections", "nsight") else {} for f in (first, second)]
    place = ctx.choice("again", list(again))
    with tempdir() as d:
        def read(i, where):
            p = os.path.join(d, where)
            if not os.path.isdir(p):
                os.mkdir(p)
            for x in os.listdir(p):
                os.remove(os.path.join(p, x))
            src[i].put(p)
            with src[i].mounted(p):
                before = content(p)
                t = src[i].load(p, **how[i])
                after = content(p)
            ctx.check(before == after, "files as they were", lambda: (sorted(before), sorted(after)))
            return t

        def where(i):
            return "trace" if place == "same place" else "trace%d" % i
        refs = []
        for i in (0, 1):
            with fresh():
                t = read(i, where(i))
                if not len(t.events):
                    raise Infeasible()
                refs.append(snapshot(t))
        with fresh():
            history(ctx, steps, refs, lambda i: read(i, where(i)))


def history(ctx, steps, refs, read):
    start = ctx.choice("start", [0, 1])
    traces = []
    for i in (start, 1 - start):
        t = read(i)
        compare(ctx, refs[i], snapshot(t), "first read")
        traces.append((i, t, refs[i]))
    for s in range(steps):
        what = ctx.choice("step%d" % s, ["read", "use, read", "spoil, read"])
        i = ctx.choice("of%d" % s, [0, 1])
        last = [x for x in traces if x[0] == i][-1][1]
        if what != "read":
            (use if what.startswith("use") else spoil)(last)
            traces = [x for x in traces if x[1] is not last] + [(i, last, None)]
            ctx.cover(what.split(",")[0])
        t = read(i)
        compare(ctx, refs[i], snapshot(t), "read again")
        ctx.check(all(t is not x[1] and t.events is not x[1].events for x in traces), "a trace of its own")
        traces.append((i, t, refs[i]))
    for i, t, ref in traces:
        if ref is not None:
            compare(ctx, ref, snapshot(t), "trace read before")


def configs(tier):
    q = tier == "quick"
    k = 1 if q else 2
    tree = ({}, {"create_cct": True})
    c = ["use", "spoil"]
    long = [Config(f + " long", run, dict(first=f, second=f, steps=1, n=16, again=("same place",), more={"rigid": True}), c, "histories of reading two long traces (%s)" % f)
            for f in ("otf2", "projections", "nsight", "csv", "hpctoolkit")]
    return long + [
        Config("otf2", run, dict(first="otf2", second="otf2", steps=k, options=tree, places=(1, 2) if not q else (1, 1)), c, "histories of reading two OTF2 archives"),
        Config("projections", run, dict(first="projections", second="projections", steps=k, options=tree, places=(1, 2)), c, "histories of reading two Projections directories"),
        Config("nsight", run, dict(first="nsight", second="nsight", steps=k, options=tree), c, "histories of reading two Nsight reports"),
        Config("csv", run, dict(first="csv", second="csv", steps=k, n=2), c, "histories of reading two CSV files"),
        Config("hpctoolkit", run, dict(first="hpctoolkit", second="hpctoolkit", steps=k, n=1, more={"points": (0, 8, 7)} if q else {}), c, "histories of reading two HPCToolkit databases"),
        Config("formats", run, dict(first="projections", second="nsight", steps=k, again=("other place",)), c, "a Projections directory and an Nsight report in turn"),
        Config("formats2", run, dict(first="otf2", second="hpctoolkit", steps=k, again=("other place",)), c, "an OTF2 archive and an HPCToolkit database in turn"),
    ]
