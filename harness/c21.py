"""C21: HPCToolkit contexts."""
from harness.common import Config, Rigid, isnull
from harness import hpct
from harness.hpct import Ctx, Entry, Db

FUNCTIONS = ["pipit.readers.hpctoolkit_reader.MetaReader", "pipit.readers.hpctoolkit_reader.TraceReader", "pipit.graph.Graph", "pipit.graph.Node", "pipit.trace.Trace.from_hpctoolkit"]
STUBS = ["as C20: the database files hold symbolic fields (line numbers, offsets, context ids of unused fields)"]
ASSUMPTIONS = ["well-formed databases of format 4.0 (sections anywhere in the file, structures possibly larger than the format's minimum)", "texts are NUL-free UTF-8",
               "a function context directly under an entry point shows its function's definition; any other function context without own source location shows that of the context it was called from; an unknown line is shown as -1 or missing"]
TEXTS = ["main", "", "operator new ", "std::vector<\u4e2d\u6587>::f(\u00e9 x)", "a", "loop", "\u4e2d\u6587"]


def compare(ctx, db, t):
    ev = t.events
    cols = {c: hpct.column(ev, c) for c in ("Name", "Source File Name", "Source File Line Number", "Node", "Calling Context ID", "Event Type")}
    byid = {c.id: c for c in db.all()}
    nodes = {}
    for i in range(len(ev)):
        c = byid[cols["Calling Context ID"][i]]
        name, fil, line = hpct.shown(db, c)
        d = lambda: (name, fil, line, {k: str(cols[k][i]) for k in cols if k != "Node"})  # noqa: E731,B023
        ctx.check(cols["Name"][i] == name, "function of an event", d)
        got = cols["Source File Name"][i]
        ctx.check(got == fil or (fil == "" and isnull(got)), "file of an event", d)
        got = cols["Source File Line Number"][i]
        if line is None:
            ctx.check(isnull(got) or str(got) == "-1", "unknown line of an event", d)
        else:
            ctx.check(not isnull(got) and ctx.eq(ctx.number(got), line), "line of an event", d)
            ctx.cover("line")
        ctx.check(cols["Event Type"][i] in (("Loop Enter", "Loop Leave") if c.lex == "loop" else ("Enter", "Leave")), "kind of an event", d)
        ctx.cover(c.lex)
        nd = cols["Node"][i]
        ctx.check(nodes.setdefault(c.id, nd) is nd, "one node per context", d)
    expected = {hpct.node_of(c).id for prof, ss in db.traces for _, x in ss for c in hpct.path(byid[x])}
    if len(db.traces) == 1:
        want = [(k, c.id) for _, k, c in hpct.replay(db, db.traces[0][1])]
        ctx.check(list(zip(cols["Event Type"], cols["Calling Context ID"])) == want, "contexts of the samples", lambda: (want, cols["Calling Context ID"]))
    ctx.check(set(nodes) == expected, "contexts with events", lambda: (set(nodes), expected))

    def kids(c):
        """contexts below c that have nodes of their own, in stored order"""
        for x in c.children:
            if x.lex in ("line", "instruction"):
                yield from kids(x)
            else:
                yield x

    def mirror(nd, c, parent):
        ctx.check(nodes.get(c.id, nd) is nd, "node of a context", lambda: c.id)
        ctx.check(nd.parent is parent, "parent of a node", lambda: c.id)
        want = list(kids(c))
        ctx.check(len(nd.children) == len(want), "children of a node", lambda: (c.id, len(nd.children), len(want)))
        for a, b in zip(nd.children, want):
            mirror(a, b, nd)
    ctx.check(len(t.cct.roots) == len(db.entries), "roots of the tree", lambda: len(t.cct.roots))
    for a, b in zip(t.cct.roots, db.entries):
        mirror(a, b, None)


LAYOUTS = [dict(), dict(order=[7, 3, 1, 5, 6, 0, 2, 4], gap=9, slack=1), dict(order=[3, 4, 7, 5, 6, 2, 0, 1], gap=70000)]


def visit(entries):
    """one sample in every context"""
    ids = [c.id for c in Db(entries).all()]
    return [(1, [(i, c) for i, c in enumerate(ids)])]


def run_lines(ctx, layouts=(0, 1, 2)):
    n = lambda x: ctx.int(x, 0, 2 ** 32 - 1)  # noqa: E731
    o = lambda x: ctx.int(x, 0, 2 ** 64 - 1)  # noqa: E731
    entries = [Entry(1, "main thread", [Ctx(2, func=0, src=(1, n("s2")), point=(0, o("o2")), children=[
        Ctx(3, "line", src=(1, n("s3")), children=[Ctx(4, func=1, children=[Ctx(5, func=0)]), Ctx(6, func=1, src=(0, n("s6")))]),
        Ctx(7, "loop", src=(0, n("s7")), point=(0, o("o7")), children=[Ctx(8, func=1), Ctx(9, "instruction", point=(0, o("o9")))])])])]
    funs = [("main", 0, o("f0"), 0, n("l0")), ("foo", None, o("f1"), 1, n("l1"))]
    db = Db(entries, funs, ["src/a.c", "b.h"], ["/bin/exe"], traces=visit(entries), tmax=99, **LAYOUTS[ctx.choice("layout", layouts)])
    compare(ctx, db, hpct.read(ctx, db))


def run_tree(ctx, n, lex, flags, layouts=(0,), func=None):
    """any tree of n contexts below an entry point"""
    nodes, rest = [Entry(1, "main thread")], []
    for i in range(n):
        p = ctx.choice("p%d" % i, list(range(len(nodes))))
        lx = ctx.choice("lex%d" % i, lex)
        f = ctx.choice("flags%d" % i, flags)
        c = Ctx(max(1000, 7 * n) - 7 * i, lx, func=((i % 3 if func is None else func) if "f" in f and lx in ("function", "loop") else None), src=((i % 2, ctx.int("s%d" % i, 0, 2 ** 32 - 1)) if "s" in f else None),
                point=((0, 5) if "p" in f else None))
        c.parent = nodes[p]
        nodes[p].children.append(c)
        nodes.append(c)
    entries = [nodes[0]] + rest
    funs = [("main", 0, 3, 0, 10), (None, None, 0, 1, 70001), ("foo", 0, 9, None, 0)]
    db = Db(entries, funs, ["a.c", "b.c"], ["exe"], traces=visit(entries), tmax=99 + n, **LAYOUTS[ctx.choice("layout", layouts)])
    compare(ctx, db, hpct.read(ctx, db))


def run_folded(ctx, lex, flags):
    """a chain of functions and loops with folded contexts at every level"""
    top = Ctx(50, func=0)
    cur = top
    for k in range(2):
        kids = []
        for j in range(2):
            lx = ctx.choice("lex%d.%d" % (k, j), lex)
            f = ctx.choice("flags%d.%d" % (k, j), flags)
            kids.append(Ctx(100 * k + 10 + j, lx, src=(0, ctx.int("s%d.%d" % (k, j), 0, 2 ** 32 - 1)) if "s" in f else None, point=(0, 3) if "p" in f else None))
        nxt = Ctx(60 + k, "loop" if k else "function", func=None if k else 1, src=(1, 77))
        kids[1].children.append(nxt)
        nxt.parent = kids[1]
        for x in kids:
            x.parent = cur
        cur.children = kids
        cur = nxt
    entries = [Entry(1, "main thread", [top])]
    db = Db(entries, [("main", 0, 3, 0, 10), ("foo", 0, 9, None, 0)], ["a.c", "b.c"], ["exe"], traces=visit(entries), tmax=99)
    compare(ctx, db, hpct.read(ctx, db))


def run_texts(ctx, texts, layouts):
    pick = lambda v: ctx.choice(v, texts)  # noqa: E731
    entries = [Entry(1, pick("entry"), [Ctx(2, func=0, children=[Ctx(3, func=1, src=(0, 5))])]), Entry(4, "second")]
    funs = [(pick("f0"), None, 0, 0, 3), (pick("f1"), None, 0, None, 0)]
    db = Db(entries, funs, [pick("file")], [], traces=visit(entries), tmax=99, **LAYOUTS[ctx.choice("layout", layouts)])
    compare(ctx, db, hpct.read(ctx, db))


def run_unused(ctx):
    """more functions, files and modules than contexts"""
    k = ctx.choice("n", [1, 3, 300])
    i = ctx.choice("i", [0, 1, 2, 299])
    ctx.assume(i < k)
    entries = [Entry(1, "m", [Ctx(2, func=i, children=[Ctx(3, func=0, src=(k - 1 - i, ctx.int("s", 0, 2 ** 32 - 1)))])])]
    funs = [("f%d" % j, 0, 0, j, ctx.int("l%d" % j, 0, 2 ** 32 - 1) if j == i else j) for j in range(k)]
    db = Db(entries, funs, ["file%d.c" % j for j in range(k)], ["exe"], traces=visit(entries), tmax=99, **LAYOUTS[ctx.choice("layout", [0, 1])])
    compare(ctx, db, hpct.read(ctx, db))


def run_big(ctx, sizes, lex=("function", "function", "loop", "line", "instruction", "function")):
    """trees of many contexts"""
    r = Rigid(ctx, (4, 30), ctx.choice("salt", [0, 1]))
    run_tree(r, ctx.choice("contexts", sizes), list(lex), ["f", "fs", "fsp", ""], (0, 1))


def run_long_texts(ctx, sizes):
    """long names, many names"""
    k = ctx.choice("length", sizes)
    entries = [Entry(1, "m" * k, [Ctx(2, func=0, children=[Ctx(3, func=1, src=(0, 5))])]), Entry(4, "n" * (k + 1))]
    funs = [("f<%s>" % ("int, " * k), None, 0, 0, 3), ("é" * k, None, 0, None, 0)]
    db = Db(entries, funs, ["/".join(["dir"] * k) + ".c"], [], traces=visit(entries), tmax=99, **LAYOUTS[ctx.choice("layout", [0, 1])])
    compare(ctx, db, hpct.read(ctx, db))


def configs(tier):
    q = tier == "quick"
    return [
        Config("lines", run_lines, {}, ["line", "loop", "function", "entry"], "all line numbers and offsets symbolic over their full width, several layouts of the file"),
        Config("tree", run_tree, dict(n=2 if q else 3, lex=["function", "loop", "line", "instruction"], flags=["f", "fs", "fsp", ""] if q else ["f", "fs", "fsp", "", "s", "p", "fp"]), ["line", "loop", "function"], "every tree of contexts of every kind"),
        Config("folded", run_folded, dict(lex=["instruction", "line", "loop"], flags=["p", "s"] if q else ["p", "s", "sp", ""]), ["loop", "function"], "instructions, lines and loops on two levels"),
        Config("texts", run_texts, dict(texts=TEXTS[:5] if q else TEXTS, layouts=[0, 1]), ["function"], "texts of the string table"),
        Config("deep", run_tree, dict(n=3 if q else 4, lex=["function", "line"], flags=["fs", "f"]), ["function"], "deeper trees"),
        Config("siblings", run_tree, dict(n=3 if q else 4, lex=["function"], flags=["fs", "f"], func=2), ["function"], "several contexts of the same function"),
        Config("big", run_big, dict(sizes=[60, 300, 700] if q else [30, 60, 130, 300, 1000]), ["line", "loop", "function"], "trees of 60 to 700 (thorough: 1000) contexts of every kind; two symbolic lines"),
        Config("long texts", run_long_texts, dict(sizes=[30, 255, 256, 5000] if q else [30, 64, 127, 255, 256, 257, 1000, 5000, 70000]), ["function"], "long names of functions, files and entry points"),
        Config("unused", run_unused, {}, ["line"], "up to 300 functions, files"),
    ]
