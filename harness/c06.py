"""C06: one CCT node per distinct call path."""
from harness.common import Config, rows_balanced, rows_deep, rows_huge, rows_variety, make_trace, loc, OTHER

FUNCTIONS = ["pipit.trace.Trace.create_cct", "pipit.util.cct.create_cct", "pipit.graph.Graph", "pipit.graph.Node"]
STUBS = []
ASSUMPTIONS = ["default RangeIndex", "every Leave either ends the innermost open call of its process/thread or no open call has its name"]


# ("\\0" is left out: pandas itself merges the categories "a\\0b" and "a")
SEPS = ["", "/", ".", "->", "-->", " -> ", "::", ":", ",", ", ", "\', \'", "|", ";", " ", "  ", "\n", "\t", "\x1f", "\x1e", "_", "-", ">", "=>", " > ", " / ", "//", "&", "#", "@", "+", "~", "\\", "$", "None", "\u2192"]


def paths_oracle(rows):
    out, open_ = [None] * len(rows), {}
    for i, r in enumerate(rows):
        st = open_.setdefault(loc(r), [])
        if r["k"] == "Enter":
            st.append(r["n"])
            out[i] = tuple(st)
        elif r["k"] == "Leave" and r["n"] in st:
            assert st[-1] == r["n"]
            st.pop()
    return out


def check_cct(ctx, rows, t):
    want = paths_oracle(rows)
    ev = t.events
    ctx.check(len(ev) == len(rows), "row count")
    nodes = list(ev["Graph_Node"])
    by_path = {}
    for i, w in enumerate(want):
        n = nodes[i]
        ctx.check((n is None) == (w is None), "row %d has a node" % i, lambda: (rows, i))
        if w is None or n is None:
            continue
        if w in by_path:
            ctx.check(by_path[w] is n, "equal paths share a node", lambda: (rows, i))
            ctx.cover("shared node")
        by_path.setdefault(w, n)
        ctx.check(n.level == len(w) - 1 and n.get_level() == len(w) - 1, "level of row %d" % i, lambda: (rows, n.level))
    objs = list(by_path.items())
    for a in range(len(objs)):
        for b in range(a):
            ctx.check(objs[a][1] is not objs[b][1] and not (objs[a][1] == objs[b][1]), "different paths have different nodes", lambda: (rows, objs[a][0], objs[b][0]))
    for w, n in objs:
        if len(w) > 1:
            ctx.check(n.parent is by_path[w[:-1]], "parent of %r" % (w,), lambda: rows)
            ctx.cover("nested")
        else:
            ctx.check(n.parent is None, "root has no parent", lambda: rows)
    # every node listed exactly once and nothing else
    seen, todo = [], list(t.cct.roots)
    ctx.check(all(r.parent is None for r in todo), "roots have no parent", lambda: rows)
    while todo and len(seen) <= len(rows) * 2 + 2:
        n = todo.pop()
        seen.append(n)
        for c in n.children:
            ctx.check(c.parent is n, "child's parent", lambda: rows)
        todo += list(n.children)
    ids = [id(n) for n in seen]
    ctx.check(len(ids) == len(set(ids)), "listed once", lambda: rows)
    ctx.check(set(ids) == {id(n) for n in by_path.values()}, "listed nodes are the paths' nodes", lambda: rows)
    if len(t.cct.roots) > 1:
        ctx.cover("several roots")


def run_sep(ctx, n, seps):
    sep = ctx.choice("sep", seps)
    run(ctx, n=n, name_list=["a", "b", "a" + sep + "b"])


def run(ctx, twice=False, gen="bal", **kw):
    rows = {"deep": rows_deep, "huge": rows_huge, "variety": rows_variety, "bal": rows_balanced}[gen](ctx, **kw)
    t = make_trace(ctx, rows)
    if len({loc(r) for r in rows}) > 1:
        ctx.cover("several locations")
    t.create_cct()
    if twice:
        check_cct(ctx, rows, t)
        t.create_cct()
    check_cct(ctx, rows, t)


def configs(tier):
    q = tier == "quick"
    odd = ["A", "B", "A->B", "", "nan", "B->A"]
    return [
        Config("names", run, dict(n=4 if q else 5, name_list=odd), ["shared node", "nested", "several roots"],
               "%d rows, names from %r" % (4 if q else 5, odd)),
        Config("stray", run, dict(n=5 if q else 7, names=2, stray=True, instant=True, twice=True), ["shared node", "nested", "several roots"],
               "%d rows with Leaves of unopened calls and Instants; CCT built twice" % (5 if q else 7)),
        Config("locations", run, dict(n=4 if q else 6, names=2, procs=2, threads=2), ["shared node", "nested", "several locations"],
               "%d rows on 2x2 locations" % (4 if q else 6)),
        Config("nothread", run, dict(n=5 if q else 7, names=2, procs=3, proc_ids=[3, 0, 17]), ["shared node", "nested", "several locations"],
               "%d rows on 3 processes (ids 3, 0, 17), no Thread column" % (5 if q else 7)),
        Config("similar", run, dict(n=4 if q else 5, names=3, stray=True), ["nested"], "%d rows; one name begins with another, two differ in case only; Leaves of unopened calls" % (4 if q else 5)),
        Config("chain", run, dict(gen="deep", depths=[40, 70] if q else [40, 70, 130]), ["shared node", "nested"],
               "chains of 40 and 70 (130) nested calls, partly returned and called again"),
        Config("deep", run, dict(n=8 if q else 11, names=2), ["shared node", "nested"], "%d rows, 2 names" % (8 if q else 11)),
        Config("other-kinds", run, dict(n=4 if q else 6, names=2, instant=OTHER), ["shared node", "nested"], "%d rows some of which have other event types (%r)" % (4 if q else 6, OTHER)),
        Config("separators", run_sep, dict(n=4 if q else 5, seps=SEPS), ["nested"], "names a, b and a+x+b for %d different texts x, %d rows" % (len(SEPS), 4 if q else 5)),
        Config("dtypes", run, dict(n=4, names=2, procs=2, dtypes=("plain", "unused")), ["shared node", "nested"], "columns not categorical, or with unused categories"),
        Config("abyss", run, dict(gen="deep", depths=[1200] if q else [1200, 3000], backs=[700]), ["nested"], "1200 (3000) nested calls"),
        Config("huge", run, dict(gen="huge", many=33000 if q else 70000), ["shared node", "nested"], "a function with 33,000 (70,000) calls"),
        Config("crowd", run, dict(gen="huge", many=1, places=300, threads=150), ["shared node", "nested", "several locations"], "2 processes of 150 threads"),
        Config("variety", run, dict(gen="variety", funcs=1100 if q else 1800), ["nested"], "1,100 (1,800) different functions that call the same two"),
        Config("variety-places", run, dict(gen="variety", funcs=90, places=6, threads=3), ["shared node", "nested", "several locations"], "90 different functions on 2 processes of 3 threads"),
        Config("grouped", run, dict(n=5, names=2, procs=2, grouped=True), ["shared node", "nested"], "5 rows grouped by process instead of ordered by time"),
    ]
