"""C17: tree nodes."""
from harness.common import Config

FUNCTIONS = ["pipit.graph.Node", "pipit.graph.Graph"]
STUBS = []
ASSUMPTIONS = ["node ids are distinct within a graph (as every builder in pipit makes them)"]


def build(ctx, parents, how, ids):
    from pipit.graph import Node, Graph
    g, nodes, level = Graph(), [], []
    for i, p in enumerate(parents):
        par = None if p is None else nodes[p]
        level.append(0 if p is None else level[p] + 1)
        n = Node(ids[i], par) if how == "computed" else Node(ids[i], par, level[i])
        if par is None:
            g.add_root(n)
        else:
            par.add_child(n)
        nodes.append(n)
    return g, nodes, level


def line(parents, i):
    out = []
    while i is not None:
        out.append(i)
        i = parents[i]
    return out


def check(ctx, parents, how, ids, pairs, cuts=True):
    g, nodes, level = build(ctx, parents, how, ids)
    for i, n in enumerate(nodes):
        ctx.check(n.level == level[i] and n.get_level() == level[i], "level of node %d" % i, lambda: (parents, n.level))
        ctx.check(n.parent is (None if parents[i] is None else nodes[parents[i]]), "parent of node %d" % i, lambda: parents)
        kids = [j for j, p in enumerate(parents) if p == i]
        ctx.check(len(n.children) == len(kids) and all(a is nodes[b] for a, b in zip(n.children, kids)), "children of node %d" % i, lambda: parents)
    roots = [i for i, p in enumerate(parents) if p is None]
    ctx.check(len(g.roots) == len(roots) and all(a is nodes[b] for a, b in zip(g.roots, roots)), "roots", lambda: parents)
    for a, b in pairs:
        la, lb = line(parents, a), line(parents, b)
        common = [x for x in la if x in lb]
        r = nodes[a].get_intersection(nodes[b])
        want = nodes[common[0]] if common else None
        ctx.check(r is want or (want is not None and r is not None and r == want and r.level == want.level and r.parent is want.parent),
                  "intersection of %d and %d" % (a, b), lambda: (parents, str(r)))
        ctx.cover("common ancestor" if common else "no common root")
        if common and common[0] in (a, b) and a != b:
            ctx.cover("one is the other's ancestor")
    ctx.check(nodes[0].get_intersection(None) is None, "intersection with nothing")
    if cuts:
        a = pairs[-1][0]
        cut = ctx.int("cut", -3, len(parents) + 1) if cuts is True else ctx.choice("cut", cuts)
        r = nodes[a].get_node_list(cut)
        want = [x for x in line(parents, a) if level[x] > cut]
        ctx.check(len(r) == len(want) and all(x is nodes[y] for x, y in zip(r, want)), "node list of %d" % a, lambda: (parents, a, cut, [str(x) for x in r]))
        ctx.cover("node list")


def run(ctx, n, symbolic_ids=False):
    parents = [None]
    for i in range(1, n):
        parents.append(ctx.choice("parent%d" % i, [None] + list(range(i))))
    how = ctx.choice("how", ["computed", "given"])
    if symbolic_ids:
        ids = []
        for i in range(n):
            v = ctx.int("id%d" % i, 0, 2 ** 32)
            for w in ids:
                ctx.assume(v != w)
            ids.append(v)
    else:
        ids = list(range(n))
    a = ctx.choice("a", range(n))
    check(ctx, parents, how, ids, [(b, a) for b in range(n)] + [(a, b) for b in range(n)])


def run_branches(ctx, stem, arm):
    """a stem with two arms of any lengths"""
    run_deep(ctx, range(stem + 1), range(arm + 1))


def run_deep(ctx, stems, arms, cuts=True):
    s = ctx.choice("stem", stems)
    a, b = ctx.choice("arm a", arms), ctx.choice("arm b", arms)
    parents, top = [], None
    for _ in range(s):
        parents.append(top)
        top = len(parents) - 1
    ends = []
    for k in (a, b):
        t = top
        for _ in range(k):
            parents.append(t)
            t = len(parents) - 1
        ends.append(t)
    if None in ends:
        from symx.core import Infeasible
        raise Infeasible()
    how = ctx.choice("how", ["computed", "given"])
    check(ctx, parents, how, [7 * i + 3 for i in range(len(parents))], [(ends[0], ends[1]), (ends[1], ends[0])], cuts)


def configs(tier):
    q = tier == "quick"
    cov = ["common ancestor", "no common root", "one is the other's ancestor", "node list"]
    return [
        Config("forests", run, dict(n=6 if q else 7), cov, "every forest of %d nodes, every pair of nodes, every minimum level" % (6 if q else 7)),
        Config("ids", run, dict(n=4, symbolic_ids=True), cov, "4 nodes with arbitrary distinct ids"),
        Config("long", run_deep, dict(stems=[0, 1, 63, 64, 65] if q else [0, 1, 31, 32, 63, 64, 65, 127, 128, 200], cuts=[-2, -1, 0, 40, 63, 64, 70], arms=[0, 1, 62, 66, 100] if q else [0, 1, 30, 33, 62, 66, 100, 130, 257, 300]), ["common ancestor", "node list"], "branches of up to 100 (300) nodes with a common stem of up to 65 (200)"),
        Config("very long", run_deep, dict(stems=[1100] if q else [1100, 5000], cuts=[-1, 600], arms=[0, 1200]), ["node list"], "branches of 1200 nodes with a common stem of 1100 (5000)"),
        Config("branches", run_branches, dict(stem=5 if q else 12, arm=8 if q else 16), cov, "two branches of up to %d nodes with a common stem of up to %d" % ((8, 5) if q else (16, 12))),
    ]
