"""HPCToolkit databases (meta.db, profile.db, trace.db, format 4.0): a writer
from a description, and the events the description stands for."""
import functools
import sys

from harness.readers import tempdir
from symx.bytesx import Blob, files

TREE_LEX = {"function": 0, "loop": 1, "line": 2, "instruction": 3}


class Ctx:
    """a context of the context tree"""

    def __init__(self, id, lex="function", func=None, src=None, point=None, children=(), relation=1):
        self.id, self.lex, self.func, self.src, self.point = id, lex, func, src, point  # src: (file, line), point: (module, offset)
        self.children, self.relation, self.parent = list(children), relation, None
        for c in self.children:
            c.parent = self


class Entry(Ctx):
    def __init__(self, id, name, children=()):
        super().__init__(id, "entry", children=children)
        self.name = name


class Db:
    """functions: [(name, module, offset, file, line)], modules/files: [path index into strings]"""

    def __init__(self, entries, functions=(), files_=(), modules=(), names=("SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "CORE"),
                 tuples=(((2, 0), (3, 0)),), profiles=(None, 0), traces=((1, ()),), tmin=0, tmax=0, order=None, slack=0, gap=0):
        self.__dict__.update(locals())

    def all(self):
        todo = list(self.entries)[::-1]
        while todo:
            c = todo.pop()
            yield c
            todo += c.children[::-1]


def header(blob, kind, n):
    blob.raw(b"HPCTOOLKIT" + kind + b"\x04\x00")
    at = len(blob)
    blob.raw(b"\0" * 16 * n)
    return at


def deep(f):
    """these functions may recurse deeply, the code under test may not"""
    @functools.wraps(f)
    def g(*a, **k):
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(max(limit, 10 ** 5))
        try:
            return f(*a, **k)
        finally:
            sys.setrecursionlimit(limit)
    return g


@deep
def meta(ctx, db):
    b = Blob(ctx, "meta")
    at = header(b, b"meta", 8)
    texts = []

    def need(t):
        if t not in texts:
            texts.append(t)
    for n in db.modules + db.files_:
        need(n)
    for f in db.functions:
        if f[0] is not None:
            need(f[0])
    for e in db.entries:
        need(e.name)
    order = db.order or [4, 0, 6, 5, 7, 3, 1, 2]
    if order[0] != 4:
        texts.reverse()
    ptr, span = {}, {}

    def section(i, start, end):
        b.put(at + 16 * i, 8, end - start)
        b.put(at + 16 * i + 8, 8, start)

    # string table: its place must be known to the others, so its size is computed first
    table = b"".join(t.encode() + b"\0" for t in texts)
    body = {}
    place = {}

    def strings(start):
        pos = start
        for t in texts:
            ptr[t] = pos
            pos += len(t.encode()) + 1
        return Blob(ctx, "s").raw(table)

    def general(start):
        x = Blob(ctx, "g")
        x.u(8, start + 16).u(8, start + 16 + 6).raw(b"title\0").raw(b"descr \xc3\xa9\0")
        return x

    def idnames(start):
        x = Blob(ctx, "i")
        n = len(db.names)
        x.u(8, start + 16).u(1, n).pad(7)
        pos = start + 16 + 8 * n
        for name in db.names:
            x.u(8, pos)
            pos += len(name) + 1
        for name in db.names:
            x.raw(name.encode() + b"\0")
        return x

    def metrics(start):
        return Blob(ctx, "m").pad(24)

    def paths(which, n):
        def make(start):
            x = Blob(ctx, "p")
            stride = 16 + 8 * db.slack
            x.u(8, start + 16).u(4, len(n)).u(2, stride).pad(2)
            place[which] = (start + 16, stride)
            for t in n:
                x.u(4, 0).pad(4).u(8, ptr[t]).pad(stride - 16)
            return x
        return make

    def item(which, i):
        p, stride = place[which]
        return p + i * stride

    def functions(start):
        x = Blob(ctx, "f")
        stride = 40 + 8 * db.slack
        x.u(8, start + 16).u(4, len(db.functions)).u(2, stride).pad(2)
        place["function"] = (start + 16, stride)
        for name, mod, off, fil, line in db.functions:
            x.u(8, 0 if name is None else ptr[name]).u(8, 0 if mod is None else item("module", mod)).u(8, off)
            x.u(8, 0 if fil is None else item("file", fil)).u(4, line).u(4, 0).pad(stride - 40)
        return x

    def contexts(start):
        x = Blob(ctx, "c")
        stride = 32 + 8 * db.slack
        x.u(8, start + 16).u(2, len(db.entries)).u(1, stride).pad(5)

        def arrays(kids, base):
            """writes the array of a list of contexts and then those below it -> where they end"""
            size = sum(32 + 8 * flexn(c) for c in kids)
            own = Blob(ctx, "own%d" % base)
            blobs.append(own)
            pos = base + size
            for c in kids:
                if c.children:
                    end = arrays(c.children, pos)
                    csize = sum(32 + 8 * flexn(k) for k in c.children)
                    own.u(8, csize).u(8, pos)
                    pos = end
                else:
                    own.u(8, 0).u(8, 0)
                flags = (c.func is not None) + 2 * (c.src is not None) + 4 * (c.point is not None)
                own.u(4, c.id).u(1, flags).u(1, c.relation).u(1, TREE_LEX[c.lex]).u(1, flexn(c)).u(2, 0).pad(6)
                if c.func is not None:
                    own.u(8, item("function", c.func))
                if c.src is not None:
                    own.u(8, item("file", c.src[0])).u(4, c.src[1]).u(4, 0)
                if c.point is not None:
                    own.u(8, item("module", c.point[0])).u(8, c.point[1])
                own.pad(8 * db.slack)
            return pos

        def flexn(c):
            return (c.func is not None) + 2 * (c.src is not None) + 2 * (c.point is not None) + db.slack  # words of later versions
        pos = start + 16 + stride * len(db.entries)
        blobs = []
        for e in db.entries:
            end = arrays(e.children, pos)
            x.u(8, sum(32 + 8 * flexn(k) for k in e.children)).u(8, pos if e.children else 0)
            x.u(4, e.id).u(2, 1).pad(2).u(8, ptr[e.name]).pad(stride - 32)
            pos = end
        for below in blobs:
            x.add(below)
        return x

    make = [general, idnames, metrics, contexts, strings, paths("module", db.modules), paths("file", db.files_), functions]
    # sizes do not depend on the position: lay out first, then write with the pointers known
    for rnd in (0, 1):
        pos = len(b)
        for i in order:
            pos += db.gap
            if rnd == 0:
                span[i] = pos
                if i != 4 and not ptr:
                    for t in texts:
                        ptr.setdefault(t, 0)
                for w in ("module", "file", "function"):
                    place.setdefault(w, (0, 0))
                body[i] = make[i](pos)
            pos += len(body[i])
        if rnd == 0:
            strings(span[4])
            for w, i, n in (("module", 5, 16), ("file", 6, 16), ("function", 7, 40)):
                place[w] = (span[i] + 16, n + 8 * db.slack)
    for i in order:
        b.pad(db.gap)
        x = make[i](span[i])
        section(i, len(b), len(b) + len(x))
        rename(x, "meta%d" % i)
        b.add(x)
    return b


def rename(x, name):
    """unique names of the symbolic fields"""
    for j, c in enumerate(x.cells):
        if not isinstance(c, int) and c[1] == 0:
            c[0].name = "%s@%d" % (name, j)


def profile(ctx, db, name="profile"):
    b = Blob(ctx, "profile")
    at = header(b, b"prof", 2)
    b.pad(db.gap)
    hits = Blob(ctx, "hits")
    start = len(b)
    ptrs = []
    for t in db.tuples:
        ptrs.append(start + len(hits))
        hits.u(2, len(t)).pad(6)
        for kind, physical in t:
            hits.u(1, kind).pad(1).u(2, 0).u(4, 7).u(8, physical)
    b.add(hits)
    b.put(at + 16, 8, len(hits))
    b.put(at + 24, 8, start)
    b.pad(db.gap)
    start = len(b)
    stride = 40 + 8 + 8 * db.slack
    b.u(8, start + 16).u(4, len(db.profiles)).u(1, stride).pad(3)
    for p in db.profiles:
        b.pad(0x20).u(8, 0 if p is None else ptrs[p]).u(4, 0).pad(stride - 44)
    b.put(at, 8, len(b) - start)
    b.put(at + 8, 8, start)
    rename(b, name)
    return b


def trace(ctx, db, name="trace"):
    b = Blob(ctx, "trace")
    at = header(b, b"trce", 1)
    b.pad(db.gap)
    start = len(b)
    stride = 24 + 8 * db.slack
    b.u(8, start + 32).u(4, len(db.traces)).u(1, stride).pad(3).u(8, db.tmin).u(8, db.tmax)
    pos = start + 32 + stride * len(db.traces)
    for prof, samples in db.traces:
        b.u(4, prof).pad(4).u(8, pos).u(8, pos + 12 * len(samples)).pad(stride - 24)
        pos += 12 * len(samples)
    for _, samples in db.traces:
        for t, c in samples:
            b.u(8, t).u(4, c)
    b.put(at, 8, len(b) - start)
    b.put(at + 8, 8, start)
    rename(b, name)
    return b


def read(ctx, db):
    from pipit import Trace
    with tempdir() as d, files(ctx, d, {"meta.db": meta(ctx, db), "profile.db": profile(ctx, db), "trace.db": trace(ctx, db)}):
        return Trace.from_hpctoolkit(d)


# ------------------------------------------------------------- what is meant
def node_of(c):
    """line and instruction contexts belong to the function or loop around them"""
    while c is not None and c.lex in ("line", "instruction"):
        c = c.parent
    return c


def path(c):
    """calls from the root to the context"""
    out, c = [], node_of(c)
    while c is not None:
        out.append(c)
        c = node_of(c.parent)
    return out[::-1]


@deep
def shown(db, c):
    """(name, file, line) of a context's events"""
    if c.lex == "entry":
        return c.name, "", None
    name = "loop" if c.lex == "loop" else "<unkown function>"
    if c.lex == "function" and c.func is not None and db.functions[c.func][0] is not None:
        name = db.functions[c.func][0]
    fil, line = c.src if c.src is not None else (None, None)
    if c.lex == "function":
        if c.parent.lex == "entry" and c.func is not None:
            fil, line = db.functions[c.func][3], db.functions[c.func][4]
        elif c.src is None:
            fil, line = inherited(db, c.parent)
    return name, "" if fil is None else db.files_[fil], line


def inherited(db, c):
    if c.lex == "entry":
        return None, None
    if c.lex == "function":
        n, f, l = shown(db, c)
        return (None if f == "" else db.files_.index(f)), l
    return c.src if c.src is not None else (None, None)


def replay(db, samples):
    """[(time, kind, context)] of one thread"""
    byid = {c.id: c for c in db.all()}
    out, open_ = [], []

    def kind(c, k):
        return ("Loop " if c.lex == "loop" else "") + k
    for t, cid in samples:
        want = path(byid[cid]) if cid else []
        common = 0
        while common < min(len(open_), len(want)) and open_[common] is want[common]:
            common += 1
        for c in open_[common:][::-1]:
            out.append((t - db.tmin, kind(c, "Leave"), c))
        for c in want[common:]:
            out.append((t - db.tmin, kind(c, "Enter"), c))
        open_ = want
    for c in open_[::-1]:
        out.append((db.tmax - db.tmin, kind(c, "Leave"), c))
    return out


def column(ev, c):
    return list(ev[c]) if c in ev.columns else [None] * len(ev)
