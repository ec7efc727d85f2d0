"""small traces of every format, for properties that concern all readers.
Each source gives (put(d): write the files into d, mounted(d): context in which they can be read, load(path, **kw))"""
import contextlib
import os

from harness import hpct, proj
from harness.hpct import Ctx, Entry, Db
from harness.readers import Texts, csvs, pools, write_csv
from symx.bytesx import files

CODES = {"idle": 14, "end idle": 15, "pack": 16, "end pack": 17, "memory": 27}


def texts(ctx):
    """one for all sources of a run: placeholders are numbered across files"""
    if getattr(ctx, "shared_texts", None) is None:
        ctx.shared_texts = Texts(ctx)
    return ctx.shared_texts


class Source:
    """`tag` keeps the names of symbolic variables apart; `n` events or records on each of `places`.
    `rigid`: one symbolic number, everything else is fixed (for traces of many events)"""
    rigid = False

    def __init__(self, ctx, tag, n, places, names):
        self.ctx, self.tag, self.n, self.places, self.names = ctx, tag, n, places, names
        self.build()

    def int(self, name, lo, hi):
        if self.rigid:
            self.asked = getattr(self, "asked", 0) + 1
            if self.asked != 3:
                return min(hi, lo + 10 + self.asked % 3)
        return self.ctx.int("%s.%s" % (self.tag, name), lo, hi)

    def pick(self, name, options):
        if self.rigid:
            self.picked = getattr(self, "picked", 0) + 1
            return list(options)[self.picked * 7 % 5 % len(options)]
        return self.ctx.choice("%s.%s" % (self.tag, name), list(options))

    def put(self, d):
        pass

    def load(self, path, **kw):
        raise NotImplementedError


class Otf2(Source):
    base = 0

    def build(self):
        import otf2
        from harness.otf2mem import Archive
        self.otf2 = otf2
        ar = self.ar = Archive()
        regs = [ar.region(n) for n in self.names]
        places = [ar.location(l // 2, self.base + l) for l in range(self.places)]
        comm = object()
        for l, place in enumerate(places):
            t, open_ = 0, []
            for i in range(self.n):
                t = t + self.int("dt%d.%d" % (l, i), 0, 2 ** 40)
                k = self.pick("k%d.%d" % (l, i), list(range(len(regs))) + (["leave"] if open_ else []) + ["send"])
                if k == "leave":
                    ar.streams[place].append(otf2.events.Leave(t, open_.pop()))
                elif k == "send":
                    ar.streams[place].append(otf2.events.MpiSend(t, 0, "world", 7, self.int("size%d.%d" % (l, i), 0, 2 ** 40)))
                else:
                    open_.append(regs[k])
                    ar.streams[place].append(otf2.events.Enter(t, regs[k]))

    @contextlib.contextmanager
    def mounted(self, d):
        from harness.otf2mem import mounted
        with mounted(self.ar), pools(self.ctx):
            yield

    def load(self, d, **kw):
        from pipit import Trace
        return Trace.from_otf2(d, num_processes=1, **kw)


class Projections(Source):
    def build(self):
        self.txt = texts(self.ctx)
        self.logs = []
        for pe in range(self.places):
            t, lines = 0, []
            for i in range(self.n):
                t = t + self.int("dt%d.%d" % (pe, i), 0, 2 ** 40)
                k = CODES[self.pick("k%d.%d" % (pe, i), [c for c in CODES if c in self.names])]
                lines.append([27, self.int("mem%d.%d" % (pe, i), 0, 2 ** 40), t] if k == 27 else [k, t, pe])
            self.logs.append(lines + [[7, t]])

    def put(self, d):
        proj.write(self.ctx, d, self.logs, txt=self.txt)

    @contextlib.contextmanager
    def mounted(self, d):
        with pools(self.ctx):
            yield

    def load(self, d, **kw):
        from pipit import Trace
        return Trace.from_projections(d, **kw)


class Nsight(Source):
    extra = ()

    def build(self):
        self.txt = texts(self.ctx)
        self.rows = []
        for l in range(self.places):
            mine = []
            for i in range(self.n):
                s = self.int("s%d.%d" % (l, i), 0, 2 ** 40) + (2 ** 41 * i if self.rigid else 0)
                e = s + self.int("d%d.%d" % (l, i), 1, 2 ** 40)
                for a, b in mine:
                    self.ctx.assume((e < a) | (b < s) | ((s < a) & (b < e)) | ((a < s) & (e < b)))
                mine.append((s, e))
                self.rows.append([self.txt(s), self.txt(e), self.txt(e - s), str(700 + l // 2), str(700 + l), self.pick("n%d.%d" % (l, i), self.names)])

    def path(self, d):
        return os.path.join(d, "report.csv")

    def put(self, d):
        write_csv(self.path(d), ["Start (ns)", "End (ns)", "Duration (ns)", "PID", "TID", "Name"], self.rows)

    @contextlib.contextmanager
    def mounted(self, d):
        with csvs(self.ctx, self.txt):
            yield

    def load(self, d, **kw):
        from pipit import Trace
        return Trace.from_nsight(self.path(d), **kw)


class Csv(Nsight):
    def build(self):
        self.txt = texts(self.ctx)
        self.rows = []
        for l in range(self.places):
            t, open_ = 0, []
            for i in range(self.n):
                t = t + self.int("dt%d.%d" % (l, i), 0, 2 ** 40)
                k = self.pick("k%d.%d" % (l, i), list(self.names) + (["leave"] if open_ else []))
                if k == "leave":
                    self.rows.append([self.txt(t), "Leave", open_.pop(), str(l), "x%d" % i])
                else:
                    open_.append(k)
                    self.rows.append([self.txt(t), "Enter", k, str(l), "x%d" % i])
        if self.rigid:
            k = self.ctx.choice("%s.swap" % self.tag, [None, 4])
            if k is not None:
                self.rows[k:k + 2] = self.rows[k + 1], self.rows[k]

    def put(self, d):
        write_csv(self.path(d), ["Timestamp (ns)", "Event Type", "Name", "Process", "note"], self.rows)

    def load(self, d, **kw):
        from pipit import Trace
        return Trace.from_csv(self.path(d), **kw)


class Hpct(Source):
    points = (0, 5, 8, 7, 10)

    def build(self):
        a, b = self.names
        entries = [Entry(1, "main thread", [Ctx(5, func=0, children=[Ctx(8, func=1, children=[Ctx(9, "loop", children=[Ctx(10, func=0)])]), Ctx(7, func=2)])])]
        funs = [(a, 0, 0, 0, 10), (b, 0, 16, 0, 20), (None, None, 0, None, 0)]
        lines, hi = [], 0
        for th in range(self.places):
            t, samples = 0, []
            for i in range(self.n):
                t = t + self.int("dt%d.%d" % (th, i), 0, 2 ** 40)
                samples.append((t, self.pick("c%d.%d" % (th, i), self.points)))
            lines.append((1 + th, samples))
            if hi < t:
                hi = t
        self.db = Db(entries, funs, ["a.c"], ["exe"], tuples=[((2, 5 + th // 2), (3, th)) for th in range(self.places)], profiles=[None] + list(range(self.places)), traces=lines, tmin=0,
                     tmax=hi + self.int("end", 0, 2 ** 40))

        self.blobs = {"meta.db": hpct.meta(self.ctx, self.db), "profile.db": hpct.profile(self.ctx, self.db, name=self.tag + ".profile"), "trace.db": hpct.trace(self.ctx, self.db, name=self.tag + ".trace")}

    @contextlib.contextmanager
    def mounted(self, d):
        with files(self.ctx, d, self.blobs):
            yield

    def load(self, d, **kw):
        from pipit import Trace
        return Trace.from_hpctoolkit(d)


SOURCES = {"otf2": (Otf2, [("main", "work"), ("work", "solve", "main")]),
           "projections": (Projections, [("idle", "end idle", "pack"), ("idle", "memory")]),
           "nsight": (Nsight, [("foo", "bar"), ("bar", "qux")]),
           "csv": (Csv, [("foo", "bar"), ("bar",)]),
           "hpctoolkit": (Hpct, [("main", "work"), ("work", "solve")])}


def source(ctx, fmt, tag, n, places, variant=0, **more):
    cls, names = SOURCES[fmt]
    if more:
        cls = type(cls.__name__, (cls,), more)
    return cls(ctx, tag, n, places, names[variant])
