"""C31: what is not a complete trace of the format is refused."""
import os

from harness.common import And, Config
from harness import hpct, proj
from harness.hpct import Ctx, Entry, Db
from harness.readers import Texts, pools, tempdir
from symx.bytesx import Field, files

FUNCTIONS = ["pipit.readers.hpctoolkit_reader (MetaReader, ProfileReader, TraceReader: headers)", "pipit.readers.projections_reader.ProjectionsReader.__init__", "pipit.readers.projections_reader.STSReader",
             "pipit.trace.Trace.from_hpctoolkit", "pipit.trace.Trace.from_projections"]
STUBS = ["as C18 and C20"]
ASSUMPTIONS = ["refused: any exception before a trace is returned (ValueError for Projections directories)", "Python runs without -O"]
MAGIC = {"meta.db": b"HPCTOOLKITmeta", "profile.db": b"HPCTOOLKITprof", "trace.db": b"HPCTOOLKITtrce"}


def attempt(read, kinds=Exception):
    from symx.core import Unsupported
    try:
        t = read()
    except Unsupported:
        raise
    except kinds as e:
        return e, None
    return None, t


def hpctoolkit(ctx, which, span):
    from pipit import Trace
    db = Db([Entry(1, "main thread", [Ctx(2, func=0)])], [("main", 0, 0, 0, 10)], ["a.c"], ["exe"], tuples=[((2, 5), (3, 0))], profiles=[None, 0], traces=[(1, [(0, 2)])], tmax=9)
    blobs = {"meta.db": hpct.meta(ctx, db), "profile.db": hpct.profile(ctx, db), "trace.db": hpct.trace(ctx, db)}
    name = ctx.choice("file", which)
    lo, hi = ctx.choice("bytes", span)
    right = []
    for i in range(lo, hi):
        x = ctx.int("byte%d" % i, 0, 255)
        right.append(x == MAGIC[name][i])
        if ctx.sym:
            blobs[name].cells[i] = (Field(ctx, "magic%d" % i, x, 1), 0)
        else:
            blobs[name].cells[i] = x
    with tempdir() as d, files(ctx, d, blobs):
        err, t = attempt(lambda: Trace.from_hpctoolkit(d))
    good = bool(And(*right))
    ctx.check((err is None) == good, "a database is read if and only if its files say what they are", lambda: (name, lo, hi, str(err)))
    ctx.cover("read" if err is None else "refused")
    if err is None:
        ctx.check(len(t.events) == 4, "all its events are read")


def projections(ctx, pes, logs, others):
    from pipit import Trace
    n = ctx.int("processors", 0, pes)
    have = [pe for pe in range(logs) if ctx.choice("log%d" % pe, [True, False])]
    sts = ctx.choice("sts", [["app"], [], ["app", "app2"], ["app.old"]])
    extra = ctx.choice("others", others)
    txt = Texts(ctx)
    with tempdir() as d:
        with pools(ctx):
            proj.write(ctx, d, [[[14, 3 + pe, pe], [7, 9]] for pe in range(logs)], txt=txt)
            text = proj.sts(8).replace("PROCESSORS 8", "PROCESSORS " + txt(n))
            os.remove(os.path.join(d, "app.sts"))
            for name in sts:
                with open(os.path.join(d, name + ".sts"), "w") as f:
                    f.write(text)
            for pe in range(logs):
                if pe not in have:
                    os.remove(os.path.join(d, "app.%d.log.gz" % pe))
            for name in extra:
                with open(os.path.join(d, name), "w") as f:
                    f.write("x\n")
            err, t = attempt(lambda: Trace.from_projections(d), ValueError)
    complete = sts == ["app"]
    for pe in range(pes):
        if complete and bool(pe < n) and pe not in have:
            complete = False
    if sts == ["app.old"] and not bool(n < 1):
        complete = False
    if sts == ["app.old"] and bool(n < 1):
        complete = True
    ctx.check((err is None) == complete, "a directory is read if and only if it has one sts file and all the logs it promises", lambda: (str(n), have, sts, extra, str(err)))
    ctx.cover("read" if err is None else "refused")
    if err is None and not bool(n < 1):
        got = sorted(set(int(p) for p in t.events["Process"]))
        ctx.check(bool(ctx.eq(n, len(got))) and got == list(range(len(got))), "the promised logs are read", lambda: (str(n), got))


def nowhere(ctx):
    """a path that is no directory"""
    from pipit import Trace
    what = ctx.choice("what", ["missing", "file", "sts", "log"])
    with tempdir() as d:
        proj.write(ctx, d, [[[14, 3, 0], [7, 9]]])
        path = os.path.join(d, {"missing": "no", "file": "some", "sts": "app.sts", "log": "app.0.log.gz"}[what])
        if what == "file":
            with open(path, "w") as f:
                f.write("x")
        err, t = attempt(lambda: Trace.from_projections(path), ValueError)
    ctx.check(err is not None, "only a directory is read", lambda: what)


def configs(tier):
    q = tier == "quick"
    return [
        Config("hpctoolkit", hpctoolkit, dict(which=list(MAGIC), span=[(0, 14), (0, 1), (9, 10), (10, 11), (13, 14)]), ["read", "refused"], "any bytes where the three files of a database name their format"),
        Config("projections", projections, dict(pes=3 if q else 5, logs=3 if q else 5, others=[[], ["app.projrc", "readme.sts.txt", "app.9.log.gz", "app.0.log"]]), ["read", "refused"], "any number of processors up to %d, any set of logs, none, one or two sts files" % (3 if q else 5)),
        Config("nowhere", nowhere, {}, [], "paths that are no directories"),
    ]
