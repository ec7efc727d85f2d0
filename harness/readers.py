"""Shared parts of the reader harnesses: symbolic numbers inside text files,
in-process worker pools."""
import contextlib
import multiprocessing
import os
import re
import shutil
import sys
import tempfile

from symx.core import Sym

TOKEN = re.compile("\x01(\\d+)\x02")  # characters that any encoding keeps


class Texts:
    """numbers written into text: digits concretely, placeholders symbolically;
    int()/float() of a placeholder inside pipit gives the symbolic number back"""

    def __init__(self, ctx):
        self.ctx, self.vals = ctx, []
        if ctx.sym:
            ctx.int_hook = self.hook

    def __call__(self, v):
        if not isinstance(v, Sym):
            return str(v)
        self.vals.append(v)
        return "\x01%d\x02" % (len(self.vals) - 1)

    def hook(self, x, *a):
        if isinstance(x, str) and not a:
            m = TOKEN.fullmatch(x.strip())
            if m:
                return self.vals[int(m.group(1))]
        return NotImplemented


class FakePool:
    """a worker pool whose tasks run one after the other in this process; where
    results are taken as they are completed, the order of completion is chosen"""
    sizes = []
    ctx = None

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        FakePool.sizes.append(processes)
        if initializer is not None:
            initializer(*initargs)

    def map(self, f, xs, chunksize=None):
        return [f(x) for x in xs]

    def imap(self, f, xs, chunksize=None):
        return iter([f(x) for x in xs])

    def imap_unordered(self, f, xs, chunksize=None):
        return iter(completed(self.map(f, xs)))

    def starmap(self, f, xs, chunksize=None):
        return [f(*x) for x in xs]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def map_async(self, f, xs, chunksize=None, callback=None, error_callback=None):
        return Done(self.map(f, xs), callback)

    def starmap_async(self, f, xs, chunksize=None, callback=None, error_callback=None):
        return Done(self.starmap(f, xs), callback)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return Done(f(*args, **kwds), callback)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def completed(results):
    """results in some order of completion"""
    results = list(results)
    if len(results) < 2 or FakePool.ctx is None:
        return results
    k = FakePool.ctx.choice("completed", ["in order", "reversed", "rotated"])
    return results if k == "in order" else results[::-1] if k == "reversed" else results[1:] + results[:1]


class FakeExecutor(FakePool):
    """concurrent.futures.ProcessPoolExecutor"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        FakePool.__init__(self, max_workers, initializer, initargs)

    def map(self, f, *xs, timeout=None, chunksize=1):
        return iter([f(*x) for x in zip(*xs)])

    def submit(self, f, *a, **k):
        import concurrent.futures
        d = concurrent.futures.Future()
        d.set_result(f(*a, **k))
        return d

    def shutdown(self, *a, **k):
        pass


class Done:
    def __init__(self, v, callback=None):
        self.v = v
        if callback is not None:
            callback(v)

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    successful = ready


class FakeContext:
    """multiprocessing.get_context()"""
    Pool = FakePool

    @staticmethod
    def cpu_count():
        return multiprocessing.cpu_count()


@contextlib.contextmanager
def pools(ctx, cpus=None):
    """in-process pools (in the fresh-process replay the real ones, except for the order of completion)"""
    import concurrent.futures
    import multiprocessing.pool
    FakePool.sizes, FakePool.ctx = [], ctx
    new, attrs = {}, {}

    def patch(owner, name, value):
        attrs[owner, name] = getattr(owner, name)
        new[id(getattr(owner, name))] = value
        setattr(owner, name, value)

    undo = []
    try:
        if not getattr(ctx, "real_env", False):
            patch(multiprocessing, "Pool", FakePool)
            patch(multiprocessing, "get_context", lambda method=None: FakeContext)
            patch(multiprocessing.pool, "Pool", FakePool)
            patch(multiprocessing.pool, "ThreadPool", FakePool)
            patch(concurrent.futures, "ProcessPoolExecutor", FakeExecutor)
            patch(concurrent.futures, "ThreadPoolExecutor", FakeExecutor)
            patch(concurrent.futures, "as_completed", lambda fs, timeout=None: iter(completed(fs)))
        else:
            patch(multiprocessing.pool.Pool, "imap_unordered", lambda self, *a, **k: iter(completed(self.imap(*a, **k))))
            patch(concurrent.futures, "as_completed", lambda fs, timeout=None: iter(completed(fs)))
        if cpus is not None:
            patch(multiprocessing, "cpu_count", lambda: cpus)
            patch(os, "cpu_count", lambda: cpus)
        for name, m in list(sys.modules.items()):  # names imported from these modules
            if name.split(".")[0] == "pipit" and m is not None:
                for k, v in list(vars(m).items()):
                    if id(v) in new:
                        undo.append((m, k, v))
                        setattr(m, k, new[id(v)])
        yield FakePool.sizes
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        for (owner, name), v in attrs.items():
            setattr(owner, name, v)
        FakePool.ctx = None


@contextlib.contextmanager
def tempdir():
    d = tempfile.mkdtemp(prefix="symx")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def stable_sorted(items, key):
    """stable sort by (possibly symbolic) times"""
    out = []
    for x in items:
        i = len(out)
        while i and key(x) < key(out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def equal(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return bool(ctx.eq(a, b))


@contextlib.contextmanager
def csvs(ctx, txt):
    """pandas.read_csv giving placeholders their symbolic numbers back"""
    import pandas as pd
    if not ctx.sym:
        yield
        return
    real = pd.read_csv

    def cell(x):
        if isinstance(x, str):
            m = TOKEN.fullmatch(x.strip())
            if m:
                return txt.vals[int(m.group(1))]
        return x

    def mixed(x):
        """a number in a column that also has symbolic ones"""
        if isinstance(x, str):
            for f in (int, float):
                try:
                    return f(x)
                except ValueError:
                    pass
        return x

    def read_csv(*a, **k):
        dtype = k.get("dtype")
        late = {}
        if isinstance(dtype, dict):
            head = real(*a, **{x: y for x, y in k.items() if x != "dtype"})
            late = {c: d for c, d in dtype.items() if c in head.columns and any(isinstance(cell(v), Sym) for v in head[c])}
            k["dtype"] = {c: d for c, d in dtype.items() if c not in late}
        df = real(*a, **k)
        for c in list(df.columns):
            vals = [cell(x) for x in df[c]]
            if any(isinstance(x, Sym) for x in vals):
                df[c] = pd.Series([mixed(x) for x in vals], dtype=object, index=df.index)
                if c in late:
                    df[c] = df[c].astype(late[c])
        return df

    pd.read_csv = read_csv
    try:
        yield
    finally:
        pd.read_csv = real


def write_csv(path, header, rows, sep=","):
    with open(path, "w", encoding="utf-8") as f:
        for r in [header] + rows:
            f.write(sep.join(quoted(x) for x in r) + "\n")


def quoted(x):
    return '"%s"' % x.replace('"', '""') if any(c in x for c in ',"\n') else x
