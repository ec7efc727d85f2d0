"""Shared trace builders and oracles.  Everything here works both on symbolic
and on plain values and is independent of pipit's implementation."""
import zlib

import numpy as np
import pandas as pd

from symx.core import narrow, Sym, SymEnum, And, Or, Not, Implies  # noqa: F401
from symx import explore


class Config(explore.Config):
    """params may contain `dtypes`: how the columns of traces are stored (category, plain, unused),
    and `clock`: "late" for times from 2^53 on, "epoch" for times about 2^60, "quarters" for times that are multiples of a quarter, "signed" for times that may be negative,
    and `grouped`: rows are grouped by process, the last process first, instead of being in time order"""

    def __init__(self, name, fn, params=None, *a, **k):
        params = dict(params or {})
        dt = params.pop("dtypes", None)
        clock = params.pop("clock", None)
        grouped = params.pop("grouped", False)
        if dt or clock or grouped:
            inner = fn

            def fn(ctx, **kw):
                if dt:
                    ctx.dtypes = dt if isinstance(dt, str) else ctx.choice("dtypes", list(dt))
                ctx.clock, ctx.grouped = clock, grouped
                ctx.wide = clock in ("late", "epoch")
                return inner(ctx, **kw)
        super().__init__(name, fn, params, *a, **k)

KINDS = ["Enter", "Leave", "Instant"]
OTHER = ["Loop Enter", "Leave Loop", "enter"]    # further event types, such as the HPCToolkit reader has
TMAX = 2 ** 50


def isnull(x):
    if isinstance(x, Sym):
        return False
    return x is None or x is pd.NA or (isinstance(x, float) and x != x)


def growth(ctx, name, used, limit):
    """restricted-growth choice: symmetric labels are explored once"""
    k = min(len(used) + 1, limit)
    v = ctx.choice(name, list(range(k)))
    if v == len(used):
        used.append(v)
    return v


def times(ctx, n, strict=False, lo=None, prefix="t"):
    out = []
    for i in range(n):
        clock = getattr(ctx, "clock", None)
        if clock == "quarters":
            t = ctx.quarter("%s%d" % (prefix, i), 0 if lo is None else lo, 2 ** 40)
        elif clock == "signed":
            t = ctx.int("%s%d" % (prefix, i), -TMAX, TMAX)
        elif clock in ("late", "epoch"):
            t = ctx.int("%s%d" % (prefix, i), 2 ** 53 if clock == "late" else 2 ** 60 + 1, 2 ** 62 if clock == "late" else 2 ** 61)
            if i:
                ctx.assume(t - out[0] <= TMAX)
        else:
            t = ctx.int("%s%d" % (prefix, i), lo, TMAX if lo is not None else None)
        if i:
            ctx.assume(out[-1] < t if strict else out[-1] <= t)
        out.append(t)
    return out


LONG = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
# names that are equal only if all of the text counts: length, case, blanks, prefixes, parameters
NAMES = [LONG + "f(int)", LONG + "f(Int)", LONG + "f(int) ", "qux"]


def arrange(ctx, rows):
    return sorted(rows, key=lambda r: -r["p"]) if getattr(ctx, "grouped", False) else rows


def rows_any(ctx, n, names=2, procs=1, threads=None, kinds=KINDS, lazy_names=True, tlo=0):
    """n arbitrary rows"""
    ts = times(ctx, n, lo=tlo)
    rows = []
    up, ut = [], []
    for i in range(n):
        k = ctx.choice("k%d" % i, kinds)
        p = growth(ctx, "p%d" % i, up, procs) if procs > 1 else 0
        r = {"t": ts[i], "k": k, "p": p}
        if threads:
            r["th"] = growth(ctx, "th%d" % i, ut, threads)
        if k not in ("Enter", "Leave"):
            r["n"] = NAMES[0]
        else:
            r["n"] = (ctx.lazy if lazy_names else ctx.choice)("n%d" % i, NAMES[:names])
        rows.append(r)
    return arrange(ctx, rows)


def frame(ctx, rows, extra=(), categorical=True):
    d = {"Timestamp (ns)": col(ctx, [r["t"] for r in rows]),
         "Event Type": [r["k"] for r in rows],
         "Name": col(ctx, [r["n"] for r in rows]),
         "Process": [r["p"] for r in rows]}
    if rows and "th" in rows[0]:
        d["Thread"] = [r["th"] for r in rows]
    for c in extra:
        d[c] = col(ctx, [r[c] for r in rows], getattr(ctx, "storage", {}).get(c))
    df = pd.DataFrame(d)
    how = getattr(ctx, "dtypes", "category")
    if categorical and how != "plain":
        cats = {"Event Type": "category", "Process": "category"}
        if not any(isinstance(r["n"], SymEnum) for r in rows):
            cats["Name"] = "category"
        if "Thread" in df.columns:
            cats["Thread"] = "category"
        if how == "unused":
            # categories that do not occur, in another order than that of first occurrence
            more = {"Event Type": "None", "Process": 77, "Thread": 77, "Name": "never"}
            cats = {c: pd.CategoricalDtype([more[c]] + sorted(set(df[c]), reverse=True)) for c in cats}
        df = df.astype(cats)
    return df


def col(ctx, vals, storage=None):
    """storage: the integer type of the column"""
    if storage:
        num = np.dtype(storage)
        return pd.Series([narrow(v, num) for v in vals], dtype=object) if ctx.sym else pd.Series(vals, dtype=num)
    if ctx.sym and any(isinstance(v, (Sym, SymEnum)) for v in vals):
        return pd.Series(vals, dtype=object)
    return pd.Series(vals)


def make_trace(ctx, rows, extra=(), categorical=True):
    from pipit.trace import Trace
    return Trace(None, frame(ctx, rows, extra, categorical))


def loc(r):
    return (r["p"], r.get("th"))


def loc_rows(rows):
    out = {}
    for i, r in enumerate(rows):
        out.setdefault(loc(r), []).append(i)
    return out


def match_oracle(ctx, rows):
    """most recent still-open Enter of the same name on the same location"""
    m = [None] * len(rows)
    for ixs in loc_rows(rows).values():
        opened = []
        for i in ixs:
            k = rows[i]["k"]
            if k == "Enter":
                opened.append(i)
            elif k == "Leave":
                for j in reversed(opened):
                    if rows[j]["n"] == rows[i]["n"]:
                        m[i], m[j] = j, i
                        opened.remove(j)
                        break
    return m


def rows_balanced(ctx, n, names=2, procs=1, threads=None, open_end=True, lazy=False, fresh_names=None,
                  stray=False, instant=False, tlo=0, proc_ids=None, name_list=None):
    """n rows in which every Leave ends the innermost open call of its location
    (with `stray`, Leaves of never-opened functions and Instants may occur anywhere)"""
    nl = name_list or NAMES[:names]
    ts = times(ctx, n, lo=tlo)
    rows, up, ut, un, open_ = [], [], [], [], {}
    for i in range(n):
        p = growth(ctx, "p%d" % i, up, procs) if procs > 1 else 0
        r = {"t": ts[i], "p": proc_ids[p] if proc_ids else p}
        if threads:
            r["th"] = growth(ctx, "th%d" % i, ut, threads)
        st = open_.setdefault(loc(r), [])
        opts = ["Enter"]
        nopen = sum(len(s) for s in open_.values())
        left = n - i
        if not open_end and nopen >= left:
            opts = []
        if st:
            opts.append("Leave")
        if stray:
            opts.append("Stray")
        if instant:
            opts += ["Instant"] if instant is True else list(instant)
        if not opts:
            from symx.core import Infeasible
            raise Infeasible()
        k = ctx.choice("k%d" % i, opts)
        r["k"] = "Leave" if k == "Stray" else k
        if k == "Enter":
            if name_list:
                r["n"] = ctx.choice("n%d" % i, nl)
            else:
                r["n"] = nl[growth(ctx, "n%d" % i, un, names)]
            st.append(i)
        elif k == "Leave":
            r["n"] = rows[st.pop()]["n"]
        elif k == "Stray":
            # a name like that of the open call
            top = rows[st[-1]]["n"] if st else "stray"
            like = top + "_impl" if i % 2 else top[:-1]
            r["n"] = "stray" if any(rows[j]["n"] == like for j in st) else like
        else:
            r["n"] = "marker" if instant is True else (nl[un[-1]] if un else nl[0])
        rows.append(r)
    return arrange(ctx, rows)


def nested(rows, m):
    """matched calls of each location are properly nested (by row order)"""
    for ixs in loc_rows(rows).values():
        st = []
        for i in ixs:
            if rows[i]["k"] == "Enter" and m[i] is not None:
                st.append(i)
            elif rows[i]["k"] == "Leave" and m[i] is not None:
                if not st or st.pop() != m[i]:
                    return False
    return True


def require_nested(ctx, rows, m):
    if not nested(rows, m):
        from symx.core import Infeasible
        raise Infeasible()


def tree_oracle(rows, m):
    """(parent, depth, children) of every matched Enter, from interval containment"""
    n = len(rows)
    parent, depth, children = [None] * n, [None] * n, [[] for _ in range(n)]
    if n > 2000:
        for ixs in loc_rows(rows).values():
            open_ = []
            for i in ixs:
                while open_ and m[open_[-1]] < i:
                    open_.pop()
                if rows[i]["k"] == "Enter" and m[i] is not None:
                    depth[i] = len(open_)
                    if open_:
                        parent[i] = open_[-1]
                        children[open_[-1]].append(i)
                    open_.append(i)
        return parent, depth, children
    for i in range(n):
        if rows[i]["k"] != "Enter" or m[i] is None:
            continue
        enc = [j for j in range(i) if rows[j]["k"] == "Enter" and m[j] is not None and loc(rows[j]) == loc(rows[i])
               and m[j] > m[i]]
        depth[i] = len(enc)
        if enc:
            parent[i] = max(enc)
            children[max(enc)].append(i)
    return parent, depth, children


def nan_sub(a, b):
    return float("nan") if isnull(a) or isnull(b) else a - b


def inc_oracle(rows, m, key):
    return [nan_sub(rows[m[i]][key], r[key]) if r["k"] == "Enter" and m[i] is not None else None
            for i, r in enumerate(rows)]


def exc_oracle(rows, m, children, inc):
    out = []
    for i, r in enumerate(rows):
        if inc[i] is None:
            out.append(None)
            continue
        v = inc[i]
        for c in children[i]:
            v = nan_sub(v, inc[c])
        out.append(v)
    return out


def same(ctx, a, b):
    """equality of optional numbers"""
    if isnull(a) or isnull(b):
        return isnull(a) and isnull(b)
    return ctx.eq(a, b)


def rows_flat(ctx, calls, names=2, procs=2, proc_ids=None, threads=None, name_list=None, tlo=0, nest=False):
    """`calls` complete calls one after the other (with `nest`, each may contain one more call)"""
    nl = name_list or NAMES[:names]
    per = 4 if nest else 2
    ts = times(ctx, calls * per, lo=tlo)
    rows, un, up, ut = [], [], [], []
    for c in range(calls):
        base = {}
        p = growth(ctx, "p%d" % c, up, procs) if procs > 1 else 0
        base["p"] = proc_ids[p] if proc_ids else p
        if threads:
            base["th"] = growth(ctx, "th%d" % c, ut, threads)
        pick = (lambda v: ctx.choice(v, nl)) if name_list else (lambda v: nl[growth(ctx, v, un, len(nl))])
        name = pick("n%d" % c)
        inner = None
        if nest:
            inner = pick("m%d" % c) if ctx.choice("nest%d" % c, [True, False]) else None
        seq = [("Enter", name)] + ([("Enter", inner), ("Leave", inner)] if inner else []) + [("Leave", name)]
        for j, (k, n) in enumerate(seq):
            rows.append(dict(base, t=ts[c * per + (j if len(seq) == per or j == 0 else per - 1)], k=k, n=n))
    return arrange(ctx, rows)


def rows_deep(ctx, depths, names=3, procs=1, threads=None, tlo=0, backs=None):
    """a long chain of nested calls, part of which returns and is called again"""
    depth = ctx.choice("depth", depths)
    back = ctx.choice("back", backs or [1, depth // 2, depth - 1, depth])
    again = ctx.choice("again", [back] if backs else [1, back, depth])
    close = ctx.choice("close", [True, False])
    swap = ctx.choice("swap", [False, True])
    seq, st = [], []

    def enter(d):
        st.append(NAMES[d % names])
        seq.append(("Enter", st[-1]))

    def leave():
        seq.append(("Leave", st.pop()))
    for d in range(depth):
        enter(d)
    for _ in range(back):
        leave()
    for d in range(again):
        enter(depth - back + d + (1 if swap else 0))
    while close and st:
        leave()
    ts = times(ctx, 2, lo=tlo)
    rows = []
    for i, (k, n) in enumerate(seq):
        r = {"t": ts[0] + 5 * i if i < len(seq) // 2 else ts[1] + 5 * i, "k": k, "n": n, "p": 0}
        if threads:
            r["th"] = 0
        rows.append(r)
    return rows


def rows_huge(ctx, many, places=1, names=3, procs=1, threads=None):
    """on each of `places` locations, a function makes `many` short calls and then some nested ones; the rows of the
    locations alternate; only the times of the last rows are symbolic"""
    seq = [("Enter", NAMES[0])]
    for _ in range(many):
        seq += [("Enter", NAMES[2]), ("Leave", NAMES[2])]
    seq += [("Enter", NAMES[1]), ("Enter", NAMES[2]), ("Leave", NAMES[2]), ("Leave", NAMES[1]), ("Enter", NAMES[1]), ("Leave", NAMES[1]), ("Leave", NAMES[0])]
    if ctx.choice("unfinished", [False, True]):
        seq.pop()
    n = len(seq) * places
    ts = times(ctx, 3, lo=n)
    rows = []
    for k, name in seq:
        for q in range(places):
            i = len(rows)
            j = i - (n - 4 * places)
            r = {"t": i if j < 0 else ts[min(j // places, 2)] + j, "k": k, "n": name, "p": q // threads if threads else q}
            if threads:
                r["th"] = q % threads
            rows.append(r)
    return rows


def rows_skip(ctx, depths, names=2, procs=1):
    """many calls stay open while an outer one returns; then they return, the oldest first or last"""
    d = ctx.choice("depth", depths)
    order = ctx.choice("order", ["outer", "oldest", "newest"])
    a, b = NAMES[:2]
    seq = [("Enter", a)] + [("Enter", b if i % 5 else NAMES[2]) for i in range(d)]
    last = [("Leave", n) for _, n in (seq[1:] if order == "oldest" else reversed(seq[1:]))] if order != "outer" else []
    seq += [("Leave", a)] + last
    ts = times(ctx, 2, lo=0)
    return [{"t": ts[0 if i <= d else 1] + 3 * i, "k": k, "n": n, "p": 0} for i, (k, n) in enumerate(seq)]


def rows_variety(ctx, funcs, places=1, procs=1, threads=None, rigid=False):
    """many different functions, each of which calls the same two"""
    place = ctx.choice("place", [places] if isinstance(places, int) else places)
    ts = times(ctx, 2, lo=0)
    rows = []
    for q in range(place):
        rows.append(("Enter", "main", q))
    for i in range(funcs):
        for q in range(place):
            rows += [("Enter", "function %d" % i, q), ("Enter", "get", q), ("Leave", "get", q), ("Enter", "put", q), ("Leave", "put", q), ("Leave", "function %d" % i, q)]
    for q in range(place):
        rows.append(("Leave", "main", q))
    out = []
    for j, (k, n, q) in enumerate(rows):
        r = {"t": ts[0 if rigid or j < len(rows) - 3 else 1] + 8 * j + j % 5, "k": k, "n": n, "p": q // threads if threads else q}
        if threads:
            r["th"] = q % threads
        out.append(r)
    return out


class Rigid:
    """a context of which only the numbers asked for at the places (or by the names) `free` stay
    symbolic: every other number and every choice is fixed (by its name), for inputs of realistic length"""

    def __init__(self, ctx, free=(2,), salt=0):
        self.__dict__.update(inner=ctx, free=set(free), salt=salt, asked=0, rigid=True)

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def __setattr__(self, k, v):
        if k in self.__dict__:
            self.__dict__[k] = v
        else:
            setattr(self.inner, k, v)

    def _hash(self, name):
        return zlib.crc32(b"%d %s" % (self.salt, name.encode()))

    def int(self, name, lo=None, hi=None):
        if ".byte" in name:
            return self.inner.int(name, lo, hi)  # the bytes of a field, not an input of their own
        self.asked += 1
        if self.asked - 1 in self.free or name in self.free:
            return self.inner.int(name, lo, hi)
        h = self._hash(name)
        lo = -2 ** 40 if lo is None else lo
        hi = lo + 2 ** 41 if hi is None else hi
        return lo + (h * 2654435761 >> 7) % min(hi - lo + 1, [3, 12, 300, 2 ** 20, 2 ** 34][h % 5])

    def quarter(self, name, lo=None, hi=None, per=4):
        return self.int(name, None if lo is None else lo * per, None if hi is None else hi * per) / per

    def assume(self, c):
        if c is False:
            self.inner.notes["a fixed input was outside the assumptions"] = 1
        self.inner.assume(c)

    def choice(self, name, options):
        options = list(options)
        return options[(self._hash(name) >> 9) % len(options)]

    lazy = choice
