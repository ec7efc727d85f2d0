"""Make pandas / numpy carry symbolic values.

Symbolic values live in object arrays; most of pandas then works on them
unchanged (it calls their operators, hence forks).  The few places where
pandas or numpy insist on machine numbers are replaced here.  Every
replacement acts only on object arrays that contain a symbolic value, and only
while a symbolic run is active; concrete runs use the original code.
"""
import contextlib
import builtins
import functools
import importlib
import json
import math
import sys

import numpy as np
import pandas as pd
from pandas.core import nanops, sorting
from pandas.core.dtypes import astype as _astype_mod

from fractions import Fraction

from . import core
from .core import Sym, Unsupported, trunc, _floor


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, (pd.Series, pd.Index)):
        if a.dtype != object:
            return False
        a = a._values
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(x, Sym) for x in a.ravel())
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if hasattr(a, "to_numpy") and getattr(a, "dtype", None) == object:
        return has_sym(a.to_numpy())
    return False


def active():
    return core.CTX is not None


ORIG = {}


def install(owner, name, new):
    ORIG[(owner, name)] = getattr(owner, name)
    setattr(owner, name, new)


def _obj(values):
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


def isna(x):
    return not isinstance(x, Sym) and (x is None or x is pd.NA or x is pd.NaT or
                                       (isinstance(x, float) and x != x))


# ---- arithmetic means --------------------------------------------------
_ensure_numeric = nanops._ensure_numeric


def ensure_numeric(x):
    if active() and has_sym(x):
        return x
    return _ensure_numeric(x)


install(nanops, "_ensure_numeric", ensure_numeric)

_nanmean = nanops.nanmean


def nanmean(values, *, axis=None, skipna=True, mask=None):
    if active() and isinstance(values, np.ndarray) and has_sym(values):
        def one(v):
            ok = [x for x in v if not isna(x)]
            if len(ok) < len(v) and not skipna or not ok:
                return float("nan")
            return functools.reduce(lambda a, b: a + b, ok) / len(ok)
        if values.ndim == 1:
            return one(list(values))
        if axis == 0:
            return _obj([one(list(values[:, j])) for j in range(values.shape[1])])
        return _obj([one(list(values[i])) for i in range(values.shape[0])])
    return _nanmean(values, axis=axis, skipna=skipna, mask=mask)


install(nanops, "nanmean", nanmean)


_nansum = nanops.nansum


def nansum(values, **k):
    if active() and isinstance(values, np.ndarray) and values.dtype == object and values.shape == (0,):
        return np.float64(0)  # an empty selection of a numeric column
    if active() and isinstance(values, np.ndarray) and values.dtype == object and any(isinstance(x, core.Narrow) for x in values.ravel()):
        values = _obj([core.widened(x) for x in values.ravel()]).reshape(values.shape)
    return _nansum(values, **k)


install(nanops, "nansum", nansum)


# ---- lists of the values of a column hold Python numbers, whatever type the column has ----
def _listing(orig):
    def listed(self):
        vals = orig(self)
        if active() and self.dtype == object:
            return [core.widened(x) for x in vals] if isinstance(vals, list) else iter([core.widened(x) for x in vals])
        return vals
    return listed


for _n in ("tolist", "to_list", "__iter__"):
    install(pd.Series, _n, _listing(getattr(pd.Series, _n)))

_is_integer_dtype = pd.api.types.is_integer_dtype


def is_integer_dtype(x):
    if active() and has_sym(x):
        return all_int(x)
    return _is_integer_dtype(x)


install(pd.api.types, "is_integer_dtype", is_integer_dtype)


# ---- a list of whole numbers and missing values becomes a column of float64 ----
_df_setitem = pd.DataFrame.__setitem__


def df_setitem(self, key, value):
    if active() and isinstance(value, list) and getattr(core.CTX, "wide", False) and any(isinstance(x, Sym) for x in value) \
            and any(isinstance(x, float) for x in value):
        value = [_narrow(Sym(x.coefs, x.const, False), 8) if isinstance(x, Sym) else x for x in value]
    return _df_setitem(self, key, value)


install(pd.DataFrame, "__setitem__", df_setitem)


# ---- dtype selection and conversion ------------------------------------
_select_dtypes = pd.DataFrame.select_dtypes


def select_dtypes(self, include=None, exclude=None):
    if active():
        symcols = [i for i in range(self.shape[1]) if has_sym(self.iloc[:, i])]
        if symcols:
            like = self.copy(deep=False)
            fake = pd.DataFrame({i: (pd.Series([0] * len(self), index=self.index,
                                               dtype="int64" if all_int(self.iloc[:, i]) else "float64")
                                     if i in symcols else like.iloc[:, i])
                                 for i in range(self.shape[1])}, index=self.index)
            keep = _select_dtypes(fake, include=include, exclude=exclude).columns
            return self.iloc[:, list(keep)]
    return _select_dtypes(self, include=include, exclude=exclude)


install(pd.DataFrame, "select_dtypes", select_dtypes)


def all_int(s):
    return all((isinstance(x, Sym) and x.isint) or isinstance(x, (int, np.integer)) for x in s)


_astype_array = _astype_mod.astype_array


def cast(x, dtype):
    """numpy cast of one element of an array of numbers"""
    k = dtype.kind
    if k == "f":
        if isinstance(x, Sym):
            return _narrow(Sym(x.coefs, x.const, False), dtype.itemsize)
        return x if isna(x) else (float(x) if dtype.itemsize == 8 else dtype.type(x))
    if k in "iu":
        if isna(x):
            raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        t = trunc(core.widened(x)) if isinstance(x, Sym) else int(x)
        if isinstance(t, Sym):
            t = core.wrapped(t, dtype)
        return t
    return None


def _narrow(x, size):
    """rounding of large whole numbers by float64 / float32 / float16 (nearest; ties to even)"""
    bits = {8: 53, 4: 24, 2: 11}.get(size)
    if bits is None:
        return x
    m = -x if x < 0 else x
    e = bits
    while e < 64 and m > 1 << e:
        e += 1
    if e == bits:
        return x
    ulp = 1 << (e - bits)
    h = (m + Fraction(ulp, 2)) / ulp
    r = _floor(h, False)
    if r == h and r % 2 == 1:
        r = r - 1
    r = r * ulp
    return -r if x < 0 else r


class TypedArray(np.ndarray):
    """object array standing for an array of numbers of type `num`: values are
    cast when stored (numpy wraps integers, drops fractions)"""

    num = None

    def __array_finalize__(self, o):
        self.num = getattr(o, "num", None)

    def __setitem__(self, k, v):
        if self.num is not None:
            if isinstance(v, np.ndarray) and v.ndim:
                v = np.asarray(v, dtype=object)
                v = _obj([cast(x, self.num) for x in v.ravel()]).reshape(v.shape)
            elif isinstance(v, (list, tuple, pd.Series, pd.Index)):
                v = _obj([cast(x, self.num) for x in v])
            else:
                v = cast(v, self.num)
        np.ndarray.__setitem__(self, k, v)

    def fill(self, v):
        np.ndarray.fill(self, v if self.num is None else cast(v, self.num))

    def __array_ufunc__(self, ufunc, method, *ins, out=None, **k):
        plain = [np.asarray(x) if isinstance(x, TypedArray) else x for x in ins]
        if method == "at":
            getattr(ufunc, method)(*plain, **k)
            if isinstance(ins[0], TypedArray):
                ins[0][...] = plain[0]
            return None
        if out is not None:
            tmp = getattr(ufunc, method)(*plain, **k)
            out[0][...] = tmp
            return out[0]
        return getattr(ufunc, method)(*plain, **k)


def typed(shape, dtype, value):
    out = np.empty(shape, dtype=object).view(TypedArray)
    out.num = np.dtype(dtype if dtype is not None else float)
    if out.num == np.float64:
        out = np.asarray(out)
    out.fill(value)
    return out


def astype_array(values, dtype, copy=False):
    if active() and isinstance(values, np.ndarray) and values.dtype == object and has_sym(values):
        if isinstance(dtype, np.dtype):
            if dtype == object:
                return _obj([core.widened(x) for x in values.ravel()]).reshape(values.shape)
            if dtype.kind in "iuf":
                flat = _obj([cast(x, dtype) for x in values.ravel()])
                return flat.reshape(values.shape)
            raise Unsupported("astype %s of symbolic values" % dtype)
        n = getattr(dtype, "name", "")
        if n.lower().startswith(("int", "uint", "float")):
            nd = np.dtype(n.lower())
            flat = _obj([x if isna(x) else cast(x, nd) for x in values.ravel()])
            return flat.reshape(values.shape)
    return _astype_array(values, dtype, copy=copy)


install(_astype_mod, "astype_array", astype_array)
for _m in ("pandas.core.internals.blocks", "pandas.core.dtypes.astype"):
    _mod = importlib.import_module(_m)
    if hasattr(_mod, "astype_array"):
        setattr(_mod, "astype_array", astype_array)

_to_numeric = pd.to_numeric


def to_numeric(arg, *a, **k):
    if active() and has_sym(arg):
        return arg
    return _to_numeric(arg, *a, **k)


pd.to_numeric = to_numeric


# ---- sorting ------------------------------------------------------------
def dense_ranks(values):
    """total preorder of the values, decided by comparisons (forks)"""
    n = len(values)

    def merge(ix):
        if len(ix) <= 1:
            return [[i] for i in ix]
        m = len(ix) // 2
        a, b = merge(ix[:m]), merge(ix[m:])
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            x, y = values[a[i][0]], values[b[j][0]]
            if x < y:
                out.append(a[i])
                i += 1
            elif x == y:
                out.append(a[i] + b[j])
                i += 1
                j += 1
            else:
                out.append(b[j])
                j += 1
        return out + a[i:] + b[j:]
    good = [i for i in range(n) if not isna(values[i])]
    ranks = np.full(n, np.nan)
    for r, grp in enumerate(merge(good)):
        for i in grp:
            ranks[i] = r
    return ranks if len(good) < n else ranks.astype("int64")


_nargsort = sorting.nargsort


def nargsort(items, *a, **k):
    if active() and has_sym(items):
        if k.get("key") is not None:
            raise Unsupported("sort key")
        k.pop("mask", None)
        return _nargsort(dense_ranks(list(items)), *a, **k)
    return _nargsort(items, *a, **k)


install(sorting, "nargsort", nargsort)
for _m in list(sys.modules.values()):
    if _m is not None and getattr(_m, "__name__", "").startswith("pandas") and \
            getattr(_m, "__dict__", {}).get("nargsort") is _nargsort:
        _m.nargsort = nargsort

_lexsort = sorting.lexsort_indexer


def lexsort_indexer(keys, *a, **k):
    if active():
        keys = [dense_ranks(list(x)) if has_sym(x) else x for x in keys]
    return _lexsort(keys, *a, **k)


install(sorting, "lexsort_indexer", lexsort_indexer)
for _m in list(sys.modules.values()):
    if _m is not None and getattr(_m, "__name__", "").startswith("pandas") and \
            getattr(_m, "__dict__", {}).get("lexsort_indexer") is _lexsort:
        _m.lexsort_indexer = lexsort_indexer

_s_nlargest, _s_nsmallest = pd.Series.nlargest, pd.Series.nsmallest


def nlargest(self, n=5, keep="first"):
    if active() and has_sym(self):
        r = pd.Series(dense_ranks(list(self)), index=range(len(self)))
        return self.iloc[list(_s_nlargest(r, n, keep).index)]
    return _s_nlargest(self, n, keep)


def nsmallest(self, n=5, keep="first"):
    if active() and has_sym(self):
        r = pd.Series(dense_ranks(list(self)), index=range(len(self)))
        return self.iloc[list(_s_nsmallest(r, n, keep).index)]
    return _s_nsmallest(self, n, keep)


pd.Series.nlargest, pd.Series.nsmallest = nlargest, nsmallest

_gb = pd.core.groupby.groupby.GroupBy
_gb_cumsum = _gb.cumsum


def gb_cumsum(self, *a, **k):
    obj = getattr(self, "_selected_obj", None)
    if active() and isinstance(obj, pd.Series) and has_sym(obj):
        return self.transform(lambda s: s.cumsum())
    return _gb_cumsum(self, *a, **k)


_gb.cumsum = gb_cumsum

_df_to_json = pd.DataFrame.to_json


JSON_TOKEN = "[json]"     # what the text of exported symbolic records looks like


def _json_capture(dest, recs):
    hook = getattr(core.CTX, "json_hook", None)
    if hook is None:
        raise Unsupported("JSON text of symbolic values")
    hook(recs)
    if dest is None:
        return JSON_TOKEN
    if hasattr(dest, "write"):
        dest.write(JSON_TOKEN)
    else:
        with open(dest, "w") as f:
            f.write(JSON_TOKEN)
    return None


def _deep_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    if isinstance(x, dict):
        return any(_deep_sym(v, depth - 1) for v in x.values())
    return isinstance(x, (list, tuple)) and any(_deep_sym(v, depth - 1) for v in x)


def df_to_json(self, path_or_buf=None, orient=None, **k):
    if active() and any(has_sym(self[c]) for c in self.columns):
        if orient != "records" or not all((o == "indent") or (o == "index" and v in (None, False)) or (o in ("lines",) and v is False) or (o == "force_ascii" and v in (True, False)) for o, v in k.items()):
            raise Unsupported("to_json")
        return _json_capture(path_or_buf, [dict(zip(self.columns, row)) for row in zip(*[list(self[c]) for c in self.columns])])
    return _df_to_json(self, path_or_buf=path_or_buf, orient=orient, **k)


_json_dump, _json_dumps = json.dump, json.dumps


def json_dump(obj, fp, **k):
    if active() and _deep_sym(obj):
        if set(k) - {"indent", "ensure_ascii", "separators"}:
            raise Unsupported("json.dump")
        return _json_capture(fp, obj)
    return _json_dump(obj, fp, **k)


def json_dumps(obj, **k):
    if active() and _deep_sym(obj):
        if set(k) - {"indent", "ensure_ascii", "separators"}:
            raise Unsupported("json.dumps")
        return _json_capture(None, obj)
    return _json_dumps(obj, **k)


json.dump, json.dumps = json_dump, json_dumps
pd.DataFrame.to_json = df_to_json

_series_to_numpy = pd.core.base.IndexOpsMixin.to_numpy


def series_to_numpy(self, dtype=None, *a, **k):
    if active() and dtype is not None and has_sym(self):
        nd = np.dtype(dtype)
        if nd != object:
            return _obj([cast(x, nd) for x in self])
    return _series_to_numpy(self, dtype, *a, **k)


pd.core.base.IndexOpsMixin.to_numpy = series_to_numpy


# ---- rounding, order statistics, running extremes -------------------------
def round_(x, n=0):
    """numpy's rounding (halves to even) to n digits"""
    if isinstance(x, Sym):
        r = x.__round__(n)
        return Sym(r.coefs, r.const, False) if isinstance(r, Sym) and not x.isint else builtins.float(r) if not x.isint else r
    return x if isna(x) or not isinstance(x, (builtins.int, builtins.float, np.number)) else np.round(x, n)


_s_round, _df_round = pd.Series.round, pd.DataFrame.round


def s_round(self, decimals=0, *a, **k):
    if active() and has_sym(self):
        return pd.Series(_obj([round_(x, decimals) for x in self]), index=self.index, name=self.name)
    return _s_round(self, decimals, *a, **k)


def df_round(self, decimals=0, *a, **k):
    if active() and any(has_sym(self.iloc[:, i]) for i in range(self.shape[1])):
        out = self.copy()
        for c in self.columns:
            n = decimals.get(c) if isinstance(decimals, (dict, pd.Series)) else decimals
            if n is not None and (has_sym(self[c]) or self[c].dtype.kind in "iuf"):
                out[c] = self[c].round(n)
        return out
    return _df_round(self, decimals, *a, **k)


pd.Series.round, pd.DataFrame.round = s_round, df_round


def middle(vals):
    """median"""
    r = dense_ranks(vals)
    v = [vals[i] for i in np.argsort(r, kind="stable")]
    n = len(v)
    return float("nan") if not n else v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


_nanmedian = nanops.nanmedian


def nanmedian(values, *, axis=None, skipna=True, mask=None):
    if active() and isinstance(values, np.ndarray) and has_sym(values):
        def one(v):
            ok = [x for x in v if not isna(x)]
            return float("nan") if len(ok) < len(v) and not skipna else middle(ok)
        if values.ndim == 1:
            return one(list(values))
        return _obj([one(list(c)) for c in (values.T if axis == 0 else values)])
    return _nanmedian(values, axis=axis, skipna=skipna, mask=mask)


install(nanops, "nanmedian", nanmedian)

_s_argsort = pd.Series.argsort


def s_argsort(self, axis=0, kind="quicksort", order=None, stable=None):
    if active() and has_sym(self):
        return _s_argsort(pd.Series(dense_ranks(list(self)), index=self.index, name=self.name), axis, kind, order)
    return _s_argsort(self, axis, kind, order)


pd.Series.argsort = s_argsort

for _name, _one in (("cummax", lambda s: s.cummax()), ("cummin", lambda s: s.cummin()), ("cumprod", lambda s: s.cumprod()), ("median", lambda s: s.median())):
    def _wrap(orig, one, agg):
        def f(self, *a, **k):
            obj = getattr(self, "_selected_obj", None)
            if active() and isinstance(obj, pd.Series) and has_sym(obj):
                return self.agg(one) if agg else self.transform(one)
            return orig(self, *a, **k)
        return f
    setattr(_gb, _name, _wrap(getattr(_gb, _name), _one, _name == "median"))
    _sgb = pd.core.groupby.generic.SeriesGroupBy
    if _name in vars(_sgb):
        setattr(_sgb, _name, _wrap(vars(_sgb)[_name], _one, _name == "median"))

_df_nlargest, _df_nsmallest = pd.DataFrame.nlargest, pd.DataFrame.nsmallest


def _df_pick(orig):
    def f(self, n, columns, keep="first"):
        cols = [columns] if not isinstance(columns, list) else columns
        if active() and any(has_sym(self[c]) for c in cols):
            fake = pd.DataFrame({c: dense_ranks(list(self[c])) for c in cols}, index=range(len(self)))
            return self.iloc[list(orig(fake, n, columns, keep).index)]
        return orig(self, n, columns, keep)
    return f


pd.DataFrame.nlargest, pd.DataFrame.nsmallest = _df_pick(_df_nlargest), _df_pick(_df_nsmallest)

_gnd = pd.DataFrame._get_numeric_data


def get_numeric_data(self):
    if active() and any(has_sym(self.iloc[:, i]) for i in range(self.shape[1])):
        return self.select_dtypes(include=["number", "bool"])
    return _gnd(self)


pd.DataFrame._get_numeric_data = get_numeric_data

_is_numeric, _is_int, _is_float = pd.api.types.is_numeric_dtype, pd.api.types.is_integer_dtype, pd.api.types.is_float_dtype
pd.api.types.is_numeric_dtype = lambda x: True if active() and has_sym(x) else _is_numeric(x)
pd.api.types.is_integer_dtype = lambda x: all_int(x) if active() and has_sym(x) else _is_int(x)
pd.api.types.is_float_dtype = lambda x: not all_int(x) if active() and has_sym(x) else _is_float(x)


# ---- numpy as seen by pipit --------------------------------------------
def _is_float_dtype(dt):
    return dt is None or np.dtype(dt).kind in "fiu"


def _counts(a, edges, weights):
    """numpy.histogram's documented contract: half-open bins, last closed"""
    n = len(edges) - 1
    out = [0] * n
    w = list(weights) if weights is not None else [1] * len(a)
    for x, wt in zip(a, w):
        if x < edges[0] or x > edges[n]:
            continue
        for i in range(n):
            if x < edges[i + 1] or (i == n - 1):
                out[i] = out[i] + wt
                break
    return _obj(out)


def sym_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div else float("nan")
    out = _obj([(start + i * (stop - start) / div) if div else start + 0.0 for i in range(num)])
    return (out, step) if retstep else out


def sym_histogram(a, bins=10, range=None, density=None, weights=None):
    if density:
        raise Unsupported("histogram density")
    a = list(np.asarray(a, dtype=object).ravel())
    if not isinstance(bins, (int, np.integer)):
        edges = list(bins)
    else:
        if range is not None:
            lo, hi = range
            if lo > hi:
                raise ValueError("max must be larger than min in range parameter.")
        elif not a:
            lo, hi = 0, 1
        else:
            lo, hi = a[0], a[0]
            for x in a[1:]:
                lo = x if x < lo else lo
                hi = x if x > hi else hi
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges = list(sym_linspace(lo, hi, int(bins) + 1))
    return _counts(a, edges, weights), _obj(edges)


class NpProxy:
    """numpy with object-array results where symbolic values may be stored"""

    def __getattr__(self, name):
        return getattr(np, name)

    @staticmethod
    def zeros(shape, dtype=None, **k):
        if not _is_float_dtype(dtype):
            return np.zeros(shape, dtype or float, **k)
        return typed(shape, dtype, 0 if dtype is not None and np.dtype(dtype).kind in "iu" else 0.0)

    @staticmethod
    def ones(shape, dtype=None, **k):
        if not _is_float_dtype(dtype):
            return np.ones(shape, dtype, **k)
        return typed(shape, dtype, 1)

    @staticmethod
    def empty(shape, dtype=None, **k):
        return NpProxy.zeros(shape, dtype)

    @staticmethod
    def full(shape, fill_value, dtype=None, **k):
        if not _is_float_dtype(dtype):
            return np.full(shape, fill_value, dtype, **k)
        if dtype is None and not isinstance(fill_value, Sym):
            dtype = np.asarray(fill_value).dtype
            if dtype.kind not in "iuf":
                return np.full(shape, fill_value, **k)
        return typed(shape, dtype, fill_value)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        if dtype is None and getattr(a, "num", None) is not None:
            dtype = a.num
        elif dtype is None and isinstance(a, np.ndarray) and a.dtype != object:
            dtype = a.dtype
        return NpProxy.zeros(np.shape(a), dtype)

    @staticmethod
    def array(a, dtype=None, **k):
        if dtype is not None and np.dtype(dtype).kind in "iuf":
            o = np.array(a, dtype=object)
            if has_sym(o):
                return _obj([cast(x, np.dtype(dtype)) for x in o.ravel()]).reshape(o.shape)
        return np.array(a, dtype=dtype, **k)

    @staticmethod
    def asarray(a, dtype=None, **k):
        return NpProxy.array(a, dtype)

    @staticmethod
    def linspace(start, stop, num=50, *a, **k):
        if isinstance(start, Sym) or isinstance(stop, Sym):
            return sym_linspace(start, stop, num, *a, **k)
        return np.linspace(start, stop, num, *a, **k)

    @staticmethod
    def histogram(a, bins=10, range=None, density=None, weights=None):
        if has_sym(a) or has_sym(bins) or has_sym(weights) or has_sym(range) or \
                (isinstance(range, (list, tuple)) and any(isinstance(x, Sym) for x in range)) or \
                (hasattr(a, "map") and any(isinstance(x, Sym) for x in a)):
            return sym_histogram(a, bins, range, density, weights)
        return np.histogram(a, bins=bins, range=range, density=density, weights=weights)

    @staticmethod
    def histogram_bin_edges(a, bins=10, range=None, weights=None):
        return sym_histogram(a, bins, range)[1]

    @staticmethod
    def isnan(a):
        if isinstance(a, Sym):
            return False
        return pd.isna(a)

    @staticmethod
    def isfinite(a):
        if isinstance(a, Sym):
            return True
        if has_sym(a):
            f = lambda x: isinstance(x, Sym) or builtins.bool(np.isfinite(x))  # noqa: E731
            return a.map(f).astype(bool) if isinstance(a, pd.Series) else np.array([f(x) for x in np.asarray(a, dtype=object).ravel()]).reshape(np.shape(a))
        return np.isfinite(a)

    @staticmethod
    def isinf(a):
        return False if isinstance(a, Sym) else np.isinf(a) if not has_sym(a) else np.zeros(np.shape(a), dtype=bool)

    @staticmethod
    def round(a, decimals=0, out=None):
        if isinstance(a, Sym):
            return round_(a, decimals)
        if has_sym(a):
            if isinstance(a, (pd.Series, pd.DataFrame)):
                return a.round(decimals)
            o = np.asarray(a, dtype=object)
            return _obj([round_(x, decimals) for x in o.ravel()]).reshape(o.shape)
        return np.round(a, decimals)

    around = rint = round

    @staticmethod
    def median(a, axis=None, **k):
        if has_sym(a) and axis is None:
            return middle(list(np.asarray(a, dtype=object).ravel()))
        return np.median(a, axis=axis, **k)

    @staticmethod
    def bincount(x, weights=None, minlength=0):
        if has_sym(weights) or getattr(weights, "dtype", None) == object:
            x = [builtins.int(i) for i in x]
            out = typed(max([minlength] + [i + 1 for i in x]), float, 0)
            for i, w in zip(x, weights):
                out[i] += w
            return out
        if has_sym(x):
            raise Unsupported("bincount of symbolic values")
        return np.bincount(x, weights=weights, minlength=minlength)

    @staticmethod
    def floor(a):
        if isinstance(a, Sym):
            return _floor(a, False)
        return np.floor(a)

    @staticmethod
    def argsort(a, axis=-1, kind=None, order=None, **k):
        if has_sym(a):
            return np.argsort(dense_ranks(list(a)), kind=kind, **k)
        return np.argsort(a, axis=axis, kind=kind, order=order, **k)


np_proxy = NpProxy()


class MathProxy:
    """math with symbolic arguments"""

    def __getattr__(self, name):
        return getattr(math, name)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, Sym) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if isinstance(x, Sym) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, Sym) else math.isfinite(x)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, Sym) else math.fabs(x)

    @staticmethod
    def fsum(xs):
        xs = list(xs)
        return functools.reduce(lambda a, b: a + b, xs) if has_sym(xs) else math.fsum(xs)

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not (isinstance(a, Sym) or isinstance(b, Sym)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if isna(a) or isna(b):
            return False
        m = abs(a) if abs(a) > abs(b) else abs(b)
        tol = m * Fraction(rel_tol)
        tol = tol if tol > Fraction(abs_tol) else Fraction(abs_tol)
        return builtins.bool(abs(a - b) <= tol)


math_proxy = MathProxy()


# ---- int() / float() as seen by pipit ------------------------------------
def int_hooks(x, *a):
    h = getattr(core.CTX, "int_hook", None)
    if h is not None:
        r = h(x, *a)
        if r is not NotImplemented:
            return r
    return NotImplemented


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.isint)

    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if isinstance(x, Sym):
                return trunc(x)
            r = int_hooks(*a)
            if r is not NotImplemented:
                return r
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sym_int(metaclass=_IntMeta):
    dtype = np.dtype(int)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        h = getattr(b, "sym_from_bytes", None)
        if h is not None:
            return h(byteorder, signed)
        return builtins.int.from_bytes(b, byteorder, signed=signed)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and not x.isint)

    def __call__(cls, *a, **k):
        if a:
            if isinstance(a[0], Sym):
                return _narrow(Sym(a[0].coefs, a[0].const, False), 8)
            r = int_hooks(*a)
            if r is not NotImplemented:
                return r
        return builtins.float(*a, **k)


class sym_float(metaclass=_FloatMeta):
    dtype = np.dtype(float)
    is_integer = staticmethod(lambda x: x.is_integer())
    fromhex = builtins.float.fromhex


class _NumMeta(type):
    """the number types of numpy, called on symbolic values"""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real) if c is not cls else True

    def __call__(cls, *a, **k):
        if a and not k and (isinstance(a[0], Sym) or has_sym(a[0])):
            x = a[0]
            if isinstance(x, Sym):
                return cast(x, cls.dtype)
            o = np.asarray(x, dtype=object)
            return _obj([cast(v, cls.dtype) for v in o.ravel()]).reshape(o.shape)
        return cls.real(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.__dict__["real"], n)

    def __eq__(cls, o):
        return o is cls or o is cls.real or isinstance(o, np.dtype) and o == cls.dtype

    def __hash__(cls):
        return hash(cls.real)


for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "float16", "float32", "float64"):
    setattr(NpProxy, _n, _NumMeta(_n, (), {"real": getattr(np, _n), "dtype": np.dtype(_n)}))


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.str)

    def __call__(cls, *a, **k):
        if a and hasattr(a[0], "sym_from_bytes") and (len(a) > 1 or k):
            return a[0].decode(*a[1:], **k)
        return builtins.str(*a, **k)

    def __getattr__(cls, n):
        return getattr(builtins.str, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)


class sym_str(metaclass=_StrMeta):
    """str of symbolic bytes; only in modules that read binary files"""


def pipit_modules():
    for m in ("pipit", "pipit.trace", "pipit.graph", "pipit.util", "pipit.util.cct", "pipit.util.config",
              "pipit.writers.chrome_writer", "pipit.readers", "pipit.readers.otf2_reader",
              "pipit.readers.projections_reader", "pipit.readers.hpctoolkit_reader",
              "pipit.readers.nsight_reader"):
        try:
            yield importlib.import_module(m)
        except ImportError:
            pass


_MODS = None


def inject(mods):
    saved = []
    for m in mods:
        d = m.__dict__
        names = {k: v for k, v in d.items() if v is np or v is math}
        saved.append((d, names, "int" in d, "float" in d))
        for k, v in names.items():
            d[k] = np_proxy if v is np else math_proxy
        d["int"] = sym_int
        d["float"] = sym_float
        if d["__name__"].endswith("hpctoolkit_reader"):
            d["str"] = sym_str
    return saved


@contextlib.contextmanager
def symbolic():
    """run with the symbolic views of numpy/int injected into pipit's modules"""
    global _MODS
    if _MODS is None:
        _MODS = [m for m in list(pipit_modules())]
        _MODS += [m for n, m in list(sys.modules.items()) if n.startswith("pipit.") and m not in _MODS]
    saved = []
    try:
        saved += inject(_MODS)
        yield
    finally:
        for d, n, hi, hf in saved:
            d.update(n)
            if not hi:
                d.pop("int", None)
            if not hf:
                d.pop("float", None)
            d.pop("str", None)
