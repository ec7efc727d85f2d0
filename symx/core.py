"""Dynamic symbolic execution core.

A `Sym` is a linear term over SMT variables together with the value it has in
the current model ("shadow").  Branches follow the shadow and are recorded;
the explorer asks Z3 for the other side of every branch, so all feasible paths
are executed.  `check` records an assertion that Z3 must prove on the path.
"""
import math
import numbers
import os
import sys
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import z3  # noqa: E402

NAN = float("nan")


class Resolve(BaseException):
    """The current model violates an assumption: a new model is needed."""


class Infeasible(BaseException):
    pass


class Unsupported(BaseException):
    """The symbolic encoding cannot follow the code here (inconclusive)."""


class TooLong(BaseException):
    """CPU limit for one execution exceeded."""


CTX = None  # the active symbolic context (None in concrete mode)


def _norm(x):
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    raise TypeError(x)


def _const(o):
    """python / numpy number -> exact int/Fraction, None if not a finite number"""
    t = type(o)
    if t is int:
        return o
    if t is bool:
        return int(o)
    if t is float:
        if o != o or o in (math.inf, -math.inf):
            return None
        return _norm(Fraction(o))
    if t is Fraction:
        return _norm(o)
    if hasattr(o, "item") and not isinstance(o, Sym) and getattr(o, "ndim", 1) == 0:
        v = o.item()
        if type(v) in (int, float, bool):
            return _const(v)
    return None


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("name", "isint", "z", "value", "lo", "hi", "aux")
    TABLE = {}

    def __init__(self, name, isint):
        self.name, self.isint = name, isint
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.value = 0
        self.lo = self.hi = None
        self.aux = None

    @classmethod
    def get(cls, name, isint=True):
        k = (name, isint)
        v = cls.TABLE.get(k)
        if v is None:
            v = cls.TABLE[k] = Var(name, isint)
        return v


class Sym:
    """coefs: dict Var->int/Fraction, const: int/Fraction, isint: python int or float"""

    __slots__ = ("coefs", "const", "isint", "_sh")
    ndim = 0

    def __init__(self, coefs, const, isint):
        self.coefs, self.const, self.isint = coefs, const, isint
        self._sh = None

    # -- shadow
    @property
    def shadow(self):
        s = self._sh
        if s is None:
            s = self.const
            for v, c in self.coefs.items():
                s += c * v.value
            s = self._sh = _norm(s) if type(s) is not int else s
        return s

    # -- helpers
    @staticmethod
    def _coerce(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return Sym({}, int(bool(o)), True)
        c = _const(o)
        if c is None:
            return None
        isint = not (isinstance(o, float) or type(o) is Fraction or
                     (hasattr(o, "dtype") and o.dtype.kind == "f"))
        return Sym({}, c, isint)

    def _lin(self, o, k):
        """self + k*o"""
        coefs = dict(self.coefs)
        for v, c in o.coefs.items():
            n = coefs.get(v, 0) + k * c
            if n == 0:
                coefs.pop(v, None)
            else:
                coefs[v] = n if type(n) is int else _norm(n)
        const = self.const + k * o.const
        return _mk(coefs, const, self.isint and o.isint and type(k) is int)

    def __add__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        return NotImplemented if p is None else self._lin(p, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        return NotImplemented if p is None else self._lin(p, -1)

    def __rsub__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        return NotImplemented if p is None else p._lin(self, -1)

    def __neg__(self):
        return self._scale(-1, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _scale(self, k, isint):
        if k == 0:
            return 0 if isint else 0.0
        return _mk({v: _norm(c * k) for v, c in self.coefs.items()},
                   self.const * k, isint)

    def __mul__(self, o):
        if _isnan(o):
            return NAN
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        p = Sym._coerce(o)
        if p is None:
            return NotImplemented
        isint = self.isint and p.isint
        if not p.coefs:
            return self._scale(p.const, isint)
        if not self.coefs:
            return p._scale(self.const, isint)
        return _product(self, p, isint)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        if p is None:
            return NotImplemented
        return _divide(self, p)

    def __rtruediv__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        if p is None:
            return NotImplemented
        return _divide(p, self)

    def __floordiv__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        if p is None:
            return NotImplemented
        return _floor(_divide(self, p), self.isint and p.isint)

    def __rfloordiv__(self, o):
        p = Sym._coerce(o)
        return NotImplemented if p is None else p.__floordiv__(self)

    def __mod__(self, o):
        if _isnan(o):
            return NAN
        p = Sym._coerce(o)
        if p is None:
            return NotImplemented
        return self - p * self.__floordiv__(p)

    def __rmod__(self, o):
        p = Sym._coerce(o)
        return NotImplemented if p is None else p.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("pow")

    def _intop(self, *a):
        raise Unsupported("bit operation on a symbolic value")

    __lshift__ = __rshift__ = __and__ = __or__ = __xor__ = _intop
    __rlshift__ = __rrshift__ = __rand__ = __ror__ = __rxor__ = __invert__ = _intop

    # -- comparisons
    def _cmp(self, o, op):
        if _isnan(o):
            return op == "!="
        p = Sym._coerce(o)
        if p is None:
            if isinstance(o, (float, )) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0):
                f = float(o)
                if f == math.inf:
                    return op in ("<", "<=", "!=")
                if f == -math.inf:
                    return op in (">", ">=", "!=")
            return NotImplemented
        return compare(self, p, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if not self.coefs:
            return hash(self.const)
        if _bounded(self):
            return hash(_ctx().concretize(self))
        # dictionaries with plain keys: the keys that are there (declared by the harness) are told apart
        for k in _ctx().hash_keys:
            if self == k:
                return hash(k)
        _ctx().note("symbolic value used as hash key")
        return 0x5EED

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        r = trunc(self)
        if isinstance(r, Sym):
            return int(_ctx().concretize(r))
        return int(r)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_ctx().concretize(self))

    def __float__(self):
        if not self.coefs:
            return float(self.const)
        return float(_ctx().concretize(self))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return _floor(self, True)

    def __ceil__(self):
        return -_floor(-self, True)

    def __round__(self, n=None):
        if self.isint and (n is None or n >= 0):
            return self
        if n is not None and n != 0:
            k = Fraction(10) ** int(n)
            r = round(self * k)
            r = r._scale(1 / k, self.isint) if isinstance(r, Sym) else _norm(Fraction(r) / k)
            return r if isinstance(r, (Sym, int)) else float(r)
        fl = _floor(self, True)
        d = self - fl
        if d < Fraction(1, 2):
            return fl
        if d > Fraction(1, 2):
            return fl + 1
        return fl if fl % 2 == 0 else fl + 1

    def is_integer(self):
        return True if self.isint else self == _floor(self, True)

    def item(self):
        return self

    def conjugate(self):
        return self

    def __repr__(self):
        return "Sym(%s)" % (self.shadow,)

    def __str__(self):
        """text that stands for this number: `SymCtx.number` gives it back"""
        t = getattr(CTX, "texts", None)
        if t is None:
            return repr(self)
        t.append(self)
        return "\ue002%d\ue003" % (len(t) - 1)

    def __format__(self, spec):
        return repr(self) if spec else str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic value")


numbers.Number.register(Sym)


def _isnan(o):
    return (isinstance(o, float) and o != o) or o is _NA


from pandas import NA as _NA  # noqa: E402


def _ctx():
    if CTX is None:
        raise RuntimeError("symbolic value outside a symbolic run")
    return CTX


def _mk(coefs, const, isint):
    const = const if type(const) is int else _norm(const)
    if not coefs:
        if isint and type(const) is int:
            return const
        if type(const) is int:
            if abs(const) < 2**53:
                return float(const)
        elif const.denominator & (const.denominator - 1) == 0 and abs(const.numerator) < 2**53:
            return float(const)
    return Sym(coefs, const, isint)


def _bounded(s):
    for v in s.coefs:
        if v.lo is None or v.hi is None or v.hi - v.lo > 4096:
            return False
    return True


def _key(coefs, const):
    return (tuple(sorted((v.name, c) for v, c in coefs.items())), const)


def _scaled(coefs, const):
    """multiply by lcm of denominators, divide by gcd (positive scale)"""
    l = 1
    for c in list(coefs.values()) + [const]:
        if type(c) is not int:
            l = l * c.denominator // math.gcd(l, c.denominator)
    if l != 1:
        coefs = {v: int(c * l) for v, c in coefs.items()}
        const = int(const * l)
    return coefs, const


def compare(a, b, op):
    d = a._lin(b, -1)
    if not isinstance(d, Sym) or not d.coefs:
        c = d.const if isinstance(d, Sym) else d
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0}[op]
    if op == ">":
        return _atom("<", {v: -c for v, c in d.coefs.items()}, -d.const)
    if op == ">=":
        return _atom("<=", {v: -c for v, c in d.coefs.items()}, -d.const)
    if op == "!=":
        r = _atom("==", d.coefs, d.const)
        return (not r) if isinstance(r, bool) else r.neg()
    return _atom(op, d.coefs, d.const)


def _atom(op, coefs, const):
    coefs, const = _scaled(coefs, const)
    allint = all(v.isint for v in coefs)
    g = 0
    for c in coefs.values():
        g = math.gcd(g, c)
    if allint:
        if op == "<":
            op, const = "<=", const + 1
        # sum + const <= 0  <=>  sum/g <= floor(-const/g)
        if op == "<=":
            coefs = {v: c // g for v, c in coefs.items()}
            const = -((-const) // g)
        else:
            if const % g:
                return False
            coefs = {v: c // g for v, c in coefs.items()}
            const = const // g
    else:
        coefs = {v: _norm(Fraction(c, g)) for v, c in coefs.items()}
        const = _norm(Fraction(const, g))
    if op == "==":
        first = min(coefs, key=lambda v: v.name)
        if coefs[first] < 0:
            coefs = {v: -c for v, c in coefs.items()}
            const = -const
    elif allint and op == "<=":
        # canonical sign so that x and not x share one atom:
        # not(e <= 0) == (-e + 1 <= 0)
        first = min(coefs, key=lambda v: v.name)
        if coefs[first] < 0:
            return SymBool("atom", ("<=", {v: -c for v, c in coefs.items()}, -const + 1)).neg()
    return SymBool("atom", (op, coefs, const))


class Narrow(Sym):
    """a whole number stored in an array of a fixed integer type: arithmetic with
    numbers of such arrays and with constants wraps as numpy's does"""

    __slots__ = ("num",)

    def plain(self):
        return Sym(self.coefs, self.const, True)

    def _arith(self, name, o):
        r = getattr(Sym, name)(self, o)
        num = self.num
        if isinstance(o, Narrow):
            num = np.result_type(num, o.num)
        elif isinstance(o, Sym) or type(o) is not int and not isinstance(o, np.integer) and o is not self:
            return r
        if num.kind not in "iu" or not isinstance(r, (Sym, int)):
            return r
        return narrow(r, num)

    def __add__(self, o):
        return self._arith("__add__", o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith("__sub__", o)

    def __rsub__(self, o):
        return self._arith("__rsub__", o)

    def __mul__(self, o):
        return self._arith("__mul__", o)

    __rmul__ = __mul__

    def __neg__(self):
        return narrow(Sym.__neg__(self), self.num)

    def __hash__(self):
        return Sym.__hash__(self)


def span(x):
    """interval of the values the declared bounds of the variables allow"""
    lo = hi = x.const
    for v, c in x.coefs.items():
        if v.lo is None or v.hi is None:
            return -math.inf, math.inf
        lo, hi = lo + min(c * v.lo, c * v.hi), hi + max(c * v.lo, c * v.hi)
    return lo, hi


def wrapped(t, num):
    """the value of the integer type `num` that the whole number t is stored as"""
    bits = num.itemsize * 8
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if num.kind == "i" else (0, (1 << bits) - 1)
    if not isinstance(t, Sym):
        return (t - lo) % (1 << bits) + lo
    a, b = span(t)
    if (a < lo or b > hi) and (not (t >= lo) or not (t <= hi)):
        t = (t - lo) % (1 << bits) + lo
    return t


def narrow(t, num):
    t = wrapped(Sym(t.coefs, t.const, True) if isinstance(t, Sym) else t, num)
    if not isinstance(t, Sym):
        t = Sym({}, t, True)
    n = Narrow(t.coefs, t.const, True)
    n.num = num
    return n


def widened(x):
    return x.plain() if isinstance(x, Narrow) else x


class SymBool:
    """Formula with shadow value."""

    __slots__ = ("kind", "args", "_sh", "_z", "_k")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self._sh = self._z = self._k = None

    @property
    def shadow(self):
        if self._sh is None:
            k, a = self.kind, self.args
            if k == "atom":
                op, coefs, s = a
                for v, c in coefs.items():
                    s += c * v.value
                self._sh = s <= 0 if op == "<=" else s == 0 if op == "==" else s < 0
            elif k == "not":
                self._sh = not a.shadow
            elif k == "and":
                self._sh = all(x.shadow for x in a)
            else:
                self._sh = any(x.shadow for x in a)
        return self._sh

    @property
    def key(self):
        if self._k is None:
            k, a = self.kind, self.args
            if k == "atom":
                self._k = (a[0],) + _key(a[1], a[2])
            elif k == "not":
                self._k = ("not", a.key)
            else:
                self._k = (k,) + tuple(x.key for x in a)
        return self._k

    @property
    def z(self):
        if self._z is None:
            k, a = self.kind, self.args
            if k == "atom":
                op, coefs, const = a
                e = z3.Sum([zc(c, v) for v, c in coefs.items()]) if len(coefs) > 1 else \
                    [zc(c, v) for v, c in coefs.items()][0]
                rhs = -const
                rhs = rhs if type(rhs) is int else z3.RealVal(str(rhs))
                self._z = e <= rhs if op == "<=" else e == rhs if op == "==" else e < rhs
            elif k == "not":
                self._z = z3.Not(a.z)
            elif k == "and":
                self._z = z3.And(*[x.z for x in a])
            else:
                self._z = z3.Or(*[x.z for x in a])
        return self._z

    def neg(self):
        return self.args if self.kind == "not" else SymBool("not", self)

    def __bool__(self):
        return _ctx().branch(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "SymBool(%s)" % self.shadow


def zc(c, v):
    if c == 1:
        return v.z
    return (c if type(c) is int else z3.RealVal(str(c))) * v.z


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.kind == "and":
                out.extend(x.args)
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.kind == "or":
                out.extend(x.args)
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def Not(x):
    return x.neg() if isinstance(x, SymBool) else not x


def Implies(a, b):
    return Or(Not(a), b)


# ------------------------------------------------ non-linear / integer parts
def _aux(name, isint, value, defs):
    v = Var.get(name, isint)
    v.value = value
    _ctx().define(v, defs)
    return v


def _divide(a, b):
    if not b.coefs:
        if b.const == 0:
            raise ZeroDivisionError("division by zero")
        return a._scale(Fraction(1) / b.const, False) if a.coefs else \
            _mk({}, Fraction(a.const) / b.const, False)
    if b == 0:
        raise ZeroDivisionError("division by zero")
    # proportional terms divide to a constant
    if set(a.coefs) == set(b.coefs):
        v0 = next(iter(b.coefs))
        r = Fraction(a.coefs[v0]) / b.coefs[v0]
        if all(a.coefs[v] == r * b.coefs[v] for v in b.coefs) and a.const == r * b.const:
            return _mk({}, r, False)
    if not a.coefs and a.const == 0:
        return 0.0
    # canonical scale: first coefficient of the divisor is 1
    first = min(b.coefs, key=lambda v: v.name)
    k = Fraction(b.coefs[first])
    bn, an = b._scale(1 / k, False), (a._scale(1 / k, False) if a.coefs else
                                      Sym({}, _norm(Fraction(a.const) / k), False))
    if not isinstance(an, Sym):
        an = Sym({}, _const(an), False)
    ka = Fraction(an.coefs[min(an.coefs, key=lambda v: v.name)]) if an.coefs else Fraction(an.const)
    an1 = an._scale(1 / ka, False) if an.coefs else Sym({}, 1, False)
    if not isinstance(an1, Sym):
        an1 = Sym({}, _const(an1), False)
    name = "quot[%s/%s]" % (_key(an1.coefs, an1.const), _key(bn.coefs, bn.const))
    q = _aux(name, False, Fraction(an1.shadow) / Fraction(bn.shadow),
             lambda v: v.z * zterm(bn) == zterm(an1))
    return Sym({q: _norm(ka)}, 0, False)


def _product(a, b, isint):
    ka, kb = sorted([_key(a.coefs, a.const), _key(b.coefs, b.const)])
    p = _aux("prod[%s*%s]" % (ka, kb), all(v.isint for v in a.coefs) and isint and
             all(v.isint for v in b.coefs), _norm(Fraction(a.shadow) * b.shadow),
             lambda v: v.z == zterm(a) * zterm(b))
    return Sym({p: 1}, 0, isint)


def zterm(s):
    e = [zc(c, v) for v, c in s.coefs.items()]
    if s.const != 0 or not e:
        e.append(z3.RealVal(str(s.const)) if type(s.const) is not int or not s.isint
                 else z3.IntVal(s.const))
    return z3.Sum(e) if len(e) > 1 else e[0]


def _floor(s, isint):
    """floor of a Sym/number as a (python int if isint else float-kind) term"""
    if not isinstance(s, Sym):
        f = math.floor(s)
        return f if isint else float(f)
    if not s.coefs:
        f = math.floor(s.const)
        return f if isint else float(f)
    if all(v.isint for v in s.coefs) and all(type(c) is int for c in s.coefs.values()):
        return _mk(dict(s.coefs), math.floor(s.const), isint)
    # split off the integral part
    whole = {v: math.floor(c) for v, c in s.coefs.items() if v.isint and math.floor(c) != 0}
    wc = math.floor(s.const)
    frac = {}
    for v, c in s.coefs.items():
        r = c - whole.get(v, 0)
        if r != 0:
            frac[v] = _norm(r) if type(r) is not int else r
    fc = s.const - wc
    fs = Sym(frac, fc if type(fc) is int else _norm(fc), False)
    if not frac:
        return _mk(whole, wc, isint)
    name = "floor[%s]" % (_key(fs.coefs, fs.const),)
    sh = math.floor(fs.shadow)
    l = 1
    for c in list(fs.coefs.values()) + [fs.const]:
        if type(c) is not int:
            l = l * c.denominator // math.gcd(l, c.denominator)
    if all(v.isint for v in fs.coefs):
        ls = fs._scale(l, True)

        def defs(v):
            t = zterm(ls)
            return z3.And(l * v.z <= t, t < l * v.z + l)
    else:
        def defs(v):
            t = zterm(fs)
            return z3.And(v.z <= t, t < v.z + 1)
    q = _aux(name, True, sh, defs)
    whole[q] = 1
    return _mk(whole, wc, isint)


def trunc(s):
    """python int(): truncation towards zero"""
    if not isinstance(s, Sym):
        return int(s)
    if s.isint:
        return s
    if all(v.isint for v in s.coefs) and all(type(c) is int for c in s.coefs.values()) and type(s.const) is int:
        return _mk(dict(s.coefs), s.const, True)
    if s >= 0:
        return _floor(s, True)
    return -_floor(-s, True)


# ------------------------------------------------------------------ context
GALLOP = 2 ** 12


class SymCtx:
    """One symbolic execution, following `model`."""

    sym = True
    hash_keys = ()

    def __init__(self, model, config):
        self.model, self.config = model, config
        self.path = []      # entries: [kind, formula/term, alternatives]
        self.known = {}
        self.obls = []      # (formula, label, path position)
        self.covers = {}
        self.notes = {}
        self.failed = None  # (label, detail) concretely false on this model
        self.vars = {}
        self.defined = set()
        self.trivial = 0
        self.log = []
        self.observed = []
        self.texts = []

    def number(self, s):
        """the number a text produced by str(number) stands for"""
        if isinstance(s, str) and s.startswith("\ue002") and s.endswith("\ue003"):
            return self.texts[int(s[1:-1])]
        return int(s)

    # -- inputs
    def int(self, name, lo=None, hi=None):
        v = Var.get(name, True)
        if name in self.vars:
            raise RuntimeError("variable declared twice: " + name)
        self.vars[name] = v
        v.lo, v.hi = lo, hi
        if name in self.model:
            v.value = self.model[name]
        else:
            v.value = 0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else (lo if lo is not None else hi)
        s = Sym({v: 1}, 0, True)
        if lo is not None:
            self._constrain(s >= lo)
        if hi is not None:
            self._constrain(s <= hi)
        if not ((lo is None or v.value >= lo) and (hi is None or v.value <= hi)):
            raise Resolve()
        return s

    def quarter(self, name, lo=None, hi=None, per=4):
        """a number of the form k/4 (exact as a float)"""
        return self.int(name, None if lo is None else lo * per, None if hi is None else hi * per) / per

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        s = self.int(name, 0, len(options) - 1)
        return options[self.concretize(s)]

    def lazy(self, name, options):
        """a string that is one of `options`; decided only when compared"""
        s = self.int(name, 0, len(options) - 1)
        return SymEnum(s, tuple(options))

    # -- path
    def _constrain(self, f):
        if isinstance(f, SymBool):
            self.path.append(("assume", f, None))

    def define(self, v, defs):
        if v.name not in self.defined:
            self.defined.add(v.name)
            self.path.append(("def", defs(v), v))

    def branch(self, f):
        neg = False
        while f.kind == "not":
            f, neg = f.args, not neg
        k = f.key
        r = self.known.get(k)
        if r is None:
            r = self.known[k] = f.shadow
            self.path.append(("branch", f if r else f.neg(), None))
            if len(self.path) > 20000:
                raise TooLong("path too long")
        return r != neg

    def concretize(self, s):
        if not isinstance(s, Sym):
            return s
        val = s.shadow
        k = ("val",) + _key(s.coefs, s.const)
        if k in self.known:
            return self.known[k]
        self.known[k] = val
        f = s == val
        if isinstance(f, bool):
            return val
        if len(s.coefs) == 1:
            (v, c), = s.coefs.items()
            if v.lo is not None and v.hi is not None and v.hi - v.lo <= 128:
                alts = [c * i + s.const for i in range(v.lo, v.hi + 1)]
                self.known.setdefault(f.key, True)
                self.path.append(("switch", f, [s == a for a in alts if a != val]))
                return val
        if _bounded(s) and s.isint:
            lo = s.const + sum(min(c * v.lo, c * v.hi) for v, c in s.coefs.items())
            hi = s.const + sum(max(c * v.lo, c * v.hi) for v, c in s.coefs.items())
            while lo < hi:
                mid = (lo + hi) // 2
                if s <= mid:
                    hi = mid
                else:
                    lo = mid + 1
            return val
        if s.isint and -GALLOP <= val <= GALLOP:
            # search outwards: the solver prunes what the path excludes
            sign = 1
            if s < 0:
                s, val, sign = -s, -val, -1
            hi = 1
            while not s < hi:
                hi *= 2
            lo = hi // 2
            while lo < hi - 1:
                mid = (lo + hi) // 2
                if s < mid:
                    hi = mid
                else:
                    lo = mid
            return sign * val
        self.note("INCOMPLETE: unbounded value concretized")
        self.path.append(("assume", f, None))
        return val

    def assume(self, c):
        if isinstance(c, SymBool):
            self.path.append(("assume", c, None))
            if not c.shadow:
                raise Resolve()
        elif not c:
            raise Infeasible()

    def check(self, c, label, detail=None):
        if isinstance(c, SymBool):
            if not c.shadow:
                self._fail(label, detail)
            self.obls.append((c, label, len(self.path)))
        elif not bool(c):
            self._fail(label, detail)
        else:
            self.trivial += 1

    def _fail(self, label, detail):
        if self.failed is None:
            self.failed = (label, repr(detail() if callable(detail) else detail)[:600])

    def eq(self, a, b):
        """numeric equality (exact here, with tolerance on floats concretely)"""
        if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
            r = a == b
            return False if r is NotImplemented else r
        na, nb = _missing(a), _missing(b)
        if na or nb:
            return na and nb
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return int(a) == int(b)
        try:
            if math.isinf(a) or math.isinf(b):
                return float(a) == float(b)
            return _fr(a) == _fr(b) or abs(float(a) - float(b)) <= 1e-9 * max(getattr(self, "scale", 1.0), abs(float(a)))
        except (TypeError, ValueError):
            return a == b

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    def observe(self, label, value):
        self.observed.append((label, value))


def _fr(x):
    c = _const(x)
    return x if c is None else c


def _missing(x):
    if x is None:
        return True
    if isinstance(x, Sym):
        return False
    try:
        import pandas as pd
        r = pd.isna(x)
        return r if isinstance(r, bool) else bool(r) if getattr(r, "ndim", 1) == 0 else False
    except (TypeError, ValueError):
        return False


class SymEnum(str):
    """A string whose value among `options` is undecided until it is looked at.

    As a `str` its content is the current model's option, so any operation the
    code performs on it other than ==, != and hash sees the shadow value; those
    operations are preceded by a decision through `decide` where pandas or the
    interpreter gives us a hook (hash).
    """

    def __new__(cls, s, options):
        o = str.__new__(cls, options[s.shadow])
        o.s, o.options = s, options
        return o

    def decide(self):
        return self.options[_ctx().concretize(self.s)]

    def __eq__(self, other):
        if isinstance(other, SymEnum):
            if other is self:
                return True
            if other.options == self.options:
                return bool(self.s == other.s)
            return bool(self == other.decide())
        if isinstance(other, str):
            if other not in self.options:
                return False
            return bool(self.s == self.options.index(other))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.decide())

    def __lt__(self, o):
        return self.decide() < (o.decide() if isinstance(o, SymEnum) else o)

    def __reduce__(self):
        return (str, (self.decide(),))


class ConCtx:
    """One concrete execution with plain Python values."""

    sym = False

    def __init__(self, model, config, real_env=False):
        self.model, self.config, self.real_env = model, config, real_env
        self.failed = None
        self.covers, self.notes = {}, {}
        self.observed = []
        self.checks = 0

    def number(self, s):
        return int(s)

    def int(self, name, lo=None, hi=None):
        if name in self.model:
            v = self.model[name]
        else:
            v = 0 if (lo is None or lo <= 0) and (hi is None or hi >= 0) else (lo if lo is not None else hi)
        return int(v)

    def quarter(self, name, lo=None, hi=None, per=4):
        return self.int(name, None if lo is None else lo * per, None if hi is None else hi * per) / per

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    lazy = choice

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, label, detail=None):
        self.checks += 1
        if not bool(c) and self.failed is None:
            self.failed = (label, repr(detail() if callable(detail) else detail)[:600])

    def eq(self, a, b):
        na, nb = _missing(a), _missing(b)
        if na or nb:
            return na and nb
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return int(a) == int(b)
        if fa.is_integer() and fb.is_integer() and getattr(self, "wide", False):
            return int(a) == int(b)
        if fa.is_integer() and fb.is_integer() and abs(fa) + abs(fb) < 2 ** 50:
            return fa == fb
        return abs(fa - fb) <= 1e-6 * max(getattr(self, "scale", 1.0), abs(fa), abs(fb))

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def note(self, msg):
        pass

    def observe(self, label, value):
        self.observed.append((label, value))

    def concretize(self, x):
        return x
