"""Bounded symbolic strings: symbolic length and characters."""
from . import core
from .core import And, Or, Not, Sym, SymBool, compare


def text(ctx, name, maxlen, lo=1, hi=0xD7FF):
    """an arbitrary string of at most maxlen characters"""
    n = ctx.int(name + ".len", 0, maxlen)
    cs = [ctx.int("%s[%d]" % (name, i), lo, hi) for i in range(maxlen)]
    if not ctx.sym:
        return "".join(map(chr, cs[:n]))
    return SymStr(n, cs)


class SymStr(str):
    """str whose content is the current model's; ==, prefix/suffix tests and
    length comparisons are decided symbolically"""

    xf = None

    def __new__(cls, n, cs, xf=None):
        k = n.shadow if isinstance(n, Sym) else n
        o = str.__new__(cls, "".join(chr(c.shadow if isinstance(c, Sym) else c) for c in cs[:k]))
        if xf:
            o = str.__new__(cls, getattr(str(o), xf)())
        o.n, o.cs, o.xf = n, cs, xf
        return o

    def _at(self, pos, lit):
        """characters pos.. equal lit (length not considered)"""
        if pos + len(lit) > len(self.cs):
            return False
        return And(*[Or(*[formula(self.cs[pos + i], x) for x in preimage(self.xf, c)]) for i, c in enumerate(lit)])

    def _len(self):
        return core._ctx().concretize(self.n) if isinstance(self.n, Sym) else self.n

    def _case(self, xf):
        if self.xf not in (None, xf):
            return getattr(str(self), xf)()
        return SymStr(self.n, self.cs, xf)

    def upper(self):
        return self._case("upper")

    def lower(self):
        return self._case("lower")

    def casefold(self):
        return self._case("lower")

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _space(self, c, chars):
        return bool(Or(*[formula(c, ord(x)) for x in (WHITE if chars is None else chars)]))

    def lstrip(self, chars=None):
        n, i = self._len(), 0
        while i < n and self._space(self.cs[i], chars):
            i += 1
        return SymStr(n - i, self.cs[i:n], self.xf)

    def rstrip(self, chars=None):
        n = self._len()
        while n and self._space(self.cs[n - 1], chars):
            n -= 1
        return SymStr(n, self.cs[:n], self.xf)

    def endswith(self, p, *a):
        if a:
            return str.endswith(self, p, *a)
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        n = self._len()
        return n >= len(p) and bool(self._at(n - len(p), p))

    def __contains__(self, p):
        n = self._len()
        return any(bool(self._at(i, p)) for i in range(0, n - len(p) + 1))

    def __len__(self):
        return self._len()

    def eq_formula(self, o):
        if o is self:
            return True
        if isinstance(o, SymStr):
            if self.xf or o.xf:
                return str.__eq__(self, o)
            m = min(len(self.cs), len(o.cs))
            cl = [formula(self.n, o.n), le(self.n, m), le(o.n, m)]
            for i in range(m):
                cl.append(Or(le(self.n, i), formula(self.cs[i], o.cs[i])))
            return And(*cl)
        if len(o) > len(self.cs):
            return False
        return And(formula(self.n, len(o)), self._at(0, o))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bool(self.eq_formula(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return str.__hash__(self)

    def startswith(self, p, *a):
        if a:
            return str.startswith(self, p, *a)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return bool(And(Not(le(self.n, len(p) - 1)), self._at(0, p)))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1) and k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0:
            m = min(k.stop, len(self.cs))
            return SymStr(m if not bool(le(self.n, m)) else self.n, self.cs[:m], self.xf)
        return str.__getitem__(self, k)

    def __bool__(self):
        return not bool(formula(self.n, 0))


WHITE = [c for c in map(chr, range(0x3001)) if c.isspace()]
_PRE = {}


def preimage(xf, c):
    """code points whose upper/lower case form is c (one-character forms only)"""
    if xf is None:
        return [ord(c)]
    if (xf, c) not in _PRE:
        _PRE[xf, c] = [x for x in range(0xD7FF) if getattr(chr(x), xf)() == c]
    return _PRE[xf, c]


def formula(a, b):
    if not isinstance(a, Sym):
        a, b = b, a
    if not isinstance(a, Sym):
        return a == b
    return compare(a, Sym._coerce(b), "==")


def le(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return compare(Sym._coerce(a), Sym._coerce(b), "<=")
    return a <= b
