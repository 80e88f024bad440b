"""Symbolic Python values: integers, strings, floats, and containers that
compare their elements symbolically."""
import collections.abc
import z3
from . import iset, charclass
from .core import (CTX, SV, SX, SymBool, Unsupported, Var, atom, ball, bany, band, bnot, bor, beq, bounds, rel,
                   scalar_bv, scalar_eq, scalar_key, scalar_lt, scalar_vars, width_for, truth_term)


def is_sym(x):
    """x itself is symbolic (not looking into containers)."""
    return type(x) in SYM_TYPES


def has_sym(x, depth=0):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if t in (str, int, float, bool, type(None), bytes):
        return False
    if depth > 8:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(e, depth + 1) for e in x)
    if t is dict:
        return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in x.items())
    if t is SSet:
        return any(has_sym(e, depth + 1) for e in x.items)
    if t is SDict:
        return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in x.pairs)
    if issubclass(t, tuple):                # a named tuple
        return any(has_sym(e, depth + 1) for e in x)
    return False


# ------------------------------------------------------------------ integers

def sc(x):
    """scalar of an int-like"""
    t = type(x)
    if t is SymInt:
        return x.s
    if t is SymBool:
        return int(bool(x))
    if t is bool:
        return int(x)
    return x


def mkint(s, text=None):
    if type(s) is int:
        return s
    return SymInt(s, text)


class SymInt(object):
    """An exact bounded integer."""
    __slots__ = ('s', 'text')

    def __init__(self, s, text=None):
        self.s = s
        self.text = text

    @property
    def __class__(self):
        return int

    @property
    def real(self):
        return self

    def key(self):
        return ('i', scalar_key(self.s))

    # arithmetic
    def _bin(self, o, op, rev=False):
        if type(o) is SymFloat or (type(o) is float):
            raise Unsupported('symbolic int with float')
        if not isinstance(o, int):
            return NotImplemented
        a, b = self.s, sc(o)
        if rev:
            a, b = b, a
        return mkint(arith(op, a, b))

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * CTX().choose(self.s)
        return self._bin(o, '*')

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * CTX().choose(self.s)
        return self._bin(o, '*', True)

    def __floordiv__(self, o):
        return self._bin(o, '//')

    def __rfloordiv__(self, o):
        return self._bin(o, '//', True)

    def __mod__(self, o):
        return self._bin(o, '%')

    def __rmod__(self, o):
        return self._bin(o, '%', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return CTX().choose(self.s) / o

    def __rtruediv__(self, o):
        return o / CTX().choose(self.s)

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 8 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(CTX().choose(self.s), o, m)

    def __rpow__(self, o):
        return o ** CTX().choose(self.s)

    def __and__(self, o):
        return self._bin(o, '&')

    def __rand__(self, o):
        return self._bin(o, '&', True)

    def __or__(self, o):
        return self._bin(o, '|')

    def __ror__(self, o):
        return self._bin(o, '|', True)

    def __xor__(self, o):
        return self._bin(o, '^')

    def __rxor__(self, o):
        return self._bin(o, '^', True)

    def __lshift__(self, o):
        return self * (1 << int_of(o))

    def __rshift__(self, o):
        return self // (1 << int_of(o))

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return CTX().choose(self.s)

    __int__ = __index__

    def __float__(self):
        return float(CTX().choose(self.s))

    def __round__(self, n=None):
        return self

    # comparison
    def __eq__(self, o):
        to = type(o)
        if to is SymFloat:
            return o == self
        if to is float:
            if o != int(o):
                return False
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if to is SymInt and self.text is not None and o.text is not None:
            return self.text == o.text
        if self.text is not None and to is int:
            return self.text == str(o)
        return scalar_eq(self.s, sc(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return scalar_lt(self.s, sc(o))

    def __gt__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return scalar_lt(sc(o), self.s)

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')

    def __str__(self):
        return 'SymInt(%r)' % (self.s,)

    __repr__ = __str__

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic int')

    def bit_length(self):
        return CTX().choose(self.s).bit_length()


def int_of(x):
    return CTX().choose(x.s) if type(x) is SymInt else x


# A value may carry the linear form it was computed as: (k, constant, {atom:
# (factor, scalar)}), equal to the value, or modulo 2 ** k when k is not None.
# Sums modulo a power of two are built from it, so that two ways of computing
# the same polynomial give the same expression.

def linear(s):
    if type(s) is int:
        return None, s, {}
    if type(s) is SV:
        return None, s.off, {('v', id(s.var)): (1, SV(s.var, 0))}
    if s.lin is not None:
        return s.lin
    return None, 0, {('e', s.e.get_id()): (1, s)}


def linear_op(op, a, b):
    ka, ca, ta = linear(a)
    kb, cb, tb = linear(b)
    k = ka if kb is None else kb if ka is None else min(ka, kb)
    if op == '*':
        if tb:
            if ta:
                return None
            ca, ta, cb, tb = cb, tb, ca, ta
        r = {x: (f * cb, s) for x, (f, s) in ta.items()}
        c = ca * cb
    else:
        g = 1 if op == '+' else -1
        r = dict(ta)
        for x, (f, s) in tb.items():
            r[x] = (g * f + (r[x][0] if x in r else 0), s)
        c = ca + g * cb
    if len(r) > 64:
        return None
    return k, c, r


def low_bits(x, k):
    """The linear form of x modulo 2 ** k and an expression of k bits for it, or None."""
    lin = linear(x)
    if (lin[0] is not None and lin[0] < k) or type(x) is SV or x.lin is None:
        return None
    m = (1 << k) - 1
    terms = {a: (f & m, s) for a, (f, s) in lin[2].items() if f & m}
    e = z3.BitVecVal(lin[1] & m, k)
    for a in sorted(terms):
        f, s = terms[a]
        e = e + z3.BitVecVal(f, k) * scalar_bv(s, k)
    return (k, lin[1] & m, terms), e


def arith(op, a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b,
                '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
    if op == '+':
        if ta is SV and tb is int:
            return SV(a.var, a.off + b)
        if tb is SV and ta is int:
            return SV(b.var, b.off + a)
    if op == '-':
        if ta is SV and tb is int:
            return SV(a.var, a.off - b)
        if ta is SV and tb is SV and a.var is b.var:
            return a.off - b.off
    la, ha = bounds(a)
    lb, hb = bounds(b)
    vs = scalar_vars(a) | scalar_vars(b)
    if op in '+-*':
        if op == '+':
            lo, hi = la + lb, ha + hb
        elif op == '-':
            lo, hi = la - hb, ha - lb
        else:
            c = [la * lb, la * hb, ha * lb, ha * hb]
            lo, hi = min(c), max(c)
        w = width_for(min(lo, la, lb), max(hi, ha, hb))
        if w > 8000:
            raise Unsupported('symbolic integer grows too large')
        x, y = scalar_bv(a, w), scalar_bv(b, w)
        e = x + y if op == '+' else x - y if op == '-' else x * y
        return SX(z3.simplify(e), lo, hi, vs, linear_op(op, a, b))
    if op in ('//', '%'):
        if tb is not int:
            b = CTX().choose(b)
            tb = int
            if ta is int:
                return a // b if op == '//' else a % b
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            return arith(op, CTX().choose(a), b)
        w = width_for(min(la, -b, 0), max(ha, b))
        x = scalar_bv(a, w)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == '//':
                return SX(x >> k, la // b, ha // b, vs)
            if k == 0:
                return 0
            low = low_bits(a, k) if k >= 16 else None
            if low is not None:
                inside = la >= 0 and ha < b
                return SX(z3.ZeroExt(1, low[1]), la if inside else 0, ha if inside else b - 1, vs, low[0])
            if la >= 0 and ha < b:
                return a
            e = z3.ZeroExt(1, z3.Extract(k - 1, 0, x))
            return SX(e, 0, b - 1, vs)
        if la >= 0:
            e = z3.UDiv(x, z3.BitVecVal(b, w)) if op == '//' else z3.URem(x, z3.BitVecVal(b, w))
        else:
            m = z3.SRem(x, z3.BitVecVal(b, w))
            m = z3.If(m < 0, m + b, m)
            e = m if op == '%' else (x - m) / z3.BitVecVal(b, w)
        if op == '//':
            return SX(e, la // b, ha // b, vs)
        return SX(e, 0, b - 1, vs)
    # bitwise
    if op == '&' and ((tb is int and b >= 0) or (ta is int and a >= 0)):
        m = b if tb is int else a
        x = a if tb is int else b
        lx, hx = bounds(x)
        if (m & (m + 1)) == 0:
            return arith('%', x, m + 1)
        w = width_for(min(lx, 0), max(hx, m))
        return SX(scalar_bv(x, w) & z3.BitVecVal(m, w), 0, m, vs)
    w = width_for(min(la, lb), max(ha, hb))
    x, y = scalar_bv(a, w), scalar_bv(b, w)
    e = x & y if op == '&' else x | y if op == '|' else x ^ y
    if la >= 0 and lb >= 0:
        hi = (1 << max(ha, hb).bit_length()) - 1
        return SX(e, 0, hi, vs)
    return SX(e, -(1 << (w - 1)), (1 << (w - 1)) - 1, vs)


# ------------------------------------------------------------------- strings

_eq_cache = {}
_LATIN = {}


def mkstr(cs):
    """Native str when every character is concrete, else SymStr."""
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    return ''.join(map(chr, cs))


def chars(s):
    """Characters of a str-like as a tuple of scalars."""
    t = type(s)
    if t is SymStr:
        return s.cs
    if t is SymEnum:
        return chars(s.fork())
    return tuple(map(ord, s))


def str_eq(a, b):
    """bool or SymBool: equality of two str-likes."""
    ta, tb = type(a), type(b)
    if ta is SymEnum or tb is SymEnum:
        if ta is not SymEnum:
            a, b, ta, tb = b, a, tb, ta
        return a.eq(b)
    ca, cb = chars(a), chars(b)
    if len(ca) != len(cb):
        return False
    key = (a if ta is str else a.key(), b if tb is str else b.key())
    r = _eq_cache.get(key)
    if r is None:
        r = _eq_cache[key] = ball([scalar_eq(x, y) for x, y in zip(ca, cb)])
    return r


def in_class(c, s):
    """bool/SymBool: scalar code point c is in interval set s."""
    t = type(c)
    if t is int:
        return iset.contains(s, c)
    if t is SV:
        return atom(c.var, iset.shift(s, -c.off))
    return bany([band(bnot(scalar_lt(c, lo)), bnot(scalar_lt(hi, c))) for lo, hi in s])


def lex(a, b, strict):
    """a < b or a <= b on character tuples."""
    n = min(len(a), len(b))
    i = 0
    while i < n:
        e = scalar_eq(a[i], b[i])
        if e is True:
            i += 1
            continue
        break
    a, b = a[i:], b[i:]
    if not a or not b:
        if not a and not b:
            return not strict
        return not a
    if type(a[0]) is int and type(b[0]) is int:
        return a[0] < b[0]
    return SymBool('lex', (tuple(a), tuple(b)), strict)


class SymStr(object):
    """A string of known length whose characters are scalars."""
    __slots__ = ('cs', '_key')

    def __init__(self, cs):
        self.cs = tuple(cs)
        self._key = None

    @property
    def __class__(self):
        return str

    def key(self):
        if self._key is None:
            self._key = tuple(scalar_key(c) for c in self.cs)
        return self._key

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[CTX().choose(x.s) if type(x) is SymInt else x for x in (i.start, i.stop, i.step)])
            return mkstr(self.cs[i])
        if type(i) is SymInt:
            i = CTX().choose(i.s)
        try:
            return mkstr((self.cs[i],))
        except IndexError:
            raise IndexError('string index out of range')

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * int_of(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bnot(str_eq(self, o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lex(self.cs, chars(o), True)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lex(self.cs, chars(o), False)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lex(chars(o), self.cs, True)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lex(chars(o), self.cs, False)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __str__(self):
        return 'SymStr%r' % (self.cs,)

    __repr__ = __str__

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic string')

    def __contains__(self, sub):
        return bool(self.has(sub))

    def has(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        cs = chars(sub)
        n = len(cs)
        return bany([ball([scalar_eq(self.cs[i + j], cs[j]) for j in range(n)])
                     for i in range(len(self.cs) - n + 1)])

    def match_at(self, i, cs):
        if i + len(cs) > len(self.cs) or i < 0:
            return False
        return ball([scalar_eq(self.cs[i + j], cs[j]) for j in range(len(cs))])

    # -- searching
    def _span(self, start, end):
        n = len(self.cs)
        start, end, _ = slice(None if start is None else int_of(start),
                              None if end is None else int_of(end)).indices(n)
        return start, end

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bany([truth_term(self.startswith(x, start, end)) for x in p])
        s, e = self._span(start, end)
        cs = chars(p)
        if s + len(cs) > e:
            return False
        return self.match_at(s, cs)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return bany([truth_term(self.endswith(x, start, end)) for x in p])
        s, e = self._span(start, end)
        cs = chars(p)
        if e - len(cs) < s:
            return False
        return self.match_at(e - len(cs), cs)

    def find(self, sub, start=None, end=None):
        s, e = self._span(start, end)
        cs = chars(sub)
        for i in range(s, e - len(cs) + 1):
            if bool(self.match_at(i, cs)) if cs else True:
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._span(start, end)
        cs = chars(sub)
        for i in range(e - len(cs), s - 1, -1):
            if bool(self.match_at(i, cs)) if cs else True:
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = self._span(start, end)
        cs = chars(sub)
        if not cs:
            return e - s + 1
        n = 0
        i = s
        while i + len(cs) <= e:
            if bool(self.match_at(i, cs)):
                n += 1
                i += len(cs)
            else:
                i += 1
        return n

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = int_of(maxsplit)
        out = []
        cs = self.cs
        n = len(cs)
        if sep is None:
            ws = charclass.whitespace()
            i = 0
            while True:
                while i < n and bool(in_class(cs[i], ws)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while bool(in_class(cs[j - 1], ws)):
                        j -= 1
                    out.append(mkstr(cs[i:j]))
                    break
                j = i
                while j < n and not bool(in_class(cs[j], ws)):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
            return out
        sc_ = chars(sep)
        if not sc_:
            raise ValueError('empty separator')
        start = i = 0
        while i + len(sc_) <= n:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(self.match_at(i, sc_)):
                out.append(mkstr(cs[start:i]))
                i += len(sc_)
                start = i
            else:
                i += 1
        out.append(mkstr(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int_of(maxsplit)
        if maxsplit < 0:
            return self.split(sep, -1)
        out = []
        cs = self.cs
        if sep is None:
            ws = charclass.whitespace()
            i = len(cs)
            while True:
                while i > 0 and bool(in_class(cs[i - 1], ws)):
                    i -= 1
                if i <= 0:
                    break
                if len(out) >= maxsplit:
                    j = 0
                    while bool(in_class(cs[j], ws)):
                        j += 1
                    out.append(mkstr(cs[j:i]))
                    break
                j = i
                while j > 0 and not bool(in_class(cs[j - 1], ws)):
                    j -= 1
                out.append(mkstr(cs[j:i]))
                i = j
            return out[::-1]
        sc_ = chars(sep)
        if not sc_:
            raise ValueError('empty separator')
        end = len(cs)
        i = end - len(sc_)
        while i >= 0 and len(out) < maxsplit:
            if bool(self.match_at(i, sc_)):
                out.append(mkstr(cs[i + len(sc_):end]))
                end = i
                i -= len(sc_)
            else:
                i -= 1
        out.append(mkstr(cs[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        lb = charclass.linebreaks()
        out = []
        cs = self.cs
        start = i = 0
        while i < len(cs):
            if bool(in_class(cs[i], lb)):
                j = i + 1
                if j < len(cs) and bool(band(scalar_eq(cs[i], 13), scalar_eq(cs[j], 10))):
                    j += 1
                out.append(mkstr(cs[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < len(cs):
            out.append(mkstr(cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + len(sep):]))

    def _strip(self, what, left, right):
        cs = self.cs
        if what is None:
            ws = charclass.whitespace()

            def test(c):
                return in_class(c, ws)
        else:
            w = chars(what)

            def test(c):
                return bany([scalar_eq(c, x) for x in w])
        i, j = 0, len(cs)
        if left:
            while i < j and bool(test(cs[i])):
                i += 1
        if right:
            while j > i and bool(test(cs[j - 1])):
                j -= 1
        return mkstr(cs[i:j])

    def strip(self, c=None):
        return self._strip(c, True, True)

    def lstrip(self, c=None):
        return self._strip(c, True, False)

    def rstrip(self, c=None):
        return self._strip(c, False, True)

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return mkstr(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and bool(self.endswith(p)):
            return mkstr(self.cs[:len(self.cs) - len(p)])
        return self

    def replace(self, old, new, count=-1):
        oc, nc = chars(old), chars(new)
        count = int_of(count)
        out = []
        cs = self.cs
        i = n = 0
        if not oc:
            raise Unsupported('replace of the empty string')
        while i < len(cs):
            if (count < 0 or n < count) and bool(self.match_at(i, oc)):
                out.extend(nc)
                i += len(oc)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        return str_join(self, it)

    # -- case
    def _case(self, name):
        changed = charclass.sig(name)
        single, multi = charclass.mapping(name)
        out = []
        for i, c in enumerate(self.cs):
            if type(c) is int:
                if c == 0x3A3 and name == 'lower':
                    out.append(self._sigma(i))
                else:
                    out.extend(map(ord, getattr(chr(c), name)()))
                continue
            if not bool(in_class(c, changed)):
                out.append(c)
                continue
            if name == 'lower' and bool(scalar_eq(c, 0x3A3)):
                out.append(self._sigma(i))
                continue
            done = False
            for d, s in sorted(single.items(), key=lambda kv: -iset.size(kv[1])):
                if bool(in_class(c, s)):
                    out.append(shift_char(c, d))
                    done = True
                    break
            if not done:
                v = CTX().choose(c)
                out.extend(map(ord, getattr(chr(v), name)()))
        return mkstr(out)

    def _sigma(self, i):
        """Lower case of a capital sigma depends on its neighbours (final sigma)."""
        cs = list(self.cs)
        cs[i] = 0x3A3
        for j in range(len(cs)):
            if j != i and type(cs[j]) is not int:
                # concretise the neighbour's role: cased or not
                cased = bool(in_class(cs[j], cased_set()))
                ign = False
                if not cased:
                    ign = bool(in_class(cs[j], case_ignorable_set()))
                else:
                    ign = bool(in_class(cs[j], case_ignorable_set()))
                cs[j] = 0x41 if cased and not ign else (0x2E if ign and not cased else (0x20 if not cased else 0x345))
        s = ''.join(map(chr, cs))
        return ord(s.lower()[len(s[:i].lower())])

    def lower(self):
        return self._case('lower')

    def upper(self):
        return self._case('upper')

    def casefold(self):
        return self._case('casefold')

    def swapcase(self):
        return self._case('swapcase')

    def capitalize(self):
        if not self.cs:
            return ''
        return mkstr(chars(mkstr(self.cs[:1]).title()) + chars(mkstr(self.cs[1:]).lower()))

    def title(self):
        raise Unsupported('str.title on a symbolic string') if len(self.cs) > 1 else Unsupported('title')

    def translate(self, table):
        out = []
        for c in self.cs:
            if type(c) is int:
                out.extend(chars(mkstr((c,)).translate(table)))
                continue
            items = table.pairs if type(table) is SDict else list(table.items())
            for k, v in items:
                if bool(scalar_eq(c, k)):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(chars(v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    # -- predicates
    def _all(self, name):
        if not self.cs:
            return False
        s = charclass.pred(name)
        return ball([in_class(c, s) for c in self.cs])

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        s = charclass.pred('isprintable')
        return ball([in_class(c, s) for c in self.cs])

    def isascii(self):
        return ball([in_class(c, ((0, 127),)) for c in self.cs])

    def isidentifier(self):
        if not self.cs:
            return False
        return ball([in_class(self.cs[0], charclass.pred('isidentifier'))] +
                    [bor(in_class(c, charclass.pred('isidentifier')), in_class(c, ident_cont())) for c in self.cs[1:]])

    def islower(self):
        low = charclass.pred('islower')
        up = charclass.pred('isupper')
        return band(bany([in_class(c, low) for c in self.cs]), bnot(bany([in_class(c, up) for c in self.cs])))

    def isupper(self):
        low = charclass.pred('islower')
        up = charclass.pred('isupper')
        return band(bany([in_class(c, up) for c in self.cs]), bnot(bany([in_class(c, low) for c in self.cs])))

    # -- padding
    def zfill(self, w):
        n = int_of(w) - len(self.cs)
        if n <= 0:
            return self
        if self.cs and bool(bor(scalar_eq(self.cs[0], 43), scalar_eq(self.cs[0], 45))):
            return mkstr(self.cs[:1] + (48,) * n + self.cs[1:])
        return mkstr((48,) * n + self.cs)

    def ljust(self, w, fill=' '):
        return mkstr(self.cs + chars(fill) * max(0, int_of(w) - len(self.cs)))

    def rjust(self, w, fill=' '):
        return mkstr(chars(fill) * max(0, int_of(w) - len(self.cs)) + self.cs)

    def center(self, w, fill=' '):
        n = max(0, int_of(w) - len(self.cs))
        left = n // 2 + (n & int_of(w) & 1)
        return mkstr(chars(fill) * left + self.cs + chars(fill) * (n - left))

    def encode(self, enc='utf-8', errors='strict'):
        raise Unsupported('encode of a symbolic string')

    def format(self, *a, **k):
        return mkstr(chars(concretize(self))).format(*a, **k)

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')


_sets = {}


def ident_cont():
    s = _sets.get('ic')
    if s is None:
        out = [cp for cp in range(0x110000) if ('a' + chr(cp)).isidentifier()]
        s = _sets['ic'] = iset.of(out)
    return s


def cased_set():
    s = _sets.get('cased')
    if s is None:
        # a capital sigma after a cased character and before the end is final
        out = [cp for cp in range(0x110000) if not 0xD800 <= cp <= 0xDFFF and (chr(cp) + '\u03a3').lower()[-1] == '\u03c2']
        s = _sets['cased'] = iset.of(out)
    return s


def case_ignorable_set():
    s = _sets.get('ign')
    if s is None:
        out = [cp for cp in range(0x110000) if not 0xD800 <= cp <= 0xDFFF and
               ('a' + chr(cp) + '\u03a3').lower()[-1] == '\u03c2' and
               ('1' + chr(cp) + '\u03a3').lower()[-1] != '\u03c2']
        s = _sets['ign'] = iset.of(out)
    return s


def shift_char(c, d):
    if type(c) is SV:
        return SV(c.var, c.off + d)
    return arith('+', c, d)


def str_join(sep, it):
    items = list(it)
    out = []
    sc_ = chars(sep)
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, x.__class__.__name__))
        if i:
            out.extend(sc_)
        out.extend(chars(x))
    return mkstr(out)


class SymEnum(object):
    """A string out of a finite table of distinct strings, the index symbolic."""
    __slots__ = ('var', 'table')

    def __init__(self, var, table):
        self.var = var
        self.table = table

    @property
    def __class__(self):
        return str

    def key(self):
        return ('enum', self.var.name)

    def where(self, p):
        return atom(self.var, iset.of([i for i, t in enumerate(self.table) if p(t)]))

    def eq(self, o):
        if type(o) is str:
            return self.where(lambda t: t == o)
        if type(o) is SymEnum:
            if o.var is self.var:
                return True if o.table is self.table else self.fork() == o
            if o.table is self.table or o.table == self.table:
                return scalar_eq(SV(self.var), SV(o.var))
            return bany([band(self.where(lambda t: t == x), o.where(lambda t: t == x)) for x in self.table if x in o.table])
        if type(o) is SymStr:
            return bany([band(self.where(lambda t: t == x), str_eq(x, o)) for x in self.table if len(x) == len(o)])
        return False

    def fork(self):
        return self.table[CTX().choose(SV(self.var))]

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self.eq(o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return bnot(self.eq(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __len__(self):
        for n in sorted(set(len(t) for t in self.table)):
            if bool(self.where(lambda t: len(t) == n)):
                return n

    def __bool__(self):
        return bool(self.where(lambda t: len(t) > 0))

    def __str__(self):
        return 'SymEnum(%s)' % self.var.name

    __repr__ = __str__

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic string')

    def has(self, sub):
        if type(sub) is str:
            return self.where(lambda t: sub in t)
        return SymStr(chars(self.fork())).has(sub)

    def __contains__(self, sub):
        return bool(self.has(sub))

    def startswith(self, p, *a):
        if not has_sym(p) and not has_sym(a):
            return self.where(lambda t: t.startswith(p, *a))
        return SymStr(chars(self.fork())).startswith(p, *a)

    def endswith(self, p, *a):
        if not has_sym(p) and not has_sym(a):
            return self.where(lambda t: t.endswith(p, *a))
        return SymStr(chars(self.fork())).endswith(p, *a)

    def _map(self, f):
        t2 = [f(t) for t in self.table]
        if t2 == self.table:
            return self
        return mapped(self, t2)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def strip(self, c=None):
        return self._map(lambda t: t.strip(c))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.fork(), name)

    def __getitem__(self, i):
        return self.fork()[i]

    def __iter__(self):
        return iter(self.fork())

    def __add__(self, o):
        return self.fork() + o

    def __radd__(self, o):
        return o + self.fork()

    def __lt__(self, o):
        if type(o) is str:
            return self.where(lambda t: t < o)
        return self.fork() < o

    def __gt__(self, o):
        if type(o) is str:
            return self.where(lambda t: t > o)
        return self.fork() > o

    def __le__(self, o):
        return bnot(self > o)

    def __ge__(self, o):
        return bnot(self < o)


def mapped(e, t2):
    r = SymEnum(e.var, t2)
    return r


# -------------------------------------------------------------------- floats

class SymFloat(object):
    """A finite float, represented by its canonical text (its repr)."""
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text

    @property
    def __class__(self):
        return float

    def key(self):
        return ('f',) + tuple(scalar_key(c) for c in chars(self.text))

    def __eq__(self, o):
        to = type(o)
        if to is SymFloat:
            return str_eq(self.text, o.text)
        if to is float:
            return str_eq(self.text, repr(o))
        if isinstance(o, int):
            from .rt import rt_str
            t = rt_str(o)
            return str_eq(self.text, t + '.0' if type(t) is str else mkstr(t.cs + (46, 48)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __neg__(self):
        cs = chars(self.text)
        if bool(scalar_eq(cs[0], 45)):
            return SymFloat(mkstr(cs[1:]))
        return SymFloat(mkstr((45,) + cs))

    def is_integer(self):
        return self.text.endswith('.0')

    def __bool__(self):
        return bool(bnot(bor(str_eq(self.text, '0.0'), str_eq(self.text, '-0.0'))))

    def __str__(self):
        return 'SymFloat(%s)' % (self.text,)

    __repr__ = __str__


def _float_op(name):
    # one feasible value stands for the others (recorded)
    def f(self, *a):
        a = [concretize(x, 'arithmetic on a symbolic float') for x in a]
        return getattr(concretize(self, 'arithmetic on a symbolic float'), name)(*a)
    return f


for _n in ('lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod divmod rdivmod pow rpow '
           'int float abs round trunc ceil floor pos format').split():
    setattr(SymFloat, '__%s__' % _n, _float_op('__%s__' % _n))


# ---------------------------------------------------------------- containers

def req(a, b):
    """bool/SymBool: Python equality a == b, without forking where possible."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (tuple, list) and tb in (tuple, list):
        if ta is not tb or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = req(x, y)
            if r is False:
                return False
            out.append(r)
        return ball(out)
    if ta in SETS and tb in SETS:
        return set_eq(a, b)
    if ta is SDict or tb is SDict:
        return dict_eq(a, b)
    if (issubclass(ta, tuple) or issubclass(tb, tuple)) and plain_tuple(a) and plain_tuple(b):
        return req(tuple(a), tuple(b))
    r = a == b
    if type(r) in (bool, SymBool):
        return r
    return bool(r)


def plain_tuple(x):
    return issubclass(type(x), tuple) and type(x).__eq__ is tuple.__eq__


def set_items(x):
    return x.items if type(x) is SSet else list(x)


def set_eq(a, b):
    ia, ib = set_items(a), set_items(b)
    if len(ia) != len(ib):
        return False      # the elements of a set are pairwise distinct
    return ball([among(x, b) for x in ia] + [among(y, a) for y in ib])


def among(x, s):
    """bool/SymBool: is x, of a set, an element of the set s?"""
    if type(s) is SSet:
        return s.find(x)
    if not has_sym(x) and not has_sset(x):
        return x in s
    return bany([req(x, y) for y in s])


def dict_pairs(x):
    return x.pairs if type(x) is SDict else list(x.items())


def dict_eq(a, b):
    if not (type(a) in (dict, SDict) and type(b) in (dict, SDict)):
        return False
    pa, pb = dict_pairs(a), dict_pairs(b)
    if len(pa) != len(pb):
        return False
    return ball([bany([band(req(k, k2), req(v, v2)) for k2, v2 in pb]) for k, v in pa])


def hashable(x):
    t = type(x)
    if t in (list, dict, SDict):
        raise TypeError("unhashable type: '%s'" % ('dict' if t is SDict else t.__name__))
    if t is SSet:
        if not x.frozen:
            raise TypeError("unhashable type: 'set'")
        return
    if t is tuple or plain_tuple(x):
        for e in x:
            hashable(e)
        return
    if t in SYM_TYPES:
        return
    hash(x)


class SSet(object):
    """set / frozenset whose membership tests are symbolic."""
    __slots__ = ('items', 'native', 'syms', 'frozen')

    def __init__(self, it=(), frozen=False):
        self.items = []
        self.native = set()     # concrete elements, for a quick lookup
        self.syms = []          # the other ones
        self.frozen = frozen
        for x in it:
            self._add(x)

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _conc(self, x):
        if has_sym(x) or has_sset(x):
            return False
        return True

    def find(self, x):
        hashable(x)
        if self._conc(x):
            if x in self.native:
                return True
            return bany([req(x, y) for y in self.syms])
        return bany([req(x, y) for y in self.items])

    def _add(self, x):
        if not bool(self.find(x)):
            self.items.append(x)
            if self._conc(x):
                self.native.add(x)
            else:
                self.syms.append(x)

    def drop(self, i):
        x = self.items[i]
        del self.items[i]
        if self._conc(x):
            self.native.discard(x)
        else:
            self.syms = [y for y in self.syms if y is not x]
        return x

    def add(self, x):
        self._add(x)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self._add(x)

    def discard(self, x):
        for i, y in enumerate(self.items):
            if bool(req(x, y)):
                self.drop(i)
                return True
        return False

    def remove(self, x):
        hashable(x)
        if not self.discard(x):
            raise KeyError(x)

    def pop(self):
        if not self.items:
            raise KeyError('pop from an empty set')
        return self.drop(0)

    def clear(self):
        self.items = []
        self.native = set()
        self.syms = []

    def copy(self):
        r = SSet((), self.frozen)
        r.items = list(self.items)
        r.native = set(self.native)
        r.syms = list(self.syms)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def union(self, *its):
        r = self.copy()
        r.frozen = False
        r.update(*its)
        r.frozen = self.frozen
        return r

    def intersection(self, *its):
        r = self.items
        for it in its:
            o = it if type(it) is SSet else SSet(it)
            r = [x for x in r if bool(o.find(x))]
        return SSet(r, self.frozen)

    def difference(self, *its):
        r = self.items
        for it in its:
            o = it if type(it) is SSet else SSet(it)
            r = [x for x in r if not bool(o.find(x))]
        return SSet(r, self.frozen)

    def symmetric_difference(self, it):
        o = it if type(it) is SSet else SSet(it)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *its):
        r = self.difference(*its)
        self.items, self.native, self.syms = r.items, r.native, r.syms

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.items, self.native, self.syms = r.items, r.native, r.syms

    def issubset(self, it):
        o = it if type(it) is SSet else SSet(it)
        return ball([o.find(x) for x in self.items])

    def issuperset(self, it):
        return ball([self.find(x) for x in it])

    def isdisjoint(self, it):
        return bnot(bany([self.find(x) for x in it]))

    def __or__(self, o):
        if type(o) not in SETS:
            return NotImplemented
        return self.union(o)

    def __ror__(self, o):
        return SSet(o).union(self)

    def __and__(self, o):
        if type(o) not in SETS:
            return NotImplemented
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        if type(o) not in SETS:
            return NotImplemented
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        if self.frozen:
            return self.union(o)
        self.update(o)
        return self

    def __isub__(self, o):
        if self.frozen:
            return self.difference(o)
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return band(self.issubset(o), len(self) < len(o))

    def __gt__(self, o):
        return band(self.issuperset(o), len(self) > len(o))

    def __contains__(self, x):
        return bool(self.find(x))

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __eq__(self, o):
        if type(o) not in SETS:
            return NotImplemented
        return set_eq(self, o)

    def __ne__(self, o):
        if type(o) not in SETS:
            return NotImplemented
        return bnot(set_eq(self, o))

    def __hash__(self):
        if not self.frozen:
            raise TypeError("unhashable type: 'set'")
        raise Unsupported('hash of a frozenset')

    def __repr__(self):
        return 'SSet(%r)' % (self.items,)


def has_sset(x):
    if type(x) is tuple:
        return any(has_sset(e) for e in x)
    return type(x) is SSet


_MISSING = object()


class SDict(object):
    """dict whose key lookups are symbolic; keeps insertion order."""
    __slots__ = ('pairs', 'native', 'default', 'nsym', 'counts')

    def __init__(self, it=(), **kw):
        self.pairs = []
        self.native = {}
        self.default = None
        self.nsym = 0
        self.counts = False             # a Counter
        self.update(it, **kw)

    @property
    def __class__(self):
        return dict

    def _index(self, k):
        """index of the pair with key k, or -1 (forks)."""
        hashable(k)
        conc = not has_sym(k) and not has_sset(k)
        if conc:
            i = self.native.get(k, -1)
            if i >= 0 and self.nsym == 0:
                return i
            if self.nsym == 0:
                return -1
            if i >= 0:
                return i
            for i, (k2, _) in enumerate(self.pairs):
                if (has_sym(k2) or has_sset(k2)) and bool(req(k, k2)):
                    return i
            return -1
        for i, (k2, _) in enumerate(self.pairs):
            if bool(req(k, k2)):
                return i
        return -1

    def _reindex(self):
        self.native = {}
        self.nsym = 0
        for i, (k, _) in enumerate(self.pairs):
            if has_sym(k) or has_sset(k):
                self.nsym += 1
            else:
                self.native[k] = i

    def __getitem__(self, k):
        i = self._index(k)
        if i < 0:
            if self.counts:
                return 0
            if self.default is not None:
                v = self.default()
                self[k] = v
                return v
            raise KeyError(k)
        return self.pairs[i][1]

    def __setitem__(self, k, v):
        i = self._index(k)
        if i < 0:
            self.pairs.append((k, v))
            if has_sym(k) or has_sset(k):
                self.nsym += 1
            else:
                self.native[k] = len(self.pairs) - 1
        else:
            self.pairs[i] = (self.pairs[i][0], v)

    def __delitem__(self, k):
        i = self._index(k)
        if i < 0:
            raise KeyError(k)
        del self.pairs[i]
        self._reindex()

    def __contains__(self, k):
        return self._index(k) >= 0

    def get(self, k, d=None):
        i = self._index(k)
        return d if i < 0 else self.pairs[i][1]

    def setdefault(self, k, d=None):
        i = self._index(k)
        if i < 0:
            self[k] = d
            return d
        return self.pairs[i][1]

    def pop(self, k, d=_MISSING):
        i = self._index(k)
        if i < 0:
            if d is _MISSING:
                raise KeyError(k)
            return d
        v = self.pairs[i][1]
        del self.pairs[i]
        self._reindex()
        return v

    def popitem(self):
        if not self.pairs:
            raise KeyError('popitem(): dictionary is empty')
        p = self.pairs.pop()
        self._reindex()
        return p

    def clear(self):
        self.pairs = []
        self._reindex()

    def count(self, it, sign=1):
        if hasattr(it, 'keys'):
            for k in it.keys():
                self[k] = self[k] + sign * it[k]
        else:
            for k in it:
                self[k] = self[k] + sign

    def subtract(self, it=()):
        self.count(it, -1)

    def elements(self):
        return iter([k for k, n in self.pairs for _ in range(int(n))])

    def most_common(self, n=None):
        return sorted(self.pairs, key=lambda p: p[1], reverse=True)[:n]

    def total(self):
        return sum(n for _, n in self.pairs)

    def update(self, it=(), **kw):
        if self.counts:
            self.count(it)
            return self.count(kw)
        if type(it) is SDict:
            it = it.pairs
        elif hasattr(it, 'keys'):
            it = [(k, it[k]) for k in it.keys()]
        for k, v in it:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = SDict()
        r.pairs = list(self.pairs)
        r.default = self.default
        r.counts = self.counts
        r._reindex()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = SDict()
        r.pairs = [(k, copy.deepcopy(v, memo)) for k, v in self.pairs]
        r.default = self.default
        r.counts = self.counts
        r._reindex()
        return r

    def keys(self):
        return DView(self, 0)

    def values(self):
        return DView(self, 1)

    def items(self):
        return DView(self, 2)

    def move_to_end(self, k, last=True):
        i = self._index(k)
        if i < 0:
            raise KeyError(k)
        p = self.pairs.pop(i)
        self.pairs.insert(len(self.pairs) if last else 0, p)
        self._reindex()

    def __iter__(self):
        return iter([k for k, _ in self.pairs])

    def __reversed__(self):
        return iter([k for k, _ in self.pairs][::-1])

    def __len__(self):
        return len(self.pairs)

    def __bool__(self):
        return len(self.pairs) > 0

    def __eq__(self, o):
        if type(o) not in (dict, SDict):
            return NotImplemented
        return dict_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __repr__(self):
        return 'SDict(%r)' % (self.pairs,)


collections.abc.MutableMapping.register(SDict)      # for the mapping patterns of match


class DView(object):
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def _list(self):
        return [p if self.what == 2 else p[self.what] for p in self.d.pairs]

    def __iter__(self):
        return iter(self._list())

    def __len__(self):
        return len(self.d.pairs)

    def __contains__(self, x):
        if self.what == 0:
            return x in self.d
        return any(bool(req(x, y)) for y in self._list())

    def __or__(self, o):
        return SSet(self._list()).union(o)

    def __and__(self, o):
        return SSet(self._list()).intersection(o)

    def __sub__(self, o):
        return SSet(self._list()).difference(o)

    def __eq__(self, o):
        return set_eq(SSet(self._list()), o if type(o) in SETS else SSet(o))

    def __repr__(self):
        return 'DView(%r)' % (self._list(),)


SYM_TYPES = frozenset((SymInt, SymStr, SymFloat, SymEnum, SymBool))
for _t in SYM_TYPES:                # immutable
    _t.__copy__ = lambda self: self
    _t.__deepcopy__ = lambda self, memo: self
SETS = frozenset((set, frozenset, SSet))


# -------------------------------------------------------------- concretising

def concretize(x, why='concretised'):
    """Pick one feasible concrete value (under-approximation, recorded)."""
    c = CTX()
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return pin(x.s, why)
    if t is SymStr:
        return ''.join(chr(pin(s, why)) for s in x.cs)
    if t is SymEnum:
        return x.fork()
    if t is SymFloat:
        return float(concretize(x.text, why))
    if t in (list, tuple):
        return t(concretize(e, why) for e in x)
    if t is SSet:
        return set(concretize(e, why) for e in x.items)
    if t is SDict:
        return {concretize(k, why): concretize(v, why) for k, v in x.pairs}
    return x


def pin(s, why):
    c = CTX()
    s = c.resolve(s)
    if type(s) is int:
        return s
    c.note_incomplete(why)
    v = c.model_value(s, varied=True)
    c.assume(scalar_eq(s, v))
    return v
