"""Run-time hooks of the instrumented code: calls, operators, literals.

Every hook behaves exactly as the Python construct it replaces on concrete
values, and computes symbolically when an operand is symbolic.
"""
import builtins
import collections
import dataclasses
import functools
import itertools
import operator
import re as _re
import os
import unicodedata
from . import charclass, iset
from .core import (CTX, Control, SV, SX, SymBool, Unsupported, ball, bany, band, bnot, bor, beq, bounds, issym_bool,
                   scalar_bv, scalar_eq, scalar_lt, truth_term)
from . import values as V
from .values import (DView, SDict, SETS, SSet, SYM_TYPES, SymEnum, SymFloat, SymInt, SymStr, arith, chars, concretize,
                     dict_eq, has_sym, hashable, in_class, int_of, is_sym, mkint, mkstr, req, set_eq, str_join)

Control = Control
_none = object()
STRS = frozenset((str, SymStr, SymEnum))

# the environment of the running harness (virtual files, captured output)
ENV = [None]
ENTERED = set()
enter = ENTERED.add


# ------------------------------------------------------------------ texts

def int_text(s):
    """Decimal text of a scalar."""
    s = CTX().resolve(s)
    if type(s) is int:
        return str(s)
    lo, hi = bounds(s)
    neg = False
    if lo < 0:
        if bool(scalar_lt(s, 0)):
            neg = True
            s = arith('-', 0, s)
            lo, hi = bounds(s)
            s = restrict(s, 1, hi)
        else:
            s = restrict(s, 0, hi)
    lo, hi = bounds(s)
    n = 1
    while 10 ** n <= hi and not bool(scalar_lt(s, 10 ** n)):
        n += 1
    s = restrict(s, 10 ** (n - 1) if n > 1 else 0, min(hi, 10 ** n - 1))
    cs = [arith('+', arith('%', arith('//', s, 10 ** (n - 1 - i)), 10), 48) for i in range(n)]
    return mkstr(([45] if neg else []) + cs)


def restrict(s, lo, hi):
    """The same scalar with tighter bounds that the path guarantees."""
    s = CTX().resolve(s)
    if type(s) is int:
        return s
    l0, h0 = bounds(s)
    lo, hi = max(lo, l0), min(hi, h0)
    if (lo, hi) == (l0, h0):
        return s
    from .core import scalar_vars, width_for
    w = width_for(l0, h0)
    import z3
    w2 = width_for(min(lo, 0), hi)
    e = scalar_bv(s, w)
    if w2 < w:
        e = z3.Extract(w2 - 1, 0, e)
    return SX(e, lo, hi, scalar_vars(s))


def hex_text(s, upper=False):
    s = CTX().resolve(s)
    if type(s) is int:
        return format(s, 'X' if upper else 'x')
    lo, hi = bounds(s)
    if lo < 0:
        if bool(scalar_lt(s, 0)):
            t = hex_text(arith('-', 0, s), upper)
            return '-' + t
        s = restrict(s, 0, hi)
    n = max(1, (hi.bit_length() + 3) // 4)
    while n > 1 and bool(scalar_lt(s, 16 ** (n - 1))):
        n -= 1
    s = restrict(s, 16 ** (n - 1) if n > 1 else 0, min(hi, 16 ** n - 1))
    import z3
    from .core import scalar_vars
    out = []
    for i in range(n - 1, -1, -1):
        d = arith('%', arith('//', s, 16 ** i), 16)
        if type(d) is int:
            out.append(ord('%X' % d if upper else '%x' % d))
            continue
        e = scalar_bv(d, 9)
        out.append(SX(z3.If(e < 10, e + 48, e + (55 if upper else 87)), 48, 70 if upper else 102, scalar_vars(d)))
    return mkstr(out)


def rt_str(x=_none, *a, **k):
    if x is _none:
        return ''
    if a or k:
        return str(concretize(x), *a, **k)
    t = type(x)
    if t in STRS:
        return x
    if t is SymInt:
        return x.text if x.text is not None else int_text(x.s)
    if t is SymFloat:
        return x.text
    if t is SymBool:
        return str(bool(x))
    if t in (int, float, bool, type(None)):
        return str(x)
    f = t.__str__
    if f is object.__str__:
        return rt_repr(x)
    if t in (list, tuple, SDict, SSet, dict, set, frozenset) or f is BaseException.__str__:
        if isinstance(x, BaseException):
            if len(x.args) == 1:
                return rt_str(x.args[0])
            return rt_repr(x.args) if x.args else ''
        return rt_repr(x)
    r = f(x)
    return r


_plain = None


def plain_set():
    global _plain
    if _plain is None:
        from . import charclass
        _plain = iset.diff(charclass.pred('isprintable'), iset.of([34, 39, 92]))
    return _plain


def rt_repr(x):
    t = type(x)
    if t in (int, float, bool, str, type(None)):
        return repr(x)
    if t is SymInt or t is SymFloat or t is SymBool:
        return rt_str(x)
    if t is SymEnum:
        return repr(x.fork())
    if t is SymStr:
        if bool(ball([in_class(c, plain_set()) for c in x.cs])):
            return mkstr((39,) + x.cs + (39,))
        return repr(concretize(x, 'repr of a string'))
    if t is tuple:
        if len(x) == 1:
            return '(' + rt_repr(x[0]) + ',)'
        return '(' + str_join(', ', [rt_repr(e) for e in x]) + ')'
    if t is list:
        return '[' + str_join(', ', [rt_repr(e) for e in x]) + ']'
    if t is SSet:
        if not x.items:
            return 'frozenset()' if x.frozen else 'set()'
        body = '{' + str_join(', ', [rt_repr(e) for e in x.items]) + '}'
        return 'frozenset(' + body + ')' if x.frozen else body
    if t is SDict:
        return '{' + str_join(', ', [rt_repr(k) + ': ' + rt_repr(v) for k, v in x.pairs]) + '}'
    f = t.__repr__
    if f is object.__repr__:
        return '<%s object>' % t.__name__
    return f(x)


def canon_int(neg, digs):
    """SymInt from digit scalars (0..9)."""
    cs = list(digs)
    while len(cs) > 1 and bool(scalar_eq(cs[0], 0)):
        cs.pop(0)
    v = 0
    for d in cs:
        v = arith('+', arith('*', v, 10), d)
    if neg:
        if len(cs) == 1 and bool(scalar_eq(cs[0], 0)):
            return 0
        v = arith('-', 0, v)
    text = mkstr(([45] if neg else []) + [arith('+', d, 48) for d in cs])
    if type(v) is int:
        return v
    return SymInt(v, text)


def digit_value(c):
    """Scalar value of the digit scalar c, or None when it is no digit (forks)."""
    if bool(in_class(c, ((48, 57),))):
        return arith('-', c, 48)
    from . import charclass
    if bool(in_class(c, charclass.decimals())):
        for base, cps in charclass.decimal_runs():
            if base != 48 and bool(in_class(c, iset.of(cps))):
                return arith('-', c, base)
    return None


def rt_int(x=_none, base=10):
    if x is _none:
        return 0
    t = type(x)
    if t is SymInt:
        return x
    if t.__name__ == 'U64':
        return x.v
    if t is SymBool:
        return int(bool(x))
    if t is SymEnum:
        return int(x.fork(), base)
    if t is SymFloat:
        i = x.text.find('.') if type(x.text) is SymStr else -1
        if i >= 0 and not bool(V.SymStr.has(x.text, 'e')):
            return rt_int(x.text[:i])
        return int(concretize(x, 'int of a float'))
    if t is SymStr:
        if type(base) is int and base != 10:
            return int(concretize(x, 'int with a base'), base)
        cs = chars(x.strip())
        neg = False
        i = 0
        if cs and bool(bor(scalar_eq(cs[0], 43), scalar_eq(cs[0], 45))):
            neg = bool(scalar_eq(cs[0], 45))
            i = 1
        digs = []
        prev = False
        ok = i < len(cs)
        while i < len(cs):
            c = cs[i]
            if bool(scalar_eq(c, 95)):
                if not prev or i + 1 == len(cs):
                    ok = False
                    break
                prev = False
            else:
                d = digit_value(c)
                if d is None:
                    ok = False
                    break
                digs.append(d)
                prev = True
            i += 1
        if not ok or not digs:
            raise ValueError('invalid literal for int() with base 10')
        return canon_int(neg, digs)
    if base != 10:
        return int(x, base)
    return int(x)


def rt_float(x=_none):
    if x is _none:
        return 0.0
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymBool:
        return float(bool(x))
    if t is SymEnum:
        return float(x.fork())
    if t is SymInt:
        txt = rt_str(x)
        if len(txt) <= 15:
            return SymFloat(mkstr(chars(txt) + (46, 48)))
        return float(concretize(x, 'float of a long int'))
    if t is SymStr:
        cs = list(chars(x.strip()))
        neg = False
        i = 0
        if cs and bool(bor(scalar_eq(cs[0], 43), scalar_eq(cs[0], 45))):
            neg = bool(scalar_eq(cs[0], 45))
            i = 1
        ip, fp = [], []
        point = False
        prev = False
        exp = None
        while i < len(cs):
            c = cs[i]
            d = digit_value(c)
            if d is not None:
                (fp if point else ip).append(d)
                prev = True
            elif bool(scalar_eq(c, 46)):
                if point:
                    break
                point = True
                prev = False
            elif bool(scalar_eq(c, 95)) and prev and i + 1 < len(cs) and digit_value(cs[i + 1]) is not None:
                prev = False
            elif bool(bor(scalar_eq(c, 101), scalar_eq(c, 69))):
                if already_canonical(ip, fp, point, cs[i], cs[i + 1:]):
                    return SymFloat(x.strip())
                e = rt_exp(cs[i + 1:])
                if e is None or not (ip or fp):
                    break
                exp = e
                i = len(cs)
                break
            else:
                break
            i += 1
        if i < len(cs) or not (ip or fp):
            # inf, nan, infinity or no number at all
            return float(concretize(x, 'float of an unusual text') if special_float(x) else 'x')
        if len(ip) + len(fp) > 15:
            return float(concretize(x, 'float of a long text'))
        return float_from(neg, ip, fp, exp or 0)
    return float(x)


def special_float(x):
    t = x.strip()
    if len(t) and type(t) is SymStr:
        t = t.lower()
    for w in ('inf', 'nan', 'infinity'):
        for sgn in ('', '+', '-'):
            if bool(req(t, sgn + w)):
                return True
    return False


def already_canonical(ip, fp, point, e, ex):
    """Is d[.d..d]e+XX already what repr writes? Asked as one question, so that the exponent need not be concrete."""
    if len(ip) != 1 or point != bool(fp) or len(fp) > 14 or len(ex) not in (3, 4):
        return False
    dig = ((48, 57),)
    neg = scalar_eq(ex[0], 45)
    cond = [bnot(scalar_eq(ip[0], 0)), scalar_eq(e, 101), bor(neg, scalar_eq(ex[0], 43))]
    if fp:
        cond.append(bnot(scalar_eq(fp[-1], 0)))
    cond += [in_class(c, dig) for c in ex[1:]]
    if len(ex) == 3:
        small_pos = ball([bnot(neg), bor(scalar_eq(ex[1], 48), band(scalar_eq(ex[1], 49), in_class(ex[2], ((48, 53),))))])
        small_neg = ball([neg, scalar_eq(ex[1], 48), in_class(ex[2], ((48, 52),))])
        cond += [bnot(small_pos), bnot(small_neg)]
    else:
        cond.append(in_class(ex[1], ((49, 50),)))
    return bool(ball(cond))


def rt_exp(cs):
    """Concrete exponent from scalars [+-]digits, or None."""
    neg = False
    i = 0
    if cs and bool(bor(scalar_eq(cs[0], 43), scalar_eq(cs[0], 45))):
        neg = bool(scalar_eq(cs[0], 45))
        i = 1
    if i >= len(cs) or len(cs) - i > 3:
        return None
    v = 0
    for c in cs[i:]:
        d = digit_value(c)
        if d is None:
            return None
        v = v * 10 + CTX().choose(d)
    return -v if neg else v


def float_from(neg, ip, fp, exp):
    """SymFloat with the canonical text (repr) of the decimal number."""
    digs = ip + fp
    pt = len(ip) + exp                     # the point stands after digs[:pt]
    while digs and bool(scalar_eq(digs[0], 0)):
        digs = digs[1:]
        pt -= 1
    while digs and bool(scalar_eq(digs[-1], 0)):
        digs = digs[:-1]
    sign = [45] if neg else []
    if not digs:
        return SymFloat(mkstr(sign + [48, 46, 48])) if False else float(''.join(map(chr, sign)) + '0.0')
    cs = [arith('+', d, 48) for d in digs]
    n = len(cs)
    e10 = pt - 1
    if e10 > 308 or e10 < -325:
        return float(''.join(map(chr, sign)) + ('inf' if e10 > 0 else '0.0'))
    if e10 > 307 or e10 < -307 or n > 15:   # other texts may be shorter
        raise Unsupported('float out of the modelled range')
    if -4 <= e10 < 16:
        if pt <= 0:
            out = [48, 46] + [48] * (-pt) + cs
        elif pt >= n:
            out = cs + [48] * (pt - n) + [46, 48]
        else:
            out = cs[:pt] + [46] + cs[pt:]
    else:
        out = cs[:1] + ([46] + cs[1:] if n > 1 else []) + list(map(ord, 'e%s%02d' % ('-' if e10 < 0 else '+', abs(e10))))
    t = mkstr(sign + out)
    return float(t) if type(t) is str else SymFloat(t)


# --------------------------------------------------------------- formatting

_FMT = _re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def str_mod(fmt, args):
    if type(fmt) is not str:
        fmt = concretize(fmt, 'symbolic format string')
    if not has_sym(args) and not any_user(args):
        if type(args) is SDict:
            args = dict(args.pairs)
        return fmt % args
    out = []
    pos = 0
    idx = 0
    tup = args if type(args) is tuple else (args,)
    mapping = args if type(args) in (SDict, dict) else None
    for m in _FMT.finditer(fmt):
        out.extend(map(ord, fmt[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if key is not None:
            if mapping is None:
                raise TypeError('format requires a mapping')
            v = mapping[key]
        else:
            if idx >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[idx]
            idx += 1
        if width == '*' or prec == '*':
            raise Unsupported('* in a format')
        if conv == 's':
            t = rt_str(v)
        elif conv in 'ra':
            t = rt_repr(v)
        elif conv in 'diu':
            if not isinstance(v, (int, float)):
                raise TypeError('%%%s format: a real number is required, not %s' % (conv, v.__class__.__name__))
            t = rt_str(rt_int(v))
        elif conv in 'xX' and type(v) is SymInt:
            t = hex_text(v.s, conv == 'X')
        elif conv == 'c':
            t = rt_chr(v) if isinstance(v, int) else v
        else:
            t = ('%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % concretize(v, 'number format')
            width = None
        if prec is not None and conv == 's':
            t = t[:int(prec)]
        if width is not None and len(t) < int(width):
            fill = '0' if '0' in flags and '-' not in flags and conv not in 'sra' else ' '
            pad = fill * (int(width) - len(t))
            t = t + pad if '-' in flags else pad + t
        out.extend(chars(t))
    out.extend(map(ord, fmt[pos:]))
    if mapping is None and idx < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


_PRIM = frozenset((str, int, float, bool, type(None), bytes))


def any_user(x):
    """An object whose __str__ might return a symbolic string."""
    t = type(x)
    if t in _PRIM:
        return False
    if t in (tuple, list):
        return any(any_user(e) for e in x)
    return True


def rt_format(x, spec=''):
    if type(spec) is not str:
        spec = concretize(spec)
    t = type(x)
    if t in _PRIM:
        return format(x, spec)
    if spec == '' and not (t.__format__ is not object.__format__ and t not in SYM_TYPES and t not in (tuple, list)):
        return rt_str(x)
    if t in SYM_TYPES:
        if t in (SymStr, SymEnum):
            m = _re.fullmatch(r'([<>^]?)(\d*)s?', spec)
            if m:
                w = int(m.group(2) or 0)
                s = SymStr(chars(x))
                return s.rjust(w) if m.group(1) == '>' else s.center(w) if m.group(1) == '^' else s.ljust(w)
        if t is SymInt:
            if spec in ('d', 'n'):
                return rt_str(x)
            if spec in 'xX':
                return hex_text(x.s, spec == 'X')
        return format(concretize(x, 'format spec'), spec)
    return t.__format__(x, spec)


def fstr(*pieces):
    out = []
    for p in pieces:
        if type(p) is str:
            out.extend(map(ord, p))
        else:
            v, conv, spec = p
            if conv == 115:
                v = rt_str(v)
            elif conv in (114, 97):
                v = rt_repr(v)
            out.extend(chars(rt_format(v, spec)))
    return mkstr(out)


def str_format(fmt, *args, **kw):
    if type(fmt) is not str:
        fmt = concretize(fmt, 'symbolic format string')
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(map(ord, lit))
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = _split_field(field)
        v = args[int(first)] if first.isdigit() else kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[int(name) if name.isdigit() else name]
        if conv == 's':
            v = rt_str(v)
        elif conv in ('r', 'a'):
            v = rt_repr(v)
        if spec and '{' in spec:
            spec = str_format(spec, *args, **kw)
        out.extend(chars(rt_format(v, spec or '')))
    return mkstr(out)


def _split_field(f):
    m = _re.match(r'[^.\[]*', f)
    first = m.group(0)
    rest = []
    for a, b in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', f[m.end():]):
        rest.append((True, a) if a else (False, b))
    return first, rest


# ----------------------------------------------------------------- builtins

def rt_ord(c):
    t = type(c)
    if t is SymStr:
        if len(c.cs) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c.cs))
        return mkint(c.cs[0])
    if t is SymEnum:
        return ord(c.fork())
    return ord(c)


def rt_chr(i):
    if type(i) is SymInt:
        s = CTX().resolve(i.s)
        lo, hi = bounds(s)
        if (lo < 0 or hi > 0x10FFFF) and not bool(band(bnot(scalar_lt(s, 0)), bnot(scalar_lt(0x10FFFF, s)))):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((restrict(s, 0, 0x10FFFF),))
    return chr(i)


def rt_hex(i):
    if type(i).__name__ == 'U64':
        i = i.v
    if type(i) is SymInt:
        t = hex_text(i.s)
        return '0x' + t if not bool(req(t[0], '-')) else '-0x' + t[1:]
    return hex(i)


def rt_len(x):
    return len(x)


def rt_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t in SYM_TYPES or t is SSet or t is SDict:
        return x.__class__
    return t


def rt_set(it=()):
    return SSet(it)


def rt_frozenset(it=()):
    if type(it) is SSet and it.frozen:
        return it
    return SSet(it, True)


def rt_dict(*a, **k):
    d = SDict()
    if a:
        d.update(a[0])
    d.update((), **k)
    return d


def mkset(items):
    return SSet(items)


def mkdict(pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def rt_hash(x):
    if has_sym(x) or V.has_sset(x):
        return HashOf(x)
    return hash(x)


class HashOf(object):
    """hash(x) of a symbolic value: only usable through == (collision-free idealisation is not assumed)."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        raise Unsupported('comparison of hashes')


def rt_bool(x=False):
    if type(x) is SymBool:
        return x
    return bool(x)


def rt_print(*args, **kw):
    env = ENV[0]
    f = kw.get('file')
    out = f if f is not None else (env.stdout if env is not None else None)
    if out is None:
        return
    sep = kw.get('sep')
    sep = ' ' if sep is None else sep
    end = kw.get('end')
    out.write(str_join(sep, [rt_str(a) for a in args]) + ('\n' if end is None else end))


def rt_open(path, mode='r', *a, **k):
    env = ENV[0]
    if env is None:
        raise Unsupported('open')
    return env.vopen(path, mode)


def rt_isinstance(x, t):
    return isinstance(x, _types(t))


def rt_issubclass(x, t):
    return issubclass(_types(x), _types(t))


def _types(t):
    if type(t) is tuple:
        return tuple(_types(e) for e in t)
    return _TYPEMAP.get(id(t), t)


def rt_any(it):
    """any() without a fork per element when the iterable is a materialised one."""
    if type(it) in (list, tuple) and all(type(x) in (bool, SymBool) for x in it):
        return bany(it)
    for x in it:
        if x:
            return True
    return False


def rt_all(it):
    if type(it) in (list, tuple) and all(type(x) in (bool, SymBool) for x in it):
        return ball(it)
    for x in it:
        if not x:
            return False
    return True


def rt_abs(x):
    return abs(x)


def rt_round(x, n=None):
    if type(x) is SymFloat:
        return round(concretize(x, 'round of a float'), n) if n is not None else round(concretize(x, 'round'))
    return round(x) if n is None else round(x, n)


def rt_sorted(it, **kw):
    """Insertion sort with symbolic comparisons only where needed."""
    return sorted(it, **kw)


def rt_iter(x, *a):
    return iter(x, *a)


def rt_divmod(a, b):
    return (a // b, a % b)


def rt_pow(a, b, m=None):
    if type(a) is SymInt:
        return a.__pow__(b, m)
    return pow(a, b) if m is None else pow(a, b, m)


MEMOS = []                    # what the caches of functions hold on this path


def rt_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return rt_lru_cache()(maxsize)

    def deco(f):
        memo = SDict()
        MEMOS.append(memo)

        def cached(*a, **k):
            key = (a, tuple(sorted(k.items())))
            i = memo._index(key)
            if i >= 0:
                return memo.pairs[i][1]
            v = f(*a, **k)
            memo[key] = v
            if maxsize is not None and len(memo.pairs) > maxsize:
                del memo.pairs[0]
                memo._reindex()
            return v
        cached.__name__ = getattr(f, '__name__', 'cached')
        cached.cache_clear = memo.clear
        cached.__wrapped__ = f
        return cached
    return deco


def forget():
    for m in MEMOS:
        if m.pairs:
            m.clear()


def rt_defaultdict(factory=None, *a, **k):
    d = SDict()
    d.update(*a, **k) if a or k else None
    d.default = factory
    return d


def rt_counter(it=(), **k):
    d = SDict()
    d.counts = True
    d.update(it, **k)
    return d


def rt_cmp_to_key(f):
    def cmp(x, y):
        r = call(f, x, y)
        return 1 if r > 0 else -1 if r < 0 else 0
    return functools.cmp_to_key(cmp)


def rt_fromkeys(it, v=None):
    d = SDict()
    for x in it:
        d[x] = v
    return d


def rt_next(it, *a):
    return next(it, *a)


def rt_normalize(form, s):
    if type(s) is SymEnum:
        return unicodedata.normalize(form, s.fork())
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    if ball([in_class(c, charclass.inert(form)) for c in s.cs]):
        return s
    if len(s.cs) > 1:
        bany([in_class(c, charclass.moved(form)) for c in s.cs]).__bool__()
    return unicodedata.normalize(form, concretize(s, 'Unicode normal forms'))


def _on_path(f):
    """A function of os.path: as it is for strings, else what is written for symbolic ones."""
    native = getattr(os.path, f.__name__[5:])

    def g(*a, **k):
        if not has_sym(a) or k:
            return native(*a, **k)
        a = [SymStr(chars(x.fork())) if type(x) is SymEnum else x for x in a]
        return f(*a) if has_sym(a) else native(*a)
    _PATH.append((native, g))
    return g


_PATH = [(os.fspath, lambda p: p if type(p) in STRS else os.fspath(p))]


def _slash(s):
    """Where the name begins, after the last slash."""
    for i in range(len(s.cs) - 1, -1, -1):
        if s[i] == '/':
            return i + 1
    return 0


@_on_path
def path_expanduser(s):
    if not callm(s, 'startswith', '~'):
        return s
    if len(s.cs) > 1 and not s[1] == '/':
        return os.path.expanduser(concretize(s, 'home directories of others'))
    home = os.path.expanduser('~')
    return home + s[1:] if len(s.cs) > 1 else home


@_on_path
def path_expandvars(s):
    return os.path.expandvars(concretize(s, 'variables in paths')) if contains(s, '$') else s


@_on_path
def path_isabs(s):
    return callm(s, 'startswith', '/')


@_on_path
def path_join(a, *rest):
    for b in rest:
        if callm(b, 'startswith', '/'):
            a = b
        elif not a or callm(a, 'endswith', '/'):
            a = a + b
        else:
            a = a + '/' + b
    return a


@_on_path
def path_basename(s):
    return s[_slash(s):]


@_on_path
def path_dirname(s):
    head = s[:_slash(s)]
    bare = callm(head, 'rstrip', '/')
    return bare if bare else head


@_on_path
def path_split(s):
    return path_dirname(s), path_basename(s)


@_on_path
def path_normpath(s):
    return os.path.normpath(concretize(s, 'normal forms of paths'))


@_on_path
def path_abspath(s):
    return os.path.abspath(concretize(s, 'normal forms of paths'))


@_on_path
def path_splitext(s):
    return os.path.splitext(concretize(s, 'suffixes of paths'))


TABLE = {}


def _reg(native, repl):
    TABLE[id(native)] = repl
    _KEEP.append(native)


_KEEP = []
_TYPEMAP = {}

for _n, _f in ((str, rt_str), (int, rt_int), (float, rt_float), (repr, rt_repr), (format, rt_format), (ord, rt_ord),
               (chr, rt_chr), (hex, rt_hex), (type, rt_type), (set, rt_set), (frozenset, rt_frozenset),
               (dict, rt_dict), (hash, rt_hash), (bool, rt_bool), (print, rt_print), (open, rt_open),
               (any, rt_any), (all, rt_all), (round, rt_round), (divmod, rt_divmod), (pow, rt_pow),
               (collections.OrderedDict, rt_dict), (collections.defaultdict, rt_defaultdict),
               (collections.Counter, rt_counter), (functools.cmp_to_key, rt_cmp_to_key),
               (functools.lru_cache, rt_lru_cache), (functools.cache, lambda f: rt_lru_cache(None)(f)),
               (unicodedata.normalize, rt_normalize)):
    _reg(_n, _f)
for _n, _f in _PATH:
    _reg(_n, _f)
_TYPEMAP[id(collections.OrderedDict)] = dict
_TYPEMAP[id(collections.defaultdict)] = dict

_BM = type(len)                      # builtin_function_or_method
_MW = type(''.__eq__)                # method-wrapper
_MD = type(str.join)                 # method_descriptor
_WD = type(str.__eq__)               # wrapper_descriptor


def str_method(s, name, args, kw):
    """Method `name` of the native string s with a symbolic argument."""
    if name == 'join':
        return str_join(s, args[0])
    if name == 'format':
        return str_format(s, *args, **kw)
    if name == 'format_map':
        return str_format(s, **dict(args[0].pairs if type(args[0]) is SDict else args[0]))
    if name == '__mod__':
        return str_mod(s, args[0])
    if name == '__contains__':
        return SymStr(chars(s)).has(args[0])
    if name in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__', '__add__'):
        return getattr(SymStr(chars(s)), name)(*args)
    return getattr(SymStr(chars(s)), name)(*args, **kw)


def needs_join(a):
    """str.join / str.format must look at the elements of an iterable argument."""
    return True


def _call_native_str(s, name, args, kw):
    if name == 'join':
        it = args[0]
        items = it if type(it) in (list, tuple) else list(it)
        for x in items:
            if type(x) is not str:
                return str_join(s, items)
        return s.join(items)
    if name in ('format', 'format_map'):
        if has_sym(args) or has_sym(list(kw.values())) or any_user(args) or any_user(list(kw.values())):
            return str_method(s, name, args, kw)
        return getattr(s, name)(*args, **kw)
    if args and (has_sym(args) or any(type(a) is SDict for a in args)):
        return str_method(s, name, args, kw)
    return getattr(s, name)(*args, **kw)


def wrapped(f):
    """A function that is given to a native one, which calls it later."""
    t = type(f)
    if id(f) in TABLE or (t is _BM or t is _MW) and (type(f.__self__) is str or f.__name__ == 'fromkeys') or t in (_MD, _WD) and f.__objclass__ in (str, set, frozenset, dict):
        return lambda *a, **k: call(f, *a, **k)
    return f


def higher(f, args, kw):
    return f(*[wrapped(a) for a in args], **{k: wrapped(v) for k, v in kw.items()})


HIGHER = {id(f) for f in (map, filter, sorted, min, max, iter, functools.partial, functools.reduce, dataclasses.field,
                          itertools.accumulate, itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.groupby,
                          itertools.filterfalse)}


def call(f, /, *args, **kw):
    r = TABLE.get(id(f))
    if r is not None:
        return r(*args, **kw)
    if id(f) in HIGHER:
        return higher(f, args, kw)
    t = type(f)
    if t is _BM or t is _MW:
        s = f.__self__
        if type(s) is str:
            return _call_native_str(s, f.__name__, args, kw)
        if type(s) is list and f.__name__ == 'sort':
            return higher(f, args, kw)
        if type(s) is type and f.__name__ == 'fromkeys' and issubclass(s, dict):
            return rt_fromkeys(*args, **kw)
    elif t in (_MD, _WD) and f.__objclass__ is str and args:
        return callm(args[0], f.__name__, *args[1:], **kw)
    elif t is _MD and f.__objclass__ in (set, frozenset, dict) and args and type(args[0]) in (SSet, SDict):
        return getattr(args[0], f.__name__)(*args[1:], **kw)
    if t is _BM and (args or kw):
        try:
            return f(*args, **kw)
        except TypeError:               # a native function that wants to see inside a symbolic value
            if not (has_sym(args) or has_sym(list(kw.values())) or any(type(a) in (SDict, SSet) for a in args)):
                raise
            a, k = concretize(args, f.__name__), {n: concretize(v, f.__name__) for n, v in kw.items()}
            return f(*a, **k)
    return f(*args, **kw)


def callm(obj, name, /, *args, **kw):
    t = type(obj)
    if t is str:
        return _call_native_str(obj, name, args, kw)
    if t is SymStr or t is SymEnum:
        try:
            if t is SymEnum and (has_sym(args) or kw):
                obj = SymStr(chars(obj.fork()))
            return getattr(obj, name)(*args, **kw)
        except Unsupported as e:
            return getattr(concretize(obj, str(e)), name)(*[concretize(a, str(e)) for a in args], **kw)
    f = getattr(obj, name)
    r = TABLE.get(id(f))
    if r is not None:
        return r(*args, **kw)
    return call(f, *args, **kw)


# ---------------------------------------------------------------- operators

def mod(a, b):
    if type(a) in STRS:
        return str_mod(a, b)
    return a % b


def imod(a, b):
    return mod(a, b)


def not_(x):
    if type(x) is SymBool:
        return bnot(x)
    return not x


def contains(c, x):
    """x in c"""
    t = type(c)
    if t is str:
        if type(x) is str:
            return x in c
        return SymStr(chars(c)).has(x) if type(x) is not SymEnum else x.where(lambda s: s in c)
    if t is SymStr or t is SymEnum:
        return c.has(x)
    if t in (list, tuple):
        if any(user_eq(y) for y in c) or user_eq(x):
            for y in c:
                if y is x or bool(truth(eq(y, x))):
                    return True
            return False
        return bany([req(x, y) for y in c])
    if t is SSet:
        return c.find(x)
    if t in (set, frozenset):
        return SSet(c).find(x) if has_sym(x) or any(has_sym(y) for y in c) else x in c
    if t is dict and has_sym(x):
        return bany([req(x, y) for y in c])
    return x in c


def user_eq(x):
    t = type(x)
    return t not in _PRIM and t not in SYM_TYPES and t not in _CONT


_CONT = frozenset((list, tuple, SSet, SDict, dict, set, frozenset))


def truth(x):
    return x


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a == b
    if ta in _CONT and tb in _CONT:
        if ta in (tuple, list) and any(user_eq(x) for x in a):
            return a == b
        return req(a, b)
    return a == b


def cmp(op, a, b):
    if op == '==':
        return eq(a, b)
    if op == '!=':
        ta, tb = type(a), type(b)
        if ta in _PRIM and tb in _PRIM:
            return a != b
        if ta in _CONT and tb in _CONT:
            r = eq(a, b)
            return bnot(r) if type(r) in (bool, SymBool) else not r
        return a != b
    if op == 'in':
        return contains(b, a)
    if op == 'not in':
        r = contains(b, a)
        return bnot(r) if type(r) in (bool, SymBool) else not r
    if op == '<':
        return a < b
    if op == '>':
        return a > b
    if op == '<=':
        return a <= b
    if op == '>=':
        return a >= b
    if op == 'is':
        if type(a) is SymBool and (b is True or b is False):
            return a if b else bnot(a)
        if type(b) is SymBool and (a is True or a is False):
            return b if a else bnot(b)
        if type(a) is SymInt and type(b) is int or type(b) is SymInt and type(a) is int:
            return a == b
        return a is b
    if op == 'is not':
        r = cmp('is', a, b)
        return bnot(r)
    raise Unsupported(op)


def chain(ops, *vals):
    r = True
    for op, a, b in zip(ops, vals, vals[1:]):
        r = cmp(op, a, b)
        if not r:
            return r
    return r
