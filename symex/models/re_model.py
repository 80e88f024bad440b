"""Regular expressions over symbolic text: a backtracking matcher on Python's own parse of the pattern."""
import re as real
from re import _constants as C
from re import _parser

from .. import charclass, iset, rt
from ..core import Unsupported, band, bnot, bor, scalar_eq
from ..values import SDict, SymEnum, SymStr, chars, has_sym, in_class, mkstr

NL = iset.of([10])
_cats = {}


def category(c, ascii_):
    key = (c, ascii_)
    r = _cats.get(key)
    if r is None:
        if c in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            s = iset.of([9, 10, 11, 12, 13, 32]) if ascii_ else charclass.pred('isspace')
        elif c in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
            s = ((48, 57),) if ascii_ else charclass.pred('isdecimal')
        elif c in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
            a = ((48, 57), (65, 90), (95, 95), (97, 122))
            s = a if ascii_ else iset.norm(list(charclass.pred('isalnum')) + [(95, 95)])
        else:
            raise Unsupported('regular expression category')
        if 'NOT' in str(c):
            s = iset.diff(((0, 0x10FFFF),), s)
        r = _cats[key] = s
    return r


def members(items, ascii_):
    neg = False
    out = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append((av, av))
        elif op is C.RANGE:
            out.append(av)
        elif op is C.CATEGORY:
            out.extend(category(av, ascii_))
        else:
            raise Unsupported('regular expression set')
    s = iset.norm(out)
    return iset.diff(((0, 0x10FFFF),), s) if neg else s


class Machine(object):
    def __init__(self, cs, flags):
        self.cs = cs
        self.n = len(cs)
        self.flags = flags
        self.ascii = bool(flags & real.ASCII)

    def char(self, i, s):
        return i < self.n and bool(in_class(self.cs[i], s))

    def word(self, i):
        return 0 <= i < self.n and bool(in_class(self.cs[i], category(C.CATEGORY_WORD, self.ascii)))

    def run(self, ops, k, pos, g, cont):
        """Matches ops[k:] at pos; returns what cont(pos, groups) returns, or None."""
        if k == len(ops):
            return cont(pos, g)
        op, av = ops[k]
        nxt = lambda p, g2: self.run(ops, k + 1, p, g2, cont)
        if op is C.LITERAL:
            return nxt(pos + 1, g) if pos < self.n and bool(scalar_eq(self.cs[pos], av)) else None
        if op is C.NOT_LITERAL:
            return nxt(pos + 1, g) if pos < self.n and bool(bnot(scalar_eq(self.cs[pos], av))) else None
        if op is C.ANY:
            if pos < self.n and (self.flags & real.DOTALL or bool(bnot(scalar_eq(self.cs[pos], 10)))):
                return nxt(pos + 1, g)
            return None
        if op is C.IN:
            return nxt(pos + 1, g) if self.char(pos, members(av, self.ascii)) else None
        if op is C.AT:
            return nxt(pos, g) if self.at(av, pos) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported('regular expression with local flags')

            def done(p, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (pos, p)
                return nxt(p, g2)
            return self.run(list(sub), 0, pos, g, done)
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            hi = 1 << 30 if hi is C.MAXREPEAT else hi

            def rep(count, p, g2):
                def more():
                    if count >= hi:
                        return None
                    return self.run(sub, 0, p, g2, lambda q, g3: rep(count + 1, q, g3) if q != p or count < lo else None)
                if count < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p, g2)
                r = nxt(p, g2)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for i in range(a, b):
                if pos + i - a >= self.n or not bool(scalar_eq(self.cs[i], self.cs[pos + i - a])):
                    return None
            return nxt(pos + b - a, g)
        if op is C.ASSERT or op is C.ASSERT_NOT:
            way, sub = av
            if way < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('look-behind')
                r = self.run(list(sub), 0, pos - lo, g, lambda p, g2: (g2,)) if pos >= lo else None
            else:
                r = self.run(list(sub), 0, pos, g, lambda p, g2: (g2,))
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[0])
            return nxt(pos, g) if r is None else None
        raise Unsupported('regular expression: %s' % (op,))

    def at(self, av, pos):
        multi = self.flags & real.MULTILINE
        if av is C.AT_BEGINNING:
            return pos == 0 or bool(multi) and bool(scalar_eq(self.cs[pos - 1], 10))
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_END:
            if pos == self.n:
                return True
            if multi:
                return bool(scalar_eq(self.cs[pos], 10))
            return pos == self.n - 1 and bool(scalar_eq(self.cs[pos], 10))
        if av is C.AT_END_STRING:
            return pos == self.n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            b = self.word(pos - 1) != self.word(pos)
            return b if av is C.AT_BOUNDARY else not b
        raise Unsupported('regular expression anchor')


class Match(object):
    def __init__(self, pat, string, start, end, groups):
        self.re = pat
        self.string = string
        self.spans = dict(groups)
        self.spans[0] = (start, end)
        self.pos = 0
        self.endpos = len(string)

    def _id(self, g):
        if type(g) is str:
            g = self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        sp = self.spans.get(self._id(g))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return SDict([(k, self._one(i, default)) for k, i in self.re.groupindex.items()])

    def span(self, g=0):
        return self.spans.get(self._id(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def __bool__(self):
        return True


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.real = real.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self.ops = None

    def _parsed(self):
        if self.ops is None:
            if self.flags & (real.IGNORECASE | real.LOCALE):
                raise Unsupported('regular expression flags')
            self.ops = list(_parser.parse(self.pattern, self.flags & ~real.UNICODE))
        return self.ops

    def _at(self, m, s, pos, full=False, advance=False):
        def done(p, g):
            if full and p != m.n or advance and p == pos:
                return None
            return Match(self, s, pos, p, g)
        return m.run(self._parsed(), 0, pos, {}, done)

    def _sym(self, s, pos, endpos):
        if type(s) is SymEnum:
            s = s.fork()
        if endpos is not None:
            s = s[:endpos]
        if type(s) is str:
            return s, None
        if type(s) is not SymStr:
            raise TypeError('expected string or bytes-like object')
        return s, Machine(chars(s), self.flags)

    def match(self, string, pos=0, endpos=None):
        s, m = self._sym(string, pos, endpos)
        return self.real.match(s, pos) if m is None else self._at(m, s, pos)

    def fullmatch(self, string, pos=0, endpos=None):
        s, m = self._sym(string, pos, endpos)
        return self.real.fullmatch(s, pos) if m is None else self._at(m, s, pos, True)

    def search(self, string, pos=0, endpos=None):
        s, m = self._sym(string, pos, endpos)
        if m is None:
            return self.real.search(s, pos)
        return self._search(m, s, pos)

    def _search(self, m, s, pos, advance=False):
        for i in range(pos, m.n + 1):
            r = self._at(m, s, i, False, advance and i == pos)
            if r is not None:
                return r
        return None

    def finditer(self, string, pos=0, endpos=None):
        s, m = self._sym(string, pos, endpos)
        if m is None:
            return self.real.finditer(s, pos)
        return iter(self._all(m, s, pos))

    def _all(self, m, s, pos):
        out = []
        advance = False
        while pos <= m.n:
            r = self._search(m, s, pos, advance)
            if r is None:
                break
            out.append(r)
            pos = r.end()
            advance = r.end() == r.start()
        return out

    def findall(self, string, pos=0, endpos=None):
        out = []
        for r in self.finditer(string, pos, endpos):
            out.append(r.group() if self.groups == 0 else (r.group(1) if r.group(1) is not None else '') if self.groups == 1 else
                       tuple('' if x is None else x for x in r.groups()))
        return out

    def split(self, string, maxsplit=0):
        s, m = self._sym(string, 0, None)
        if m is None:
            return self.real.split(s, maxsplit)
        out = []
        last = 0
        for k, r in enumerate(self._all(m, s, 0)):
            if maxsplit and k >= maxsplit:
                break
            out.append(s[last:r.start()])
            out.extend(r.groups())
            last = r.end()
        out.append(s[last:])
        return out

    def subn(self, repl, string, count=0):
        s, m = self._sym(string, 0, None)
        if m is None and not has_sym(repl) and not callable(repl):
            return self.real.subn(repl, s, count)
        if m is None:
            m = Machine(chars(s), self.flags)
        if not callable(repl):
            if type(repl) is not str:
                raise Unsupported('symbolic replacement')
            text = repl
            if '\\' in repl:
                tmpl = _parser.parse_template(repl, self.real)
                def repl(r):
                    out = []
                    for x in tmpl:
                        out.extend(chars(x if type(x) is str else (r.group(x) or '')))
                    return mkstr(out)
            else:
                repl = lambda r: text
        out = []
        last = 0
        n = 0
        for r in self._all(m, s, 0):
            if count and n >= count:
                break
            out.extend(chars(s[last:r.start()]))
            out.extend(chars(repl(r)))
            last = r.end()
            n += 1
        out.extend(chars(s[last:]))
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def __eq__(self, o):
        return type(o) is Pattern and (o.pattern, o.flags) == (self.pattern, self.flags)

    def __hash__(self):
        return hash((self.pattern, self.flags))


def compile(pattern, flags=0):
    if type(pattern) is Pattern:
        return pattern
    if type(pattern) is not str:
        raise Unsupported('symbolic pattern')
    return Pattern(pattern, flags)


def escape(s):
    if type(s) is str:
        return real.escape(s)
    raise Unsupported('symbolic pattern')


def make_re(module):
    m = module('re')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.compile = compile
    m.escape = escape
    m.Pattern = Pattern
    m.Match = Match

    def lift(name):
        def f(pattern, *a, **k):
            flags = k.pop('flags', 0)
            fixed = 3 if name in ('sub', 'subn') else 2 if name == 'split' else 1
            if len(a) > fixed:
                flags = a[fixed]
                a = a[:fixed]
            return getattr(compile(pattern, flags), name)(*a, **k)
        return f
    for n in ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall', 'finditer'):
        setattr(m, n, lift(n))
    return m
