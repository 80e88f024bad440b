"""The symbolic environment a harness runs in (native.py has its twin)."""
from . import charclass, iset, loader, rt
from .core import (CTX, Control, Unsupported, PathAbort, SV, SX, SymBool, Var, atom, ball, bany, band, bnot, bounds, eval_scalar,
                   scalar_eq, scalar_vars, to_z3, truth_term)
from .values import (DView, SDict, SSet, SymEnum, SymFloat, SymInt, SymStr, arith, chars, in_class, mkint, mkstr, req)
from .models import sqlite_model, stubs
from .models.sqlite_model import Crash

WS = charclass.pred('isspace')
NOSUR = charclass.ALL
PARENS = iset.of([40, 41])
DIGITS = ((48, 57),)

CLASSES = {
    'any': NOSUR,
    'sym': iset.diff(iset.diff(NOSUR, WS), PARENS),
    # symbol characters that cannot make the text look like a number
    'symx': iset.diff(iset.diff(iset.diff(NOSUR, WS), PARENS), iset.of([45, 46] + list(range(48, 58)))),
    # the same, without the characters the codec looks at
    'letter': iset.diff(iset.diff(NOSUR, WS), ((0, 101), (126, 126))),
    'symns': iset.diff(iset.diff(iset.diff(NOSUR, WS), PARENS), iset.of([47])),
    'ascii': ((33, 126),),
    'ascii_ws': ((1, 126),),
    # Latin, Greek, Cyrillic, punctuation, white space
    'bmp': iset.norm(list(((1, 0x24F), (0x370, 0x400), (0x1680, 0x1680), (0x1E90, 0x1EA0), (0x2000, 0x202F), (0x205F, 0x205F),
                           (0x2126, 0x212B), (0x3000, 0x3000), (0xFF20, 0xFF22)))),
    'lower': ((97, 122),),
    'ws': WS,
    'line': iset.diff(NOSUR, iset.of([10, 13])),
    'bmpline': iset.diff(((1, 0xD7FF),), iset.of([10, 13])),
}


class CheckFailed(Exception):
    pass


def looks_number(s):
    """Condition: the text is how the codec writes some int or float."""
    cs = chars(s)
    n = len(cs)
    alts = []

    def digs(i, j):
        return [in_class(c, DIGITS) for c in cs[i:j]]
    for neg in (0, 1):
        if n - neg < 1:
            continue
        pre = [scalar_eq(cs[0], 45)] if neg else []
        alts.append(ball(pre + digs(neg, n)))
        for p in range(neg, n):
            if n - neg >= 2:
                alts.append(ball(pre + digs(neg, p) + [scalar_eq(cs[p], 46)] + digs(p + 1, n)))
        # exponents: d[.d+]e[+-]dd+ (and shorter exponents, kept out to be safe)
        for e in range(neg + 1, n - 1):
            for sgn in (0, 1):
                if e + 1 + sgn >= n:
                    continue
                tail = [bany([scalar_eq(cs[e], 101), scalar_eq(cs[e], 69)])]
                if sgn:
                    tail.append(bany([scalar_eq(cs[e + 1], 43), scalar_eq(cs[e + 1], 45)]))
                tail += digs(e + 1 + sgn, n)
                alts.append(ball(pre + digs(neg, e) + tail))
                for p in range(neg, e):
                    if e - neg >= 2:
                        alts.append(ball(pre + digs(neg, p) + [scalar_eq(cs[p], 46)] + digs(p + 1, e) + tail))
    return bany(alts)


class Out(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass

    def text(self):
        out = []
        for p in self.parts:
            out.extend(chars(p))
        return mkstr(out)


class VFile(object):
    def __init__(self, lines):
        self.lines = list(lines)
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.lines):
            raise StopIteration
        self.pos += 1
        return self.lines[self.pos - 1]

    def readline(self):
        return self.lines[self.pos - 1] if self._adv() else ''

    def _adv(self):
        if self.pos >= len(self.lines):
            return False
        self.pos += 1
        return True

    def readlines(self, hint=-1):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r

    def read(self):
        out = []
        for line in self.readlines():
            out.extend(chars(line))
        return mkstr(out)

    def seek(self, pos, whence=0):
        if pos != 0 or whence != 0:
            raise Unsupported('seek in a file')
        self.pos = 0

    def close(self):
        self.pos = len(self.lines)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class SymEnv(object):
    symbolic = True
    Crash = Crash
    CheckFailed = CheckFailed

    def __init__(self, path, sink):
        self.path = path
        self.sink = sink          # called with (message, model) for each counterexample
        self.inputs = path.inputs
        self.dbs = {}
        self.files = {}
        self.stdout = None
        self.obs = []
        self.nrand = 0
        self.hooks = {}
        self.rsource = None
        self.seeded = []            # what random number generators were seeded with
        self.ndb = 0
        rt.ENV[0] = self

    # ------------------------------------------------------------- inputs
    def _name(self, name):
        if name not in self.inputs:
            return name
        i = 2
        while '%s#%d' % (name, i) in self.inputs:
            i += 1
        return '%s#%d' % (name, i)

    def var(self, name, width, base):
        v = Var.get(name, width, base)
        self.path.declare(v)
        return v

    def choose(self, name, options):
        """One of the options; every one is explored."""
        options = list(options)
        name = self._name(name)
        if len(options) == 1:
            i = 0
        else:
            v = self.var(name, 16, ((0, len(options) - 1),))
            i = self.path.choose(SV(v))
        self.inputs[name] = i
        return options[i]

    def flag(self, name):
        return self.choose(name, [False, True])

    def bool(self, name):
        name = self._name(name)
        v = self.var(name, 2, ((0, 1),))
        b = atom(v, ((1, 1),))
        self.inputs[name] = b
        return b

    def int(self, name, lo, hi):
        """Any integer lo..hi, symbolic."""
        name = self._name(name)
        if lo == hi:
            self.inputs[name] = lo
            return lo
        w = max(abs(lo), abs(hi)).bit_length() + 1
        v = self.var(name, w, ((lo, hi),))
        r = SymInt(SV(v))
        self.inputs[name] = r
        return r

    def str(self, name, n, cls='any'):
        """Any string with length n (or in the range n) over a class of characters."""
        name = self._name(name)
        if type(n) in (tuple, list):
            n = self.choose(name + '.len', range(n[0], n[1] + 1))
        base = CLASSES[cls] if type(cls) is str else iset.of(map(ord, cls[0])) if type(cls) is tuple else cls
        s = mkstr(tuple(SV(self.var('%s[%d]' % (name, i), 21, base)) for i in range(n)))
        self.inputs[name] = s
        return s

    def symbol(self, name, n=1, cls='sym'):
        """Any symbol: nonempty, no white space or parentheses, not the text of a number."""
        s = self.str(name, n, cls)
        if cls in ('sym', 'symns', 'ascii'):
            self.path.assume(bnot(looks_number(s)))
        return s

    def numint(self, name, n=(1, 3)):
        """Any integer with n decimal digits, carrying its text."""
        name = self._name(name)
        if type(n) in (tuple, list):
            n = self.choose(name + '.digits', range(n[0], n[1] + 1))
        neg = self.choose(name + '.neg', [False, True])
        ds = []
        for i in range(n):
            lo = 1 if i == 0 and (n > 1 or neg) else 0
            ds.append(SV(self.var('%s[%d]' % (name, i), 6, ((lo, 9),))))
        v = 0
        for d in ds:
            v = arith('+', arith('*', v, 10), d)
        if neg:
            v = arith('-', 0, v)
        text = mkstr(([45] if neg else []) + [SV(d.var, 48) for d in ds])
        r = SymInt(v, text)
        self.inputs[name] = r
        return r

    def float(self, name, kinds=('plain', 'exp+', 'exp-'), n=2, ni=None, nf=None):
        """Any finite float whose shortest decimal text has one of the forms
        [-]d..d.d..d, [-]d[.d..d]e+XX or [-]d[.d..d]e-XX, up to n digits each, or exactly
        ni before and nf after the point (at most 15 together)."""
        name = self._name(name)
        kind = self.choose(name + '.kind', kinds)
        neg = self.choose(name + '.neg', [False, True])
        k = [0]

        def dig(lo=0):
            k[0] += 1
            return SV(self.var('%s[%d]' % (name, k[0]), 6, ((lo, 9),)), 48)
        cs = [45] if neg else []
        if kind == 'plain':
            ni = ni or self.choose(name + '.ni', range(1, n + 1))
            nf = nf or self.choose(name + '.nf', range(1, n + 1))
            ip = [dig(1 if ni > 1 and i == 0 else 0) for i in range(ni)]
            # no trailing zero except in '.0'; below 0.0001 the text has an exponent
            fp = [dig(1 if nf > 1 and i == nf - 1 else 0) for i in range(nf)]
            cs += ip + [46] + fp
            if nf > 4:
                self.path.assume(bnot(ball([scalar_eq(c, 48) for c in ip + fp[:4]])))
        else:
            nf = self.choose(name + '.nf', range(0, n + 1)) if nf is None else nf
            cs.append(dig(1))
            if nf:
                cs.append(46)
                cs += [dig(1 if i == nf - 1 else 0) for i in range(nf)]
            ne = self.choose(name + '.ne', [2, 3])
            cs += [101, 43 if kind == 'exp+' else 45]
            if ne == 2:
                e1 = SV(self.var(name + '.e1', 6, ((1, 9),) if kind == 'exp+' else ((0, 9),)), 48)
                e2 = SV(self.var(name + '.e2', 6, ((0, 9),)), 48)
                # 1e+16 is the first with an exponent, 1e-05 the last
                if kind == 'exp+':
                    self.path.assume(bnot(ball([scalar_eq(e1, 49), in_class(e2, ((48, 53),))])))
                else:
                    self.path.assume(bnot(ball([scalar_eq(e1, 48), in_class(e2, ((48, 52),))])))
                cs += [e1, e2]
            else:
                e1 = SV(self.var(name + '.e1', 6, ((1, 2),)), 48)
                e2 = SV(self.var(name + '.e2', 6, ((0, 9),)), 48)
                e3 = SV(self.var(name + '.e3', 6, ((0, 9),)), 48)
                cs += [e1, e2, e3]
        r = SymFloat(mkstr(cs))
        self.inputs[name] = r
        return r

    def enum(self, name, table):
        """Any string of the table, symbolic."""
        name = self._name(name)
        table = list(dict.fromkeys(table))
        if len(table) == 1:
            self.inputs[name] = table[0]
            return table[0]
        v = self.var(name, 12, ((0, len(table) - 1),))
        r = SymEnum(v, table)
        self.inputs[name] = r
        return r

    def random_int(self, lo, hi):
        self.nrand += 1
        if self.rsource is not None:
            return self.rsource(lo, hi)
        return self.int('random', lo, hi)

    def random_source(self, f):
        """Where random numbers from lo to hi come from: f(lo, hi)."""
        self.rsource = f

    # ------------------------------------------------------------ verdicts
    def assume(self, c):
        self.path.assume(truth_term(c))

    def check(self, c, msg):
        """The property: c must hold on every path."""
        c = truth_term(c)
        p = self.path
        p.asserts += 1
        ex = p.ex
        ex.stats.asserts += 1
        c = p.simplify(c)
        if c is True:
            return
        if len(p.trace) < len(p.prefix):
            # decided by the run that this one replays
            v = p.prefix[len(p.trace)]
            p.trace.append(v)
            if c is False:
                raise PathAbort()
            if v == 'K':
                p.assume_known(c)
            elif v == 'A':
                p.assume_raw(c, True)
            return
        if c is False:
            self.violation(msg)
            raise PathAbort()
        ex.stats.assert_queries += 1
        r, m = ex.solver.check(p.cons, to_z3(bnot(c)))
        if r is None:
            p.note_incomplete('solver gave no answer on an assertion')
            p.trace.append('U')
            return
        if r is False:
            p.trace.append('K')
            p.assume_known(c)
            return
        self.violation(msg, m)
        r, m = ex.solver.check(p.cons, to_z3(c))
        if r is False:
            raise PathAbort()
        p.trace.append('A')
        p.assume_raw(c, True)

    def violation(self, msg, m=None):
        if m is None:
            r, m = self.path.ex.solver.check(self.path.cons)
            if not r:
                if r is None:
                    self.path.note_incomplete('solver gave no answer on a failing path')
                return
        self.sink(msg, self.model_inputs(m))

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, name, v):
        self.obs.append((name, v))

    def raised(self, f, *args):
        """The exception f(*args) raises, or None."""
        try:
            f(*args)
        except Control:
            raise
        except Exception as e:
            return e
        return None

    def model_inputs(self, m):
        return {k: encode(model_val(m, v)) for k, v in self.inputs.items()}

    # --------------------------------------------------------- environment
    def mod(self, name):
        return loader.imp(name, {}, {}, ('*',), 0)

    def patch_class(self, modname, cls, attr, value):
        setattr(getattr(self.mod(modname), cls), attr, value)

    def hook(self, what, value):
        """A library function (or nltk.wordnet) is this one from now on, however it was imported."""
        self.hooks[what] = value

    def lib(self, lib):
        return loader.STUBS[lib] if lib in loader.STUBS else __import__(lib)

    def database(self, path):
        if type(path) is not str:
            from .values import concretize
            path = concretize(path, 'symbolic database path')
        d = self.dbs.get(path)
        if d is None:
            d = self.dbs[path] = sqlite_model.Database()
        return d

    def dbpath(self):
        self.ndb += 1
        return 'db%d' % self.ndb

    def store(self, path=None):
        """A HyperGraph on a (new) SQLite database."""
        path = path or self.dbpath()
        return self.mod('gb.hypergraph.hypergraph').HyperGraph(SDict({'backend': 'sqlite', 'db': path}))

    def faulty(self, path):
        """Announces that crashes or faults will be armed on this database."""

    def arm_crash(self, path, k):
        f = self.database(path).faults
        f.n = 0
        f.crash = k

    def arm_fault(self, path, k):
        f = self.database(path).faults
        f.n = 0
        f.fault = k

    def arm_other(self, path, k, f):
        """Before database operation k, f happens (on another connection)."""
        d = self.database(path).faults
        d.n = 0
        d.other = (k, f)

    def disarm(self, path):
        """Ends the crash or fault period; returns how many database operations it saw."""
        f = self.database(path).faults
        n = f.n
        f.crash = f.fault = f.other = None
        return n

    def crashes(self, path, f):
        """Runs f; True when the armed crash struck."""
        try:
            f()
        except Crash:
            self.database(path).crash()
            return True
        self.disarm(path)
        return False

    def is_fault(self, e):
        return isinstance(e, sqlite_model.real.OperationalError)

    def same_place(self, path):
        """The path of the database as it is on disk now."""
        return path

    def file(self, lines):
        p = 'file%d' % (len(self.files) + 1)
        self.files[p] = list(lines)
        return p

    def vopen(self, path, mode='r'):
        if path not in self.files or 'r' not in mode:
            raise FileNotFoundError(path)
        return VFile(self.files[path])

    def capture(self, f, *args):
        """Text that f(*args) writes to standard output."""
        self.stdout = Out()
        try:
            f(*args)
            return self.stdout.text()
        finally:
            self.stdout = None

    def command_line(self, group, given, command):
        """Runs a command of a click group with these options."""
        stubs.click_run(group, given, command)

    # ------------------------------------------------------------- helpers
    def same(self, a, b):
        """Equality of value and type."""
        return same(a, b)


def kind(x):
    return x.__class__


def same(a, b):
    ka, kb = kind(a), kind(b)
    if ka is not kb:
        return False
    if ka in (tuple, list):
        if len(a) != len(b):
            return False
        return ball([truth_term(same(x, y)) for x, y in zip(a, b)])
    return truth_term(rt.eq(a, b))


def model_val(m, x):
    t = type(x)
    if t is SymInt:
        return eval_scalar(m, x.s)
    if t is SymStr:
        return ''.join(chr(eval_scalar(m, c)) for c in x.cs)
    if t is SymEnum:
        return x.table[eval_scalar(m, SV(x.var))]
    if t is SymFloat:
        return float(model_val(m, x.text))
    if t is SymBool:
        import z3
        if x.k == 'atom':
            return iset.contains(x.b, eval_scalar(m, SV(x.a)))
        return z3.is_true(m.eval(x.z(), model_completion=True))
    if t in (list, tuple):
        return t(model_val(m, e) for e in x)
    if t is SSet:
        return set(model_val(m, e) for e in x.items)
    if t is SDict:
        return {model_val(m, k): model_val(m, v) for k, v in x.pairs}
    if t is DView:
        return [model_val(m, e) for e in x]
    return x


def encode(x):
    if isinstance(x, float):
        return {'f': repr(x)}
    return x


def canon(x):
    """Order-free JSON form of an observed value."""
    import json
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 53 else {'i': str(x)}
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return {'t': [canon(e) for e in x]}
    if isinstance(x, list):
        return [canon(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return {'s': sorted([canon(e) for e in x], key=lambda c: json.dumps(c, sort_keys=True))}
    if isinstance(x, dict):
        return {'d': sorted([[canon(k), canon(v)] for k, v in x.items()], key=lambda c: json.dumps(c, sort_keys=True))}
    if isinstance(x, BaseException):
        return {'e': type(x).__name__}
    return {'o': type(x).__name__}
