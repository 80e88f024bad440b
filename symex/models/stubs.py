"""Stand-ins for the libraries around the code under test."""
import sqlite3 as real_sqlite
import sys
import types
from .. import rt
from ..core import CTX, SV, Unsupported, bounds
from ..values import SymInt, SymStr, arith, concretize, mkint, int_of
from . import re_model, sqlite_model


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


# ------------------------------------------------------------------- sqlite3

def make_sqlite3():
    m = module('sqlite3')
    for n in dir(real_sqlite):
        if not n.startswith('__'):
            setattr(m, n, getattr(real_sqlite, n))
    m.connect = sqlite_model.connect
    m.Connection = sqlite_model.Connection
    m.Cursor = sqlite_model.Cursor
    return m


# --------------------------------------------------------------------- numpy

M64 = 1 << 64


def wrap64(v):
    v = v.v if type(v) is U64 else v
    if type(v) is int:
        return v % M64
    if type(v) is SymInt:
        return v % M64
    raise Unsupported('numpy value')


class U64(object):
    """numpy.uint64"""

    def __init__(self, v=0):
        self.v = wrap64(rt.rt_int(v) if isinstance(v, str) else v)

    def _o(self, o):
        return o.v if type(o) is U64 else o

    def __add__(self, o):
        return U64(self.v + self._o(o))
    __radd__ = __add__

    def __mul__(self, o):
        return U64(self.v * self._o(o))
    __rmul__ = __mul__

    def __sub__(self, o):
        return U64(self.v - self._o(o))

    def __rsub__(self, o):
        return U64(self._o(o) - self.v)

    def __and__(self, o):
        return U64(self.v & self._o(o))
    __rand__ = __and__

    def __xor__(self, o):
        return U64(self.v ^ self._o(o))
    __rxor__ = __xor__

    def __or__(self, o):
        return U64(self.v | self._o(o))

    def __lshift__(self, o):
        return U64(self.v << self._o(o))

    def __rshift__(self, o):
        return U64(self.v >> self._o(o))

    def __mod__(self, o):
        return U64(self.v % self._o(o))

    def __floordiv__(self, o):
        return U64(self.v // self._o(o))

    def __eq__(self, o):
        return self.v == self._o(o)

    def __ne__(self, o):
        return self.v != self._o(o)

    def __lt__(self, o):
        return self.v < self._o(o)

    def __index__(self):
        return int_of(self.v)
    __int__ = __index__

    def __str__(self):
        return rt.rt_str(self.v)

    def __format__(self, spec):
        return rt.rt_format(self.v, spec)

    def item(self):
        return self.v

    __hash__ = None


class Arr(object):
    """A numpy array of unsigned 64-bit integers (nested lists)."""

    def __init__(self, data):
        self.data = data

    def _map2(self, o, f):
        def go(a, b):
            la, lb = type(a) is list, type(b) is list
            if la and lb:
                if len(a) != len(b):
                    raise Unsupported('numpy broadcasting')
                return [go(x, y) for x, y in zip(a, b)]
            if la:
                return [go(x, b) for x in a]
            if lb:
                return [go(a, y) for y in b]
            return f(a, b)
        return Arr(go(self.data, o.data if type(o) is Arr else o))

    def __add__(self, o):
        return self._map2(o, lambda a, b: a + b)
    __radd__ = __add__

    def __mul__(self, o):
        return self._map2(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._map2(o, lambda a, b: a - b)

    def __and__(self, o):
        return self._map2(o, lambda a, b: a & b)

    def __xor__(self, o):
        return self._map2(o, lambda a, b: a ^ b)

    def __getitem__(self, i):
        d = self.data
        for k in (i if type(i) is tuple else (i,)):
            d = d[k]
        return Arr(d) if type(d) is list else d

    def __len__(self):
        return len(self.data)

    def item(self, *a):
        d = self.data
        while type(d) is list:
            d = d[0]
        return d.v

    def sum(self):
        r = U64(0)
        for x in self.data:
            r = r + (Arr(x).sum() if type(x) is list else x)
        return r


def np_array(data, dtype=None, **k):
    if dtype is not U64:
        raise Unsupported('numpy dtype')

    def go(x):
        if type(x) in (list, tuple):
            return [go(y) for y in x]
        return x if type(x) is U64 else U64(x)
    d = go(data)
    return Arr(d) if type(d) is list else d


def np_dot(a, b):
    x = a.data if type(a) is Arr else a
    y = b.data if type(b) is Arr else b
    if type(x) is not list or type(y) is not list:
        return a * b
    if type(x[0]) is not list and type(y[0]) is not list:
        r = U64(0)
        for p, q in zip(x, y):
            r = r + p * q
        return r
    out = [[None] * len(y[0]) for _ in x]
    for i in range(len(x)):
        for j in range(len(y[0])):
            r = U64(0)
            for k in range(len(y)):
                r = r + x[i][k] * y[k][j]
            out[i][j] = r
    return Arr(out)


class _Errstate(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_numpy():
    def bad(*a, **k):
        raise Unsupported('numpy function')
    m = module('numpy', array=np_array, asarray=np_array, uint64=U64, dot=np_dot, matmul=np_dot, errstate=_Errstate,
               multiply=lambda a, b: a * b, add=lambda a, b: a + b, ndarray=Arr, seterr=lambda *a, **k: None)
    m.__getattr__ = lambda n: bad
    return m


# -------------------------------------------------------------------- random

def env_pick(n):
    """Any index 0..n-1, chosen by the environment."""
    return rt.ENV[0].random_int(0, n - 1)


def r_choice(seq):
    n = len(seq)
    if n == 0:
        raise IndexError('Cannot choose from an empty sequence')
    i = env_pick(n)
    if type(i) is int:
        return seq[i]
    if type(seq) is str:
        return char_at(seq, i)
    return seq[int_of(i)]


_runs = {}


def char_at(seq, i):
    """seq[i] for a symbolic index: an if-then-else over the runs of consecutive characters."""
    import z3
    from ..core import SX, scalar_bv, scalar_vars
    runs = []
    for k, c in enumerate(seq):
        if runs and ord(c) - k == runs[-1][2]:
            runs[-1][1] = k
        else:
            runs.append([k, k, ord(c) - k])
    s = i.s
    e = None
    x = scalar_bv(s, 22)
    for lo, hi, d in reversed(runs):
        v = x + d
        e = v if e is None else z3.If(x <= hi, v, e)
    os = [ord(c) for c in seq]
    return SymStr((SX(e, min(os), max(os), scalar_vars(s)),))


def r_randint(a, b):
    return rt.ENV[0].random_int(a, b)


def r_randrange(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if step != 1:
        return a + step * rt.ENV[0].random_int(0, (b - a + step - 1) // step - 1)
    return rt.ENV[0].random_int(a, b - 1)


def r_choices(seq, weights=None, cum_weights=None, k=1):
    return [r_choice(seq) for _ in range(k)]


def r_sample(seq, k):
    rest = list(seq)
    out = []
    for _ in range(k):
        out.append(rest.pop(int_of(env_pick(len(rest)))))
    return out


def r_shuffle(seq):
    seq[:] = r_sample(seq, len(seq))


def r_getrandbits(k):
    return rt.ENV[0].random_int(0, (1 << k) - 1)


def r_seed(a=None, *more, **k):
    if a is not None and rt.ENV[0] is not None:
        rt.ENV[0].seeded.append(a)


class RRandom(object):
    def __init__(self, *a):
        r_seed(*a)
    seed = staticmethod(r_seed)
    choice = staticmethod(r_choice)
    choices = staticmethod(r_choices)
    randint = staticmethod(r_randint)
    randrange = staticmethod(r_randrange)
    sample = staticmethod(r_sample)
    shuffle = staticmethod(r_shuffle)
    getrandbits = staticmethod(r_getrandbits)


def make_random():
    return module('random', choice=r_choice, choices=r_choices, randint=r_randint, randrange=r_randrange, sample=r_sample,
                  shuffle=r_shuffle, getrandbits=r_getrandbits, seed=r_seed, Random=RRandom, SystemRandom=RRandom)


# ------------------------------------------------------- NLP, CLI, databases

class Missing(object):
    """Anything of a library that the checks never reach."""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self._name + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported('library call: ' + self._name)


class _ClickCommand(object):
    """click: a command or group."""

    def __init__(self, f, name):
        self.callback = f
        self.name = name
        self.params = list(reversed(getattr(f, '_click_params', [])))
        self.commands = {}

    def command(self, *a, **k):
        def deco(f):
            c = _ClickCommand(f, _command_name(f, a, k))
            self.commands[c.name] = c
            return c
        if a and callable(a[0]):
            f, a = a[0], a[1:]
            return deco(f)
        return deco

    group = command

    def add_command(self, c, name=None):
        self.commands[name or c.name] = c

    def __call__(self, *a, **k):
        raise Unsupported('running a click command line')

    def invoke(self, ctx, given):
        k = {}
        for decl, conf in self.params:
            if any(conf.get(n) for n in ('type', 'callback', 'multiple', 'is_flag', 'nargs', 'envvar', 'prompt')):
                raise Unsupported('click option')
            names = [d.lstrip('-') for d in decl if d.startswith('--')]
            name = ([d for d in decl if not d.startswith('-')] + [n.replace('-', '_') for n in names])[0].lower()
            k[name] = conf.get('default')
            for n in names:
                if n in given:
                    k[name] = given[n]
        f = self.callback
        return f(*[ctx if p == 'context' else ctx.obj for p in getattr(f, '_click_pass', ())], **k)


def _command_name(f, a, k):
    return (a[0] if a else k.get('name')) or f.__name__.replace('_', '-')


class _ClickContext(object):
    obj = None
    invoked_subcommand = None

    def ensure_object(self, t):
        if self.obj is None:
            self.obj = t()
        return self.obj


def click_run(group, given, command):
    """What the command line does: the group with its options, then the command."""
    ctx = _ClickContext()
    ctx.invoked_subcommand = command
    group.invoke(ctx, given)
    group.commands[command].invoke(ctx, {})


def make_click():
    def group(*a, **k):
        if a and callable(a[0]):
            return _ClickCommand(a[0], _command_name(a[0], (), {}))
        return lambda f: _ClickCommand(f, _command_name(f, a, k))

    def option(*decl, **k):
        def deco(f):
            if isinstance(f, _ClickCommand):
                f.params.append((decl, k))
            else:
                f.__dict__.setdefault('_click_params', []).append((decl, k))
            return f
        return deco

    def passing(what):
        def deco(f):
            f._click_pass = (what,) + getattr(f, '_click_pass', ())
            return f
        return deco

    return module('click', group=group, command=group, option=option, argument=option, pass_context=passing('context'),
                  pass_obj=passing('obj'), echo=lambda *a, **k: None, secho=lambda *a, **k: None, style=lambda t, **k: t,
                  Choice=lambda *a, **k: 'choice')


def hooked(what):
    def f(*a, **k):
        g = rt.ENV[0].hooks.get(what)
        if g is None:
            raise Unsupported('library call: ' + what)
        return g(*a, **k)
    return f


class _Wordnet(object):
    def __getattr__(self, name):
        if name.startswith('__') or rt.ENV[0] is None or 'nltk.wordnet' not in rt.ENV[0].hooks:
            raise AttributeError(name)
        return getattr(rt.ENV[0].hooks['nltk.wordnet'], name)


class LeftAligned(object):
    def __call__(self, tree):
        return ''


class _Stream(object):
    """Standard output, for code that writes to it without print."""

    def write(self, text):
        out = rt.ENV[0].stdout if rt.ENV[0] is not None else None
        if out is not None:
            out.write(text)
        return len(text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False


def make_sys():
    m = module('sys')
    for n in dir(sys):
        if not n.startswith('__'):
            setattr(m, n, getattr(sys, n))
    m.stdout = m.__stdout__ = _Stream()
    m.stderr = _Stream()
    m.argv = ['x']
    return m


def make_all():
    s = {}
    s['re'] = re_model.make_re(module)
    s['sys'] = make_sys()
    s['sqlite3'] = make_sqlite3()
    s['numpy'] = make_numpy()
    s['random'] = make_random()
    s['spacy'] = module('spacy', load=hooked('spacy.load'))
    corpus = module('nltk.corpus', wordnet=_Wordnet())
    s['nltk'] = module('nltk', corpus=corpus)
    s['asciitree'] = module('asciitree', LeftAligned=LeftAligned)
    s['click'] = make_click()

    class MyErr(Exception):
        pass

    class MyOperational(MyErr):
        pass

    class MyProgramming(MyErr):
        pass

    class MyIntegrity(MyErr):
        pass

    class MyData(MyErr):
        pass
    my = module('_mysql_exceptions', OperationalError=MyOperational, ProgrammingError=MyProgramming, Error=MyErr,
                IntegrityError=MyIntegrity, DataError=MyData, DatabaseError=MyErr, MySQLError=MyErr)
    s['_mysql_exceptions'] = my
    s['MySQLdb'] = module('MySQLdb', connect=hooked('MySQLdb.connect'), Connect=hooked('MySQLdb.connect'), OperationalError=MyOperational,
                          ProgrammingError=MyProgramming, IntegrityError=MyIntegrity, DataError=MyData, DatabaseError=MyErr, Error=MyErr, _exceptions=my, cursors=Missing('cursors'),
                          constants=module('MySQLdb.constants', CLIENT=module('CLIENT', FOUND_ROWS=2)))
    return s
