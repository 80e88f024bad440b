"""Runs a harness on concrete inputs against the unmodified code of the repository.

Started under the project's own interpreter.  As a server it answers one JSON
request per line; with a file argument it replays that counterexample.
"""
import importlib
import json
import os
import shutil
import signal
import sqlite3
import sys
import tempfile
import traceback

REPO = os.environ.get('GB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, VERIF)
sys.path.append(os.path.join(REPO, 'python'))
sys.setrecursionlimit(3000)


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class Diverged(BaseException):
    pass


class Timeout(BaseException):
    pass


class Crash(BaseException):
    pass


def decode(x):
    if isinstance(x, dict) and 'f' in x:
        return float(x['f'])
    return x


def canon(x):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 53 else {'i': str(x)}
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return {'t': [canon(e) for e in x]}
    if isinstance(x, list):
        return [canon(e) for e in x]
    if isinstance(x, (set, frozenset)):
        return {'s': sorted([canon(e) for e in x], key=lambda c: json.dumps(c, sort_keys=True))}
    if isinstance(x, dict):
        return {'d': sorted([[canon(k), canon(v)] for k, v in x.items()], key=lambda c: json.dumps(c, sort_keys=True))}
    if isinstance(x, BaseException):
        return {'e': type(x).__name__}
    return {'o': type(x).__name__}


# ----------------------------------------------- crash and fault instrumentation

class Faults(object):
    def __init__(self, path):
        self.path = path
        self.n = 0
        self.crash = None
        self.fault = None
        self.other = None
        self.crashed = False

    def point(self):
        if self.other is not None and self.other[0] == self.n:
            f = self.other[1]
            self.n += 1
            self.other = None
            crash, fault, self.crash, self.fault, n = self.crash, self.fault, None, None, self.n
            f()
            self.crash, self.fault, self.n = crash, fault, n
            return
        if self.crashed:
            raise Crash()
        if self.crash is not None and self.crash == self.n:
            # what the disk holds at this moment: the file and a possible hot journal
            self.crashed = True
            for suffix in ('', '-journal', '-wal'):
                if os.path.exists(self.path + suffix):
                    shutil.copyfile(self.path + suffix, self.path + '.crashed' + suffix)
            raise Crash()
        if self.fault is not None and self.fault == self.n:
            self.n += 1
            raise sqlite3.OperationalError('disk I/O error')
        self.n += 1


class CursorProxy(object):
    def __init__(self, cur, faults):
        self.__dict__['_c'] = cur
        self.__dict__['_f'] = faults

    def execute(self, *a):
        self._f.point()
        self._c.execute(*a)
        return self

    def executemany(self, sql, seq):
        n = 0
        for p in seq:
            self._f.point()
            self._c.execute(sql, p)
            n += max(0, self._c.rowcount)
        return self

    def executescript(self, sql):
        for s in sql.split(';'):
            if s.strip():
                self.execute(s)
        return self

    def __iter__(self):
        return iter(self._c)

    def __next__(self):
        return next(self._c)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._c.close()


class ConnProxy(object):
    def __init__(self, conn, faults):
        self.__dict__['_c'] = conn
        self.__dict__['_f'] = faults

    def cursor(self, *a):
        return CursorProxy(self._c.cursor(*a), self._f)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def commit(self):
        self._f.point()
        self._c.commit()

    def rollback(self):
        self._f.point()
        self._c.rollback()

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, (Crash, Timeout)):
            return False
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False


class Out(object):
    encoding = 'utf-8'

    def __init__(self):
        self.parts = []

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def isatty(self):
        return False

    def write(self, s):
        self.parts.append(s if isinstance(s, str) else bytes(s).decode('utf8', 'replace'))
        return len(s)

    def flush(self):
        pass


_real_connect = sqlite3.connect
CURRENT = [None]


def install():
    """Permanent dispatchers, so that names imported by the code under test are covered too."""
    import random

    def connect(database, *a, **k):
        env = CURRENT[0]
        return _real_connect(database, *a, **k) if env is None else env.connect(database, *a, **k)
    sqlite3.connect = connect

    def dispatch(lib, attr):
        try:
            m = importlib.import_module(lib)
        except ImportError:
            return
        real = getattr(m, attr)

        def f(*a, **k):
            env = CURRENT[0]
            g = env.hooks.get(lib + '.' + attr.lower()) if env is not None else None
            return real(*a, **k) if g is None else g(*a, **k)
        setattr(m, attr, f)
    dispatch('spacy', 'load')
    dispatch('MySQLdb', 'connect')
    dispatch('MySQLdb', 'Connect')
    import nltk.corpus
    real_wn = nltk.corpus.wordnet

    class Wordnet(object):
        def __getattr__(self, name):
            env = CURRENT[0]
            return getattr(real_wn if env is None else env.hooks.get('nltk.wordnet', real_wn), name)
    nltk.corpus.wordnet = Wordnet()

    def wrap(n):
        real = getattr(random, n)

        def f(*a, **k):
            env = CURRENT[0]
            return real(*a, **k) if env is None or not env.pinned_random else getattr(env, 'r_' + n)(*a, **k)
        setattr(random, n, f)
    real_seed, Real = random.seed, random.Random

    def seed(a=None, *more, **k):
        if a is not None and CURRENT[0] is not None:
            CURRENT[0].seeded.append(a)
        return real_seed(a, *more, **k)
    random.seed = seed

    class Random(Real):
        def __init__(self, x=None):
            if x is not None and CURRENT[0] is not None:
                CURRENT[0].seeded.append(x)
            Real.__init__(self, x)
    random.Random = Random
    for n in ('choice', 'choices', 'randint', 'randrange', 'getrandbits', 'sample', 'shuffle'):
        wrap(n)


class NativeEnv(object):
    symbolic = False
    Crash = Crash
    CheckFailed = CheckFailed

    def __init__(self, inputs, scratch):
        self.values = inputs
        self.used = {}
        self.scratch = scratch
        self.ndb = 0
        self.nfile = 0
        self.obs = []
        self.patched = []
        self.conns = []
        self.faults = {}
        self.moved = {}
        self.asserts = 0
        self.hooks = {}
        self.rsource = None
        self.seeded = []
        self.pinned_random = 'random' in inputs
        CURRENT[0] = self

    # inputs
    def take(self, name):
        if name in self.used:
            i = 2
            while '%s#%d' % (name, i) in self.used:
                i += 1
            name = '%s#%d' % (name, i)
        self.used[name] = True
        if name not in self.values:
            raise Diverged(name)
        return decode(self.values[name])

    def choose(self, name, options):
        return list(options)[self.take(name)]

    def flag(self, name):
        return self.choose(name, [False, True])

    def bool(self, name):
        return self.take(name)

    def int(self, name, lo, hi):
        return self.take(name)

    def str(self, name, n, cls='any'):
        return self._sized(name, n, '.len')

    def _sized(self, name, n, suffix):
        # the length choice has its own input, taken in the same order
        if name in self.used:
            i = 2
            while '%s#%d' % (name, i) in self.used:
                i += 1
            name = '%s#%d' % (name, i)
        if type(n) in (tuple, list):
            self.take(name + suffix)
        return self.take(name)

    def symbol(self, name, n=1, cls='sym'):
        return self._sized(name, n, '.len')

    def numint(self, name, n=(1, 3)):
        return self.take(name)

    def float(self, name, kinds=None, n=2, ni=None, nf=None):
        return self.take(name)

    def enum(self, name, table):
        return self.take(name)

    def random_int(self, lo, hi):
        if self.rsource is not None:
            return self.rsource(lo, hi)
        return self.take('random')

    def random_source(self, f):
        self.rsource = f
        self.pinned_random = True

    def r_choice(self, seq):
        return seq[self.random_int(0, len(seq) - 1)]

    def r_choices(self, seq, weights=None, cum_weights=None, k=1):
        return [self.r_choice(seq) for _ in range(k)]

    def r_randint(self, a, b):
        return self.random_int(a, b)

    def r_randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step != 1:
            return a + step * self.random_int(0, (b - a + step - 1) // step - 1)
        return self.random_int(a, b - 1)

    def r_sample(self, seq, k):
        rest = list(seq)
        return [rest.pop(self.random_int(0, len(rest) - 1)) for _ in range(k)]

    def r_shuffle(self, seq):
        seq[:] = self.r_sample(seq, len(seq))

    def r_getrandbits(self, k):
        return self.random_int(0, (1 << k) - 1)

    # verdicts
    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.asserts += 1
        if not c:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def observe(self, name, v):
        self.obs.append([name, canon(v)])

    def raised(self, f, *args):
        try:
            f(*args)
        except Exception as e:
            return e
        return None

    def same(self, a, b):
        if type(a) is not type(b):
            return False
        if type(a) in (tuple, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if type(a) is float:
            return repr(a) == repr(b)
        return a == b

    # environment
    def mod(self, name):
        return importlib.import_module(name)

    def patch_attr(self, obj, attr, value):
        self.patched.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, value)

    def patch_class(self, modname, cls, attr, value):
        self.patch_attr(getattr(self.mod(modname), cls), attr, value)

    def hook(self, what, value):
        self.hooks[what] = value

    def lib(self, lib):
        return importlib.import_module(lib)

    def dbpath(self):
        self.ndb += 1
        return os.path.join(self.scratch, 'db%d' % self.ndb)

    def connect(self, database, *a, **k):
        f = self.hooks.pop('sqlite3.connect', None)
        if f is not None:
            try:
                return f(database)
            finally:
                self.hooks['sqlite3.connect'] = f
        if database in self.faults and not a:
            k['timeout'] = 0        # there is nobody to wait for
        c = _real_connect(database, *a, **k)
        self.conns.append(c)
        if database in self.faults:
            return ConnProxy(c, self.faults[database])
        return c

    def store(self, path=None):
        path = path or self.dbpath()
        if path in self.moved:
            path = self.moved[path]
        return self.mod('gb.hypergraph.hypergraph').HyperGraph({'backend': 'sqlite', 'db': path})

    def faulty(self, path):
        f = self.faults.get(path)
        if f is None:
            f = self.faults[path] = Faults(path)
        return f

    def arm_crash(self, path, k):
        f = self.faulty(path)
        f.n = 0
        f.crash = k

    def arm_fault(self, path, k):
        f = self.faulty(path)
        f.n = 0
        f.fault = k

    def arm_other(self, path, k, f):
        d = self.faulty(path)
        d.n = 0
        d.other = (k, f)

    def disarm(self, path):
        f = self.faulty(path)
        n = f.n
        f.crash = f.fault = f.other = None
        return n

    def crashes(self, path, f):
        try:
            f()
        except Crash:
            self.moved[path] = path + '.crashed'
            return True
        self.disarm(path)
        return False

    def is_fault(self, e):
        return isinstance(e, sqlite3.OperationalError)

    def same_place(self, path):
        return self.moved.get(path, path)

    def file(self, lines):
        self.nfile += 1
        p = os.path.join(self.scratch, 'file%d' % self.nfile)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(lines))
        return p

    def capture(self, f, *args):
        old = sys.stdout
        sys.stdout = o = Out()
        try:
            f(*args)
        finally:
            sys.stdout = old
        return ''.join(o.parts)

    def command_line(self, group, given, command):
        group.main(['--%s=%s' % (k, v) for k, v in given.items()] + [command], prog_name='gbrain', standalone_mode=False)

    def close(self):
        CURRENT[0] = None
        for obj, attr, v in reversed(self.patched):
            setattr(obj, attr, v)
        for c in self.conns:
            try:
                c.close()
            except Exception:
                pass


def alarm(*a):
    raise Timeout()


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def run(module, func, params, inputs, timeout=20):
    scratch = tempfile.mkdtemp(prefix='gbverif-', dir=scratch_base())
    env = None
    old = sys.stdout
    sys.stdout = Out()
    res = {}
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(timeout)
    try:
        try:
            m = importlib.import_module('props.' + module)
            env = NativeEnv(inputs, scratch)
            getattr(m, func)(env, **params)
            res = {'status': 'ok'}
        except CheckFailed as e:
            res = {'status': 'fail', 'msg': str(e)}
        except AssumeFailed:
            res = {'status': 'assume'}
        except Diverged as e:
            res = {'status': 'diverged', 'msg': str(e)}
        except Timeout:
            res = {'status': 'fail', 'msg': 'does not end within %d s' % timeout, 'kind': 'timeout'}
        except Crash:
            res = {'status': 'diverged', 'msg': 'stray crash'}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else
                                   os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]
            res = {'status': 'fail', 'msg': 'raises %s: %s' % (type(e).__name__, e), 'where': where, 'kind': 'exception'}
    finally:
        signal.alarm(0)
        sys.stdout = old
        if env is not None:
            res['obs'] = env.obs
            res['asserts'] = env.asserts
            env.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def serve():
    out = sys.stdout
    for line in sys.stdin:
        rq = json.loads(line)
        r = run(rq['module'], rq['func'], rq['params'], rq['inputs'], rq.get('timeout', 20))
        out.write(json.dumps(r) + '\n')
        out.flush()


def main():
    install()
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            rq = json.load(f)
        r = run(rq['module'], rq['func'], rq['params'], rq['inputs'])
        print('property: %s' % rq.get('property'))
        print('harness:  props/%s.py %s %s' % (rq['module'], rq['func'], json.dumps(rq['params'])))
        print('inputs:   %s' % json.dumps(rq['inputs']))
        print('result:   %s %s' % (r['status'], r.get('msg', '')))
        for w in r.get('where', []):
            print('          at %s' % w)
        sys.exit(1 if r['status'] == 'fail' else 0)
    serve()


if __name__ == '__main__':
    main()
