"""Path exploration: symbolic scalars, conditions, forking and the solver.

The code under test runs natively (after the AST pass of instrument.py) on
symbolic values.  Whenever its control flow depends on a symbolic condition,
`branch` decides which outcomes are feasible and the path forks: the run goes
on with one outcome and the other is queued as a decision prefix to re-execute.
All symbolic values are bit-vectors (QF_BV), so every query is decidable.
"""
import time
import zlib
import z3
from . import iset


class Control(BaseException):
    """Engine control flow; code under test must never swallow it."""


class PathAbort(Control):
    """The path's assumptions cannot be met."""


class Unsupported(Control):
    """The code applied an operation to a symbolic value that has no model."""


class PathTimeout(Control):
    """The path ran longer than the per-path limit (maybe non-termination)."""


class StopExploring(Control):
    pass


class Var(object):
    __slots__ = ('name', 'width', 'bv', 'base', 'signed')
    _cache = {}

    def __init__(self, name, width, base):
        self.name = name
        self.width = width
        self.base = base
        self.bv = z3.BitVec(name, width)
        self.signed = iset.lo(base) < 0

    @classmethod
    def get(cls, name, width, base):
        key = (name, width, base)
        v = cls._cache.get(key)
        if v is None:
            v = cls._cache[key] = Var(name, width, base)
        return v

    def __repr__(self):
        return self.name


_member_cache = {}
_POOL = []           # keeps expressions alive so that ids stay unique


def member_z3(var, s):
    """z3 expression of var in s."""
    key = (var, s)
    e = _member_cache.get(key)
    if e is None:
        parts = []
        # use the complement when it is shorter
        comp = iset.diff(var.base, s)
        neg = len(comp) < len(s)
        for lo, hi in (comp if neg else s):
            if lo == hi:
                parts.append(var.bv == lo)
            elif var.signed:
                parts.append(z3.And(var.bv >= lo, var.bv <= hi))
            else:
                parts.append(z3.And(z3.UGE(var.bv, lo), z3.ULE(var.bv, hi)))
        if not parts:
            e = z3.BoolVal(neg)
        else:
            e = parts[0] if len(parts) == 1 else z3.Or(parts)
            if neg:
                e = z3.Not(e)
        _member_cache[key] = e
    return e


# ---------------------------------------------------------------- conditions

class SymBool(object):
    """kinds: 'atom' (var, iset) | 'eqv' (scalar, scalar) | 'lex' | 'rel' |
    'and' [..] | 'or' [..] | 'not' c"""
    __slots__ = ('k', 'a', 'b', '_z', '_vars')

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b
        self._z = None
        self._vars = None

    # -- formula
    def z(self):
        if self._z is None:
            k = self.k
            if k == 'atom':
                self._z = member_z3(self.a, self.b)
            elif k == 'and':
                self._z = z3.And([to_z3(c) for c in self.a])
            elif k == 'or':
                self._z = z3.Or([to_z3(c) for c in self.a])
            elif k == 'not':
                self._z = z3.Not(to_z3(self.a))
            elif k == 'eqv':
                self._z = eqv_z3(self.a, self.b)
            elif k == 'lex':
                self._z = lex_z3(self.a, self.b)
            else:
                self._z = self.a
        return self._z

    def vars(self):
        if self._vars is None:
            k = self.k
            if k == 'atom':
                self._vars = frozenset((self.a,))
            elif k in ('and', 'or'):
                r = frozenset()
                for c in self.a:
                    if isinstance(c, SymBool):
                        r |= c.vars()
                self._vars = r
            elif k == 'not':
                self._vars = self.a.vars()
            elif k == 'eqv':
                self._vars = scalar_vars(self.a) | scalar_vars(self.b)
            elif k == 'lex':
                r = frozenset()
                for c in self.a[0] + self.a[1]:
                    r |= scalar_vars(c)
                self._vars = r
            else:
                self._vars = self.b
        return self._vars

    # -- python protocol
    def __bool__(self):
        return CTX().branch(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bnot(beq(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - int(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return beq(self, o)
        return bool(self) == o

    def __ne__(self, o):
        return bnot(self == o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % (self.k,)

    @property
    def __class__(self):
        return bool


def issym_bool(x):
    return type(x) is SymBool


def to_z3(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    return c.z()


def bnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.k == 'atom':
        s = iset.diff(c.a.base, c.b)
        return atom(c.a, s)
    if c.k == 'not':
        return c.a
    return SymBool('not', c)


def atom(var, s):
    s = iset.inter(var.base, s)
    if not s:
        return False
    if s == var.base:
        return True
    return SymBool('atom', var, s)


def ball(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c.k == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('and', out)


def bany(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c.k == 'or':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('or', out)


def band(a, b):
    return ball([truth_term(a), truth_term(b)])


def bor(a, b):
    return bany([truth_term(a), truth_term(b)])


def beq(a, b):
    a = truth_term(a)
    b = truth_term(b)
    if isinstance(a, bool) and type(a) is bool:
        return b if a else bnot(b)
    if type(b) is bool:
        return a if b else bnot(a)
    return bor(band(a, b), band(bnot(a), bnot(b)))


def implies(a, b):
    return bor(bnot(truth_term(a)), b)


def truth_term(x):
    """x as bool or SymBool without forking, when it is one already."""
    if type(x) is bool or type(x) is SymBool:
        return x
    return bool(x)


def rel(expr, vs):
    return SymBool('rel', expr, frozenset(vs))


# ------------------------------------------------- scalars (code points, ints)
# A scalar is an int, an SV (variable plus constant offset) or an SX (any
# bit-vector expression with known bounds).

class SV(object):
    __slots__ = ('var', 'off')

    def __init__(self, var, off=0):
        self.var = var
        self.off = off

    def __repr__(self):
        return '%s%+d' % (self.var, self.off) if self.off else repr(self.var)


class SX(object):
    """General expression: unsigned or two's complement bit-vector, lo..hi."""
    __slots__ = ('e', 'lo', 'hi', 'vs', 'lin')

    def __init__(self, e, lo, hi, vs, lin=None):
        self.lin = lin          # a linear form of the value: see values.linear
        self.e = e
        self.lo = lo
        self.hi = hi
        self.vs = frozenset(vs)


def scalar_vars(s):
    t = type(s)
    if t is SV:
        return frozenset((s.var,))
    if t is SX:
        return s.vs
    return frozenset()


def scalar_key(s):
    t = type(s)
    if t is int:
        return s
    if t is SV:
        return (id(s.var), s.off)
    _POOL.append(s.e)
    return ('x', s.e.get_id())


def bounds(s):
    t = type(s)
    if t is int:
        return s, s
    if t is SV:
        b = s.var.base
        return iset.lo(b) + s.off, iset.hi(b) + s.off
    return s.lo, s.hi


def width_for(lo, hi):
    """Two's complement width that holds lo..hi."""
    w = 2
    while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
        w += 1
    return w


_const_cache = {}


def const(v, w):
    key = (v, w)
    e = _const_cache.get(key)
    if e is None:
        e = _const_cache[key] = z3.BitVecVal(v, w)
    return e


def scalar_bv(s, w):
    """Signed bit-vector of width w (which must hold the bounds) for a scalar."""
    t = type(s)
    if t is int:
        return const(s, w)
    if t is SV:
        v = s.var
        cur = v.width
        if cur < w:
            e = z3.SignExt(w - cur, v.bv) if v.signed else z3.ZeroExt(w - cur, v.bv)
        elif cur > w:
            e = z3.Extract(w - 1, 0, v.bv)
        else:
            e = v.bv
        if s.off:
            e = e + s.off
        return e
    cur = s.e.size()
    if cur < w:
        return z3.SignExt(w - cur, s.e)
    if cur > w:
        return z3.Extract(w - 1, 0, s.e)
    return s.e


def scalar_eq(a, b):
    """bool or SymBool for a == b."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is int:
        if tb is int:
            return a == b
        a, b, ta, tb = b, a, tb, ta
    if tb is int:
        if ta is SV:
            return atom(a.var, iset.single(b - a.off))
        if b < a.lo or b > a.hi:
            return False
        return SymBool('eqv', a, b)
    if ta is SV and tb is SV and a.var is b.var:
        return a.off == b.off
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha < lb or hb < la:
        return False
    if ta is SX and tb is SX and a.e.eq(b.e):
        return True
    return SymBool('eqv', a, b)


_eqv_cache = {}


def eqv_z3(a, b):
    key = (scalar_key(a), scalar_key(b))
    e = _eqv_cache.get(key)
    if e is None:
        if type(a) is SV and type(b) is SV and a.off == b.off and a.var.width == b.var.width \
                and a.var.signed == b.var.signed:
            e = a.var.bv == b.var.bv
        else:
            la, ha = bounds(a)
            lb, hb = bounds(b)
            w = width_for(min(la, lb), max(ha, hb))
            e = scalar_bv(a, w) == scalar_bv(b, w)
        _eqv_cache[key] = e
    return e


def scalar_lt(a, b):
    """bool or SymBool for a < b."""
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a < b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    if ta is SV and tb is int:
        return atom(a.var, iset.rng(iset.lo(a.var.base), b - 1 - a.off))
    if tb is SV and ta is int:
        return atom(b.var, iset.rng(a + 1 - b.off, iset.hi(b.var.base)))
    if ta is SV and tb is SV and a.var is b.var:
        return a.off < b.off
    w = width_for(min(la, lb), max(ha, hb))
    return rel(scalar_bv(a, w) < scalar_bv(b, w), scalar_vars(a) | scalar_vars(b))


_lex_cache = {}


def lex_z3(pair, strict):
    """a < b (strict) or a <= b on lists of scalars, lexicographically."""
    a, b = pair
    key = (tuple(scalar_key(x) for x in a), tuple(scalar_key(x) for x in b), strict)
    e = _lex_cache.get(key)
    if e is not None:
        return e
    n = min(len(a), len(b))
    if len(a) < len(b):
        r = True
    elif len(a) > len(b):
        r = False
    else:
        r = not strict
    acc = z3.BoolVal(r)
    for i in range(n - 1, -1, -1):
        lt = scalar_lt(a[i], b[i])
        eq = scalar_eq(a[i], b[i])
        if eq is True:
            continue
        if eq is False:
            acc = to_z3(lt)
            continue
        acc = z3.Or(to_z3(lt), z3.And(to_z3(eq), acc))
    _lex_cache[key] = acc
    return acc


# ------------------------------------------------------------------ context

_CUR = [None]


def CTX():
    c = _CUR[0]
    if c is None:
        raise RuntimeError('symbolic value used outside of a symbolic run')
    return c


class Stats(object):
    FIELDS = ('paths', 'completed', 'aborted', 'unsupported', 'timeouts', 'queries', 'sat', 'unsat', 'unknown',
              'solver_s', 'forks', 'forced', 'dom_forks', 'asserts', 'assert_queries', 'concretised', 'final_checks')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (d[f] if isinstance(d, dict) else getattr(d, f)))

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Solver(object):
    """One z3 process-local solver whose stack follows the current path."""

    def __init__(self, stats, timeout_ms=60000):
        self.s = z3.SolverFor('QF_BV')
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.stats = stats

    def sync(self, cons):
        st = self.stack
        n = 0
        m = min(len(st), len(cons))
        while n < m and (st[n] is cons[n] or st[n].eq(cons[n])):
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
        for e in cons[n:]:
            self.s.push()
            self.s.add(e)
            st.append(e)

    def check(self, cons, extra=None):
        self.sync(cons)
        t = time.time()
        self.stats.queries += 1
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat:
            self.stats.sat += 1
            m = self.s.model()
            res = True
        elif r == z3.unsat:
            self.stats.unsat += 1
            res = False
        else:
            self.stats.unknown += 1
            res = None
        if extra is not None:
            self.s.pop()
        self.stats.solver_s += time.time() - t
        return res, m


class Path(object):
    """State of one symbolic run."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []
        self.cons = []
        self.dom = {}
        self.linked = set()
        self.rep = {}
        self.known = {}
        self.model = None
        self.model_n = 0
        self.fresh = {}
        self.inputs = {}
        self.observed = []
        self.asserts = 0
        self.incomplete = False

    # -- variables
    def declare(self, var):
        if var not in self.dom:
            self.dom[var] = var.base
            full = (1 << var.width)
            if iset.size(var.base) != full:
                self.cons.append(member_z3_base(var))
                if self.model is not None:
                    self.model = None
        return var

    def domain(self, var):
        d = self.dom.get(var)
        if d is None:
            self.declare(var)
            d = var.base
        return d

    def fresh_name(self, stem):
        n = self.fresh.get(stem, 0)
        self.fresh[stem] = n + 1
        return '%s!%d' % (stem, n)

    # -- resolving scalars through equalities and singleton domains
    def resolve(self, s):
        if type(s) is SV:
            v = s.var
            off = s.off
            r = self.rep.get(v)
            while r is not None:
                v, d = r
                off += d
                r = self.rep.get(v)
            dm = self.domain(v)
            if len(dm) == 1 and dm[0][0] == dm[0][1]:
                return dm[0][0] + off
            if v is s.var:
                return s
            return SV(v, off)
        return s

    def sdom(self, s):
        """Domain of a scalar as interval set (over-approximation)."""
        t = type(s)
        if t is int:
            return iset.single(s)
        if t is SV:
            return iset.shift(self.domain(s.var), s.off)
        return iset.rng(s.lo, s.hi)

    def simplify(self, c):
        if c is True or c is False:
            return c
        k = c.k
        if k == 'atom':
            s = self.resolve(SV(c.a, 0))
            if type(s) is int:
                return iset.contains(c.b, s)
            d = self.domain(s.var)
            want = c.b if s.var is c.a else iset.shift(c.b, -s.off)
            i = iset.inter(d, want)
            if not i:
                return False
            if i == d:
                return True
            if s.var is c.a:
                return c
            return atom(s.var, want)
        if k == 'eqv':
            a = self.resolve(c.a)
            b = self.resolve(c.b)
            r = c if (a is c.a and b is c.b) else scalar_eq(a, b)
            if r is True or r is False:
                return r
            if r.k == 'atom':
                return self.simplify(r)
            if not iset.inter(self.sdom(r.a), self.sdom(r.b)):
                return False
            return self.memo(r)
        if k == 'and':
            out = []
            for x in c.a:
                x = self.simplify(x)
                if x is False:
                    return False
                if x is not True:
                    out.append(x)
            r = ball(out)
            return self.memo(r) if type(r) is SymBool and r.k == 'and' else r
        if k == 'or':
            out = []
            for x in c.a:
                x = self.simplify(x)
                if x is True:
                    return True
                if x is not False:
                    out.append(x)
            r = bany(out)
            return self.memo(r) if type(r) is SymBool and r.k == 'or' else r
        if k == 'not':
            x = self.simplify(c.a)
            if x is c.a:
                return c
            return bnot(x)
        if k == 'lex':
            a, b = c.a
            n = min(len(a), len(b))
            i = 0
            ra = []
            rb = []
            while i < n:
                x = self.resolve(a[i])
                y = self.resolve(b[i])
                e = scalar_eq(x, y)
                if e is not True and e is not False:
                    e = self.simplify(e)
                if e is True:
                    i += 1
                    continue
                dx = self.sdom(x)
                dy = self.sdom(y)
                if iset.hi(dx) < iset.lo(dy):
                    return True
                if iset.lo(dx) > iset.hi(dy):
                    return False
                break
            else:
                if len(a) == len(b):
                    return not c.b
                return len(a) < len(b)
            ra = [self.resolve(x) for x in a[i:]]
            rb = [self.resolve(x) for x in b[i:]]
            return self.memo(SymBool('lex', (tuple(ra), tuple(rb)), c.b))
        return self.memo(c)

    def memo(self, c):
        z = c.z()
        v = self.known.get(z.get_id())
        if v is not None:
            return v
        return c

    # -- forking
    def branch(self, c):
        c = self.simplify(c)
        if c is True or c is False:
            return c
        ex = self.ex
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            self.assume_raw(c, v)
            return v
        if ex.stop_requested():
            raise StopExploring()
        if c.k == 'atom' and c.a not in self.linked:
            ex.stats.dom_forks += 1
            both = True
            m_other = None
            v = True
            if self.model is not None:
                v = self.eval_model(c)
        else:
            v = None
            if self.model is not None:
                v = self.eval_model(c)
            if v is None:
                r, m = ex.solver.check(self.cons, to_z3(c))
                if r:
                    v = True
                    self.model = m
                elif r is False:
                    # forced (the path itself is feasible)
                    self.trace.append(False)
                    self.assume_raw(c, False)
                    ex.stats.forced += 1
                    return False
                else:
                    v = True
            oc = z3.Not(to_z3(c)) if v else to_z3(c)
            r, m_other = ex.solver.check(self.cons, oc)
            both = r is not False
            if not both:
                ex.stats.forced += 1
        if both:
            ex.stats.forks += 1
            ex.push(self.trace + [not v])
        self.trace.append(v)
        self.assume_raw(c, v)
        return v

    def eval_model(self, c):
        try:
            r = self.model.eval(to_z3(c), model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def assume_raw(self, c, v):
        """Record that condition c has truth value v on this path."""
        if not v:
            c = bnot(c)
        if self.model is not None and self.eval_model(c) is not True:
            self.model = None
        self.cons.append(to_z3(c))
        self.learn(c)

    def learn(self, c):
        k = c.k
        if k == 'atom':
            v = c.a
            self.dom[v] = iset.inter(self.domain(v), c.b)
            return
        if k == 'and':
            for x in c.a:
                if x is not True:
                    self.learn(x)
        elif k == 'eqv':
            a = self.resolve(c.a)
            b = self.resolve(c.b)
            if type(a) is SV and type(b) is int:
                self.dom[a.var] = iset.inter(self.domain(a.var), iset.single(b - a.off))
            elif type(b) is SV and type(a) is int:
                self.dom[b.var] = iset.inter(self.domain(b.var), iset.single(a - b.off))
            elif type(a) is SV and type(b) is SV and a.var is not b.var:
                d = iset.inter(self.sdom(a), self.sdom(b))
                self.dom[a.var] = iset.shift(d, -a.off)
                self.dom[b.var] = iset.shift(d, -b.off)
                # a.var + a.off == b.var + b.off
                self.rep[b.var] = (a.var, a.off - b.off)
        elif k == 'not':
            self.known[c.a.z().get_id()] = False
            _POOL.append(c.a.z())
        if k != 'atom':
            z = c.z()
            self.known[z.get_id()] = True
            _POOL.append(z)
            self.linked |= c.vars()

    def assume(self, c):
        c = self.simplify(truth_term(c))
        if c is True:
            return
        if c is False:
            raise PathAbort()
        pos = len(self.trace)
        if pos < len(self.prefix):
            self.trace.append(True)
        else:
            if not (c.k == 'atom' and c.a not in self.linked):
                r, m = self.ex.solver.check(self.cons, to_z3(c))
                if r is False:
                    raise PathAbort()
                self.trace.append(True)
                if m is not None:
                    self.model = m
            else:
                self.trace.append(True)
        self.assume_raw(c, True)

    def assume_known(self, c):
        """Record a condition the solver has proved on this path (no constraint needed)."""
        if c.k == 'atom':
            self.learn(c)
            return
        z = c.z()
        self.known[z.get_id()] = True
        _POOL.append(z)

    def choose(self, s):
        """Fork over every feasible value of a scalar; returns an int."""
        n = 0
        while True:
            s = self.resolve(s)
            if type(s) is int:
                return s
            d = self.sdom(s)
            if type(s) is SV:
                cand = iset.lo(d)
                if iset.size(d) > 4096 and n == 0:
                    self.note_incomplete('wide integer concretised')
                    cand = None
            else:
                cand = None
            if cand is None:
                cand = self.model_value(s)
                if n >= 300:
                    self.note_incomplete('expression with too many values concretised')
                    c = scalar_eq(s, cand)
                    self.assume(c)
                    return cand
            n += 1
            if self.branch(scalar_eq(s, cand)):
                return cand

    def model_value(self, s, varied=False):
        """Some feasible value of s on this path (deterministic given the path)."""
        pos = len(self.trace)
        # recorded in the trace so that replays pick the same value
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            return v[1]
        if varied and type(s) is SV:    # not always the least value
            d = self.sdom(s)
            size = iset.size(d)
            for i in range(3):
                k = zlib.crc32(('%s %d %d' % (s.var.name, pos, i)).encode('ascii', 'replace')) % size
                for lo, hi in d:
                    if k <= hi - lo:
                        break
                    k -= hi - lo + 1
                c = scalar_eq(s, lo + k)
                if c is True or (c is not False and self.ex.solver.check(self.cons, c.z())[0]):
                    self.trace.append(('v', lo + k))
                    return lo + k
        r, m = self.ex.solver.check(self.cons)
        if not r:
            raise PathAbort()
        v = eval_scalar(m, s)
        self.trace.append(('v', v))
        return v

    def note_incomplete(self, why):
        self.incomplete = True
        self.ex.stats.concretised += 1
        self.ex.notes[why] = self.ex.notes.get(why, 0) + 1


def member_z3_base(var):
    key = (var, 'base')
    e = _member_cache.get(key)
    if e is None:
        parts = []
        for lo, hi in var.base:
            if lo == hi:
                parts.append(var.bv == lo)
            elif var.signed:
                parts.append(z3.And(var.bv >= lo, var.bv <= hi))
            else:
                parts.append(z3.And(z3.UGE(var.bv, lo), z3.ULE(var.bv, hi)))
        e = parts[0] if len(parts) == 1 else z3.Or(parts)
        _member_cache[key] = e
    return e


def eval_scalar(m, s):
    t = type(s)
    if t is int:
        return s
    if t is SV:
        r = m.eval(s.var.bv, model_completion=False)
        if not z3.is_bv_value(r):
            v = pick(s.var.base)
        else:
            v = r.as_signed_long() if s.var.signed else r.as_long()
        return v + s.off
    r = m.eval(s.e, model_completion=True)
    return r.as_signed_long()


def pick(base):
    return iset.lo(base)


# ----------------------------------------------------------------- explorer

class Explorer(object):
    def __init__(self, fn, path_timeout=60.0):
        self.fn = fn
        self.stats = Stats()
        self.notes = {}
        self.solver = Solver(self.stats)
        self.pending = []
        self.path_timeout = path_timeout
        self.results = []
        self.deadline = None

    def push(self, prefix):
        self.pending.append(prefix)

    def stop_requested(self):
        return self.deadline is not None and time.time() > self.deadline + 20

    def run_path(self, prefix):
        """One symbolic run; returns (path, outcome)."""
        p = Path(self, prefix)
        _CUR[0] = p
        self.stats.paths += 1
        try:
            out = self.fn(p)
        finally:
            _CUR[0] = None
        return p, out
