"""Model of the sqlite3 module: a small SQL engine over symbolic values.

Covers the statements an embedded key/value use of SQLite needs, the
transaction rules of Python's sqlite3 module, and crash and fault points.
A table is a list of row tuples; text compares by code point (which is the
order of SQLite's BINARY collation on UTF-8).
"""
import re
import sqlite3 as real
import weakref
from ..core import CTX, Control, SymBool, Unsupported, ball, bany, band, bnot, bor, scalar_eq, scalar_lt, truth_term
from ..values import SymInt, SymStr, SymEnum, chars, has_sym, req, concretize, str_eq, lex
from .. import rt

_TOK = re.compile(r"""\s+|--[^\n]*|(?P<str>'(?:[^']|'')*')|(?P<q>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])|(?P<num>\d+(?:\.\d+)?)|
(?P<id>[A-Za-z_]\w*)|(?P<ph>\?\d*|%s|:\w+)|(?P<op>\|\||<=|>=|<>|!=|==|[-+*/%(),.;<>=])""", re.X)

_cache = {}


def tokenize(sql):
    out = []
    pos = 0
    while pos < len(sql):
        m = _TOK.match(sql, pos)
        if m is None:
            raise real.OperationalError('unrecognized token: "%s"' % sql[pos:pos + 10])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == 'str':
            out.append(('lit', t[1:-1].replace("''", "'")))
        elif k == 'q':
            out.append(('id', t[1:-1]))
        elif k == 'num':
            out.append(('lit', float(t) if '.' in t else int(t)))
        elif k == 'id':
            out.append(('id', t))
        elif k == 'ph':
            out.append(('ph', t))
        else:
            out.append(('op', t))
    out.append(('end', ''))
    return out


KW_END = {'WHERE', 'ORDER', 'LIMIT', 'GROUP', 'AND', 'OR', 'SET', 'FROM', 'THEN', 'ELSE', 'END', 'WHEN', 'ASC', 'DESC', 'OFFSET',
          'ON', 'DO', 'AS', 'UNION', 'HAVING', 'RETURNING', 'ESCAPE'}


class Parser(object):
    def __init__(self, sql):
        self.toks = tokenize(sql)
        self.i = 0
        self.nph = 0

    def peek(self):
        return self.toks[self.i]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def kw(self, *words):
        """Consume a sequence of keywords when it is next."""
        for j, w in enumerate(words):
            t = self.toks[self.i + j] if self.i + j < len(self.toks) else ('end', '')
            if t[0] != 'id' or t[1].upper() != w:
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            self.bad()

    def bad(self):
        raise real.OperationalError('near "%s": syntax error' % (self.peek()[1],))

    def ident(self):
        t = self.next()
        if t[0] != 'id':
            self.i -= 1
            self.bad()
        return t[1]

    def needkw(self, *w):
        if not self.kw(*w):
            self.bad()

    def name(self):
        n = self.ident()
        if self.op('.'):
            n = self.ident()
        return n

    # expressions
    def expr(self):
        e = self.e_and()
        while self.kw('OR'):
            e = ('or', e, self.e_and())
        return e

    def e_and(self):
        e = self.e_not()
        while self.kw('AND'):
            e = ('and', e, self.e_not())
        return e

    def e_not(self):
        if self.kw('NOT'):
            return ('not', self.e_not())
        return self.e_cmp()

    def e_cmp(self):
        e = self.e_add()
        while True:
            t = self.peek()
            if t[0] == 'op' and t[1] in ('=', '==', '<', '>', '<=', '>=', '<>', '!='):
                self.i += 1
                o = {'==': '=', '<>': '!='}.get(t[1], t[1])
                e = ('cmp', o, e, self.e_add())
            elif self.kw('IS', 'NOT', 'NULL') or self.kw('NOTNULL'):
                e = ('not', ('isnull', e))
            elif self.kw('IS', 'NULL') or self.kw('ISNULL'):
                e = ('isnull', e)
            elif self.kw('IS', 'NOT'):
                e = ('not', ('cmp', '=', e, self.e_add()))
            elif self.kw('IS'):
                e = ('cmp', '=', e, self.e_add())
            elif self.kw('BETWEEN'):
                lo = self.e_add()
                self.needkw('AND')
                e = ('and', ('cmp', '>=', e, lo), ('cmp', '<=', e, self.e_add()))
            elif self.kw('NOT', 'IN'):
                e = ('not', self.in_list(e))
            elif self.kw('IN'):
                e = self.in_list(e)
            elif self.kw('NOT', 'LIKE'):
                e = ('not', self.like(e))
            elif self.kw('LIKE'):
                e = self.like(e)
            elif self.kw('NOT', 'GLOB'):
                e = ('not', ('glob', e, self.e_add()))
            elif self.kw('GLOB'):
                e = ('glob', e, self.e_add())
            elif self.kw('COLLATE'):
                if self.ident().upper() != 'BINARY':
                    raise Unsupported('collation')
            else:
                return e

    def like(self, e):
        p = self.e_add()
        esc = None
        if self.kw('ESCAPE'):
            esc = self.e_add()
        return ('like', e, p, esc)

    def in_list(self, e):
        self.need('(')
        if self.kw('SELECT'):
            s = self.select()
            self.need(')')
            return ('insel', e, s)
        items = []
        if not self.op(')'):
            items.append(self.expr())
            while self.op(','):
                items.append(self.expr())
            self.need(')')
        r = ('lit', 0)
        for it in items:
            r = ('or', r, ('cmp', '=', e, it))
        return r

    def e_add(self):
        e = self.e_mul()
        while True:
            t = self.peek()
            if t[0] == 'op' and t[1] in ('+', '-'):
                self.i += 1
                e = ('arith', t[1], e, self.e_mul())
            else:
                return e

    def e_mul(self):
        e = self.e_cat()
        while True:
            t = self.peek()
            if t[0] == 'op' and t[1] in ('*', '/', '%'):
                self.i += 1
                e = ('arith', t[1], e, self.e_cat())
            else:
                return e

    def e_cat(self):
        e = self.unary()
        while self.op('||'):
            e = ('cat', e, self.unary())
        return e

    def unary(self):
        if self.op('-'):
            return ('arith', '-', ('lit', 0), self.unary())
        if self.op('+'):
            return self.unary()
        return self.atom()

    def atom(self):
        t = self.next()
        if t[0] == 'lit':
            return t
        if t[0] == 'ph':
            if t[1].startswith(':'):
                return ('named', t[1][1:])
            if len(t[1]) > 1 and t[1][0] == '?':
                return ('ph', int(t[1][1:]) - 1)
            self.nph += 1
            return ('ph', self.nph - 1)
        if t == ('op', '('):
            if self.kw('SELECT'):
                s = self.select()
                self.need(')')
                return ('scalar', s)
            e = self.expr()
            self.need(')')
            return e
        if t == ('op', '*'):
            return ('star',)
        if t[0] == 'id':
            u = t[1].upper()
            if u == 'NULL':
                return ('lit', None)
            if u == 'EXISTS':
                self.need('(')
                self.needkw('SELECT')
                s = self.select()
                self.need(')')
                return ('existssel', s)
            if u == 'CASE':
                raise Unsupported('CASE in SQL')
            if u == 'CAST':
                raise Unsupported('CAST in SQL')
            if self.op('('):
                args = []
                if self.kw('DISTINCT'):
                    raise Unsupported('DISTINCT aggregate')
                if not self.op(')'):
                    args.append(self.expr())
                    while self.op(','):
                        args.append(self.expr())
                    self.need(')')
                return ('fn', u, args)
            if self.op('.'):
                return ('col', t[1], self.ident())
            return ('col', None, t[1])
        self.i -= 1
        self.bad()

    # statements
    def select(self):
        distinct = self.kw('DISTINCT')
        cols = []
        while True:
            e = self.expr()
            if self.kw('AS'):
                self.ident()
            cols.append(e)
            if not self.op(','):
                break
        table = where = None
        order = []
        limit = offset = None
        if self.kw('FROM'):
            table = self.name()
            if self.kw('AS'):
                self.ident()
            if self.peek()[0] == 'op' and self.peek()[1] == ',':
                raise Unsupported('join in SQL')
            if self.peek()[0] == 'id' and self.peek()[1].upper() in ('JOIN', 'INNER', 'LEFT', 'CROSS', 'NATURAL'):
                raise Unsupported('join in SQL')
        if self.kw('WHERE'):
            where = self.expr()
        if self.kw('GROUP'):
            raise Unsupported('GROUP BY in SQL')
        if self.kw('ORDER', 'BY'):
            while True:
                e = self.expr()
                desc = self.kw('DESC')
                if not desc:
                    self.kw('ASC')
                order.append((e, desc))
                if not self.op(','):
                    break
        if self.kw('LIMIT'):
            limit = self.expr()
            if self.kw('OFFSET'):
                offset = self.expr()
        if self.kw('UNION'):
            raise Unsupported('UNION in SQL')
        return ('select', cols, table, where, order, limit, offset, distinct)

    def statement(self):
        s = self.statement1()
        self.op(';')
        if self.peek()[0] != 'end':
            self.bad()
        return s

    def statement1(self):
        if self.kw('SELECT'):
            return self.select()
        if self.kw('UPDATE'):
            if self.kw('OR'):
                self.ident()
            t = self.name()
            self.needkw('SET')
            sets = [self.assign()]
            while self.op(','):
                sets.append(self.assign())
            where = self.expr() if self.kw('WHERE') else None
            return ('update', t, sets, where)
        if self.kw('DELETE'):
            self.needkw('FROM')
            t = self.name()
            return ('delete', t, self.expr() if self.kw('WHERE') else None)
        rep = self.kw('REPLACE')
        if rep or self.kw('INSERT'):
            mode = 'REPLACE' if rep else None
            if self.kw('IGNORE'):
                mode = 'IGNORE'
            if self.kw('OR'):
                mode = self.ident().upper()
            self.needkw('INTO')
            t = self.name()
            cols = None
            if self.op('('):
                cols = [self.ident()]
                while self.op(','):
                    cols.append(self.ident())
                self.need(')')
            if self.kw('SELECT'):
                raise Unsupported('INSERT ... SELECT')
            self.needkw('VALUES')
            rows = []
            while True:
                self.need('(')
                r = [self.expr()]
                while self.op(','):
                    r.append(self.expr())
                self.need(')')
                rows.append(r)
                if not self.op(','):
                    break
            up = None
            if self.kw('ON', 'CONFLICT'):
                if self.op('('):
                    self.ident()
                    self.need(')')
                self.needkw('DO')
                if self.kw('NOTHING'):
                    mode = 'IGNORE'
                else:
                    self.needkw('UPDATE', 'SET')
                    up = [self.assign()]
                    while self.op(','):
                        up.append(self.assign())
                    if self.kw('WHERE'):
                        raise Unsupported('upsert with WHERE')
            elif self.kw('ON', 'DUPLICATE', 'KEY', 'UPDATE'):
                up = [self.assign()]
                while self.op(','):
                    up.append(self.assign())
            return ('insert', t, cols, rows, mode, up)
        if self.kw('CREATE'):
            self.kw('UNIQUE')
            if self.kw('INDEX'):
                self.i = len(self.toks) - 1
                return ('nop',)
            self.kw('TEMPORARY') or self.kw('TEMP')
            self.needkw('TABLE')
            ine = self.kw('IF', 'NOT', 'EXISTS')
            t = self.name()
            self.need('(')
            cols = []
            pk = None
            while True:
                if self.kw('PRIMARY', 'KEY'):
                    self.need('(')
                    pk = self.ident()
                    if self.op('('):
                        self.next()
                        self.need(')')
                    self.need(')')
                else:
                    c = self.coldef()
                    cols.append(c)
                    if c[3]:
                        pk = c[0]
                if not self.op(','):
                    break
            self.need(')')
            while self.peek()[0] != 'end':
                self.next()
            return ('create', t, ine, cols, pk)
        if self.kw('ALTER', 'TABLE'):
            t = self.name()
            self.needkw('ADD')
            self.kw('COLUMN')
            return ('addcol', t, self.coldef())
        if self.kw('DROP', 'TABLE'):
            ie = self.kw('IF', 'EXISTS')
            return ('drop', self.name(), ie)
        if self.kw('BEGIN') or self.kw('START', 'TRANSACTION'):
            now = self.kw('IMMEDIATE') or self.kw('EXCLUSIVE')
            if not now:
                self.kw('DEFERRED')
            self.kw('TRANSACTION')
            return ('begin', bool(now))
        if self.kw('COMMIT') or self.kw('END'):
            self.kw('TRANSACTION')
            return ('commit',)
        if self.kw('ROLLBACK', 'TO'):
            self.kw('SAVEPOINT')
            return ('rollto', self.ident())
        if self.kw('ROLLBACK'):
            self.kw('TRANSACTION')
            return ('rollback',)
        if self.kw('SAVEPOINT'):
            return ('savepoint', self.ident())
        if self.kw('RELEASE'):
            self.kw('SAVEPOINT')
            return ('release', self.ident())
        if self.kw('PRAGMA') or self.kw('ANALYZE') or self.kw('VACUUM') or self.kw('TRUNCATE'):
            self.i = len(self.toks) - 1
            return ('nop',)
        self.bad()

    def assign(self):
        c = self.name()
        self.need('=')
        return c, self.expr()

    def coldef(self):
        n = self.ident()
        typ = ''
        default = None
        pk = False
        while True:
            t = self.peek()
            if t[0] == 'end' or t in (('op', ','), ('op', ')'), ('op', ';')):
                break
            if self.kw('PRIMARY', 'KEY'):
                pk = True
            elif self.kw('DEFAULT'):
                neg = self.op('-')
                d = self.next()
                default = -d[1] if neg else (None if d[0] == 'id' else d[1])
            elif self.kw('NOT', 'NULL') or self.kw('UNIQUE') or self.kw('NULL'):
                pass
            elif self.op('('):
                while not self.op(')'):
                    self.next()
            else:
                typ += self.ident().upper()
        if typ.startswith('INT') or 'INT' in typ:
            aff = 'INT'
        elif 'CHAR' in typ or 'TEXT' in typ or 'CLOB' in typ:
            aff = 'TEXT'
        else:
            aff = 'NONE'
        return (n, aff, default, pk)


def parse(sql):
    p = _cache.get(sql)
    if p is None:
        pr = Parser(sql)
        p = _cache[sql] = (pr.statement(), pr.nph)
    return p


class Table(object):
    def __init__(self, cols, pk):
        self.cols = cols
        self.pk = pk
        self.rows = []
        self.keyed = None
        self.index()

    def keys(self):
        """Where each fixed text is the primary key, and the rows whose key is no fixed text."""
        if self.keyed is None:
            self.keyed = ({}, [])
            for i in range(len(self.rows)):
                self.note(i)
        return self.keyed

    def note(self, i):
        k = self.rows[i][self.names[self.pk.lower()]]
        if type(k) is str:
            self.keyed[0][k] = i
        else:
            self.keyed[1].append(i)

    def append(self, row):
        self.rows.append(row)
        if self.keyed is not None:
            self.note(len(self.rows) - 1)

    def put(self, i, row):
        if self.keyed is not None:
            pk = self.names[self.pk.lower()]
            if row[pk] is not self.rows[i][pk]:
                self.keyed = None
        self.rows[i] = row

    def index(self):
        self.names = {c[0].lower(): i for i, c in enumerate(self.cols)}

    def copy(self):
        t = Table.__new__(Table)
        t.cols = self.cols
        t.pk = self.pk
        t.rows = list(self.rows)
        t.names = self.names
        t.keyed = None
        return t


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, str)


def to_affinity(v, aff):
    if v is None:
        return None
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, (int, float, str, bytes)):
        raise real.InterfaceError('Error binding parameter: type %r is not supported' % type(v).__name__) \
            if False else real.ProgrammingError("Error binding parameter: type '%s' is not supported" % type(v).__name__)
    if aff == 'TEXT' and is_num(v):
        return rt.rt_str(v)
    if aff == 'INT' and isinstance(v, str):
        try:
            return rt.rt_int(v)
        except ValueError:
            return v
    if aff == 'INT' and type(v) is float and v == int(v):
        return int(v)
    return v


def prefix_range(lo, hi):
    """The prefix p such that lo <= t < hi means 't starts with p', or None."""
    a, b = chars(lo), chars(hi)
    if len(a) != len(b) or not a or type(a[-1]) is not int or type(b[-1]) is not int or b[-1] != a[-1] + 1:
        return None
    for x, y in zip(a[:-1], b[:-1]):
        if scalar_eq(x, y) is not True:
            return None
    return a


class Ev(object):
    """Evaluates expressions on one row; conditions stay symbolic."""

    def __init__(self, db, params, named, table=None):
        self.db = db
        self.params = params
        self.named = named
        self.table = table

    def val(self, e, row):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'ph':
            return self.params[e[1]]
        if k == 'named':
            return self.named[e[1]]
        if k == 'col':
            if self.table is None or e[2].lower() not in self.table.names:
                if e[2].lower() in ('true', 'false'):
                    return int(e[2].lower() == 'true')
                raise real.OperationalError('no such column: %s' % e[2])
            return row[self.table.names[e[2].lower()]]
        if k == 'arith':
            a, b = self.val(e[2], row), self.val(e[3], row)
            if a is None or b is None:
                return None
            if not (is_num(a) and is_num(b)):
                raise Unsupported('arithmetic on text in SQL')
            if e[1] == '+':
                return a + b
            if e[1] == '-':
                return a - b
            if e[1] == '*':
                return a * b
            raise Unsupported('division in SQL')
        if k == 'cat':
            a, b = self.val(e[1], row), self.val(e[2], row)
            if a is None or b is None:
                return None
            return rt.mkstr(chars(rt.rt_str(a)) + chars(rt.rt_str(b)))
        if k == 'fn':
            return self.fn(e, row)
        if k == 'scalar':
            rows = self.db.select(e[1], self.params, self.named)
            return rows[0][0] if rows else None
        c = self.cond(e, row)
        return int(bool(c)) if c is not None else None

    def fn(self, e, row):
        n, args = e[1], e[2]
        v = [self.val(a, row) for a in args] if n != 'COUNT' else []
        if n == 'LENGTH':
            return None if v[0] is None else len(rt.rt_str(v[0]))
        if n in ('SUBSTR', 'SUBSTRING'):
            s = rt.rt_str(v[0])
            st = v[1]
            if type(st) is not int or st == 0 or (len(v) > 2 and (type(v[2]) is not int or v[2] < 0)):
                raise Unsupported('substr in SQL')
            i = st - 1 if st > 0 else max(0, len(s) + st)
            return s[i:] if len(v) < 3 else s[i:i + v[2]]
        if n in ('COALESCE', 'IFNULL'):
            for x in v:
                if x is not None:
                    return x
            return None
        if n == 'INSTR':
            return rt.callm(v[0], 'find', v[1]) + 1
        if n in ('MAX', 'MIN') and len(v) > 1:
            if any(x is None for x in v):
                return None
            return max(v) if n == 'MAX' else min(v)
        if n == 'CHANGES':
            return self.db.changes
        if n == 'ABS':
            return abs(v[0])
        raise Unsupported('SQL function %s' % n)

    def truthy(self, v):
        if v is None:
            return False
        if isinstance(v, str):
            raise Unsupported('text as a condition in SQL')
        r = v != 0
        return r

    def cond(self, e, row):
        """bool, SymBool or None (SQL NULL)."""
        k = e[0]
        if k == 'and':
            rng = self.range(e, row)
            if rng is not None:
                return rng
            a = self.cond(e[1], row)
            if a is False:
                return False
            b = self.cond(e[2], row)
            if a is None or b is None:
                return False if b is False else None
            return band(a, b)
        if k == 'or':
            a, b = self.cond(e[1], row), self.cond(e[2], row)
            if a is None or b is None:
                o = b if a is None else a
                return True if o is True else (o if type(o) is SymBool else None)
            return bor(a, b)
        if k == 'not':
            a = self.cond(e[1], row)
            return None if a is None else bnot(a)
        if k == 'isnull':
            return self.val(e[1], row) is None
        if k == 'cmp':
            return self.compare(e[1], e[2], e[3], row)
        if k == 'like':
            return self.like(e, row)
        if k == 'glob':
            return self.glob(e, row)
        if k == 'existssel':
            return len(self.db.select(e[1], self.params, self.named)) > 0
        if k == 'insel':
            x = self.val(e[1], row)
            return bany([truth_term(req(x, r[0])) for r in self.db.select(e[2], self.params, self.named)])
        v = self.val(e, row)
        if v is None:
            return None
        return truth_term(self.truthy(v))

    def aff(self, e):
        if e[0] == 'col' and self.table is not None and e[2].lower() in self.table.names:
            return self.table.cols[self.table.names[e[2].lower()]][1]
        return None

    def compare(self, op, ea, eb, row):
        a, b = self.val(ea, row), self.val(eb, row)
        if a is None or b is None:
            return None
        fa, fb = self.aff(ea), self.aff(eb)
        if fa == 'INT' and fb != 'INT':
            b = to_affinity(b, 'INT')
        elif fb == 'INT' and fa != 'INT':
            a = to_affinity(a, 'INT')
        elif fa == 'TEXT' and fb is None:
            b = to_affinity(b, 'TEXT')
        elif fb == 'TEXT' and fa is None:
            a = to_affinity(a, 'TEXT')
        na, nb = is_num(a), is_num(b)
        if na != nb:
            # numbers sort before text
            if op in ('=', '!='):
                return op == '!='
            lt = na
            return lt if op in ('<', '<=') else not lt
        if op == '=':
            return truth_term(req(a, b))
        if op == '!=':
            return bnot(truth_term(req(a, b)))
        if not na:
            ca, cb = chars(a), chars(b)
            if op == '<':
                return lex(ca, cb, True)
            if op == '<=':
                return lex(ca, cb, False)
            if op == '>':
                return lex(cb, ca, True)
            return lex(cb, ca, False)
        if op == '<':
            return truth_term(a < b)
        if op == '<=':
            return truth_term(a <= b)
        if op == '>':
            return truth_term(a > b)
        return truth_term(a >= b)

    def bounds(self, e):
        """The column and the two ends of x >= lo AND x < hi, or None."""
        a, b = e[1], e[2]
        if a[0] != 'cmp' or b[0] != 'cmp':
            return None
        if a[1] == '<' and b[1] == '>=':
            a, b = b, a
        if a[1] != '>=' or b[1] != '<' or a[2] != b[2] or a[2][0] != 'col':
            return None
        return a[2], a[3], b[3]

    def range(self, e, row):
        """x >= lo AND x < hi as a prefix test when it is one."""
        abc = self.bounds(e)
        if abc is None:
            return None
        lo, hi = self.val(abc[1], row), self.val(abc[2], row)
        if not (isinstance(lo, str) and isinstance(hi, str)):
            return None
        p = prefix_range(lo, hi)
        x = self.val(abc[0], row)
        if p is None or not isinstance(x, str):
            return None
        return SymStr(chars(x)).match_at(0, p)

    def plain_prefix(self, e):
        """The column and the fixed text that x >= lo AND x < hi says x starts with, or None: the same for every row."""
        abc = self.bounds(e) if e[0] == 'and' else None
        if abc is None or self.table is None or abc[0][2].lower() not in self.table.names:
            return None
        if abc[1][0] not in ('ph', 'lit', 'named') or abc[2][0] not in ('ph', 'lit', 'named'):
            return None
        lo, hi = self.val(abc[1], ()), self.val(abc[2], ())
        if type(lo) is not str or type(hi) is not str:
            return None
        p = prefix_range(lo, hi)
        return None if p is None else (self.table.names[abc[0][2].lower()], lo)

    def like(self, e, row):
        x, p = self.val(e[1], row), self.val(e[2], row)
        esc = self.val(e[3], row) if e[3] is not None else None
        if x is None or p is None:
            return None
        x = rt.rt_str(x)
        cs = chars(p)
        items = []
        i = 0
        while i < len(cs):
            c = cs[i]
            if esc is not None and bool(scalar_eq(c, ord(esc))) and i + 1 < len(cs):
                items.append(('c', cs[i + 1]))
                i += 2
                continue
            if bool(scalar_eq(c, 37)):
                items.append(('any',))
            elif bool(scalar_eq(c, 95)):
                items.append(('one',))
            else:
                items.append(('c', c))
            i += 1
        return wild(items, chars(x), like_eq)

    def glob(self, e, row):
        x, p = self.val(e[1], row), self.val(e[2], row)
        if x is None or p is None:
            return None
        items = []
        for c in chars(p):
            if bool(scalar_eq(c, 42)):
                items.append(('any',))
            elif bool(scalar_eq(c, 63)):
                items.append(('one',))
            elif bool(scalar_eq(c, 91)):
                raise Unsupported('GLOB set')
            else:
                items.append(('c', c))
        return wild(items, chars(rt.rt_str(x)), scalar_eq)


def like_eq(a, b):
    """LIKE ignores the case of ASCII letters."""
    r = [scalar_eq(a, b)]
    from ..values import in_class
    from ..core import SV
    for x, y in ((a, b), (b, a)):
        up = in_class(x, ((65, 90),))
        if up is False:
            continue
        if type(x) is int:
            r.append(scalar_eq(x + 32, y))
        else:
            from ..values import shift_char
            r.append(band(up, scalar_eq(shift_char(x, 32), y)))
    return bany(r)


def wild(items, cs, eqf):
    if not items:
        return len(cs) == 0
    k = items[0][0]
    if k == 'any':
        return bany([wild(items[1:], cs[i:], eqf) for i in range(len(cs) + 1)])
    if not cs:
        return False
    rest = wild(items[1:], cs[1:], eqf)
    if k == 'one' or rest is False:
        return rest
    return band(eqf(items[0][1], cs[0]), rest)


class Faults(object):
    """Crash and fault points, and points where another connection may do
    something, counted over the operations that reach the database."""

    def __init__(self):
        self.n = 0
        self.crash = None
        self.fault = None
        self.other = None
        self.crashed = False

    def point(self):
        if self.other is not None:
            k, f = self.other
            if bool(k == self.n):
                self.n += 1
                self.other = None
                crash, fault, self.crash, self.fault, n = self.crash, self.fault, None, None, self.n
                f()
                self.crash, self.fault, self.n = crash, fault, n
                return
        if self.crashed:
            raise Crash()
        if self.crash is not None:
            k = self.crash
            if bool(k == self.n):
                self.crashed = True
                raise Crash()
        if self.fault is not None and bool(self.fault == self.n):
            self.n += 1
            raise real.OperationalError('disk I/O error')
        self.n += 1


class Crash(Control):
    """The process dies here."""


class Database(object):
    def __init__(self):
        self.tables = {}
        self.saved = None          # committed state while a transaction is open
        self.owner = None
        self.faults = Faults()
        self.changes = 0
        self.conns = []

    def crash(self):
        self.rollback()
        self.faults = Faults()
        self.conns = []

    def readers(self, conn):
        """Does another connection hold a lock for reading?"""
        for r in self.conns:
            c = r()
            if c is not None and c is not conn and c.reads():
                return True
        return False

    def begin(self, conn):
        if self.saved is None:
            self.saved = {k: t.copy() for k, t in self.tables.items()}
            self.owner = conn

    def commit(self):
        self.saved = None
        self.owner = None

    def rollback(self):
        if self.saved is not None:
            self.tables = self.saved
            self.saved = None
            self.owner = None

    def table(self, n, conn=None):
        t = (self.tables if self.saved is None or conn is None or conn is self.owner else self.saved).get(n.lower())
        if t is None:
            raise real.OperationalError('no such table: %s' % n)
        return t

    def where(self, t, e, ev):
        """Indices of the rows that satisfy the condition (forks)."""
        if e is None:
            return list(range(len(t.rows)))
        out = []
        unique = e[0] == 'cmp' and e[1] == '=' and t.pk is not None and (
            (e[2][0] == 'col' and e[2][2].lower() == t.pk.lower() and e[3][0] in ('ph', 'lit', 'named')) or
            (e[3][0] == 'col' and e[3][2].lower() == t.pk.lower() and e[2][0] in ('ph', 'lit', 'named')))
        pk = fast = None
        if unique:
            pk = t.names[t.pk.lower()]
            if t.cols[pk][1] == 'TEXT':
                fast = to_affinity(ev.val(e[2] if e[3][0] == 'col' else e[3], ()), 'TEXT')
        if type(fast) is not str:
            fast = None
        pre = ev.plain_prefix(e)
        idx = range(len(t.rows))
        if fast is not None:
            known, idx = t.keys()
            if fast in known:
                return [known[fast]]
        for i in idx:
            r = t.rows[i]
            if pre is not None and type(r[pre[0]]) is str:
                if r[pre[0]].startswith(pre[1]):
                    out.append(i)
                continue
            c = ev.cond(e, r)
            if c is None or c is False:
                continue
            if c is True or bool(c):
                out.append(i)
                if unique:
                    break
        return out

    def select(self, s, params, named, conn=None):
        _, cols, tn, where, order, limit, offset, distinct = s
        if tn is None:
            ev = Ev(self, params, named)
            return [tuple(ev.val(c, ()) for c in cols)]
        if tn.lower() in ('sqlite_master', 'sqlite_schema'):
            t = Table([('type', 'TEXT', None, False), ('name', 'TEXT', None, False)], None)
            t.rows = [('table', n) for n in self.tables]
        else:
            t = self.table(tn, conn)
        ev = Ev(self, params, named, t)
        idx = self.where(t, where, ev)
        rows = [t.rows[i] for i in idx]
        agg = [c for c in cols if c[0] == 'fn' and (c[1] == 'COUNT' or c[1] in ('MAX', 'MIN', 'SUM', 'TOTAL') and len(c[2]) == 1)]
        if agg:
            if len(agg) != len(cols):
                raise Unsupported('mixed aggregate in SQL')
            out = []
            for c in cols:
                if c[1] == 'COUNT' and (not c[2] or c[2][0][0] in ('star', 'lit')):
                    out.append(len(rows))
                    continue
                vals = [ev.val(c[2][0], r) for r in rows]
                vals = [v for v in vals if v is not None]
                if c[1] == 'COUNT':
                    out.append(len(vals))
                elif c[1] == 'SUM':
                    out.append(sum(vals) if vals else None)
                elif c[1] == 'TOTAL':
                    out.append(float(sum(vals)))
                else:
                    out.append((max(vals) if c[1] == 'MAX' else min(vals)) if vals else None)
            return [tuple(out)]
        if order:
            import functools

            def lt(a, b):
                for e, desc in order:
                    x, y = ev.val(e, a), ev.val(e, b)
                    if bool(truth_term(req(x, y))):
                        continue
                    r = bool(x < y)
                    return -1 if r != desc else 1
                return 0
            rows = sorted(rows, key=functools.cmp_to_key(lt))
        if offset is not None:
            rows = rows[rt.int_of(ev.val(offset, ())):]
        if limit is not None:
            n = rt.int_of(ev.val(limit, ()))
            if n >= 0:
                rows = rows[:n]
        out = []
        for r in rows:
            v = []
            for c in cols:
                if c[0] == 'star':
                    v.extend(r)
                elif c[0] == 'col' and c[2].lower() == 'rowid':
                    raise Unsupported('rowid')
                else:
                    v.append(ev.val(c, r))
            out.append(tuple(v))
        if distinct:
            u = []
            for r in out:
                if not bool(bany([req(r, x) for x in u])):
                    u.append(r)
            out = u
        return out

    def conflict(self, t, key, skip=-1):
        """Index of the row with this primary key, or -1 (forks)."""
        pk = t.names[t.pk.lower()]
        idx = range(len(t.rows))
        if type(key) is str:
            known, idx = t.keys()
            i = known.get(key, skip)
            if i != skip:
                return i
        for i in idx:
            if i == skip:
                continue
            c = req(t.rows[i][pk], key)
            if c is True or c is not False and bool(c):
                return i
        return -1

    def insert(self, s, params, named):
        _, tn, cols, rows, mode, up = s
        t = self.table(tn)
        n = 0
        for r in rows:
            ev = Ev(self, params, named, t)
            vals = [ev.val(e, ()) for e in r]
            names = [c[0] for c in t.cols] if cols is None else cols
            if len(vals) != len(names):
                raise real.OperationalError('%d values for %d columns' % (len(vals), len(names)))
            row = [c[2] for c in t.cols]
            for nme, v in zip(names, vals):
                if nme.lower() not in t.names:
                    raise real.OperationalError('table %s has no column named %s' % (tn, nme))
                i = t.names[nme.lower()]
                row[i] = to_affinity(v, t.cols[i][1])
            if t.pk is not None:
                key = row[t.names[t.pk.lower()]]
                i = self.conflict(t, key) if key is not None else -1
                if i >= 0:
                    if up is not None:
                        t.put(i, self.assigned(t, t.rows[i], up, params, named, tuple(row)))
                        n += 1
                        continue
                    if mode == 'IGNORE':
                        continue
                    if mode == 'REPLACE':
                        del t.rows[i]
                        t.keyed = None
                    else:
                        raise real.IntegrityError('UNIQUE constraint failed: %s.%s' % (tn, t.pk))
            t.append(tuple(row))
            n += 1
        return n

    def assigned(self, t, row, sets, params, named, excluded=None):
        ev = Ev(self, params, named, t)
        new = list(row)
        for c, e in sets:
            if c.lower() not in t.names:
                raise real.OperationalError('no such column: %s' % c)
            i = t.names[c.lower()]
            if e[0] == 'col' and e[1] is not None and e[1].lower() == 'excluded':
                v = excluded[t.names[e[2].lower()]]
            elif e[0] == 'fn' and e[1] == 'VALUES' and excluded is not None:
                v = excluded[t.names[e[2][0][2].lower()]]
            else:
                v = ev.val(e, row)
            new[i] = to_affinity(v, t.cols[i][1])
        return tuple(new)

    def update(self, s, params, named):
        _, tn, sets, where = s
        t = self.table(tn)
        ev = Ev(self, params, named, t)
        idx = self.where(t, where, ev)
        for i in idx:
            new = self.assigned(t, t.rows[i], sets, params, named)
            if t.pk is not None:
                pk = t.names[t.pk.lower()]
                if req(new[pk], t.rows[i][pk]) is not True and not bool(req(new[pk], t.rows[i][pk])):
                    if self.conflict(t, new[pk], i) >= 0:
                        raise real.IntegrityError('UNIQUE constraint failed: %s.%s' % (tn, t.pk))
            t.put(i, new)
        return len(idx)

    def delete(self, s, params, named):
        _, tn, where = s
        t = self.table(tn)
        ev = Ev(self, params, named, t)
        idx = set(self.where(t, where, ev))
        if idx:
            t.rows = [r for i, r in enumerate(t.rows) if i not in idx]
            t.keyed = None
        return len(idx)


DML = {'insert', 'update', 'delete'}


class Cursor(object):
    def __init__(self, conn):
        self.connection = conn
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self.closed = False
        self.arraysize = 1

    def _open(self):
        if self.closed:
            raise real.ProgrammingError('Cannot operate on a closed cursor.')
        self.connection._open()

    def execute(self, sql, params=()):
        self._open()
        if type(sql) is not str:
            sql = concretize(sql, 'symbolic SQL text')
        self.connection.db.faults.point()
        st, nph = self.connection.parse(sql)
        named = {}
        if type(params) is rt.SDict or isinstance(params, dict):
            named = params
            params = ()
        params = list(params)
        if not named and len(params) != nph:
            raise real.ProgrammingError('Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied.' % (nph, len(params)))
        for p in params:
            if p is not None and not isinstance(p, (int, float, str, bytes)):
                raise real.ProgrammingError("Error binding parameter 1: type '%s' is not supported" % type(p).__name__)
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.description = None
        conn = self.connection
        db = conn.db
        k = st[0]
        if k in DML:
            if db.owner is not None and db.owner is not conn or conn.auto() and db.readers(conn):
                raise conn.busy()
            if not conn.auto():
                db.begin(conn)
        db.changes = conn.changes
        if k == 'select':
            conn.shared = conn.deferred
            self.rows = db.select(st, params, named, conn)
            self.description = tuple((None,) * 7 for _ in st[1])
        elif k in DML:
            f = {'insert': db.insert, 'update': db.update, 'delete': db.delete}[k]
            saved = {n: t.copy() for n, t in db.tables.items()} if k == 'insert' or k == 'update' else None
            try:
                self.rowcount = f(st, params, named)
            except real.IntegrityError:
                db.tables = saved           # the statement has no effect
                raise
            conn.changes = self.rowcount
            conn.total_changes += self.rowcount
        elif k == 'create':
            n = st[1].lower()
            if n in db.tables:
                if not st[2]:
                    raise conn.error('table %s already exists' % st[1])
            else:
                conn.ddl()
                db.tables[n] = Table(st[3], st[4])
        elif k == 'addcol':
            t = db.table(st[1])
            c = st[2]
            if c[0].lower() in t.names:
                raise conn.error('duplicate column name: %s' % c[0])
            conn.ddl()
            t.cols = t.cols + [c]
            t.index()
            t.rows = [r + (c[2],) for r in t.rows]
            t.keyed = None
        elif k == 'drop':
            if st[1].lower() not in db.tables:
                if not st[2]:
                    raise conn.error('no such table: %s' % st[1])
            else:
                conn.ddl()
                del db.tables[st[1].lower()]
        elif k == 'begin':
            if conn.in_transaction:
                raise real.OperationalError('cannot start a transaction within a transaction')
            if st[1]:
                if db.owner is not None:
                    raise conn.busy()
                db.begin(conn)
            else:
                conn.deferred = True
        elif k == 'commit':
            if not conn.in_transaction:
                raise real.OperationalError('cannot commit - no transaction is active')
            conn.end(True)
        elif k == 'rollback':
            if not conn.in_transaction:
                raise real.OperationalError('cannot rollback - no transaction is active')
            conn.end(False)
        elif k in ('savepoint', 'release', 'rollto'):
            conn.savepoint(k, st[1])
        return self

    def executemany(self, sql, seq):
        n = 0
        for p in seq:
            self.execute(sql, p)
            n += max(0, self.rowcount)
        self.rowcount = n
        return self

    def executescript(self, sql):
        self.connection.commit()
        for s in sql.split(';'):
            if s.strip():
                self.execute(s)
        return self

    def __iter__(self):
        return self

    def __next__(self):
        self._open()
        if self.pos >= len(self.rows):
            raise StopIteration
        r = self.rows[self.pos]
        self.pos += 1
        return r

    def fetchone(self):
        self._open()
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchall(self):
        self._open()
        r = self.rows[self.pos:]
        self.pos = len(self.rows)
        return r

    def fetchmany(self, n=None):
        self._open()
        n = self.arraysize if n is None else n
        r = self.rows[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def close(self):
        self.connection._open()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Connection(object):
    error = real.OperationalError

    def __init__(self, db, isolation_level=''):
        self.db = db
        self.isolation_level = isolation_level
        self.closed = False
        self.row_factory = None
        self.points = []
        self.changes = self.total_changes = 0
        self.deferred = False       # in a transaction that has not written yet
        self.shared = False         # and has read something
        self.cursors = []
        db.conns.append(weakref.ref(self))

    def busy(self):
        return self.error('database is locked')

    def auto(self):
        """Does a statement that writes commit at once?"""
        return not (self.implicit() or self.in_transaction)

    def reads(self):
        if self.shared and self.db.owner is not self:
            return True
        self.cursors = [r for r in self.cursors if r() is not None]
        for r in self.cursors:
            c = r()
            if c is not None and not c.closed and c.pos < len(c.rows):
                return True
        return False

    def ddl(self):
        if self.db.owner is self or self.deferred:
            raise Unsupported('DDL inside a transaction')
        if self.db.owner is not None or self.db.readers(self):
            raise self.busy()

    def end(self, commit):
        db = self.db
        if db.owner is self:
            if not commit:
                db.rollback()
            elif db.readers(self):
                raise self.busy()
            else:
                db.commit()
        self.deferred = self.shared = False
        self.points = []

    def parse(self, sql):
        return parse(sql)

    def implicit(self):
        return self.isolation_level is not None

    def _open(self):
        if self.closed:
            raise real.ProgrammingError('Cannot operate on a closed database.')

    @property
    def in_transaction(self):
        return self.deferred or self.db.saved is not None and self.db.owner is self

    def cursor(self, *a):
        self._open()
        c = Cursor(self)
        self.cursors.append(weakref.ref(c))
        return c

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def savepoint(self, k, name):
        db = self.db
        if k == 'savepoint':
            if db.owner is not None and db.owner is not self:
                raise self.busy()
            db.begin(self)
            self.points.append((name, {n: t.copy() for n, t in db.tables.items()}, len(self.points) == 0))
            return
        while self.points and self.points[-1][0] != name:
            self.points.pop()
        if not self.points:
            raise real.OperationalError('no such savepoint: %s' % name)
        if k == 'rollto':
            db.tables = {n: t.copy() for n, t in self.points[-1][1].items()}
        else:
            self.points.pop()

    def commit(self):
        self._open()
        self.db.faults.point()
        self.end(True)

    def rollback(self):
        self._open()
        self.db.faults.point()
        self.end(False)

    def close(self):
        if not self.closed:
            self.end(False)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, Control):
            return False
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False

    def create_function(self, *a, **k):
        raise Unsupported('create_function')

    def set_trace_callback(self, f):
        pass


def connect(database, timeout=5.0, detect_types=0, isolation_level='', check_same_thread=True, *a, **k):
    env = rt.ENV[0]
    f = env.hooks.pop('sqlite3.connect', None)
    if f is not None:           # what the hook itself opens is a real connection
        try:
            return f(database)
        finally:
            env.hooks['sqlite3.connect'] = f
    return Connection(env.database(database), isolation_level)
