"""Beliefs, removal by pattern, neighbourhoods, the null backend, the choice of backend, MySQL over a stand-in."""
import re
from props.model import Model, agrees, build, is_edge, same_edges
from props.store import scribble
from props.txn import Oops, after, asked, fill, operation, watched
NEEDS = ('gb.hypergraph.hypergraph', 'gb.hypergraph.batch_hypergraph', 'gb.hypergraph.edge', 'gb.hypergraph.queries',
         'gb.hypergraph.constants')


def make_edges(env, shapes, size, inside=()):
    edges = [build(env, s, 'e%d' % i, size) for i, s in enumerate(shapes)]
    for i, j, k in inside:          # edge j is element k of edge i
        edges[i] = tuple([edges[j] if q == k else x for q, x in enumerate(edges[i])])
    return edges


def member(x, xs):
    for y in xs:
        if y == x:
            return True
    return False


# ------------------------------------------------------------------ beliefs

def beliefs(env, shapes, steps, nsources=2, size=1, ops=('believe', 'unbelieve'), lists=False, element=False, from_fact=False, asked=False):
    src = env.mod('gb.hypergraph.constants').source
    path = env.dbpath()
    hg = env.store(path)
    facts = make_edges(env, shapes, size)
    sources = [env.symbol('s%d' % i, size, 'letter') for i in range(nsources)]
    if from_fact:                   # a fact is the source of facts
        sources[-1] = facts[0]
    held = []                       # (source, fact)
    m = Model()
    if element:                     # the first fact is an element of an edge of its own
        e = ('says', 'ann', facts[0])
        hg.add(e, 0)
        m.add(e, 0)
    for i in range(steps):
        op = env.choose('op%d' % i, ops) if i else 'believe'
        f = facts[env.choose('fact%d' % i, range(len(facts)))]
        s = sources[env.choose('source%d' % i, range(len(sources)))]
        if op == 'believe':
            if lists and env.flag('list%d' % i):
                hg.add_belief(s, [f, facts[0]], i)
                fs = [f, facts[0]]
            else:
                hg.add_belief(s, f, i)
                fs = [f]
            for x in fs:
                m.add(x, i)
                m.add((src, x, s), i)
                if not member((s, x), held):
                    held.append((s, x))
        elif op == 'unbelieve':
            hg.remove_belief(s, f)
            held = [h for h in held if not h == (s, f)]
            m.remove((src, f, s))
            if not member(f, [h[1] for h in held]):
                m.remove(f)
        elif op == 'unstate':       # the link goes as any edge does, and the fact stays
            hg.remove((src, f, s))
            held = [h for h in held if not h == (s, f)]
            m.remove((src, f, s))
        elif op == 'forget':        # all links of the fact go
            hg.remove_by_pattern((src, f, None))
            for h in held:
                if h[1] == f:
                    m.remove((src, f, h[0]))
            held = [h for h in held if not h[1] == f]
        elif op == 'destroy':
            hg.destroy()
            m.destroy()
            held = []
        else:                       # the bare edge is added, without a source
            hg.add(f, i)
            m.add(f, i)
        if asked:
            env.check(len(hg.sources(f)) == len([h for h in held if h[1] == f]), 'sources is not the set of sources of the fact')
    for i, f in enumerate(facts):
        got = list(hg.sources(f))
        want = []
        for s, x in held:
            if x == f and not member(s, want):
                want.append(s)
        env.observe('sources%d' % i, len(got))
        env.check(len(got) == len(want), 'sources is not the set of sources of the fact')
        for s in want:
            env.check(member(s, got), 'sources misses a source')
        env.check(hg.exists(f) == m.exists(f), 'a fact is kept or removed against its sources')
    bad = agrees(hg, m, facts)
    env.check(bad == '', 'beliefs leave another hypergraph than their edges')
    env.check(agrees(env.store(path), m, facts) == '', 'beliefs are not stored')


# ---------------------------------------------------------------- by pattern

def remove_by_pattern(env, shapes, holes, size=1, again=False):
    path = env.dbpath()
    hg = env.store(path)
    edges = make_edges(env, shapes, size)
    m = Model()
    if holes == 'first':
        pat = tuple([None if env.flag('any%d' % i) else x for i, x in enumerate(edges[0])])
    else:
        pat = tuple([None if h is None else build(env, h, 'p%d' % i, size) for i, h in enumerate(holes)])
    if again:                       # what matched was removed before some of the edges were there
        for e in edges[:-1]:
            hg.add(e, 1)
            m.add(e, 1)
        hg.remove_by_pattern(pat)
        for e in m.match(pat):
            m.remove(e)
    for e in edges:
        hg.add(e, 1)
        m.add(e, 1)
    gone = m.match(pat)
    asked(env, hg, m, edges)
    hg.remove_by_pattern(pat)
    m2 = Model()                    # an edge that is an element of another may go before or after it
    m2.edges, m2.rows = list(m.edges), [list(r) for r in m.rows]
    for e in gone:
        m.remove(e)
    for e in gone[::-1]:
        m2.remove(e)
    bad = agrees(hg, m, edges)
    if bad != '':
        m = m2
        bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'remove_by_pattern does not remove exactly the edges that match')
    env.check(agrees(env.store(path), m, edges) == '', 'remove_by_pattern is not stored')


# ------------------------------------------------------------- neighbourhoods

def ego_model(m, center, depth):
    if depth <= 0:
        return []
    out = m.star(center)
    ids = []
    for e in out:
        for v in e[1:]:
            if not member(v, ids):
                ids.append(v)
    for v in ids:
        for e in ego_model(m, v, depth - 1):
            if not member(e, out):
                out = out + [e]
    return out


def ego(env, shapes, depth, size=1, center='s', inside=(), asked=False):
    hg = env.store()
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    c = edges[center] if isinstance(center, int) else edges[0][1] if center == 'first' else build(env, center, 'c', size)
    more = ('more', edges[-1][1], 'm')
    if asked:
        hg.add(more)
    for e in edges:
        if asked:                   # the same was asked before this edge was there
            hg.ego(c, depth)
        hg.add(e)
        m.add(e)
    if asked:
        hg.ego(c, depth)
        hg.remove(more)
    got = hg.ego(c, depth)
    env.observe('n', len(got))
    env.check(same_edges(env, got, ego_model(m, c, depth)), 'ego is not the set of edges within the given distance')


def neighbours(edges, v):
    out = []
    for e in edges:
        if member(v, e[1:]):
            for w in e[1:]:
                if not member(w, out):
                    out.append(w)
    return out


def all_walks(edges, seeds, walk):
    done = True
    for s in seeds:
        if not member(s, walk):
            done = False
    if done:
        return [walk]
    out = []
    for w in neighbours(edges, walk[-1]):
        if not member(w, walk):
            out = out + all_walks(edges, seeds, walk + [w])
    return out


def intersect(env, shapes, size=1, seeds=2, asked=False):
    """Edges that lie on the shortest walks that join the seeds."""
    q = env.mod('gb.hypergraph.queries')
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    ss = list(seeds) if isinstance(seeds, (list, tuple)) else [env.symbol('seed%d' % i, size, 'letter') for i in range(seeds)]
    if asked:                       # the same question was asked of another hypergraph, and of this one with one more edge
        more = ('more', ss[0], ss[-1])
        other = env.store()
        other.add(more)
        q.intersect(other, list(ss))
        hg.add(more)
        q.intersect(hg, list(ss))
        hg.remove(more)
    got = q.intersect(hg, ss)
    near = []
    for s in ss:
        for e in ego_model(m, s, 2):
            if not member(e, near):
                near.append(e)
    ws = all_walks(near, ss, [ss[0]])
    best = []                       # [vertex, length of the shortest walk through it]
    for w in ws:
        for v in w:
            hit = False
            for b in best:
                if b[0] == v:
                    hit = True
                    b[1] = min(b[1], len(w))
            if not hit:
                best.append([v, len(w)])
    inter = []
    for w in ws:
        ok = True
        for v in w:
            if not member(v, ss):
                for b in best:
                    if b[0] == v and b[1] != len(w):
                        ok = False
        if ok:
            for v in w:
                if not member(v, inter):
                    inter.append(v)
    want = []
    for e in near:
        ok = True
        for v in e[1:]:
            if not member(v, inter):
                ok = False
        if ok:
            want.append(e)
    seen = []
    for e in got:
        if not member(e, seen):
            seen.append(e)
    env.observe('n', len(seen))
    env.check(same_edges(env, seen, want), 'intersect is not the edges on the shortest walks between the seeds')


class Degrees(object):
    """A hypergraph that only knows degrees."""

    def __init__(self, pairs, edges):
        self.pairs = pairs
        self.edges = edges

    def degree(self, v):
        for w, d in self.pairs:
            if w == v:
                return d
        return 0

    def ego(self, center, depth):
        return set(self.edges)


def hubs(env, shape, size=1):
    """Of one edge, between its arguments: edges through an entity with a degree above 250 are left out, and only those."""
    q = env.mod('gb.hypergraph.queries')
    e = build(env, shape, 'e', size)
    pairs = []
    for i, v in enumerate(e):
        pairs.append((v, env.int('degree%d' % i, 0, 1000)))
    hg = Degrees(pairs, [e])
    big = False
    for v in e[1:]:
        if hg.degree(v) > 250:
            big = True
    # the same question was asked of another hypergraph
    all_hubs = env.flag('hubs')
    q.intersect(Degrees([(v, 300 if all_hubs else 3) for v in e], [e]), list(e[1:]))
    got = q.intersect(hg, list(e[1:]))
    env.observe('n', len(set(got)))
    env.check(len(set(got)) == (0 if big else 1), 'edges through hubs are not the ones left out')


# ------------------------------------------------------------------ backends

def null(env, shapes, size=1):
    """The null backend answers like an empty hypergraph, whatever is done to it."""
    hg = env.mod('gb.hypergraph.hypergraph').HyperGraph({'backend': 'null'})
    edges = make_edges(env, shapes, size)
    for i in range(2):
        op = env.choose('op%d' % i, ['add', 'addlist', 'remove', 'belief', 'unbelief', 'bypattern', 'destroy', 'batch'])
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if op == 'add':
            env.check(env.same(hg.add(e, 5), e), 'add does not return the edge')
        elif op == 'addlist':
            env.check(len(hg.add(list(edges), 5)) == len(edges), 'add does not return the edges')
        elif op == 'remove':
            hg.remove(e)
        elif op == 'belief':
            hg.add_belief(e[0], e)
        elif op == 'unbelief':
            hg.remove_belief(e[0], e)
        elif op == 'bypattern':
            hg.remove_by_pattern((e[0], None))
        elif op == 'destroy':
            hg.destroy()
        else:
            hg.batch_exec([lambda x: x.add(e)])
    e = edges[0]
    for ask in (lambda: hg.pattern2edges((e[0], None)), lambda: hg.star(e[0]), lambda: hg.symbols_with_root(e[0]),
                lambda: hg.f_all(lambda v: v), lambda: hg.sources(e), lambda: hg.ego(e[0], 1)):
        scribble(env, ask())                    # the caller's own
    bad = agrees(hg, Model(), edges)
    env.observe('bad', bad)
    env.check(bad == '', 'the null backend remembers something')
    env.check(len(list(hg.f_all(lambda v: v))) == 0, 'f_all finds something in the null backend')
    env.check(len(hg.symbols_with_root(e[0])) == 0, 'the null backend has symbols')
    env.check(len(hg.sources(e)) == 0, 'the null backend has sources')
    env.check(len(hg.ego(e[0], 1)) == 0, 'the null backend has neighbours')


def backend_choice(env, size, start=''):
    """An unknown backend is refused with an error, never silently replaced."""
    name = start + env.str('backend', size, 'any')
    for k in ('none', 'null', 'sqlite', 'mysql'):
        env.assume(not name == k)
    err = env.raised(lambda: env.mod('gb.hypergraph.hypergraph').HyperGraph({'backend': name, 'db': env.dbpath()}))
    env.observe('error', err is not None)
    env.check(isinstance(err, RuntimeError), 'an unknown backend is not refused')


# --------------------------------------------------------------------- MySQL

INTS = {'TINYINT': 7, 'SMALLINT': 15, 'MEDIUMINT': 23, 'INT': 31, 'INTEGER': 31, 'BIGINT': 63}


def column_types(q):
    """The columns that a statement makes, with what fits into them."""
    out = {}
    for name, kind, size in re.findall(r'(\w+)\s+(%s|VARCHAR|CHAR|VARBINARY|TINYTEXT)\b(?:\s*\((\d+)\))?' % '|'.join(INTS), q, re.I):
        kind = kind.upper()
        out[name.lower()] = ('int', INTS[kind]) if kind in INTS else ('text', 255 if kind == 'TINYTEXT' else int(size or 1))
    return out


def check_fits(conn, q, args):
    """A server in strict mode (the default) refuses values that do not fit into their columns."""
    words = q.split()
    if words[0].upper() == 'UPDATE':
        table = words[1]
        sets = q[q.upper().index(' SET ') + 5:]
        cols = [x.split('=')[0].strip() for x in re.split(r' WHERE ', sets, flags=re.I)[0].split(',') if '%s' in x]
    elif words[0].upper() in ('INSERT', 'REPLACE') and 'INTO' in [w.upper() for w in words]:
        m = re.search(r'INTO\s+(\w+)\s*\(([^)]*)\)\s*VALUES\s*\(\s*%s\s*(?:,\s*%s\s*)*\)', q, re.I)
        if m is None:
            return
        table = m.group(1)
        cols = [x.strip() for x in m.group(2).split(',')]
    else:
        return
    types = conn.server.types.get(table, {})
    for c, v in zip(cols, args):
        kind, size = types.get(c.lower(), ('', 0))
        if kind == 'int' and not isinstance(v, str):
            if not -(1 << size) <= v < (1 << size):
                raise conn.err.DataError(1264, 'Out of range value for column')
        if kind == 'text' and isinstance(v, str):
            if len(v) > size:
                raise conn.err.DataError(1406, 'Data too long for column')


class MyCursor(object):
    """A MySQLdb cursor over a sqlite connection: %s placeholders, MySQL's tables and row counts."""

    def __init__(self, conn):
        self.conn = conn
        self.c = conn.c.cursor()
        self.rowcount = -1
        self.closed = False

    def execute(self, q, args=None):
        if self.closed:
            raise self.conn.err.ProgrammingError(2013, 'cursor closed')
        words = q.split()
        what = ' '.join(words[:2]).upper()
        if self.conn.faulty():
            raise self.conn.err.OperationalError(1205, 'Lock wait timeout exceeded')
        if what == 'START TRANSACTION' or words[0].upper() == 'BEGIN':
            self.conn.begin()
            return 0
        if words[0].upper() in ('COMMIT', 'ROLLBACK'):
            self.conn.end(words[0].upper() == 'COMMIT')
            return 0
        if what == 'CREATE TABLE':
            easy = words[2].upper() == 'IF'
            name = words[5 if easy else 2].split('(')[0]
            if name in self.conn.tables:
                if easy:
                    return
                raise self.conn.err.OperationalError(1050, 'Table already exists')
            self.conn.tables.append(name)
            self.conn.server.types[name] = column_types(q)
            self.c.execute('CREATE TABLE %s (id TEXT PRIMARY KEY)' % name)
            return
        if what == 'ALTER TABLE':
            name = words[2] + '.' + words[5]
            if name in self.conn.tables:
                raise self.conn.err.OperationalError(1060, 'Duplicate column name')
            self.conn.tables.append(name)
            self.conn.server.types.setdefault(words[2], {}).update(column_types(q))
            self.c.execute(q)
            return
        args = () if args is None else tuple(args)
        if q.count('%s') != len(args):
            raise self.conn.err.ProgrammingError('not all arguments converted during string formatting')
        check_fits(self.conn, q, args)
        if words[0].upper() == 'UPDATE' and not self.conn.found_rows:
            # only rows that really change are counted
            sets = [x.split('=') for x in q[q.upper().index(' SET ') + 5:q.upper().index(' WHERE ')].split(',')]
            plain = True
            for x in sets:
                if x[1].strip() != '%s':
                    plain = False
            old = None
            if plain:
                cols = ','.join([x[0].strip() for x in sets])
                self.c.execute('SELECT %s FROM %s WHERE id=?' % (cols, words[1]), args[-1:])
                old = self.c.fetchone()
            self.c.execute(q.replace('%s', '?'), args)
            self.rowcount = self.c.rowcount
            if old is not None:
                same = True
                for x, y in zip(old, args):
                    if not x == y:
                        same = False
                if same:
                    self.rowcount = 0
        else:
            self.c.execute(q.replace('%s', '?'), args)
            self.rowcount = self.c.rowcount
        if self.conn.auto and not self.conn.inside:
            self.conn.c.commit()
        return self.rowcount

    def executemany(self, q, rows):
        for r in rows:
            self.execute(q, r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.c.fetchall())

    def fetchall(self):
        return self.c.fetchall()

    def fetchone(self):
        return self.c.fetchone()

    def close(self):
        self.closed = True
        self.c.close()


class MyConn(object):
    def __init__(self, c, server, err, found_rows):
        self.c = c
        self.server = server
        self.tables = server.tables
        self.err = err
        self.auto = False
        self.inside = False             # in a transaction although auto is set
        self.found_rows = found_rows
        self.n = 0
        self.at = None                  # the operation that fails

    def faulty(self):
        if self.at is None:
            return False
        self.n += 1
        return self.at == self.n - 1

    def autocommit(self, on):
        self.auto = on

    def get_autocommit(self):
        return self.auto

    def cursor(self, *a):
        return MyCursor(self)

    def begin(self):
        self.c.commit()
        self.inside = True

    def end(self, commit):
        self.inside = False
        if commit:
            self.c.commit()
        else:
            self.c.rollback()

    def commit(self):
        if self.faulty():
            raise self.err.OperationalError(1205, 'Lock wait timeout exceeded')
        self.end(True)

    def rollback(self):
        self.end(False)

    def close(self):
        self.c.close()


class MySQL(object):
    def __init__(self, env):
        self.env = env
        self.path = env.dbpath()
        self.tables = []
        self.tables_at = {}
        self.types = {}
        self.asked = []
        self.place = None           # where the database with a name on a host is, when there are several
        env.hook('MySQLdb.connect', self.connect)

    def connect(self, **k):
        self.asked.append(k)
        err = self.env.lib('_mysql_exceptions')
        path = self.path if self.place is None else self.place((k.get('host'), k.get('db', k.get('database'))))
        c = self.env.lib('sqlite3').connect(path)
        self.conn = MyConn(c, self, err, k.get('client_flag', 0) & 2 == 2)
        if self.place is not None:
            self.conn.tables = self.tables_at.setdefault(path, [])
        return self.conn

    def store(self):
        return self.env.mod('gb.hypergraph.hypergraph').HyperGraph(
            {'backend': 'mysql', 'host': 'h', 'user': 'u', 'password': 'p', 'db': 'd'})


def two_databases(env, backend, size=1, params=('host', 'db')):
    """Two hypergraphs are one when their databases are one, and otherwise have nothing in common."""
    hgs = env.mod('gb.hypergraph.hypergraph')
    a = {'backend': backend, 'host': 'h', 'user': 'u', 'password': 'p', 'db': 'd'}
    b = dict(a)
    for n in params:
        b[n] = env.str('other.' + n, size, 'any')
    places = []

    def place(where):
        for w, path in places:
            if w == where:
                return path
        places.append((where, env.dbpath() + '.%d' % len(places)))
        return places[-1][1]
    if backend == 'sqlite':
        connect = env.lib('sqlite3').connect
        env.hook('sqlite3.connect', lambda *x, **k: connect(place(x[0] if x else k['database'])))
        same = b['db'] == a['db']
    else:
        MySQL(env).place = place
        same = b['db'] == a['db'] and b['host'] == a['host']
    one = hgs.HyperGraph(a)
    e, f = ('r', 'a', 'b'), ('r', 'c', 'd')
    early = env.flag('early')
    if early:
        two = hgs.HyperGraph(b)
    one.add(e)
    if not early:
        two = hgs.HyperGraph(b)
    two.add(f)
    env.observe('same', same)
    env.check(one.exists(e) and two.exists(f), 'a hypergraph has lost what was stored in it')
    if same:
        env.check(one.exists(f) and two.exists(e), 'two hypergraphs with one database are different')
    else:
        env.check(not one.exists(f) and not two.exists(e) and one.degree('c') == 0 and two.degree('a') == 0,
                  'two hypergraphs with two databases have something in common')
    two.destroy()
    env.check(one.exists(e) == (not same) and not two.exists(f), 'a hypergraph is destroyed with another one, or not at all')


def mysql(env, shapes, steps, size=1, inside=(), ops=('add', 'remove')):
    """The MySQL backend keeps the same hypergraph, over a server that keeps rows like SQLite does."""
    my = MySQL(env)
    hg = my.store()
    k = my.asked[0]
    got = [k[n] for ns in (('host',), ('user',), ('passwd', 'password'), ('db', 'database')) for n in ns if n in k]
    env.check(got == ['h', 'u', 'p', 'd'], 'the connection parameters are not the ones given')
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    when = env.int('ts', -(1 << 63), (1 << 63) - 1)
    for i in range(steps):
        op = env.choose('op%d' % i, ops) if i else 'add'
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if op == 'add':
            ts = -1 if i else when
            hg.add(e, ts)
            m.add(e, ts)
        elif op == 'destroy':
            hg.destroy()
            m.destroy()
        elif op == 'batch':
            hg.batch_exec([lambda x: x.add([e], -1), lambda x: x.remove(edges[0])])
            m.add(e, -1)
            m.remove(edges[0])
        else:
            hg.remove(e)
            m.remove(e)
    bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'the MySQL backend keeps another hypergraph')
    for root in ('c', 'c/d'):
        want = set([v for e in m.edges for v in e if v in ('c/1', 'c/d/2')])
        got = set(hg.symbols_with_root(root))
        env.check(got == set([v for v in want if v.startswith(root + '/')]), 'the MySQL backend finds other symbols with a root')
    n = len(list(hg.f_all(lambda v: v)))
    env.observe('rows', n)
    bad = agrees(my.store(), m, edges)
    env.check(bad == '', 'opening the MySQL hypergraph again changes it')


def mysql_error(env, shapes, kind, before=1, size=1, inside=(), limit=1000):
    """The server reports an error, or a function of a batch raises: the operation is undone, and later ones work."""
    my = MySQL(env)
    hg = my.store()
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    src = env.mod('gb.hypergraph.constants').source
    fill(hg, m, edges[:before], (src, edges[0][0]) if kind == 'unbelieve' else None)
    if kind == 'raises':
        at = env.choose('at', range(3))
        todo = [lambda x: x.add(edges[-1], 2), lambda x: x.remove(edges[0])]
        ops = [('add', edges[-1]), ('remove', edges[0])]

        def f(x, i):
            if i == at:
                raise Oops()
            todo[i](x)
        err = env.raised(lambda: hg.batch_exec([lambda x, i=i: f(x, i) for i in range(2)]))
        env.check((err is None) == (at == 2) and (err is None or isinstance(err, Oops)), 'the exception of a function is lost')
    else:
        run, ops = operation(env, hg, kind, edges)
        my.conn.at = env.int('k', 0, limit)
        err = env.raised(run)
        my.conn.at = None
        env.check(err is None or isinstance(err, env.lib('_mysql_exceptions').OperationalError), 'the error of the server is lost')
    watch = watched(edges, ops)
    now = after(m, ops) if err is None else m
    hg2 = my.store()
    bad = agrees(hg2, now, watch)
    env.observe('bad', bad)
    env.check(bad == '', 'on MySQL a failed operation is not undone' if err is not None else 'on MySQL an operation that returned did not happen')
    e = edges[-1]
    hg.add(e, 3)
    now.add(e, 3)
    env.check(agrees(hg2, now, edges) == '', 'on MySQL an operation after a failed one is not stored')
