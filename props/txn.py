"""Batches, crashes, database errors, and what another connection sees."""
from props.model import Model, agrees, build, same_edges
NEEDS = ('gb.hypergraph.hypergraph', 'gb.hypergraph.batch_hypergraph', 'gb.hypergraph.edge')


def make_edges(env, shapes, size, inside=()):
    edges = [build(env, s, 'e%d' % i, size) for i, s in enumerate(shapes)]
    for i, j, k in inside:          # edge j is element k of edge i
        edges[i] = tuple([edges[j] if q == k else x for q, x in enumerate(edges[i])])
    return edges


def plan(env, edges, n, ops=('add', 'remove'), first=None):
    out = []
    for i in range(n):
        op = first if first and i == 0 else env.choose('op%d' % i, ops)
        out.append((op, edges[env.choose('edge%d' % i, range(len(edges)))]))
    return out


def apply_op(hg, op, e, ts=-1):
    if op == 'add':
        hg.add(e, ts)
    else:
        hg.remove(e)


def apply_model(m, ops, ts=-1):
    for op, e in ops:
        if op == 'add':
            m.add(e, ts)
        elif op == 'destroy':
            m.destroy()
        elif op == 'match':
            for x in m.match(e):
                m.remove(x)
        elif op == 'unbelieve':         # e is the edge that gives a fact a source
            m.remove(e)
            if len(m.match((e[0], e[1], None))) == 0:
                m.remove(e[1])
        else:
            m.remove(e)


def batch(env, shapes, n, mode, before=1, size=1, inside=()):
    """Operations in a batch do what the same operations one after another do."""
    path = env.dbpath()
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    for e in edges[:before]:
        hg.add(e, 1)
        m.add(e, 1)
    ops = plan(env, edges, n)
    seen = []
    asked(env, hg, m, edges)
    if mode == 'exec':
        ret = env.choose('returns', [None, False, 0])   # what the functions return means nothing

        def r(x, o):
            apply_op(x, o[0], o[1])
            return ret
        hg.batch_exec([lambda x, o=o: r(x, o) for o in ops])
    elif mode == 'same':            # one function, as many times
        todo = list(ops)

        def again(x):
            o = todo.pop(0)
            apply_op(x, o[0], o[1])
        hg.batch_exec((again,) * n if env.flag('tuple') else [again] * n)
    elif mode == 'one':             # one function that does everything, through the hypergraph
        def f(x):
            for o in ops:
                apply_op(hg, o[0], o[1])
        hg.batch_exec([f])
    elif mode == 'reads':           # functions that also ask questions
        def g(x, o):
            seen.append((o[1], x.exists(o[1]), x.degree(o[1][0]), x.timestamp(o[1]), len(x.star(o[1][0]))))
            apply_op(x, o[0], o[1])
        hg.batch_exec([lambda x, o=o: g(x, o) for o in ops])
    elif mode == 'nested':          # a batch inside a batch, and a list of edges inside a batch
        def h(x):
            x.batch_exec([lambda y: apply_op(y, ops[0][0], ops[0][1])])
            rest = [o for o in ops[1:]]
            for o in rest:
                if o[0] == 'add':
                    x.add([o[1]])
                else:
                    x.remove([o[1]])
        hg.batch_exec([h])
    mm = Model()
    mm.edges, mm.rows = list(m.edges), [list(r) for r in m.rows]
    for i, o in enumerate(ops):
        if seen:
            e, ex, d, t, s = seen[i]
            env.check(ex == mm.exists(e), 'exists is wrong inside a batch')
            env.check(d == mm.degree(e[0]), 'degree is wrong inside a batch')
            if mm.exists(e) or mm.row(e) is None:
                env.check(t == mm.timestamp(e), 'timestamp is wrong inside a batch')
            env.check(s == len(mm.star(e[0])), 'star is wrong inside a batch')
        apply_model(mm, [o])
    if mode == 'reads':
        env.check(len(seen) == n, 'batch_exec does not call every function once')
    bad = agrees(hg, mm, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'a batch leaves another state than its operations one after another')
    bad = agrees(env.store(path), mm, edges)
    env.check(bad == '', 'a batch is not stored when it returns')


def many(env, shapes, op, before=1, size=1, inside=(), as_tuple=False):
    """A list of edges is added or removed as the edges one by one."""
    path = env.dbpath()
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    for e in edges[:before]:
        hg.add(e, 1)
        m.add(e, 1)
    li = [edges[env.choose('i%d' % i, range(len(edges)))] for i in range(len(edges))]
    arg = tuple(li) if as_tuple else list(li)
    asked(env, hg, m, edges)
    if op == 'add':
        r = hg.add(arg, 2)
        env.check(len(r) == len(li), 'add does not return the edges')
    else:
        hg.remove(arg)
    apply_model(m, [(op, e) for e in li], 2)
    bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'a list of edges is not stored as its edges one by one')
    bad = agrees(env.store(path), m, edges)
    env.check(bad == '', 'a list of edges is not stored when the call returns')


def buffered(env, shapes, n, size=1, max_lo=0, max_hi=3, flushes=True, inside=()):
    """After flush, a BatchHyperGraph has left what direct adds leave."""
    path = env.dbpath()
    hg = env.store(path)
    bhg = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg, env.int('max', max_lo, max_hi))
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    given = []
    for e in edges if env.flag('asked') else ():        # before anything is stored
        env.check(not hg.exists(e) and len(hg.star(e[0])) == 0 and len(hg.pattern2edges((None,) * len(e))) == 0 and hg.degree(e[0]) == 0
                  and hg.timestamp(e[-1]) == -1, 'an empty hypergraph has something')
    for i in range(n):
        how = env.choose('how%d' % i, ['one', 'list', 'flush'] if flushes else ['one', 'list'])
        ts = env.choose('ts%d' % i, [-1, 0, 7] if n < 3 else [-1, 7])
        if how == 'flush':
            bhg.flush()
            continue
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if how == 'one':
            bhg.add(e, ts)
            m.add(e, ts)
        else:
            li = [e, edges[0]]
            bhg.add(li, ts)
            given.append((li, [e, edges[0]]))
            m.add(e, ts)
            m.add(edges[0], ts)
    # another buffered hypergraph has nothing to do with this one
    other = env.store()
    mine = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(other)
    mine.add(('other', 'edge'))
    bhg.flush()
    mine.flush()
    env.check(other.exists(('other', 'edge')) and not hg.exists(('other', 'edge')), 'two buffers share their edges')
    for a, b in given:
        env.check(env.same(a, b), 'add changes its argument, or keeps it for later')
    bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'a flushed buffer is not what was added')
    bad = agrees(env.store(path), m, edges)
    env.check(bad == '', 'a flushed buffer is not stored')
    bhg.flush()
    env.check(agrees(bhg, m, edges) == '', 'flushing twice changes the hypergraph')


def long(env, n, how):
    """Many edges, one of them about an arbitrary entity, stored and removed together: what is left is what edges one by one leave."""
    path = env.dbpath()
    hg = env.store(path)
    m = Model()
    at = env.choose('at', [0, n // 2, n - 1])
    edges = [('r', 'a%d' % i, 'b%d' % (i % 3)) for i in range(n)]
    edges[at] = ('r', env.symbol('x', 1, 'letter'), 'b')
    old = edges[:n // 4]
    for e in old:
        hg.add(e, 1)
        m.add(e, 1)
    if how == 'list':
        hg.add(list(edges), 2)
    elif how == 'tuple':
        hg.add(tuple(edges), 2)
    elif how == 'batch':
        hg.batch_exec([lambda x, e=e: x.add(e, 2) for e in edges])
    elif how == 'one':
        def f(x):
            for e in edges:
                x.add(e, 2)
        hg.batch_exec([f])
    else:
        bhg = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg, *([7] if how == 'buffers' else []))
        for e in edges:
            bhg.add(e, 2)
        bhg.flush()
    apply_model(m, [('add', e) for e in edges], 2)

    def look(h, why):
        env.check(same_edges(env, h.pattern2edges((None, None, None)), m.edges), why)
        env.check(same_edges(env, h.star('b1'), m.star('b1')), why)
        env.check(h.degree('r') == m.degree('r') and h.degree('b') == m.degree('b') and h.degree('b2') == m.degree('b2'), why)
        for e in (edges[0], edges[at], edges[-1]):
            env.check(h.exists(e) == m.exists(e) and h.timestamp(e) == m.timestamp(e) and h.degree(e[1]) == m.degree(e[1]), why)
        env.check(len(list(h.f_all(lambda v: v['vertex']))) == len(m.rows), why)
    look(hg, 'many edges together are stored otherwise than one by one')
    look(env.store(path), 'many edges together are not stored when the call returns')
    gone = edges[n // 8:]
    if how in ('batch', 'one'):
        hg.batch_exec([lambda x, e=e: x.remove(e) for e in gone])
    else:
        hg.remove(tuple(gone) if how == 'tuple' else list(gone))
    apply_model(m, [('remove', e) for e in gone], 2)
    look(hg, 'many edges together are removed otherwise than one by one')
    look(env.store(path), 'many edges together are not removed when the call returns')


def flush_fault(env, shapes, n, ask='one', limit=1000, size=1, inside=()):
    """The database reports an error while a buffer is flushed: nothing that was added is lost, the next flush stores it."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    hg.add(edges[0], 1)
    m.add(edges[0], 1)
    bhg = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg, 100)
    for i in range(n):
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if ask == 'list':
            bhg.add([e, edges[-1]], 2)
            apply_model(m, [('add', e), ('add', edges[-1])], 2)
        else:
            bhg.add(e, 2)
            m.add(e, 2)
    k = env.int('k', 0, limit)
    env.arm_fault(path, k)
    err = env.raised(bhg.flush)
    env.disarm(path)
    env.check(err is None or env.is_fault(err), 'a database error turns into another one')
    env.observe('failed', err is not None)
    if err is not None:
        bhg.flush()
    bad = agrees(hg, m, edges)
    env.check(bad == '', 'after a flush that failed and one that did not, something is missing')
    env.check(agrees(env.store(path), m, edges) == '', 'after a flush that failed and one that did not, something is not stored')


def operation(env, hg, kind, edges, ts=2):
    """(what to run, the operations it stands for)"""
    a, b = edges[0], edges[-1]
    src = env.mod('gb.hypergraph.constants').source
    if kind == 'add':
        return (lambda: hg.add(b, ts)), [('add', b)]
    if kind == 'readd':
        return (lambda: hg.add(a, ts)), [('add', a)]
    if kind == 'remove':
        return (lambda: hg.remove(a)), [('remove', a)]
    if kind == 'addlist':
        return (lambda: hg.add(list(edges[1:]), ts)), [('add', e) for e in edges[1:]]
    if kind == 'removelist':
        return (lambda: hg.remove(list(edges))), [('remove', e) for e in edges]
    if kind == 'batch':
        return (lambda: hg.batch_exec([lambda x: x.add(b, ts), lambda x: x.remove(a)])), [('add', b), ('remove', a)]
    if kind == 'batchlist':
        return (lambda: hg.batch_exec([lambda x, e=e: x.add(e, ts) for e in edges[1:]])), [('add', e) for e in edges[1:]]
    if kind == 'beliefs':
        fs = list(edges[1:])
        return (lambda: hg.add_belief(b[0], fs, ts)), [o for e in fs for o in (('add', e), ('add', (src, e, b[0])))]
    if kind == 'belief':
        return (lambda: hg.add_belief(b[0], b, ts)), [('add', b), ('add', (src, b, b[0]))]
    if kind == 'unbelieve':             # the source of a is its first element
        return (lambda: hg.remove_belief(a[0], a)), [('unbelieve', (src, a, a[0]))]
    if kind == 'match':
        pat = (None,) * len(a)
        return (lambda: hg.remove_by_pattern(pat)), [('match', pat)]
    return (lambda: hg.destroy()), [('destroy', None)]


def asked(env, hg, m, watch, ask='maybe'):
    """What is asked afterwards may have been asked before."""
    if ask == 'yes' or (ask == 'maybe' and env.flag('asked')):
        bad = agrees(hg, m, watch)
        env.check(bad == '', 'the hypergraph is wrong before the operation')


def after(m, ops, ts=2):
    r = Model()
    r.edges, r.rows = list(m.edges), [list(x) for x in m.rows]
    apply_model(r, ops, ts)
    return r


def fill(hg, m, edges, believed=None):
    """Stores edges; the first one is believed by the given source or by none."""
    for i, e in enumerate(edges):
        if i == 0 and believed is not None:
            hg.add_belief(believed[1], e, 1)
            apply_model(m, [('add', e), ('add', (believed[0], e, believed[1]))], 1)
        else:
            hg.add(e, 1)
            m.add(e, 1)


def watched(edges, *oplists):
    out = list(edges)
    for ops in oplists:
        for o, e in ops:
            if o in ('add', 'unbelieve') and isinstance(e[1], tuple):
                out.append(e)
    return out


def crash(env, shapes, kind, limit=1000, before=1, size=1, inside=()):
    """The process dies at any database operation: on reopening, the operation happened entirely or not at all."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    src = env.mod('gb.hypergraph.constants').source
    fill(hg, m, edges[:before], (src, edges[0][0]) if kind == 'unbelieve' else None)
    run, ops = operation(env, hg, kind, edges)
    m2 = after(m, ops)
    k = env.int('k', 0, limit)
    env.arm_crash(path, k)
    crashed = env.crashes(path, run)
    env.observe('crashed', crashed)
    again = env.store(env.same_place(path))
    watch = watched(edges, ops)
    if crashed:
        a = agrees(again, m, watch)
        if a != '':
            b = agrees(again, m2, watch)
            env.check(b == '', 'after a crash the operation is neither undone nor complete')
        env.observe('undone', a == '')
        # and the hypergraph still works
        e = edges[-1]
        if a == '':
            again.add(e, 3)
            m.add(e, 3)
            env.check(agrees(again, m, edges) == '', 'after a crash the hypergraph does not work')
    else:
        env.check(agrees(again, m2, watch) == '', 'an operation that returned is not stored')


def fault(env, shapes, kind, limit=1000, before=1, size=1, inside=(), ask='no'):
    """The database reports an error at any operation: nothing is left half done, and later operations work."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    src = env.mod('gb.hypergraph.constants').source
    fill(hg, m, edges[:before], (src, edges[0][0]) if kind == 'unbelieve' else None)
    run, ops = operation(env, hg, kind, edges)
    m2 = after(m, ops)
    asked(env, hg, m, watched(edges, ops), ask)
    k = env.int('k', 0, limit)
    env.arm_fault(path, k)
    err = env.raised(run)
    env.disarm(path)
    watch = watched(edges, ops)
    if err is None:
        now = m2
        env.check(agrees(hg, m2, watch) == '', 'an operation that returned did not happen')
    else:
        env.check(env.is_fault(err), 'a database error turns into another one')
        now = m
        if agrees(hg, m, watch) != '':
            now = m2
            env.check(agrees(hg, m2, watch) == '', 'after an error the operation is neither undone nor complete')
    env.observe('failed', err is not None)
    # the next operation is stored at once, and does not bring back half of the failed one
    e = edges[-1]
    hg.add(e, 3)
    now.add(e, 3)
    env.check(agrees(hg, now, edges) == '', 'after an error the next operation goes wrong')
    env.check(agrees(env.store(path), now, watch) == '', 'after an error the next operation is not stored')


class Oops(Exception):
    pass


def batch_error(env, shapes, n, before=1, size=1, inside=()):
    """A function of a batch raises: the batch is undone, and later operations work."""
    path = env.dbpath()
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    for e in edges[:before]:
        hg.add(e, 1)
        m.add(e, 1)
    ops = plan(env, edges, n)
    at = env.choose('at', range(n + 1))
    ask = env.flag('asked')

    def f(x, i):
        if i == at:
            if ask:                 # what was done so far shows, and is undone
                now = after(m, ops[:i], -1)
                env.check(agrees(x, now, edges) == '', 'a batch does not show what it has done')
            raise Oops()
        apply_op(x, ops[i][0], ops[i][1])
    err = env.raised(lambda: hg.batch_exec([lambda x, i=i: f(x, i) for i in range(n)]))
    if at < n:
        env.check(isinstance(err, Oops), 'the exception of a function of the batch is lost')
    else:
        env.check(err is None, 'a batch fails')
        apply_model(m, ops)
    bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'a batch that failed is not undone')
    e = edges[-1]
    hg.add(e, 3)
    m.add(e, 3)
    env.check(agrees(env.store(path), m, edges) == '', 'after a failed batch an operation is not stored')


def durable(env, shapes, steps, size=1, inside=()):
    """Each operation that returned is seen by another connection, and opening an existing hypergraph keeps it."""
    path = env.dbpath()
    hg = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    for i in range(steps):
        op = env.choose('op%d' % i, ['add', 'remove', 'destroy']) if i else 'add'
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if op == 'destroy':
            hg.destroy()
            m.destroy()
        else:
            apply_op(hg, op, e, i)
            apply_model(m, [(op, e)], i)
        if env.flag('reopen%d' % i):
            hg = env.store(path)
    other = env.store(path)
    bad = agrees(other, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'another connection does not see what was done')


def older(env, shapes, size=1, inside=()):
    """A database that an older version made, with fewer columns or tables, keeps what is in it and can be used."""
    edges = make_edges(env, shapes, size, inside)
    lib = env.lib('sqlite3')
    path = env.dbpath()
    m = Model()
    age = env.choose('age', ['no times', 'no degrees', 'no permutations', 'nothing'])
    c = lib.connect(path)
    if age != 'nothing':
        c.execute('CREATE TABLE vertices (id TEXT PRIMARY KEY)')
    if age != 'no permutations' and age != 'nothing':
        c.execute('CREATE TABLE perms (id TEXT PRIMARY KEY)')
    if age == 'no times':
        c.execute('ALTER TABLE vertices ADD COLUMN degree INTEGER DEFAULT 0')
        full = env.dbpath() + '.full'
        hg = env.store(full)
        for e in edges[:-1]:
            hg.add(e)
            m.add(e)
        now = lib.connect(full)
        for row in now.execute('SELECT id, degree FROM vertices').fetchall():
            c.execute('INSERT INTO vertices (id,degree) values (?,?)', (row[0], row[1]))
        for row in now.execute('SELECT id FROM perms').fetchall():
            c.execute('INSERT INTO perms (id) values (?)', (row[0],))
    c.commit()
    c.close()
    hg = env.store(path)
    bad = agrees(hg, m, edges)
    env.observe('bad', bad)
    env.check(bad == '', 'opening the database of an older version loses what is in it')
    when = env.int('ts', -(1 << 63), (1 << 63) - 1)
    hg.add(edges[-1], when)
    m.add(edges[-1], when)
    if env.flag('gone'):
        hg.remove(edges[0])
        m.remove(edges[0])
    env.check(agrees(hg, m, edges) == '' and agrees(env.store(path), m, edges) == '', 'the database of an older version cannot be used')


def in_turns(env, shapes, steps, size=1, inside=()):
    """Two connections that stay open and work in turns: each always sees what both did."""
    path = env.dbpath()
    hgs = [env.store(path), env.store(path)]
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    asked = env.flag('asked')
    for i in range(steps):
        op = env.choose('op%d' % i, ['add', 'remove', 'destroy']) if i else 'add'
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        hg = hgs[env.choose('who%d' % i, [0, 1])]
        if op == 'destroy':
            hg.destroy()
            m.destroy()
        else:
            apply_op(hg, op, e, i)
            apply_model(m, [(op, e)], i)
        if asked or i == steps - 1:
            for hg in hgs:
                bad = agrees(hg, m, edges)
                env.check(bad == '', 'a connection does not see what was done')
    env.observe('n', len(m.edges))


def two_writers(env, shapes, a, b, limit=1000, before=1, size=1, inside=(), same=False):
    """Before any database operation of one connection's operation, another connection does all of its own: the operations
    that are not refused happened one after the other."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    other = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    src = env.mod('gb.hypergraph.constants').source
    m = Model()
    fill(hg, m, edges[:before], (src, edges[0][0]) if 'unbelieve' in (a, b) else None)
    run, ops = operation(env, hg, a, edges, 2)
    run2, ops2 = operation(env, other, b, edges if same else edges[::-1], 3)
    if env.flag('asked'):
        env.check(agrees(hg, m, edges) == '' and agrees(other, m, edges) == '', 'the two connections see different hypergraphs')
    k = env.int('k', 0, limit)
    box = []
    env.arm_other(path, k, lambda: box.append(env.raised(run2)))
    err = env.raised(run)
    env.disarm(path)
    if not box:
        box.append(env.raised(run2))
        env.check(box[0] is None, 'an operation is refused although nobody else does anything')
    err2 = box[0]
    env.check(err is None or env.is_fault(err), 'an operation fails with something else than a refusal')
    env.check(err2 is None or env.is_fault(err2), 'an operation fails with something else than a refusal')
    env.observe('refused', (err is not None, err2 is not None))
    watch = watched(edges, ops, ops2)
    ends = [m]
    if err is None and err2 is None:
        ends = [after(after(m, ops, 2), ops2, 3), after(after(m, ops2, 3), ops, 2)]
    elif err is None:
        ends = [after(m, ops, 2)]
    elif err2 is None:
        ends = [after(m, ops2, 3)]
    now = None
    for e in ends:
        if now is None and agrees(hg, e, watch) == '':
            now = e
    env.check(now is not None, 'two operations at the same time leave what they do not leave one after the other')
    env.check(agrees(other, now, watch) == '', 'the two connections see different hypergraphs')
    # both go on working
    if err2 is not None:
        run2()
        now = after(now, ops2, 3)
    if err is not None:
        run()
        now = after(now, ops, 2)
    env.check(agrees(other, now, watch) == '', 'after a refused operation the hypergraph does not work')
    env.check(agrees(env.store(path), now, watch) == '', 'after a refused operation nothing is stored')


def reader(env, shapes, kind, limit=1000, before=1, size=1, inside=(), opens=False):
    """Before any database operation of one connection's operation, another connection sees the hypergraph as it was or as it
    will be."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    other = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    src = env.mod('gb.hypergraph.constants').source
    m = Model()
    fill(hg, m, edges[:before], (src, edges[0][0]) if kind == 'unbelieve' else None)
    run, ops = operation(env, hg, kind, edges)
    m2 = after(m, ops)
    watch = watched(edges, ops)
    k = env.int('k', 0, limit)
    seen = []

    def look():
        o = env.store(path) if opens else other
        a = agrees(o, m, watch)
        seen.append(a == '' or agrees(o, m2, watch) == '')
    env.arm_other(path, k, look)
    err = env.raised(run)
    env.disarm(path)
    env.observe('seen', seen)
    env.check(seen in ([], [True]), 'half of an operation is seen by another connection')
    env.check(err is None, 'an operation is refused because of a reader that is done')
    env.check(agrees(other, m2, watch) == '', 'an operation that was watched did not happen')


def pending(env, shapes, kind, before=1, size=1, inside=()):
    """While another connection goes through all vertices, an operation is done or refused, and works later."""
    path = env.dbpath()
    env.faulty(path)
    hg = env.store(path)
    other = env.store(path)
    edges = make_edges(env, shapes, size, inside)
    src = env.mod('gb.hypergraph.constants').source
    m = Model()
    fill(hg, m, edges[:before], (src, edges[0][0]) if kind == 'unbelieve' else None)
    run, ops = operation(env, hg, kind, edges)
    watch = watched(edges, ops)
    it = iter(other.f_all(lambda v: v['degree']))
    for i in range(1 + env.choose('n', range(3))):
        next(it, None)
    err = env.raised(run)
    env.check(err is None or env.is_fault(err), 'an operation fails with something else than a refusal')
    if err is None:
        m = after(m, ops)
    env.observe('refused', err is not None)
    env.check(agrees(hg, m, watch) == '', 'an operation while another connection reads is neither done nor undone')
    env.observe('left', len(list(it)))
    if err is not None:
        run()
        m = after(m, ops)
    env.check(agrees(other, m, watch) == '', 'after a refused operation the hypergraph does not work')


def openers(env, shapes, size=1, limit=1000):
    """Two connections may make a new hypergraph at the same time."""
    path = env.dbpath()
    env.faulty(path)
    edges = make_edges(env, shapes, size)
    k = env.int('k', 0, limit)
    box = []
    m = Model()

    def second():
        o = env.store(path)
        o.add(edges[0], 1)
        m.add(edges[0], 1)
        box.append(o)
    env.arm_other(path, k, second)
    hg = env.store(path)
    env.disarm(path)
    if not box:
        second()
    hg.add(edges[-1], 2)
    m.add(edges[-1], 2)
    env.check(agrees(hg, m, edges) == '' and agrees(box[0], m, edges) == '', 'a hypergraph that two connections made is not one')


def turns(env, shapes, steps, size=1, inside=(), ops=('add', 'remove')):
    """Two connections that take turns have one hypergraph."""
    path = env.dbpath()
    hgs = [env.store(path), env.store(path)]
    edges = make_edges(env, shapes, size, inside)
    m = Model()
    for i in range(steps):
        hg = hgs[env.choose('who%d' % i, [0, 1]) if i else 0]
        op = env.choose('op%d' % i, ops) if i else 'add'
        e = edges[env.choose('edge%d' % i, range(len(edges)))]
        if op == 'destroy':
            hg.destroy()
        elif op == 'batch':
            hg.batch_exec([lambda x: x.add(e, i), lambda x: x.remove(edges[0])])
            apply_model(m, [('add', e), ('remove', edges[0])], i)
            continue
        elif op == 'ask':
            env.check(agrees(hg, m, edges) == '', 'a connection does not see what the other one did')
            continue
        else:
            apply_op(hg, op, e, i)
        apply_model(m, [(op, e)], i)
    for hg in hgs:
        bad = agrees(hg, m, edges)
        env.observe('bad', bad)
        env.check(bad == '', 'a connection does not see what was done')


def open_crash(env, shapes, again=False, limit=1000, size=1):
    """The process dies, or the database reports an error, while a hypergraph is opened: opened again it works, with all it had."""
    path = env.dbpath()
    edges = make_edges(env, shapes, size)
    m = Model()
    if again:
        hg = env.store(path)
        hg.add(edges[0], 1)
        m.add(edges[0], 1)
    env.faulty(path)
    k = env.int('k', 0, limit)
    if env.flag('error'):
        env.arm_fault(path, k)
        err = env.raised(lambda: env.store(path))
        env.disarm(path)
        env.check(err is None or env.is_fault(err), 'a database error turns into another one')
    else:
        env.arm_crash(path, k)
        env.crashes(path, lambda: env.store(path))
        env.disarm(path)
    hg = env.store(env.same_place(path))
    env.check(agrees(hg, m, edges) == '', 'a hypergraph whose opening broke off has lost something')
    hg.add(edges[-1], 2)
    m.add(edges[-1], 2)
    env.check(agrees(hg, m, edges) == '', 'a hypergraph whose opening broke off does not work')
    env.check(agrees(env.store(env.same_place(path)), m, edges) == '', 'a hypergraph whose opening broke off does not store')
