"""The hypergraph store against the reference model."""
from props.model import Model, agrees, build, same_edges
NEEDS = ('gb.hypergraph.hypergraph', 'gb.hypergraph.batch_hypergraph', 'gb.hypergraph.edge', 'gb.hypergraph.queries')


def make_edges(env, shapes, size):
    return [build(env, s, 'e%d' % i, size) for i, s in enumerate(shapes)]


def pick(env, name, edges):
    return edges[env.choose(name, range(len(edges)))]


def history(env, hg, m, edges, steps, ops=('add', 'remove'), ts=False, ask=None):
    """Any sequence of operations on the edges, the same ones on the store and on the model. What is asked at the end may
    also be asked before any of the operations."""
    asked = ask and steps > 1 and env.flag('asked')
    for i in range(steps):
        if asked and i:
            ask('before%d.' % i)
        op = env.choose('op%d' % i, ops) if i or 'add' not in ops else 'add'
        if op == 'destroy':
            hg.destroy()
            m.destroy()
            continue
        e = pick(env, 'edge%d' % i, edges)
        if op == 'batch':               # all but one come, and that one goes
            hg.batch_exec([lambda h: h.add([x for x in edges if x is not e] or e), lambda h: h.remove(e)])
            for x in [x for x in edges if x is not e] or [e]:
                m.add(x)
            m.remove(e)
            continue
        if op == 'remove':
            hg.remove(e)
            m.remove(e)
        elif ts:
            t = env.int('ts%d' % i, -2 ** 40, 2 ** 40)
            hg.add(e, timestamp=t)
            m.add(e, t)
        else:
            r = hg.add(e)
            env.check(env.same(r, e), 'add does not return the edge')
            m.add(e)


def arities(edges):
    return sorted(set([len(e) for e in edges]))


def check_set(env, hg, m, edges, tag=''):
    for i, e in enumerate(edges):
        got = hg.exists(e)
        env.observe('%sexists%d' % (tag, i), got)
        env.check(got == m.exists(e), 'exists differs from what was added and not removed')
    for n in arities(edges):
        got = hg.pattern2edges((None,) * n)
        env.observe('%sn%d' % (tag, n), len(got))
        env.check(same_edges(env, got, [e for e in m.edges if len(e) == n]), 'the stored edges are not the ones added')


def setsem(env, shapes, steps, size=1, ops=('add', 'remove')):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    def ask(tag=''):
        check_set(env, hg, m, edges, tag)
    history(env, hg, m, edges, steps, ops, ask=ask)
    ask()


def two_stores(env, shapes, size=1):
    """What is done to one hypergraph does not show in another one."""
    a = env.store()
    b = env.store()
    edges = make_edges(env, shapes, size)
    ma, mb = Model(), Model()
    for i, e in enumerate(edges):
        w = env.choose('to%d' % i, ['a', 'b'])
        if w == 'a':
            a.add(e)
            ma.add(e)
        else:
            b.add(e)
            mb.add(e)
    if env.flag('destroy'):
        a.destroy()
        ma.destroy()
    check_set(env, a, ma, edges, 'a')
    check_set(env, b, mb, edges, 'b')


def pattern(env, shapes, holes, steps=0, size=1):
    """pattern2edges with a pattern made of fresh or known entities and wildcards."""
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    pat = [None if h is None else build(env, h, 'p%d' % i, size) for i, h in enumerate(holes)]

    def ask():
        got = hg.pattern2edges(tuple(pat))
        env.observe('found', len(got))
        env.check(same_edges(env, got, m.match(pat)), 'the edges found are not the ones that match the pattern')
    if steps:
        if env.flag('asked'):
            ask()
        change(env, hg, m, edges)
    ask()


def pattern_known(env, shapes, size=1):
    """A pattern cut out of a stored edge: every subset of its positions."""
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    pat = tuple([None if env.flag('any%d' % i) else x for i, x in enumerate(edges[0])])
    got = hg.pattern2edges(pat)
    env.observe('found', len(got))
    env.check(same_edges(env, got, m.match(pat)), 'the edges found are not the ones that match the pattern')


def change(env, hg, m, edges):
    """One of the edges goes, or all, and one may come again."""
    what = env.choose('what', ['remove', 'again', 'destroy', 'restart'])
    e = pick(env, 'gone', edges)
    if what in ('destroy', 'restart'):
        hg.destroy()
        m.destroy()
    else:
        hg.remove(e)
        m.remove(e)
    if what in ('again', 'restart'):
        hg.add(e)
        m.add(e)


def star(env, shapes, center, steps=1, size=1, csize=1):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    c = edges[center] if type(center) is int else build(env, center, 'c', csize)

    def ask():
        got = hg.star(c)
        env.observe('found', len(got))
        env.check(same_edges(env, got, m.star(c)), 'star is not the set of edges with the entity as an element')
    if steps and env.flag('change'):
        ask()
        change(env, hg, m, edges)
    ask()


def vertices_of(edges):
    out = []
    for e in edges:
        for v in (e,) + tuple(e):
            out.append(v)
    return out


def degree(env, shapes, steps, size=1, ops=('add', 'remove'), same_names=None):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    if same_names:                  # nested edges that are also edges of their own
        for i, j, k in same_names:
            edges[i] = tuple([edges[j] if q == k else x for q, x in enumerate(edges[i])])
    m = Model()
    vs = vertices_of(edges)

    def ask(tag=''):
        for i, v in enumerate(vs):
            got = hg.degree(v)
            env.observe('%sdegree%d' % (tag, i), got)
            env.check(got == m.degree(v), 'degree is not the number of times the entity occurs in stored edges')
    history(env, hg, m, edges, steps, ops, ask=ask)
    ask()


def timestamps(env, shapes, steps, size=1, same_names=None, ops=('add', 'remove')):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    if same_names:
        for i, j, k in same_names:
            edges[i] = tuple([edges[j] if q == k else x for q, x in enumerate(edges[i])])
    m = Model()

    def ask(tag=''):
        for i, e in enumerate(edges):
            for j, v in enumerate((e,) + tuple(e)):
                if isinstance(v, tuple) and not m.exists(v) and m.row(v) is not None:
                    continue            # an edge that is only an element, or was removed while it was one
                got = hg.timestamp(v)
                env.observe('%sts%d.%d' % (tag, i, j), got)
                env.check(got == m.timestamp(v), 'timestamp is not the time the entity was stored')
    history(env, hg, m, edges, steps, ops, ts=True, ask=ask)
    ask()


def destroyed(env, shapes, size=1):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e, timestamp=5)
        m.add(e, 5)
    vs = vertices_of(edges)
    if env.flag('asked'):
        for v in vs:
            env.check(hg.degree(v) == m.degree(v) and same_edges(env, hg.star(v), m.star(v)), 'the hypergraph is wrong before destroy')
            if m.degree(v) == 0 or m.exists(v) or not isinstance(v, tuple):
                env.check(hg.timestamp(v) == 5, 'a timestamp is wrong before destroy')
        check_set(env, hg, m, edges, 'before')
        env.observe('all', len(list(hg.f_all(lambda v: v))))
    hg.destroy()
    for i, v in enumerate(vs):
        env.check(hg.degree(v) == 0, 'something has a degree after destroy')
        env.check(hg.timestamp(v) == -1, 'something has a timestamp after destroy')
        env.check(len(hg.star(v)) == 0, 'something has edges after destroy')
    for e in edges:
        env.check(not hg.exists(e), 'an edge exists after destroy')
    env.check(len(list(hg.f_all(lambda v: v))) == 0, 'f_all finds something after destroy')
    env.check(len(list(hg.symbols_with_root(edges[0][0]))) == 0, 'there are symbols after destroy')
    env.observe('left', len(hg.pattern2edges((None, None))))
    m = Model()
    e = pick(env, 'again', edges)
    hg.add(e)
    m.add(e)
    check_set(env, hg, m, edges)
    bad = agrees(hg, m, edges)
    env.check(bad == '', 'what is added after destroy is stored otherwise')


def f_all(env, shapes, steps, size=1, query=False, batch=False, asks=False):
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    history(env, hg, m, edges, steps,
            ask=(lambda tag: env.observe(tag + 'all', len(list(hg.f_all(lambda v: (v['vertex'], v['degree'])))))) if asks else None)
    seen, inner = [], []

    def f(v):
        if query:
            d = hg.degree(v['vertex'])
            hg.exists(edges[0])
            inner.append(len(list(hg.f_all(lambda w: w['degree']))))
            seen.append((v['vertex'], d))
        return (v['vertex'], v['degree'])
    if batch:
        got = []
        hg.batch_exec([lambda x: got.extend(list(hg.f_all(f)))])
    else:
        got = list(hg.f_all(f))
    kept = list(hg.f_all(lambda v: v))          # what the function was given stays what it was
    env.check(len(kept) == len(got), 'f_all has another number of results the second time')
    for (v, d), k in zip(got, kept):
        env.check(k['vertex'] == v and k['degree'] == d, 'what f_all gave to the function changes later')
    for k in inner:
        env.check(k == len(got), 'f_all inside f_all visits another number of vertices')
    lazy = iter(hg.f_all(lambda v: v['vertex']))
    first = [next(lazy)] if got else []
    env.check(len(list(hg.f_all(lambda v: v))) == len(got), 'f_all has another number of results while it is asked again')
    env.check(len(first + list(lazy)) == len(got), 'f_all that is asked again meanwhile stops early or starts again')
    for i, (v, d) in enumerate(got):
        env.check(d == m.degree(v), 'f_all gives another degree')
        for w, _ in got[:i]:
            env.check(not v == w, 'f_all visits a vertex twice')
    if query:
        env.check(len(seen) == len(got), 'f_all does not apply f to every vertex')
        for (v, d), (w, q) in zip(got, seen):
            env.check(d == q, 'the degree in f_all and degree() differ')
    for v in vertices_of(m.edges):
        hit = False
        for w, d in got:
            if w == v:
                hit = True
        env.check(hit, 'f_all leaves out a vertex')
    env.observe('n', len(got))


def roots(env, shapes, size=1, rsize=1, steps=1, cls='sym', rcls='symns', long=0):
    """symbols_with_root against the elements of the stored edges."""
    sym = env.mod('gb.hypergraph.symbol')
    hg = env.store()
    edges = [build(env, s, 'e%d' % i, size, cls) for i, s in enumerate(shapes)]
    base = 'abcdefghij' * (long // 10)
    edges = [e[:1] + tuple([base + x if isinstance(x, str) else x for x in e[1:]]) for e in edges]
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    root = base + env.symbol('root', rsize, rcls)

    def ask(tag=''):
        got = list(hg.symbols_with_root(root))
        want = []
        for e in m.edges:
            for v in e:
                if isinstance(v, str):
                    if len(v) > len(root) and v[:len(root) + 1] == root + '/':
                        hit = False
                        for w in want:
                            if w == v:
                                hit = True
                        if not hit:
                            want.append(v)
        env.observe(tag + 'n', len(got))
        env.check(len(got) == len(want), 'symbols_with_root gives another number of symbols')
        for w in want:
            hit = False
            for g in got:
                if g == w:
                    hit = True
            env.check(hit, 'symbols_with_root misses a symbol')
    if steps and env.flag('change'):
        ask('before')
        change(env, hg, m, edges)
    ask()


def perms(env, shape, size=1, cls='symx', some=False):
    """The index has one text for each order of an edge, no two are the same, and each one alone gives back the edge."""
    path = env.dbpath()
    hg = env.store(path)
    e = build(env, shape, 'e', size, cls)
    hg.add(e)
    texts = [r[0] for r in env.lib('sqlite3').connect(path).cursor().execute('SELECT id FROM perms').fetchall()]
    n = 1
    for i in range(len(e)):
        n *= i + 1
    env.check(len(texts) == n, 'there are not n! permutations')
    k = env.choose('k', [0, 1, n // 2, n - 1] if some else range(n))
    for t in texts[:k]:
        env.check(not t == texts[k], 'two permutations have the same text')
    alone = env.dbpath()
    hg = env.store(alone)
    c = env.lib('sqlite3').connect(alone)
    c.execute('INSERT INTO perms (id) values (?)', (texts[k],))
    c.commit()
    back = list(hg.pattern2edges((None,) * len(e)))
    env.observe('text', texts[k])
    env.check(len(back) == 1, 'a permutation gives no edge')
    for b in back:
        env.check(env.same(b, e), 'a permutation does not give back its edge')
    back = list(hg.pattern2edges(e))
    v = env.choose('vertex', range(len(e)))
    first = list(hg.star(e[v]))
    if len(first) == 1:
        env.check(env.same(first[0], e), 'a permutation does not give back its edge')
    env.check(len(first) <= 1 and len(back) <= 1, 'a permutation gives more than its edge')


def wide(env, n, others=()):
    """An edge of n entities, one asked about: it is found by it, by every hole, and in any of its orders, and is removed whole.
    Edges of other sizes may have come before."""
    path = env.dbpath()
    hg = env.store(path)
    if others:
        o = tuple(['bacedfhg'[i] for i in range(env.choose('other', others))])
        hg.add(o)
        got = list(hg.star(o[-1]))
        env.check(len(got) == 1 and env.same(got[0], o), 'an edge is not found by its element')
        if env.flag('removed'):
            hg.remove(o)
            env.check(len(hg.star(o[-1])) == 0, 'an edge is not removed')
        hg.destroy()
    e = tuple(['bacedfhg'[i] for i in range(n)])
    hg.add(e)
    total = 1
    for i in range(n):
        total *= i + 1
    c = env.lib('sqlite3').connect(path).cursor()
    texts = [r[0] for r in c.execute('SELECT id FROM perms').fetchall()]
    env.check(len(texts) == total and len(set(texts)) == total, 'there are not n! permutations')
    env.check(hg.exists(e), 'a wide edge is not found')
    i = env.choose('i', range(n))
    got = list(hg.star(e[i]))
    env.check(len(got) == 1 and env.same(got[0], e), 'a wide edge is not found by its element')
    for pat in (e[:i] + (None,) + e[i + 1:], (None,) * i + e[i:i + 1] + (None,) * (n - i - 1)):
        got = list(hg.pattern2edges(pat))
        env.check(len(got) == 1 and env.same(got[0], e), 'a wide edge is not found by its pattern')
    env.check(hg.degree(e[i]) == 1, 'an element of a wide edge has another degree')
    env.check(not hg.exists(e[:i] + ('x',) + e[i + 1:]), 'another wide edge is found')
    env.check(not hg.exists(e[1:] + e[:1]), 'another wide edge is found')
    alone = env.dbpath()
    env.store(alone)
    a = env.lib('sqlite3').connect(alone)
    a.execute('INSERT INTO perms (id) values (?)', (texts[(total - 1) * i // (n - 1)],))
    a.commit()
    back = list(env.store(alone).pattern2edges((None,) * n))
    env.check(len(back) == 1 and env.same(back[0], e), 'a permutation does not give back its edge')
    hg.remove(e)
    env.check(len(hg.star(e[i])) == 0 and not hg.exists(e), 'a wide edge is not removed')
    env.check(len(c.execute('SELECT id FROM perms').fetchall()) == 0, 'permutations of a wide edge stay')
    env.observe('text', texts[total // 2])


def many(env, n, about):
    """Very many edges, one of them about an arbitrary entity: whatever is asked, none of them is missing."""
    path = env.dbpath()
    hg = env.store(path)
    x = env.symbol('x', 1, 'letter')
    at = env.choose('at', [0, n // 2, n])
    if about == 'root':
        edges = [('r', 'hub/%d' % i) for i in range(n)]
    else:
        edges = [('r', 'hub', 'a%d' % i) for i in range(n)]
    edges.insert(at, ('r', 'hub/' + x) if about == 'root' else ('r', 'hub', x))
    if about == 'buffer':           # one by one, more than a buffer of the usual size holds
        b = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg)
        for i, e in enumerate(edges):
            b.add(e, 3 if i < 5 else 4)
        b.flush()
    elif about == 'buffers':        # as one list
        b = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg)
        b.add(edges[:5], 3)
        b.add(edges[5:], 4)
        b.flush()
    elif about == 'batch':
        hg.batch_exec([lambda s, e=e, i=i: s.add(e, 3 if i < 5 else 4) for i, e in enumerate(edges)])
    elif about == 'believe':
        hg.add_belief('ann', edges, 3)
    else:
        hg.add(edges, 3)
    h = env.store(path) if about in ('exists', 'buffer', 'buffers', 'batch', 'believe') else hg

    def all_of(got, want, why):
        got = list(got)
        env.observe('n', len(got))
        env.check(len(got) == len(want) and len(set(got)) == len(want), why)
        env.check(set(got) == set(want), why)
    if about == 'star':
        all_of(h.star('hub'), edges, 'the star of an entity with very many edges misses some')
    elif about == 'pattern':
        all_of(h.pattern2edges((None, 'hub', None)), edges, 'a pattern finds not all of very many edges')
        all_of(h.pattern2edges((None, None, None)), edges, 'not all of very many edges are listed')
    elif about == 'exists':
        for e in edges:
            env.check(h.exists(e), 'one of very many edges is not found')
        env.check(not h.exists(('r', 'hub', 'b')) or x == 'b', 'an edge is found that was not stored')
    elif about in ('buffer', 'buffers', 'batch'):
        all_of(h.pattern2edges((None, None, None)), edges, 'not all of very many edges are stored')
        env.check(h.degree('hub') == n + 1, 'an entity of very many edges has another degree')
        for i, e in enumerate(edges):
            env.check(h.timestamp(e) == (3 if i < 5 else 4), 'one of very many edges has another timestamp')
    elif about == 'believe':
        src = env.mod('gb.hypergraph.constants').source
        all_of(h.pattern2edges((None, None, None)), edges + [(src, e, 'ann') for e in edges], 'not all of very many beliefs are stored')
        for e in (edges[0], edges[at], edges[-1]):
            env.check(set(h.sources(e)) == set(['ann']) and h.timestamp(e) == 3, 'one of very many beliefs has no source')
        gone = edges[at]
        h.remove_belief('ann', gone)
        all_of(h.star('ann'), [(src, e, 'ann') for e in edges if e != gone], 'withdrawing one of very many beliefs touches others')
        env.check(not h.exists(gone), 'a belief that was withdrawn is still there')
    elif about == 'degree':
        env.check(h.degree('hub') == n + 1 and h.degree('a7') == 1, 'an entity of very many edges has another degree')
        for e in edges[1:]:
            h.remove(e)
        env.check(h.degree('hub') == 1, 'an entity of very many removed edges has another degree')
    elif about == 'root':
        all_of(h.symbols_with_root('hub'), [e[1] for e in edges], 'not all of very many symbols with a root are found')
    elif about == 'visit':
        seen = list(h.f_all(lambda v: (v['vertex'], v['degree'])))
        want = [(e, 0) for e in edges] + [('hub', n + 1)]
        if x == 'r':
            want += [('r', n + 2)] + [(e[2], 1) for e in edges if e[2] != x]
        else:
            want += [('r', n + 1)] + [(e[2], 1) for e in edges]
        all_of(seen, want, 'not every one of very many entities is visited once')
    elif about == 'destroy':
        h.destroy()
        env.check(len(h.star('hub')) == 0 and h.degree('hub') == 0 and h.timestamp(edges[at]) == -1, 'very many edges are not all gone')
        all_of(h.f_all(lambda v: v['vertex']), [], 'entities are left of very many edges')
        hg.add(edges[at])
        all_of(h.pattern2edges((None, None, None)), [edges[at]], 'edges are left of very many')
    elif about == 'withdraw':
        h.remove_by_pattern((None, 'hub', None))
        all_of(h.pattern2edges((None, None, None)), [], 'very many matching edges are not all removed')
        env.check(h.degree('hub') == 0, 'an entity of very many removed edges has another degree')
    elif about == 'ego':
        all_of(h.ego('a1', 2), edges, 'the ego of an entity with very many edges misses some')


def unperm(env, n):
    """unpermutate inverts nthperm, and each nthperm is another order; the elements and the index are symbolic."""
    sql = env.mod('gb.hypergraph.sql')
    li = tuple([env.int('x%d' % i, 0, 10 ** 6) for i in range(n)])
    total = 1
    for i in range(n):
        total *= i + 1
    k = env.choose('k', range(total))
    p = sql.nthperm(li, k)
    env.check(len(p) == n, 'a permutation has another size')
    env.check(sql.unpermutate(p, k) == li, 'unpermutate does not invert nthperm')
    env.observe('p', list(p))
    if n <= 5:
        idx = sql.nthperm(tuple(range(n)), k)
        for j in range(k):
            env.check(idx != sql.nthperm(tuple(range(n)), j), 'two permutations are the same')
    env.check(sorted(sql.nthperm(tuple(range(n)), k)) == list(range(n)), 'not a permutation')


def scribble(env, got):
    """The caller does what it likes with an answer."""
    if isinstance(got, set):
        got.clear()
        got.add(('mine', 'mine'))
    elif isinstance(got, list):
        got.reverse()
        got[:] = ['mine'] + got[1:] + ['mine']
    elif isinstance(got, dict):
        got.clear()
        got['mine'] = 'mine'


ASKED = ('star', 'pattern', 'exact', 'roots', 'f_all', 'degree', 'exists', 'time', 'ego', 'sources', 'between')


def pure(env, shapes, steps=1, size=1, batch=False, backend='sqlite', ask=ASKED):
    """Asking changes nothing, and neither does what the caller then does with the answer."""
    hg = env.store() if backend == 'sqlite' else env.mod('gb.hypergraph.hypergraph').HyperGraph({'backend': backend})
    edges = make_edges(env, shapes, size)
    m = Model()
    for e in edges:
        hg.add(e)
        m.add(e)
    real = backend == 'sqlite'
    if not real:
        m = Model()
    src = env.mod('gb.hypergraph.constants').source
    what = env.choose('what', ask[:8] if batch else ask)      # in a batch there is only the store
    if what == 'sources' and real:
        hg.add_belief('ann', edges[0])
        m.add((src, edges[0], 'ann'))
    e = pick(env, 'edge', edges)
    c = e[env.choose('el', range(len(e)))] if what in ('star', 'roots', 'degree', 'time', 'ego') else e[1]
    pat = [None] + list(e[1:])
    seeds = list(e[1:])
    queries = env.mod('gb.hypergraph.queries')

    def ask(x):
        if what == 'between':
            return queries.intersect(x, seeds)
        if what == 'star':
            return x.star(c)
        if what == 'pattern':
            return x.pattern2edges(pat)
        if what == 'exact':
            return x.pattern2edges(e)
        if what == 'roots':
            return x.symbols_with_root(c if isinstance(c, str) else 'r')
        if what == 'f_all':
            return list(x.f_all(lambda v: v))
        if what == 'ego':
            return x.ego(c, 2)
        if what == 'sources':
            return x.sources(e)
        if what == 'degree':
            return x.degree(c)
        if what == 'exists':
            return x.exists(e)
        return x.timestamp(c)

    def copy(got):
        if what == 'f_all':
            return [dict(v) for v in got]
        return list(got) if isinstance(got, (set, list)) else got

    def equal(a, b):
        if isinstance(a, list):
            if len(a) != len(b):
                return False
            for x in a:
                hit = False
                for y in b:
                    if x == y:
                        hit = True
                if not hit:
                    return False
            return True
        return a == b
    if batch:
        held = []
        hg.batch_exec([lambda x: held.append(ask(x))])
        got = held[0]
    else:
        got = ask(hg)
    kept = copy(got)
    env.observe('n', len(kept) if isinstance(kept, list) else kept)
    env.check(len(pat) == len(e) and pat[0] is None and env.same(tuple(pat[1:]), e[1:]), 'asking changes the pattern')
    env.check(env.same(tuple(seeds), e[1:]), 'asking changes the seeds')
    other = copy(ask(hg))
    env.check(equal(kept, other), 'asking again gives another answer')
    if what == 'f_all':
        for v in got:
            scribble(env, v)
    scribble(env, got)
    env.check(equal(kept, copy(ask(hg))), 'what is done to an answer shows in the next one')
    asked = m.edges + [(src, e, 'ann')] + edges
    if real:
        bad = agrees(hg, m, asked)
        env.check(bad == '', 'asking changes the hypergraph: ' + bad)
        if steps > 1:
            g = pick(env, 'gone', edges)
            hg.remove(g)
            m.remove(g)
            bad = agrees(hg, m, asked)
            env.check(bad == '', 'after asking, a change goes elsewhere: ' + bad)


def given(env, shapes, size=1, batch=False):
    """What an operation is given is left as it was, and what the caller does with it afterwards is no change of the hypergraph."""
    hg = env.store()
    edges = make_edges(env, shapes, size)
    m = Model()
    src = env.mod('gb.hypergraph.constants').source
    batching = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph(hg) if batch else None
    w = batching if batch else hg
    what = env.choose('what', ['add', 'believe', 'withdraw', 'remove', 'pattern', 'funs'] if not batch else ['add', 'believe', 'twice'])
    if what in ('withdraw', 'remove', 'pattern'):
        for e in edges:
            hg.add(e)
            m.add(e)
    given = list(edges)
    if what in ('add', 'twice'):
        w.add(given)
        for e in edges:
            m.add(e)
    elif what == 'believe':
        w.add_belief('ann', given)
        for e in edges:
            m.add(e)
            m.add((src, e, 'ann'))
    elif what == 'withdraw':
        for e in edges:
            hg.add_belief('ann', [e])
        hg.remove_belief('ann', given[0])
        for e in edges[1:]:
            m.add((src, e, 'ann'))
        m.remove(edges[0])
        for e in edges[1:]:
            if e == edges[0]:           # the same edge, believed once
                for x in edges:
                    m.remove((src, x, 'ann')) if x == edges[0] else None
    elif what == 'remove':
        hg.remove(given)
        for e in edges:
            m.remove(e)
    elif what == 'pattern':
        given = [None] + list(edges[0][1:])
        hg.remove_by_pattern(given)
        for e in m.match([None] + list(edges[0][1:])):
            m.remove(e)
    elif what == 'funs':
        given = [(lambda s, e=e: s.add(e)) for e in edges]
        keep = list(given)
        hg.batch_exec(given)
        env.check(len(given) == len(keep) and all([a is b for a, b in zip(given, keep)]), 'an operation changes the list it is given')
        for e in edges:
            m.add(e)
    if what == 'pattern':
        env.check(len(given) == len(edges[0]) and given[0] is None and env.same(tuple(given[1:]), edges[0][1:]), 'an operation changes the pattern it is given')
    elif what != 'funs':
        env.check(len(given) == len(edges), 'an operation changes the list it is given')
        for a, b in zip(given, edges):
            env.check(env.same(a, b), 'an operation changes the list it is given')
    scribble(env, given)
    if what == 'twice':
        w.add([('r', 'more')])
        m.add(('r', 'more'))
        env.check(len(given) != 0 and given[0] == 'mine', 'a list is changed long after it was given')
    if batch:
        w.flush()
    asked = m.edges + [(src, e, 'ann') for e in edges] + edges
    env.observe('n', len(m.edges))
    bad = agrees(hg, m, asked)
    env.check(bad == '', 'what is done to a list after it was given changes the hypergraph: ' + bad)
