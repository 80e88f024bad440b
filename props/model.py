"""What a hypergraph is: the reference that the store is compared with, and inputs for it."""


def element(env, name, kind, size=1, cls='letter'):
    if kind == 's':
        return env.symbol(name, size, cls)
    if kind == 'x':
        return env.symbol(name, size, 'symx')
    if kind == 'y':
        return env.symbol(name, size, 'sym')
    if kind == 'i':
        return env.numint(name, size)
    if kind == 'f':
        return env.float(name, n=size if type(size) is int else size[1])
    if kind == 'F':                 # as many digits as a float is sure to keep
        return env.float(name, ni=3, nf=12)
    if kind[0] == 'L':              # 'L300': 300 letters and any character
        return 'abcdefghij' * (int(kind[1:]) // 10) + env.symbol(name, 1, cls)
    return kind[1:]                 # '=text': a fixed symbol


def build(env, shape, name, size=1, cls='letter'):
    """shape: nested tuples of element kinds."""
    if isinstance(shape, (tuple, list)):
        return tuple([build(env, s, '%s.%d' % (name, i), size, cls) for i, s in enumerate(shape)])
    return element(env, name, shape, size, cls)


def is_edge(x):
    return isinstance(x, (tuple, list))


class Model(object):
    """A set of edges, with when they and their elements were stored."""

    def __init__(self):
        self.edges = []             # stored edges, no duplicates
        self.rows = []              # [vertex, timestamp, is it known]

    def row(self, v):
        for r in self.rows:
            if r[0] == v:
                return r
        return None

    def exists(self, e):
        for x in self.edges:
            if x == e:
                return True
        return False

    def add(self, e, ts=-1):
        if self.exists(e):
            return
        for v in e:
            if self.row(v) is None:
                self.rows.append([v, ts])
        r = self.row(e)
        if r is None:
            self.rows.append([e, ts])
        else:
            r[1] = ts
        self.edges.append(e)

    def remove(self, e):
        for i, x in enumerate(self.edges):
            if x == e:
                self.edges = self.edges[:i] + self.edges[i + 1:]
                if self.degree(e) == 0:
                    self.rows = [r for r in self.rows if r[0] != e]
                return

    def destroy(self):
        self.edges = []
        self.rows = []

    def degree(self, v):
        n = 0
        for e in self.edges:
            for x in e:
                if x == v:
                    n += 1
        return n

    def timestamp(self, v):
        r = self.row(v)
        return -1 if r is None else r[1]

    def match(self, pattern):
        return [e for e in self.edges if matches(e, pattern)]

    def star(self, v):
        out = []
        for e in self.edges:
            hit = False
            for x in e:
                if x == v:
                    hit = True
            if hit:
                out.append(e)
        return out


def matches(e, pattern):
    if len(e) != len(pattern):
        return False
    for x, p in zip(e, pattern):
        if p is not None:
            if not x == p:
                return False
    return True


def same_edges(env, got, want):
    """got (a collection) holds each edge of the list want, once, and nothing else."""
    got = list(got)
    if len(got) != len(want):
        return False
    for w in want:
        hit = False
        for g in got:
            if len(g) == len(w):
                if g == w:
                    hit = True
                    break
        if not hit:
            return False
    return True


def agrees(hg, m, edges):
    """Is everything that can be asked about these edges as the model has it?"""
    for e in edges:
        if hg.exists(e) != m.exists(e):
            return 'exists'
    for n in sorted(set([len(e) for e in edges])):
        if not same_edges(None, hg.pattern2edges((None,) * n), [e for e in m.edges if len(e) == n]):
            return 'pattern2edges'
    for e in edges:
        for v in (e,) + tuple(e):
            if hg.degree(v) != m.degree(v):
                return 'degree'
            if not same_edges(None, hg.star(v), m.star(v)):
                return 'star'
            if isinstance(v, tuple) and not m.exists(v) and m.row(v) is not None:
                continue
            if hg.timestamp(v) != m.timestamp(v):
                return 'timestamp'
    return ''
