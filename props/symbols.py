"""Symbols: parts, validity, types, hashes, new meanings."""
from props.model import build
NEEDS = ('gb.hypergraph.edge', 'gb.hypergraph.symbol')


def parts(env, size, n, one=False):
    """A symbol is its parts joined by slashes."""
    sym = env.mod('gb.hypergraph.symbol')
    if one:                             # many parts, any one of which is arbitrary
        k = env.choose('k', (0, 1, n // 2, n - 1))
        ps = [env.str('p', size, 'symns') if i == k else 'x%d' % (i % 9) for i in range(n)]
    else:
        ps = [env.str('p%d' % i, size, 'symns') for i in range(n)]
    text = ps[0]
    for p in ps[1:]:
        text = text + '/' + p
    for pre in ('http://', 'https://'):
        env.assume(not text[:len(pre)] == pre)
    s = sym.build(ps)
    env.observe('s', s)
    env.check(s == text, 'build does not join the parts with slashes')
    got = sym.parts(s)
    env.check(len(got) == n, 'a symbol splits into another number of parts')
    for a, b in zip(got, ps):
        env.check(a == b, 'a symbol splits into other parts')
    got.append('x')                     # the caller's own list
    env.check(sym.build(sym.parts(s)) == s, 'a symbol that is asked for its parts again has others')
    env.check(sym.root(s) == ps[0], 'the root is not the first part')
    ns = sym.nspace(s)
    if n == 1:
        env.check(ns is None, 'a root has a name space')
    else:
        env.check(ns == ps[1], 'the name space is not the second part')
    env.check(sym.is_root(s) == (n == 1), 'is_root does not tell roots')
    env.check(sym.is_root(sym.root(s)), 'the root of a symbol is not a root')


def any_symbol(env, size):
    """For any text, whatever its slashes: parts and build are inverses, and the root is a prefix."""
    sym = env.mod('gb.hypergraph.symbol')
    s = env.str('s', size, 'sym')
    ps = sym.parts(s)
    env.observe('parts', list(ps))
    env.check(sym.build(ps) == s, 'joining the parts of a symbol gives another symbol')
    r = sym.root(s)
    env.check(s[:len(r)] == r, 'the root is no prefix of the symbol')
    env.check(sym.is_root(s) == (r == s), 'is_root does not tell roots')
    env.check((sym.nspace(s) is None) == (len(ps) == 1), 'the name space is not the second part')
    url = s[:7] == 'http://' or s[:8] == 'https://'
    if url:
        env.check(len(ps) == 1 and sym.is_root(s), 'a URL is split')
    t = sym.sym_type(s)
    env.check(t == (sym.SymbolType.URL if url else sym.SymbolType.CONCEPT), 'the type of a symbol is wrong')
    if url:
        env.check(sym.symbol2str(s) == s, 'a URL is not its own text')


def other_types(env, shape):
    """Numbers and edges have their own types, a single part, and their usual text."""
    sym = env.mod('gb.hypergraph.symbol')
    kinds = sym.SymbolType
    i = env.numint('i', (1, 3))
    f = env.float('f')
    e = build(env, shape, 'e', 1)
    for x, t in ((i, kinds.INTEGER), (f, kinds.FLOAT), (e, kinds.EDGE), (list(e), kinds.EDGE), (None, kinds.UNKNOWN)):
        env.check(sym.sym_type(x) == t, 'the type of a value is wrong')
        env.check(len(sym.parts(x)) == 1, 'a value that is no symbol is split')
        env.check(sym.nspace(x) is None, 'a value that is no symbol has a name space')
        env.check(sym.is_root(x), 'a value that is no symbol is not its own root')
    env.check(sym.symbol2str(i) == str(i), 'the text of an integer is wrong')
    env.check(sym.symbol2str(f) == str(f), 'the text of a float is wrong')
    env.observe('i', sym.symbol2str(i))
    us = [kinds.UNKNOWN, kinds.CONCEPT, kinds.EDGE, kinds.INTEGER, kinds.FLOAT, kinds.URL]
    env.check(len(set(us)) == 6, 'two types are the same')


LETTERS = 'aB c(D)e/f_g.h-i\tJ0' * 100


def from_text(env, size, cls='any', long=0):
    """str2symbol makes any text a valid root, idempotently."""
    sym = env.mod('gb.hypergraph.symbol')
    ed = env.mod('gb.hypergraph.edge')
    t = LETTERS[:long] + env.str('t', size, cls) + LETTERS[:long]
    s = sym.str2symbol(t)
    env.observe('s', s)
    want = t.lower()
    env.check(len(s) == len(want), 'a symbol has more or fewer characters than its text')
    for a, b in zip(s, want):
        if b.isspace() or b == '(' or b == ')' or b == '/':
            env.check(a == '_', 'a separator does not become an underscore')
        else:
            env.check(a == b, 'a character is not kept in lower case')
    for c in s:
        env.check(not (c.isspace() or c == '(' or c == ')' or c == '/'), 'a symbol has a character that symbols cannot have')
    env.check(sym.str2symbol(s) == s, 'making a symbol of a symbol changes it')
    if len(s) > 0:
        env.check(sym.is_root(s), 'a symbol made from a text is not a root')


def letters(env, size):
    """str2symbol keeps lower-case words apart only by underscores, and symbol2str reads them back."""
    sym = env.mod('gb.hypergraph.symbol')
    t = env.str('t', size, ('abcxyz \t/()AZ019-.',))
    s = sym.str2symbol(t)
    env.observe('s', s)
    env.check(len(s) == len(t), 'a symbol has another length than its text')
    for a, b in zip(s, t):
        if b == ' ' or b == '\t' or b == '/' or b == '(' or b == ')':
            env.check(a == '_', 'a separator does not become an underscore')
        else:
            env.check(a == b.lower(), 'a letter changes')
    back = sym.symbol2str(s)
    env.check(len(back) == len(t), 'the text of a symbol has another length')
    for a, b in zip(back, s):
        env.check(a == (' ' if b == '_' else b), 'the text of a symbol is another one')


def hash_value(env, n, cls='any', before=0, after=0):
    """hashed is the 64-bit polynomial hash with base 31, in hexadecimal."""
    sym = env.mod('gb.hypergraph.symbol')
    t = LETTERS[:before] + env.str('t', n, cls) + LETTERS[:after]
    got = sym.hashed(t)
    h = 1125899906842597
    for c in t:
        h = (31 * (h + ord(c))) % 2 ** 64
    env.observe('hash', got)
    env.check(got == '%x' % h, 'the hash has another value')


def meaning(env, size, psize):
    """new_meaning keeps the root, adds a name space that starts with the prefix, and leaves other symbols alone."""
    sym = env.mod('gb.hypergraph.symbol')
    ed = env.mod('gb.hypergraph.edge')
    s = env.str('s', size, 'sym')
    p = env.str('p', psize, 'symns')
    # one of the random numbers is any number, the others are fixed (the hash of a text is another harness)
    some = env.int('r', 0, 61)
    k = env.choose('k', range(2))
    calls = []

    def source(lo, hi):
        calls.append(1)
        if len(calls) % 100 == k:
            return lo + (some if hi - lo == 61 else some % (hi - lo + 1))
        return lo + len(calls) % (hi - lo + 1)
    env.random_source(source)
    n = sym.new_meaning(s, p)
    if sym.is_root(s):
        if not (s[:7] == 'http://' or s[:8] == 'https://'):
            ps = sym.parts(n)
            env.check(len(ps) == 2, 'a new meaning is not a root and a name space')
            env.check(ps[0] == s, 'a new meaning has another root')
            env.check(ps[1][:len(p)] == p, 'a new meaning ignores its prefix')
            h = ps[1][len(p):]
            env.check(len(h) >= 1, 'a new meaning has no hash')
            for c in h:
                env.check(c in '0123456789abcdef', 'the hash of a new meaning is not hexadecimal')
            env.check(sym.new_meaning(n) == n, 'a new meaning of a new meaning is another symbol')
    else:
        env.check(n == s, 'a symbol that is no root gets a new meaning')


def meanings(env, psize):
    """Two new meanings of a root that were drawn differently are two symbols."""
    sym = env.mod('gb.hypergraph.symbol')
    s = env.str('s', 1, 'letter')
    p = env.str('p', psize, 'symns')
    r, q = env.int('r', 1, 61), 0       # what one of the numbers is, the first time and the second
    k = env.choose('k', (0, 7, 99))
    out = []
    seeds = []
    for some in (r, q):
        calls = []
        del env.seeded[:]

        def source(lo, hi):
            calls.append(1)
            if len(calls) == k + 1:
                return lo + (some if hi - lo == 61 else some % (hi - lo + 1))
            return lo + len(calls) % (hi - lo + 1)
        env.random_source(source)
        out.append(sym.new_meaning(s, p))
        seeds.append(list(env.seeded))
    env.check(not seeds[0] or not env.same(seeds[0], seeds[1]), 'the draw for a new meaning is always the same')
    env.check(not out[0] == out[1], 'two new meanings that were drawn differently are one symbol')
