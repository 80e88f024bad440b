"""Edge text, token types, negation."""
from props.model import build
NEEDS = ('gb.hypergraph.edge', 'gb.hypergraph.symbol')


def roundtrip(env, shape, size, cls='sym'):
    """Reading the text of an edge gives the edge, with the types of its elements."""
    ed = env.mod('gb.hypergraph.edge')
    e = build(env, shape, 'e', size, cls)
    s = ed.edge2str(e)
    back = ed.str2edge(s)
    env.observe('text', s)
    env.observe('back', back)
    env.check(env.same(back, e), 'reading the text of an edge gives another edge')
    back = ed.str2edge(ed.nodes2str(e))
    if not isinstance(e[0], tuple):
        env.check(env.same(back, e), 'reading the text of an edge without its parentheses gives another edge')
    toks = ed.split_edge_str(s)
    env.check(len(toks) == len(e), 'the text splits into another number of elements')
    for t, x in zip(toks, e):
        env.check(t == ed.edge2str(x), 'the text splits into other elements')
        env.check(env.same(ed.parsed_token(t), x), 'an element is read as something else')


def distinct(env, a, b, size):
    """Different edges have different texts."""
    ed = env.mod('gb.hypergraph.edge')
    x = build(env, a, 'a', size, 'sym')
    y = build(env, b, 'b', size, 'sym')
    same_text = ed.edge2str(x) == ed.edge2str(y)
    env.observe('same', same_text)
    env.check((not same_text) or x == y, 'two edges have the same text')


def spaced(env, shape, size, cls='symx', long=0):
    """The amount and kind of white space between elements makes no difference."""
    ed = env.mod('gb.hypergraph.edge')
    e = build(env, shape, 'e', size, cls)
    n = [0]

    def text(x):
        if not isinstance(x, tuple):
            return ed.edge2str(x)
        out = '('
        for i, y in enumerate(x):
            if i:
                n[0] += 1
                out = out + ' ' * long + env.str('gap%d' % n[0], (1, 2) if n[0] == 1 and not long else 1, 'ws') + '\t' * long
            out = out + text(y)
        return out + ')'
    s = text(e)
    back = ed.str2edge(s)
    env.observe('back', back)
    env.check(env.same(back, e), 'white space changes what is read')


def token(env, size):
    """Any token is read as an integer, a float or a string, and written back as the same text where it was canonical."""
    ed = env.mod('gb.hypergraph.edge')
    t = env.str('t', size, 'sym')
    v = ed.parsed_token(t)
    env.observe('v', v)
    if isinstance(v, str):
        env.check(v == t, 'a symbol token changes when it is read')
        plain = len(t) > (1 if t[0] == '-' else 0)
        for c in (t[1:] if t[0] == '-' else t):
            if c < '0' or c > '9':
                plain = False
        env.check(not plain, 'an integer token is read as a symbol')
    elif isinstance(v, int):
        env.check(int(t) == v, 'an integer token is read as another number')
        for i, c in enumerate(t):
            env.check(('0' <= c and c <= '9') or (c == '-' and i == 0 and len(t) > 1), 'a token that is no integer is read as one')
    else:
        env.check(isinstance(v, float), 'a token is read as something unknown')
        env.check(env.same(float(t), v), 'a float token is read as another number')
        for c in t:
            env.check(('0' <= c and c <= '9') or c == '-' or c == '.' or c == 'e' or c == '+',
                      'a token that is no float is read as one')


def negation(env, size):
    """negative is its own inverse, flips is_negative, and changes nothing else."""
    sym = env.mod('gb.hypergraph.symbol')
    s = env.str('s', size, 'sym')
    env.assume(not (s[0] == '~' and (len(s) < 2 or s[1] == '~')))
    n = sym.negative(s)
    env.observe('n', n)
    env.check(sym.negative(n) == s, 'negating twice does not give back the symbol')
    env.check(sym.is_negative(n) == (not sym.is_negative(s)), 'the negative of a symbol is not its opposite')
    env.check(sym.is_negative(s) == (s[0] == '~'), 'is_negative does not tell negative symbols')
    if not sym.is_negative(s):
        env.check(n[1:] == s and len(n) == len(s) + 1, 'negating changes the symbol')


def edge_negation(env, shape, size):
    ed = env.mod('gb.hypergraph.edge')
    e = build(env, shape, 'e', size, 'sym')
    env.assume(not (e[0][0] == '~' and (len(e[0]) < 2 or e[0][1] == '~')))
    if e[0][0] == '~':              # what is left is a symbol
        env.assume(not (e[0][1] == '-' or e[0][1] == '.' or ('0' <= e[0][1] and e[0][1] <= '9')))
    n = ed.negative(e)
    env.observe('n', n)
    env.check(env.same(ed.negative(n), e), 'negating twice does not give back the edge')
    env.check(ed.is_negative(n) == (not ed.is_negative(e)), 'the negative of an edge is not its opposite')
    env.check(ed.is_negative(e) == (e[0][0] == '~'), 'is_negative does not tell negative edges')
    env.check(len(n) == len(e), 'negating changes the size of an edge')
    for x, y in zip(n[1:], e[1:]):
        env.check(env.same(x, y), 'negating changes an argument of an edge')
    # the negative of an edge is an edge like any other
    env.check(env.same(ed.str2edge(ed.edge2str(n)), n), 'the negative of an edge has no text of its own')
