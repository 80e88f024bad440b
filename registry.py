"""Which harnesses decide which property, and within which bounds."""
from symex.driver import Task

COMMON = [
    'the harness and the code of /repo run in the same interpreter (CPython), with strings, integers, floats, the '
    'sqlite3, numpy, spaCy, nltk, click and MySQLdb calls they make replaced by symbolic models; sampled paths are '
    'compared with the real interpreter and libraries (traces_validated_against_impl)',
    'z3 is right about the bit-vector conditions it is given',
    'strings have the stated number of characters, each one any code point of the stated class',
]

DOMAIN = ('edges are tuples with two or more elements whose first element is no edge; symbols are nonempty, without white '
          'space, parentheses and surrogates, and do not look like numbers')


class Prop(object):
    def __init__(self, pid, quick, thorough=(), bounds='', outside='', assumptions=(), wall_quick=300, wall_thorough=700):
        self.pid = pid
        self.quick = quick
        self.thorough = thorough
        self.bounds = bounds
        self.outside = outside
        self.assumptions = list(assumptions)
        self.wall_quick = wall_quick
        self.wall_thorough = wall_thorough

    def tasks(self, thorough):
        return [Task(m, f, **p) for m, f, p in (self.quick + list(self.thorough) if thorough else self.quick)]


def T(name, **params):
    m, f = name.split('.')
    return (m, f, params)


WIDE = ('=a', '=b', '=c', '=d') * 15 + ('s',) + ('=z',) * 30
S2, S3, S4 = ('s', 's'), ('s', 's', 's'), ('s', 's', 's', 's')
N3 = ('s', ('s', 's'), 's')
L2 = ('s', ('s', 's'))
W5 = ('=b', '=a', '=c', '=e', '=d')
MANY = [('=r', '=a%d' % i) for i in range(24)]

PROPS = {}


def prop(pid, *a, **k):
    PROPS[pid] = Prop(pid, *a, **k)


# ------------------------------------------------------------ edges as text
def nested(n, left=False):
    x = nested(n - 1, left) if n > 1 else 'x'
    return (x, '=k') if left else ('=k', x)


prop('C01',
     [T('codec.roundtrip', shape=('s', 's'), size=2),
      T('codec.roundtrip', shape=('s', 'i'), size=(1, 3)),
      T('codec.roundtrip', shape=('s', 'f'), size=(1, 2)),
      T('codec.roundtrip', shape=('s', ('s', 's', ('s', 's')), 's'), size=1),
      T('codec.roundtrip', shape=(('s', 'i'), ('s', 's')), size=1),
      T('codec.roundtrip', shape=('x', ('x', ('x', ('x', 'x')))), size=1),
      T('codec.roundtrip', shape=('x', 'x', 'x', 'x', 'x', 'x'), size=1),
      T('codec.roundtrip', shape=('x', 'x'), size=6),
      T('codec.roundtrip', shape=('x', 'F'), size=1), T('codec.roundtrip', shape=('x', 'i'), size=17), T('codec.roundtrip', shape=('x', 'i', 'i'), size=20),
      T('codec.roundtrip', shape=('x', nested(12), 'x'), size=1),
      T('codec.roundtrip', shape=('x', nested(12, True), nested(12)), size=1),
      T('codec.roundtrip', shape=('L300', ('L1100', 'x')), size=1), T('codec.roundtrip', shape=WIDE, size=1), T('codec.roundtrip', shape=('s', nested(45), 's'), size=1), T('codec.roundtrip', shape=('s', 'i') + ('=z',) * 30, size=1), T('codec.distinct', a=('L300', 'L300'), b=('L300', 'L300'), size=1),
      T('codec.distinct', a=('s', 's'), b=('s', 's'), size=2),
      T('codec.distinct', a=('s', 's'), b=('s', 's', 's'), size=1),
      T('codec.distinct', a=('s', ('s', 's')), b=('s', 's', 's'), size=1),
      T('codec.distinct', a=('s', ('s', 's'), 's'), b=('s', 's', ('s', 's')), size=1),
      T('codec.distinct', a=('s', 'i'), b=('s', 's'), size=2)],
     [T('codec.roundtrip', shape=('s', 's'), size=4),
      T('codec.roundtrip', shape=('s', 's', 's'), size=2),
      T('codec.roundtrip', shape=('i', 'f', 'i', 's'), size=2),
      T('codec.roundtrip', shape=('s', 'f'), size=4)],
     bounds='edges of the listed shapes (up to 6 elements, up to 13 levels; one of 91 elements, one of 46 levels); symbols of 1 to 6 arbitrary characters; integers '
            'of up to 3, 17 or 20 digits; floats with up to 2 digits before and after the point or an exponent of 2 or 3 digits, and '
            'with 3 before and 12 after the point',
     outside='larger edges, longer symbols and numbers; infinite and not-a-number floats, booleans, single element edges')

prop('C02',
     [T('codec.token', size=1), T('codec.token', size=2), T('codec.token', size=3), T('codec.token', size=4),
      T('codec.spaced', shape=('s', ('s', 'i'), 's'), size=1),
      T('codec.spaced', shape=('s', 's'), size=2), T('codec.spaced', shape=('s', 's'), size=1, long=150), T('codec.token', size=5)],
     [T('codec.token', size=6),
      T('codec.spaced', shape=('x', 'f', ('x', 'x')), size=1),
      T('codec.spaced', shape=('s', 's', 's', 's'), size=1)],
     bounds='tokens of 1 to 5 (thorough: 6) arbitrary characters; gaps of one or two arbitrary white-space characters, and of 301 of which one is arbitrary',
     outside='longer tokens and gaps')

prop('C03',
     [T('codec.negation', size=1), T('codec.negation', size=2), T('codec.negation', size=4), T('codec.negation', size=10),
      T('codec.edge_negation', shape=('s', 's'), size=2),
      T('codec.edge_negation', shape=('s', ('s', 's'), 'i'), size=1), T('codec.edge_negation', shape=('s',) + ('=a', '=b') * 20, size=2)],
     [T('codec.edge_negation', shape=('s', ('s', ('s', 's')), 's'), size=2)],
     bounds='symbols of up to 10 arbitrary characters, edges of the listed shapes',
     outside='symbols that start with more than one negation mark, or are only the mark; edges that start with an edge or a number')

prop('C04',
     [T('symbols.parts', size=1, n=1), T('symbols.parts', size=2, n=2), T('symbols.parts', size=1, n=4),
      T('symbols.parts', size=5, n=3), T('symbols.parts', size=2, n=40, one=True), T('symbols.any_symbol', size=12),
      T('symbols.any_symbol', size=1), T('symbols.any_symbol', size=4), T('symbols.any_symbol', size=9),
      T('symbols.other_types', shape=('s', 's'))],
     [T('symbols.parts', size=10, n=5), T('symbols.other_types', shape=('s', ('s', 'i'), 'f'))],
     bounds='up to 4 parts of up to 5 arbitrary characters; 40 parts of which one is arbitrary; any symbol of up to 12 characters',
     outside='longer symbols')

prop('C05',
     [T('symbols.from_text', size=1), T('symbols.from_text', size=2, cls='bmp'),
      T('symbols.from_text', size=4, cls='ascii_ws'), T('symbols.letters', size=5),
      T('symbols.from_text', size=1, long=400)],
     [T('symbols.from_text', size=2), T('symbols.from_text', size=5, cls='ascii_ws'), T('symbols.letters', size=6)],
     bounds='any single character, any two characters of the Latin, Greek and Cyrillic blocks and the Unicode white space '
            '(thorough: any two characters); any 4 (thorough: 5) ASCII characters including white space; texts of 801 characters of which one is arbitrary',
     outside='longer texts')

prop('C06',
     [T('symbols.hash_value', n=0), T('symbols.hash_value', n=1), T('symbols.hash_value', n=2), T('symbols.hash_value', n=3),
      T('symbols.hash_value', n=6), T('symbols.hash_value', n=1, before=1000, after=4), T('symbols.hash_value', n=2, before=300), T('symbols.hash_value', n=1, after=6),
      T('symbols.meaning', size=1, psize=1), T('symbols.meaning', size=2, psize=1), T('symbols.meaning', size=8, psize=0), T('symbols.meanings', psize=0)],
     [T('symbols.hash_value', n=12), T('symbols.meaning', size=4, psize=2)],
     bounds='texts of up to 6 (thorough: 12) arbitrary characters, and with up to 1000 fixed ones before and up to 6 after; roots of up to 8 characters, prefixes of up to 2; one of '
            'the random letters is arbitrary, the others are fixed',
     outside='longer texts')

# ------------------------------------------------------------------ the store
prop('C07',
     [T('store.perms', shape=('s', 's'), size=1), T('store.perms', shape=('s', 's'), size=2, cls='sym'),
      T('store.perms', shape=('s', 'i', 's'), size=1), T('store.perms', shape=N3, size=1),
      T('store.perms', shape=('s', L2, 'f'), size=1), T('store.perms', shape=S4, size=1, cls='letter'),
      T('store.perms', shape=('=b', '=a', '=c', '=e', '=d'), some=True), T('store.perms', shape=('=b', '=a', '=c', '=e', '=d', '=f'), some=True),
      T('store.wide', n=5), T('store.wide', n=6), T('store.wide', n=7),
      T('store.wide', n=3, others=(2, 4, 5, 6)), T('store.wide', n=4, others=(2, 3, 5, 6)), T('store.wide', n=5, others=(2, 3, 4, 6)),
      T('store.unperm', n=1), T('store.unperm', n=2), T('store.unperm', n=3), T('store.unperm', n=4), T('store.unperm', n=5)],
     [T('store.perms', shape=('s', L2, L2, 's'), size=1, cls='letter'), T('store.unperm', n=6),
      T('store.perms', shape=('s',) * 5, size=1, cls='letter', some=True)],
     bounds='edges of up to 4 (thorough: 5) elements, all permutations; fixed edges of 5 to 7 elements, and two of different sizes one after the other; index arithmetic for up to 5 (thorough: 6) elements',
     outside='wider edges')

prop('C08',
     [T('store.setsem', shapes=[S2, S2], steps=3), T('store.setsem', shapes=[S2, S2], steps=3, ops=('add', 'destroy', 'batch')), T('store.setsem', shapes=[S2, S3], steps=4),
      T('store.setsem', shapes=[L2, S2], steps=3), T('store.setsem', shapes=[S3, ('s', 's', 'i')], steps=2),
      T('store.setsem', shapes=[('x', 'x'), ('x', 'x')], steps=2), T('store.setsem', shapes=[('y', 'i'), ('y', 'i')], steps=2),
      T('store.setsem', shapes=[('s', 'f'), ('s', 'x')], steps=2),
      T('store.setsem', shapes=[('=r', '=k', 's', 's'), ('=r', 's', '=k', 's')], steps=2),
      T('store.setsem', shapes=[('s', 'L300'), ('s', 'L300')], steps=3), T('store.setsem', shapes=[('L40', 'L1100'), ('L40', 'L1100')], steps=2),
      T('store.two_stores', shapes=[S2, S2]),
      T('store.many', n=1100, about='exists')],
     [T('store.setsem', shapes=[S3, S3, L2], steps=4), T('store.setsem', shapes=[S4, S4], steps=2),
      T('store.setsem', shapes=[('s', L2, L2), ('s', L2, 's')], steps=3),
      T('store.setsem', shapes=[S2, S2, S2], steps=5),
      T('store.setsem', shapes=[S2, S3], steps=4, size=2), T('store.two_stores', shapes=[S2, S3, S2])],
     bounds='histories of up to 4 (thorough: 5) adds and removes over two or three edges of the listed shapes with arbitrary '
            'one or two character symbols, equal or not; a store of 1100 edges of which one is about an arbitrary entity',
     outside='longer histories, more and wider edges; ' + DOMAIN)

prop('C09',
     [T('store.pattern', shapes=[S3, S3], holes=['s', None, None], steps=0),
      T('store.pattern', shapes=[S3, S3], holes=[None, 's', None], steps=1),
      T('store.pattern', shapes=[S3, S3], holes=['s', None, 's'], steps=0),
      T('store.pattern', shapes=[S3, S3], holes=['s', 's', 's']),
      T('store.pattern', shapes=[S3, S2], holes=[None, 's']),
      T('store.pattern', shapes=[S3, L2], holes=[None, ('s', 's')]),
      T('store.pattern', shapes=[N3, S2], holes=[None, None], steps=1),
      T('store.pattern', shapes=[N3, S4], holes=[None, ('s', 's'), 's']),
      T('store.pattern', shapes=[('s', 'i'), S2], holes=[None, 'i']),
      T('store.pattern', shapes=[('s', 'i', 'i'), ('s', 's', 'i')], holes=['s', 'i', None]),
      T('store.pattern', shapes=[('s', 'i', 'f')], holes=[None, 'i', 'f']),
      T('store.pattern_known', shapes=[S3, S3]), T('store.pattern_known', shapes=[N3, S3]),
      T('store.pattern_known', shapes=[S2, S2], size=2), T('store.pattern_known', shapes=[('L300', 'L300', 's'), ('L300', 'L300', 's')]),
      T('store.many', n=1100, about='pattern')],
     [T('store.pattern', shapes=[S3, S3, S2], holes=['s', None, 's'], steps=1),
      T('store.pattern', shapes=[S4, S4], holes=['s', None, 's', None]),
      T('store.pattern', shapes=[('x', 'x', 'x')], holes=['x', None, 'x'], size=2),
      T('store.pattern', shapes=[('y', 'y')], holes=['y', None], size=2),
      T('store.pattern_known', shapes=[S4, S4]), T('store.pattern_known', shapes=[N3, N3])],
     bounds='two or three stored edges of the listed shapes, one possibly removed, and every pattern of the listed forms with '
            'arbitrary entities; also every pattern cut out of a stored edge; a store of 1100 edges of which one is about an arbitrary entity',
     outside='more and wider edges and patterns; ' + DOMAIN)

prop('C10',
     [T('store.star', shapes=[S3, S2], center='s'), T('store.star', shapes=[S2, L2], center='s'),
      T('store.star', shapes=[N3, S2], center=('s', 's')), T('store.star', shapes=[L2, S2], center=1),
      T('store.star', shapes=[('s', 'i'), ('s', 's')], center='i'), T('store.star', shapes=[('s', 'i')], center='i', size=18, csize=18),
      T('store.star', shapes=[('s', 'f'), ('s', 's')], center='f', size=2, csize=2),
      T('store.star', shapes=[('y', 'y')], center='y', csize=2, size=2), T('store.star', shapes=[('s', 'L300'), ('s', 'L300')], center='L300'),
      T('store.many', n=1100, about='star')],
     [T('store.star', shapes=[S3, S2, L2], center='s'), T('store.star', shapes=[S3, S3, S3], center='s'),
      T('store.star', shapes=[('y', 'y'), ('y', 'y')], center='y')],
     bounds='two or three stored edges of the listed shapes (with numbers of up to 18 digits, floats and nested edges), one possibly removed; an arbitrary entity in the centre: symbol, '
            'integer or edge; a store of 1100 edges of which one is about an arbitrary entity',
     outside='more and wider edges; ' + DOMAIN)

prop('C11',
     [T('store.degree', shapes=[S3, S2], steps=3), T('store.degree', shapes=[S2, S2], steps=3, ops=('add', 'destroy', 'batch')), T('store.degree', shapes=[S2, L2], steps=3),
      T('store.degree', shapes=[S2, L2], steps=3, same_names=[(1, 0, 1)]), T('store.degree', shapes=[('s', 'L300'), ('s', 'L300')], steps=2),
      T('store.degree', shapes=[S2, N3, L2], steps=3, same_names=[(1, 0, 1), (2, 0, 1)]),
      T('store.many', n=500, about='degree')],
     [T('store.degree', shapes=[S3, S2, L2], steps=3), T('store.degree', shapes=[S2, N3, L2], steps=4, same_names=[(1, 0, 1), (2, 0, 1)]),
      T('store.degree', shapes=[S2, ('s', 's', 's'), L2], steps=3, same_names=[(1, 0, 1), (2, 1, 1)])],
     bounds='histories of up to 3 (thorough: 4) adds and removes (also batches and destroys) over up to three edges, some of them elements of others; '
            'symbols equal or not; a store of 500 edges of which one is about an arbitrary entity',
     outside='longer histories; ' + DOMAIN)

prop('C12',
     [T('store.timestamps', shapes=[S3, S2], steps=3), T('store.timestamps', shapes=[S2, L2], steps=3, same_names=[(1, 0, 1)]),
      T('store.timestamps', shapes=[S2, S2], steps=3), T('store.timestamps', shapes=[('s', 'i'), ('s', 'i')], steps=2), T('store.timestamps', shapes=[('s', 'L300'), ('s', 'L300')], steps=2),
      T('facade.beliefs', shapes=[('=is', '=k'), ('=is', '=m')], steps=2, lists=True)],
     [T('store.timestamps', shapes=[S3, S2, L2], steps=3), T('store.timestamps', shapes=[S2, S2], steps=5)],
     bounds='histories of up to 3 (thorough: 5) adds with arbitrary times from -2^40 to 2^40, and removes',
     outside='the time of an edge that is only an element of others, or that was removed while it was one (atoms keep the time '
             'they were first stored); ' + DOMAIN)

prop('C13',
     [T('store.roots', shapes=[('y', 's')], size=3), T('store.roots', shapes=[('y', 's'), ('s', 's')], size=2, steps=0),
      T('store.roots', shapes=[('y', 'i')], size=4, rsize=2, steps=0),
      T('store.roots', shapes=[('=ab/c', 'y')], size=4, rsize=2),
      T('store.roots', shapes=[('=a/b', '=a/c'), ('=a/b', 's'), ('y', '=aa/b')], rsize=1),
      T('store.roots', shapes=[('=a', ('y', '=b'))], size=3), T('store.roots', shapes=[('=a/b/c', '=a/d/c'), ('=a/b', 'y')], size=4, rsize=3, rcls='sym'),
      T('store.roots', shapes=[('=a/b/c', 'y')], size=5, rsize=3, rcls='sym', steps=0), T('store.roots', shapes=[('=a', 'y'), ('=a', 'y')], size=2, long=300, steps=0),
      T('store.many', n=1100, about='root')],
     [T('store.roots', shapes=[('s', ('y', 's'))], size=3), T('store.roots', shapes=[('y', 's'), ('s', 'y')], size=2), T('store.roots', shapes=[('y', 'y')], size=3),
      T('store.roots', shapes=[('y', 's')], size=5, rsize=3, steps=0)],
     bounds='one to three stored edges with symbols of up to 4 (thorough: 5) arbitrary characters, roots of up to 2 (thorough: 3), with slashes in them or not; a store of 1100 edges of which one is about an arbitrary entity',
     outside='longer symbols; symbols inside nested edges only; ' + DOMAIN)

prop('C14',
     [T('store.f_all', shapes=[S2, S3], steps=2, asks=True), T('store.f_all', shapes=[S2, L2], steps=3, query=True),
      T('store.f_all', shapes=[S2, L2], steps=2, query=True, batch=True), T('store.f_all', shapes=[('y', 'i')], steps=2),
      T('store.many', n=1100, about='visit')],
     [T('store.f_all', shapes=[S3, S2, L2], steps=3, query=True, batch=True)],
     bounds='stores made by up to 3 adds and removes over two or three edges; the function only reads; a store of 1100 edges of which one is about an arbitrary entity',
     outside='functions that change the hypergraph while it is visited; ' + DOMAIN)

prop('C15',
     [T('store.destroyed', shapes=[S3, S2]), T('store.destroyed', shapes=[L2, S2]), T('store.setsem', shapes=[S2, S2], steps=4, ops=('add', 'destroy')),
      T('store.degree', shapes=[S2, L2], steps=3, ops=('add', 'destroy'), same_names=[(1, 0, 1)]),
      T('store.timestamps', shapes=[S2, S2], steps=3, ops=('add', 'destroy')),
      T('store.many', n=1100, about='destroy')],
     [T('store.destroyed', shapes=[S3, S2, L2]), T('store.setsem', shapes=[S2, S3], steps=4, ops=('add', 'remove', 'destroy'))],
     bounds='destroy after up to three adds, and in histories of up to 4 operations; a store of 1100 edges of which one is about an arbitrary entity',
     outside='longer histories; ' + DOMAIN)

# --------------------------------------------------------------- transactions
prop('C16',
     [T('txn.batch', shapes=[S2, S3], n=2, mode='exec'), T('txn.batch', shapes=[S2, S2], n=3, mode='one'),
      T('txn.batch', shapes=[S2, L2], n=2, mode='reads'), T('txn.batch', shapes=[S2, S2], n=2, mode='nested'),
      T('txn.batch', shapes=[S2, L2], n=3, mode='exec', inside=[(1, 0, 1)]), T('txn.batch', shapes=[S2, S2], n=2, mode='same'),
      T('txn.many', shapes=[S2, S2], op='add'), T('txn.many', shapes=[S2, L2], op='add', inside=[(1, 0, 1)]),
      T('txn.many', shapes=[S2, S3], op='remove', before=2),
      T('txn.many', shapes=[S2, S2], op='add', as_tuple=True),
      T('txn.long', n=40, how='list'), T('txn.long', n=40, how='tuple'), T('txn.long', n=40, how='batch'), T('txn.long', n=40, how='one'),
      T('store.many', n=1100, about='batch')],
     [T('txn.batch', shapes=[S2, S3], n=4, mode='exec'), T('txn.batch', shapes=[S2, S3, L2], n=3, mode='reads'),
      T('txn.batch', shapes=[S2, S3], n=3, mode='nested'),
      T('txn.many', shapes=[S2, S3, S2], op='add'), T('txn.many', shapes=[S2, S3, S2], op='remove', before=3)],
     bounds='batches of 2 or 3 (thorough: 4) operations and lists of 2 or 3 edges, repeated or not, over a store with an edge; 40 '
            'edges of which one is about an arbitrary entity',
     outside='larger batches; ' + DOMAIN)

prop('C17',
     [T('txn.buffered', shapes=[S2, S2], n=1, max_hi=2), T('txn.buffered', shapes=[S2, S2], n=2, max_hi=2),
      T('txn.buffered', shapes=[('=k', '=m'), ('=k', '=n'), ('=p', '=n')], n=3, max_hi=3, flushes=False),
      T('txn.buffered', shapes=[S2, L2], n=2, max_hi=2, inside=[(1, 0, 1)]), T('txn.buffered', shapes=[('=k', 'i'), ('=k', 'i')], n=2, max_hi=1, flushes=False),
      T('txn.long', n=40, how='buffer'), T('txn.long', n=40, how='buffers'), T('txn.flush_fault', shapes=[S2, S2], n=2), T('txn.flush_fault', shapes=[S2, S3], n=1, ask='list'),
      T('store.many', n=1100, about='buffer'), T('store.many', n=1100, about='buffers')],
     [T('txn.buffered', shapes=[S2, S3], n=2), T('txn.buffered', shapes=[('=k', '=m'), ('=k', '=n'), ('=p', '=n')], n=4, max_hi=4)],
     bounds='up to 3 (thorough: 4) buffered adds, of one edge or a list, with flushes between and buffers of up to 4 edges, with numbers and nested edges, and two buffers at once; 1100 buffered edges of which one is about an arbitrary entity',
     outside='reading or removing before the buffer is flushed; ' + DOMAIN)

prop('C18',
     [T('txn.crash', shapes=[S2, S2], kind='add'), T('txn.crash', shapes=[S2, S3], kind='remove'),
      T('txn.crash', shapes=[S2, S2, S2], kind='addlist', before=1), T('txn.crash', shapes=[S2, S2], kind='removelist', before=2),
      T('txn.crash', shapes=[S2, S2], kind='batch'), T('txn.crash', shapes=[S2, S2], kind='belief'),
      T('txn.crash', shapes=[S2, S2], kind='destroy', before=2), T('txn.crash', shapes=[S2, S2], kind='unbelieve', before=2),
      T('txn.crash', shapes=[S2, S2], kind='match', before=2),
      T('txn.open_crash', shapes=[S2, S2]), T('txn.open_crash', shapes=[S2, S2], again=True), T('txn.crash', shapes=[S2, W5], kind='add'), T('txn.crash', shapes=MANY, kind='addlist'), T('txn.crash', shapes=MANY, kind='removelist', before=len(MANY)),
      T('txn.crash', shapes=MANY, kind='batchlist'), T('txn.crash', shapes=MANY, kind='match', before=len(MANY)), T('txn.crash', shapes=MANY[:10], kind='beliefs')],
     [T('txn.crash', shapes=[S2, L2], kind='add', inside=[(1, 0, 1)]), T('txn.crash', shapes=[S2, S3, S2], kind='addlist'),
      T('txn.crash', shapes=[S2, S3, L2], kind='removelist', before=3), T('txn.crash', shapes=[S3, S3], kind='batch'),
      T('txn.crash', shapes=[S2, S3], kind='belief'), T('txn.crash', shapes=[S2, S2, S3], kind='unbelieve', before=3),
      T('txn.crash', shapes=[S2, S2, S2], kind='match', before=3)],
     bounds='one operation on a store with one or two edges, or 24 fixed ones, or the opening; the process dies before or after any of its '
            'database operations',
     outside='what SQLite itself guarantees about its files when power is lost; ' + DOMAIN)

prop('C19',
     [T('txn.fault', shapes=[S2, S2], kind='add', ask='yes'), T('txn.fault', shapes=[S2, S3], kind='remove'),
      T('txn.fault', shapes=[S2, S2, S2], kind='addlist'), T('txn.fault', shapes=[S2, S2], kind='removelist', before=2),
      T('txn.fault', shapes=[S2, S2], kind='batch', ask='yes'), T('txn.fault', shapes=[S2, S2], kind='destroy', before=2, ask='yes'),
      T('txn.fault', shapes=[S2, S2], kind='belief', ask='yes'), T('txn.fault', shapes=[S2, S2], kind='unbelieve', before=2),
      T('txn.fault', shapes=[S2, S2], kind='match', before=2),
      T('txn.fault', shapes=MANY, kind='addlist'), T('txn.fault', shapes=MANY, kind='batchlist'), T('txn.fault', shapes=MANY, kind='removelist', before=len(MANY)),
      T('txn.batch_error', shapes=[S2, S2], n=2)],
     [T('txn.fault', shapes=[S2, S2, S3], kind='unbelieve', before=3), T('txn.fault', shapes=[S2, S2, S2], kind='match', before=3),
      T('txn.fault', shapes=[S2, S3], kind='belief'), T('txn.fault', shapes=[S3, S3], kind='batch'),
      T('txn.fault', shapes=[S2, S3, S2], kind='addlist'), T('txn.batch_error', shapes=[S2, S3], n=3)] +
     [T('txn.fault', shapes=[S2, S2], kind=k, before=2, ask='maybe') for k in ('add', 'remove', 'batch', 'destroy', 'unbelieve', 'match')],
     bounds='one operation on a store with one or two edges, or 24 fixed ones; any one of its database operations reports an error; a batch of 2 '
            '(thorough: 3) functions any of which raises',
     outside='two errors in one operation; an error while rolling back; ' + DOMAIN)

prop('C20',
     [T('txn.durable', shapes=[S2, S2], steps=3), T('txn.durable', shapes=[S2, L2], steps=2), T('txn.durable', shapes=[('y', 'i')], steps=2),
      T('txn.older', shapes=[S2, S2]), T('txn.older', shapes=[S2, L2], inside=[(1, 0, 1)]),
      T('txn.in_turns', shapes=[S2, S2], steps=3), T('txn.in_turns', shapes=[S2, L2], steps=2, inside=[(1, 0, 1)])],
     [T('txn.durable', shapes=[S2, S3], steps=3), T('txn.durable', shapes=[S2, L2], steps=3, inside=[(1, 0, 1)]),
      T('txn.durable', shapes=[S2, S2], steps=4), T('txn.in_turns', shapes=[S2, S3], steps=3), T('txn.in_turns', shapes=[S2, S2], steps=4)],
     bounds='histories of up to 3 (thorough: 4) adds, removes and destroys, reopened at any point, or by two open connections in turns; databases without times, degrees or permutations',
     outside='longer histories; ' + DOMAIN)

# ------------------------------------------------------- beliefs and queries
prop('C21',
     [T('facade.beliefs', shapes=[S2], steps=3), T('facade.beliefs', shapes=[('=is', 'i'), ('=is', 'i')], steps=2), T('facade.beliefs', shapes=[('=is', ('=a', 's')), ('=is', ('=a', 's'))], steps=2),
      T('facade.beliefs', shapes=[S2, S2], steps=2),
      T('facade.beliefs', shapes=[S2], steps=3, ops=('believe', 'unbelieve', 'bare')), T('facade.beliefs', shapes=[('=is', '=k')], steps=3, ops=('believe', 'unbelieve', 'unstate', 'forget', 'destroy'), asked=True), T('facade.beliefs', shapes=[S2, ('=is', '=m')], steps=2, ops=('believe', 'unstate', 'forget', 'destroy'), asked=True),
      T('facade.beliefs', shapes=[('=is', '=k'), ('=is', '=m')], steps=3),
      T('facade.beliefs', shapes=[('=is', '=k')], steps=3, element=True), T('facade.beliefs', shapes=[('=is', 's')], steps=2, element=True),
      T('facade.beliefs', shapes=[S2, ('=is', '=m')], steps=1, lists=True), T('facade.beliefs', shapes=[S2], steps=2, lists=True),
      T('facade.beliefs', shapes=[('=is', '=k'), ('=is', '=m')], steps=2, lists=True),
      T('store.many', n=500, about='believe'), T('facade.beliefs', shapes=[('=is', '=k'), ('=is', '=m')], steps=3, from_fact=True), T('facade.beliefs', shapes=[S2, ('=is', '=m')], steps=2, from_fact=True)],
     [T('facade.beliefs', shapes=[S2, S3], steps=2), T('facade.beliefs', shapes=[S2], steps=5), T('facade.beliefs', shapes=[('=is', '=k'), ('=is', '=m')], steps=4, lists=True)],
     bounds='up to 3 (thorough: 5) beliefs stated and withdrawn (as beliefs, as edges, or by a pattern) by two sources about one or two edges, with questions between; a source that is itself one of the edges; numbers, floats and nested edges in them; 500 beliefs of one source',
     outside='more sources; ' + DOMAIN)

prop('C22',
     [T('facade.remove_by_pattern', shapes=[S2, S2], holes=['s', None]), T('facade.remove_by_pattern', shapes=[S2, S3], holes='first'),
      T('facade.remove_by_pattern', shapes=[S3, S2], holes='first'), T('facade.remove_by_pattern', shapes=[S2, S2], holes='first', again=True), T('facade.remove_by_pattern', shapes=[S2, S2], holes=['s', None], again=True),
      T('facade.remove_by_pattern', shapes=[S3, S3], holes='first'),
      T('facade.remove_by_pattern', shapes=[L2, S2], holes='first'), T('facade.remove_by_pattern', shapes=[('=k', 'i'), ('=k', 's')], holes='first'), T('facade.remove_by_pattern', shapes=[('=k', 'i', 's'), ('=k', 'i', 's')], holes='first'),
      T('facade.remove_by_pattern', shapes=[('=k', 's'), ('=k', 's'), ('=m', 's')], holes=['s', None]),
      T('store.many', n=500, about='withdraw')],
     [T('facade.remove_by_pattern', shapes=[S3, S3], holes=['s', None, 's']),
      T('facade.remove_by_pattern', shapes=[S3, S3, S2], holes='first')],
     bounds='two or three stored edges (also with numbers and nested edges), the same pattern once or twice, patterns of the listed forms and all patterns cut out of a stored edge; a store of 500 edges of which one is about an arbitrary entity',
     outside='more and wider edges; ' + DOMAIN)

prop('C23',
     [T('facade.ego', shapes=[S3, S2], depth=0), T('facade.ego', shapes=[S3, S2], depth=1), T('facade.ego', shapes=[S3, S2], depth=2),
      T('facade.ego', shapes=[('=r', '=n', '=k'), ('=r', '=n', '=m'), ('=r', '=k', 's'), ('=r', 's', 's'), ('=q', 's', 's')], depth=3, center='first'),
      T('facade.ego', shapes=[S2, S2, S2], depth=2, center='first'), T('facade.ego', shapes=[S2, S2], depth=2, center='first', asked=True), T('facade.ego', shapes=[('=r', '=k', '=m'), ('=r', '=m', 's')], depth=2, center='first', asked=True), T('facade.ego', shapes=[L2, S2], depth=2, center='first'),
      T('facade.ego', shapes=[S2, S3, S2], inside=[(1, 0, 1), (2, 0, 1)], depth=2),
      T('facade.ego', shapes=[('=r', '=n', 'i'), ('=r', 'i', 's'), ('=r', 's', '=m')], depth=2, center='first'), T('facade.ego', shapes=[('=r', '=n', 'f'), ('=r', 'f', 's')], depth=2, center='first', size=2),
      T('facade.ego', shapes=[('=r', '=n', ('=x', 's')), ('=r', ('=x', 's'), '=k'), ('=r', 's', 's')], depth=2, center='first'),
      T('store.many', n=1100, about='ego')],
     [T('facade.ego', shapes=[S3, S3], depth=3), T('facade.ego', shapes=[S3, S2, S2], depth=2),
      T('facade.ego', shapes=[S2, L2, S2], depth=2, inside=[(1, 0, 1)])],
     bounds='two or three stored edges, depth up to 2 (thorough: 3), an arbitrary centre (symbol, number or edge), with the same question before each edge or not; a store of 1100 edges of which one is about an arbitrary entity',
     outside='larger hypergraphs; ' + DOMAIN)

prop('C24',
     [T('facade.intersect', shapes=[S3, S3], seeds=2), T('facade.intersect', shapes=[S3], seeds=2), T('facade.intersect', shapes=[S3], seeds=2, asked=True), T('facade.intersect', shapes=[('=r', '=k', 's'), ('=r', 's', '=m')], seeds=['k', 'm'], asked=True),
      T('facade.intersect', shapes=[('=r', '=k', 's'), ('=r', '=m', 's'), ('=r', '=n', 's')], seeds=2),
      T('facade.intersect', shapes=[('=r', '=k', '=x'), ('=r', '=x', '=m'), ('=r', 's', 's'), ('=r', 's', '=m')], seeds=['k', 'm']),
      T('facade.intersect', shapes=[('=r', '=k', 's', 's'), ('=r', 's', 's', '=m')], seeds=['k', 'm']),
      T('facade.intersect', shapes=[('=r', '=k', 'i'), ('=r', 'i', '=m')], seeds=['k', 'm']), T('facade.intersect', shapes=[('=r', '=k', 's'), ('=r', 's', 'i')], seeds=2),
      T('facade.intersect', shapes=[('=r', '=k', ('=x', 's')), ('=r', ('=x', 's'), '=m')], seeds=['k', 'm']),
      T('facade.hubs', shape=S3), T('facade.hubs', shape=('s', L2, 's')), T('facade.hubs', shape=('s', 'i', 's')), T('facade.hubs', shape=('s', 's', 's', 's'))],
     [T('facade.intersect', shapes=[('=r', 's', 's', 's'), ('=r', 's', 's')], seeds=2), T('facade.intersect', shapes=[('=r', 's', 's'), ('=r', 's', 's'), ('=r', 's', 's')], seeds=2),
      T('facade.intersect', shapes=[('=r', '=k', 's'), ('=r', '=m', 's'), ('=r', 's', 's'), ('=r', 's', 's')], seeds=2),
      T('facade.intersect', shapes=[('=r', 's', 's'), ('=r', 's', 's')], seeds=3)],
     bounds='up to three (thorough: four) stored edges, two (thorough: three) arbitrary seeds (symbols, numbers or edges); any degrees from 0 to 1000 for hubs',
     outside='larger hypergraphs; ' + DOMAIN)

# ------------------------------------------------------------------ backends
prop('C25',
     [T('facade.null', shapes=[S2, S3]), T('facade.backend_choice', size=4), T('facade.backend_choice', size=6),
      T('facade.backend_choice', size=0), T('facade.backend_choice', size=7), T('facade.backend_choice', size=1, start='sqlite'),
      T('facade.backend_choice', size=1, start='mysql'), T('facade.backend_choice', size=1, start='null'), T('facade.two_databases', backend='sqlite', params=('db',)), T('facade.two_databases', backend='sqlite', params=('db', 'host'), size=2)],
     [T('facade.null', shapes=[S2, N3]), T('facade.backend_choice', size=5), T('facade.backend_choice', size=8), T('facade.backend_choice', size=3, start='sqlite'),
      T('facade.backend_choice', size=3, start='mysql')],
     bounds='any two operations on the null backend; two SQLite databases with any names; any backend name of 0, 4 to 8 characters, and the known names with more characters after them',
     outside='longer histories')

prop('C26',
     [T('facade.mysql', shapes=[S2, S2], steps=3, ops=('add', 'remove', 'destroy', 'batch')), T('facade.mysql', shapes=[('s', 'L300'), ('s', 'L4000')], steps=2),
      T('facade.mysql', shapes=[S2, L2], steps=3, inside=[(1, 0, 1)]),
      T('facade.two_databases', backend='mysql'), T('facade.mysql', shapes=[('s', 'i'), ('s', 's')], steps=2), T('facade.mysql', shapes=[('s', '=c/1'), ('=c/d/2', '=c/1', '=cd/3')], steps=3)] +
     [T('facade.mysql_error', shapes=[S2, S2], kind=k) for k in ('raises', 'add', 'remove', 'addlist', 'batch', 'belief', 'unbelieve', 'destroy')],
     [T('facade.mysql_error', shapes=[S2, S3], kind=k, before=2) for k in ('raises', 'removelist', 'batch', 'unbelieve', 'match')] +
     [T('facade.mysql', shapes=[S2, S3], steps=3, ops=('add', 'remove', 'destroy', 'batch')),
      T('facade.mysql', shapes=[S2, L2, S2], steps=4, inside=[(1, 0, 1)])],
     bounds='histories of up to 3 (thorough: 4) operations through the MySQL code, over a stand-in for the server that holds to the column types, with any times and symbols of up to 4000 characters; two databases on any two hosts',
     outside='the server: collation, key prefixes, truncation, transactions; ' + DOMAIN,
     assumptions=['the stand-in for MySQL keeps rows as SQLite does, counts changed rows as MySQL does, and refuses a query whose '
                  'number of arguments differs'])

# -------------------------------------------------------------- two processes
PAIRS = [('add', 'add'), ('add', 'remove'), ('remove', 'remove'), ('remove', 'add'), ('batch', 'batch'), ('belief', 'unbelieve'),
         ('unbelieve', 'belief'), ('destroy', 'add'), ('add', 'destroy'), ('match', 'add')]
prop('C39',
     [T('txn.two_writers', shapes=[S2, S2], a='add', b='add', same=True), T('txn.two_writers', shapes=[S2, S2], a='add', b='add', before=0)] +
     [T('txn.two_writers', shapes=[L2, S2], a=a, b=b, before=k, inside=[(0, 1, 1)]) for a, b, k in (('add', 'add', 0), ('add', 'remove', 1), ('remove', 'remove', 2), ('remove', 'add', 1))] +
     [T('txn.two_writers', shapes=[S2, L2], a=a, b=b, before=k, inside=[(1, 0, 1)]) for a, b, k in (('add', 'add', 0), ('remove', 'add', 1))] +
     [T('txn.two_writers', shapes=[S2, S2], a=a, b=b) for a, b in PAIRS] +
     [T('txn.reader', shapes=[S2, S2], kind=k) for k in ('add', 'remove', 'batch', 'belief', 'unbelieve', 'match')] +
     [T('txn.reader', shapes=[S2, S2], kind='add', opens=True)] +
     [T('txn.pending', shapes=[S2, S2], kind=k) for k in ('add', 'remove', 'belief')] +
     [T('txn.openers', shapes=[S2, S2]), T('txn.turns', shapes=[S2], steps=5, ops=('add', 'remove', 'ask')),
      T('txn.turns', shapes=[S2, S2], steps=3, ops=('add', 'remove', 'destroy', 'ask')), T('txn.turns', shapes=[('=a', 's'), ('=a', '=b')], steps=4)],
     [T('txn.two_writers', shapes=[S2, S3], a=a, b=b, before=2) for a, b in PAIRS] +
     [T('txn.two_writers', shapes=[S2, L2], a=a, b=b, inside=[(1, 0, 1)]) for a, b in PAIRS[:4]] +
     [T('txn.two_writers', shapes=[S2, S2, S2], a=a, b=b) for a in ('addlist', 'removelist') for b in ('addlist', 'removelist', 'batch')] +
     [T('txn.turns', shapes=[S2, S2], steps=4, ops=('add', 'remove', 'batch', 'ask')),
      T('txn.turns', shapes=[S2, L2], steps=4, inside=[(1, 0, 1)])] +
     [T('txn.reader', shapes=[S2, S2, S2], kind=k) for k in ('addlist', 'removelist', 'destroy')] +
     [T('txn.pending', shapes=[S2, S2, S2], kind=k) for k in ('addlist', 'batch', 'unbelieve', 'destroy')],
     bounds='two connections, one operation each over one or two stored edges: all of the second one happens before any of the '
            'database operations of the first; refused at once instead of after a wait; histories of up to 5 operations in turns',
     outside='three connections; how long the SQLite library waits for a lock; a MySQL server; ' + DOMAIN,
     assumptions=['SQLite with a rollback journal: one connection at a time has the write lock, a commit needs that nobody is '
                  'reading (every reported schedule is replayed against the real library)'])

# ------------------------------------------------------------------ knowledge
WORDS = ('words are w0, w1, ...; parts of speech, dependencies, lemmas and entity types are any of the ones the stages know and '
         'some others; in trees of two or three words one of these of one word is any text of up to 8 (dependencies), 5 (parts '
         'of speech) or 4 characters')
DEP, POS, LEMMA, ENT = (('dep', (0, 8)),), (('pos', (0, 5)),), (('lemma', (0, 4)),), (('entity_type', (0, 4)),)
LONG = [dict(n=40, form='right'), dict(n=40, form='left', step=5), dict(n=40, form='zigzag', step=7), dict(n=40, form='fan', step=3),
        dict(n=60, form='tree', step=7), dict(n=40, form='right', deps=('dobj', 'nsubj')),
        dict(n=40, form='left', deps=('det', 'compound', 'pobj', 'advmod')), dict(n=40, form='tree', deps=('compound', 'pobj'), ents=('GPE',)),
        dict(n=40, form='fan', deps=('advmod',), poss=('VERB',)), dict(n=120, form='fan', deps=('nsubj', 'dobj', 'conj'), poss=('NOUN',))]
LONGER = [dict(n=n, form=f, step=k) for n in (50, 90) for f in ('right', 'left', 'fan', 'comb', 'tree') for k in (1, 4, 8)] + \
         [dict(n=80, form='right', deps=('compound',)), dict(n=80, form='left', deps=('advmod',), poss=('VERB',))]

prop('C27',
     [T('knowledge.alpha', n=1), T('knowledge.alpha', n=2), T('knowledge.alpha', n=3),
      T('knowledge.alpha', n=2, at=1, free=DEP), T('knowledge.alpha', n=3, at=0, free=POS), T('knowledge.alpha', n=4),
      T('knowledge.alpha', n=5, wide=True, deps=('prep', 'dobj'), poss=('VERB', 'NOUN')), T('knowledge.alpha', n=3, deps=('prep', 'dobj', 'amod', 'compound'), first='amod'), T('knowledge.alpha', n=3, deps=('prep', 'dobj', 'amod', 'compound'), first='dobj')] +
     [T('knowledge.long_sentence', stages=('alpha',), **k) for k in LONG],
     [T('knowledge.long_sentence', stages=('alpha',), **k) for k in LONGER],
     bounds='all dependency trees with up to 4 tokens, each with any of 19 dependencies, verb or noun, also after another sentence; a word with four dependents; sentences of 40 to 120 words of which one has any labels; ' + WORDS,
     outside='longer sentences')

prop('C28',
     [T('knowledge.beta', n=1, none=True), T('knowledge.beta', n=2, none=True), T('knowledge.beta', n=3, none=True),
      T('knowledge.beta', n=4), T('knowledge.beta', n=2, at=0, free=DEP), T('knowledge.beta', n=3, at=1, free=DEP),
      T('knowledge.beta', n=3, at=0, free=ENT), T('knowledge.beta', n=3, at=2, free=ENT), T('knowledge.beta', n=5),
      T('knowledge.beta', n=3, first='compound'), T('knowledge.beta', n=3, first='amod')] +
     [T('knowledge.long_sentence', stages=('alpha', 'beta'), **k) for k in LONG],
     [T('knowledge.long_sentence', stages=('alpha', 'beta', 'epsilon'), **k) for k in LONGER],
     bounds='all trees with up to 5 words, each with any dependency and any of three entity types or none, also after another tree; sentences of 40 to 120 words of which one has any labels; ' + WORDS,
     outside='larger trees')

prop('C29',
     [T('knowledge.gamma', n=1), T('knowledge.gamma', n=2), T('knowledge.gamma', n=3), T('knowledge.gamma', n=4),
      T('knowledge.gamma', n=5), T('knowledge.gamma', n=4, marks=True), T('knowledge.gamma', n=2, at=0, free=LEMMA),
      T('knowledge.gamma', n=2, at=0, free=POS), T('knowledge.gamma', n=3, at=1, free=POS), T('knowledge.gamma', n=3, at=0, free=POS + LEMMA), T('knowledge.gamma', n=5, marks=True),
      T('knowledge.gamma', n=3, first='VERB'), T('knowledge.gamma', n=4, first='NOUN', lemmas=('the', 'this'))] +
     [T('knowledge.long_sentence', stages=('alpha', 'beta', 'gamma'), **k) for k in LONG],
     [T('knowledge.gamma', n=6, poss=('VERB', 'DET', 'NOUN'), lemmas=('the', 'this'))] + [T('knowledge.long_sentence', stages=('alpha', 'beta', 'gamma'), **k) for k in LONGER],
     bounds='all trees with up to 5 (thorough: 6) words, any nodes compounds (up to 5 words), also after another tree; sentences of 40 to 120 words of which one has any labels; ' + WORDS,
     outside='larger trees')

prop('C30',
     [T('knowledge.delta', n=n) for n in (1, 2, 3, 4, 5)] +
     [T('knowledge.delta', n=3, at=i, free=POS) for i in (0, 1, 2)] +
     [T('knowledge.delta', n=4, marks=True), T('knowledge.delta', n=5, twins=True),
      T('knowledge.delta', n=6, exact=False), T('knowledge.delta', n=5, marks=True), T('knowledge.delta', n=4, first='VERB'), T('knowledge.delta', n=4, first='NOUN')],
     [T('knowledge.delta', n=7, exact=False, poss=('VERB', 'NOUN'))],
     bounds='all trees with up to 5 words exactly (up to 4 after another tree), with 6 (thorough: 7) words for the words, their order and the relation; ' + WORDS,
     outside='larger trees; which arrangement is chosen beyond 5 words')

prop('C31',
     [T('knowledge.epsilon', n=n) for n in (1, 2, 3, 4, 5)] +
     [T('knowledge.epsilon', n=2, size=2), T('knowledge.epsilon', n=3, size=3), T('knowledge.epsilon', n=6), T('knowledge.epsilon', n=3, first=True), T('knowledge.epsilon', n=4, first=True)] +
     [T('knowledge.long_sentence', stages=('alpha', 'beta', 'epsilon'), **k) for k in LONG],
     [T('knowledge.long_sentence', **k) for k in LONGER],
     bounds='all trees with up to 6 words, any nodes compounds, any words of one to three letters, also after another tree; sentences of 40 to 120 words of which one has any labels',
     outside='larger trees; words with slashes')

prop('C32',
     [T('knowledge.pipeline', n=1, before='other'), T('knowledge.pipeline', n=2, before='same'), T('knowledge.pipeline', n=2, before='other'), T('knowledge.pipeline', n=2, debug=True, lemmas=('the',)),
      T('knowledge.pipeline', n=3),
      T('knowledge.pipeline', n=4, lemmas=('the',), deps=('det', 'prep', 'nsubj'), poss=('VERB', 'NOUN')),
      T('nlp.read_text', sizes=[]), T('nlp.read_text', sizes=[1]), T('nlp.read_text', sizes=[1, 2, 1]), T('nlp.stage_names', size=4), T('nlp.stage_names', size=5),
      T('nlp.stage_names', size=7), T('nlp.stage_names', size=0), T('nlp.read_text', sizes=[1, 2] * 30)] +
     [T('knowledge.long_sentence', **k) for k in LONG],
     [T('knowledge.pipeline', n=4, lemmas=('the',)), T('knowledge.pipeline', n=3, debug=True, lemmas=('the',)), T('knowledge.pipeline', n=3, ents=('', 'GPE', 'ORG')),
      T('knowledge.pipeline', n=5, lemmas=('the',), deps=('det', 'nsubj'), poss=('VERB', 'NOUN'))] + [T('knowledge.long_sentence', **k) for k in LONGER],
     bounds='all dependency trees with up to 4 (thorough: 5) tokens over a part of the dependencies; sentences of 40 to 120 words of which one has any labels, through all stages but delta; texts of up to 3 sentences, and of 60; '
            'any stage name of 0, 4, 5 or 7 characters; ' + WORDS,
     outside='longer sentences; an extractor whose first stage is not alpha')

prop('C33',
     [T('knowledge.tree_ops', n=3, op='read'), T('knowledge.tree_ops', n=2, op='read', wraps=2),
      T('knowledge.tree_ops', n=3, op='read', marks=True), T('knowledge.tree_ops', n=4, op='read', same=True, deps=('det',), poss=('NOUN',)), T('knowledge.tree_ops', n=3, op='nesting', wraps=3)] +
     [T('knowledge.tree_ops', n=3, op=op, wraps=1, marks=True) for op in ('flatten', 'enclose', 'clone', 'grow', 'compound')] +
     [T('knowledge.tree_ops', n=4, op=op, wraps=1, marks=True) for op in ('flatten', 'enclose', 'clone')] +
     [T('knowledge.tree_ops', n=0, op=op, poss=('VERB',), deps=('det',), **k) for k in (dict(deep=20), dict(wide=40))
      for op in ('read', 'flatten', 'enclose', 'clone', 'grow', 'compound', 'nesting')],
     [T('knowledge.tree_ops', n=4, op='read', wraps=1)] +
     [T('knowledge.tree_ops', n=4, op=op, wraps=1, marks=True) for op in ('grow', 'compound')] +
     [T('knowledge.tree_ops', n=4, op='nesting', wraps=3)],
     bounds='all trees with up to 3 (thorough: 4) leaves and up to three nodes with one child, any nodes compounds; one operation '
            'at any element; trees of 20 levels or 40 children',
     outside='larger trees; taking an element out of its tree by hand')

prop('C34',
     [T('nlp.parser', sizes=[1], size=[0, 2], cls='bmp'), T('nlp.parser', sizes=[2], cls='ascii_ws'),
      T('nlp.parser', sizes=[2, 1], cls='ascii_ws'), T('nlp.parser', sizes=[1, 1], twice=True, cls='ascii_ws'),
      T('nlp.parser', sizes=[3], cls='lower'), T('nlp.parser', sizes=[4], cls='lower'), T('nlp.parser', sizes=[], cls='lower'), T('nlp.parser', sizes=[5], cls='lower')] +
     [T('nlp.parser_long', **k) for k in (dict(sentences=1, n=80, form='right'), dict(sentences=1, n=80, form='left'), dict(sentences=1, n=150, form='fan'), dict(sentences=40, n=5, form='tree'))],
     [T('nlp.parser', sizes=[3, 3], cls='lower'), T('nlp.parser', sizes=[1, 2, 1], twice=True, cls='lower'),
      T('nlp.parser', sizes=[1], size=[1, 2], cls='any')],
     bounds='all dependency trees over up to 5 (thorough: 6) tokens in up to two (thorough: three) sentences; a sentence of 150 words, 40 sentences; words of up to two '
            'characters, any other data',
     outside='what spaCy finds in a text; longer words',
     assumptions=['the stand-in for spaCy gives a new, equal object each time a token is asked for, as spaCy does'])

prop('C35',
     [T('nlp.listed', n=1), T('nlp.listed', n=2), T('nlp.listed', n=3), T('nlp.equality'), T('nlp.sentence', n=0), T('nlp.sentence', n=3),
      T('nlp.sentence', n=2, size=[0, 2], cls='bmp'), T('nlp.label_tree', n=1), T('nlp.label_tree', n=3), T('nlp.label_twins'), T('nlp.listed', n=4)] +
     [T('nlp.listed_long', n=40, form=f) for f in ('right', 'left', 'fan', 'tree', 'comb')],
     [T('nlp.equality', size=2), T('nlp.label_tree', n=4), T('nlp.sentence', n=3, size=[0, 2], cls='any')],
     bounds='all dependency trees with up to 4 tokens, any words of up to two characters; sentences of 40 words of which one is arbitrary',
     outside='longer sentences; how asciitree draws the tree')

# -------------------------------------------------------------------- readers
prop('C36',
     [T('readers.wordnet', counts=[2, 1]), T('readers.wordnet', counts=[1], srels=list(range(9)), parts=['n']),
      T('readers.wordnet', counts=[1, 1], srels=[0, 1], parts=['n']), T('readers.wordnet', counts=[2], lrels=[0], parts=['a']),
      T('readers.wordnet', counts=[2], lrels=[1], parts=['a']), T('readers.wordnet', counts=[2], lrels=[2], parts=['a']),
      T('readers.wordnet', counts=[1, 2], srels=[0], parts=['n']), T('readers.wordnet', counts=[2, 1], again=True), T('readers.wordnet', counts=[2, 1], buffered=1), T('readers.wordnet_many', n=260)],
     [T('readers.wordnet', counts=[1, 1, 1], srels=[5], parts=['v']), T('readers.wordnet', counts=[3, 2]),
      T('readers.wordnet', counts=[1], srels=[0], lrels=[0, 1, 2], size=2),
      T('readers.wordnet', counts=[2], lrels=[0, 2], parts=['a']), T('readers.wordnet', counts=[1, 1], srels=[2, 8], parts=['n'])],
     bounds='up to 3 (thorough: 5) lemmas in up to two (thorough: three) synsets with any names of one letter (thorough: two), any '
            'part of speech, any relations of the listed kinds among them; 260 synsets with 520 lemmas of which one has any name',
     outside='the content of WordNet; other parts of speech',
     assumptions=['nltk gives synsets and lemmas with the methods of its WordNet reader'])

prop('C37',
     [T('readers.wikidump', n=0), T('readers.wikidump', n=3, kinds=['page', 'title', 'close', 'text'], size=0, first=True), T('readers.wikidump', n=1, size=2, cls='line', first=True), T('readers.wikidump', n=5, size=1, cls='line', seq=['text', 'page', 'colon', 'close', 'text']),
      T('readers.wikidump', n=4, size=1, cls='line', seq=['page', 'title', 'close', 'text']), T('readers.wikidump', n=2, size=2, cls='line'), T('readers.wikidump', n=1, size=6, cls='line'),
      T('readers.wikidump', n=3, kinds=['page', 'title', 'colon', 'close', 'text'], size=1, cls='line'),
      T('readers.wikidump', n=5, kinds=['page', 'title', 'colon', 'close', 'text'], size=0),
      T('readers.wikidump_long', pages=60, cls='sym'), T('readers.wikidump_long', pages=3, head=200, body=400, cls='sym'),
      T('readers.wikidump_long', pages=400, head=0, body=1, cls='sym')],
     [T('readers.wikidump', n=3, kinds=['page', 'title', 'colon', 'close', 'text'], size=2, cls='line'),
      T('readers.wikidump', n=1, size=8, cls='line'), T('readers.wikidump', n=3, kinds=['page', 'title'], size=3, cls='line'),
      T('readers.wikidump', n=7, kinds=['page', 'title', 'colon', 'close', 'text'], size=0)],
     bounds='one dump, or two of which the first may break off; dumps of up to 5 (thorough: 7) lines, each with a tag and up to two (thorough: three) arbitrary characters, or up to '
            'six (thorough: eight) arbitrary characters; dumps of up to 400 pages, or 1800 lines, of which one title is arbitrary',
     outside='longer dumps; a dump that breaks off before a title; encodings')

prop('C38',
     [T('readers.cli', run='create'), T('readers.cli', run='wordnet', size=2), T('readers.cli', run='shell', size=2), T('readers.cli', size=0),
      T('readers.cli', run='create', first='mysql'), T('readers.cli', run='shell', first='sqlite', backends=('sqlite', 'null'))],
     [T('readers.cli', run=r, size=4) for r in ('create', 'wordnet', 'shell')],
     bounds='any of the options given or not, with any text of up to two (thorough: four) characters; each command, also after another one in the process',
     outside='what click does with a command line; unknown backends, which C25 covers',
     assumptions=['click passes each option, or its default, to the function it decorates'])

# ------------------------------------------------------------- what asking does
prop('C40',
     [T('store.pure', shapes=[S2, S3]), T('store.pure', shapes=[S2, ('=r', 's')]), T('store.pure', shapes=[S2, L2], steps=2),
      T('store.pure', shapes=[S2, ('=r', 's')], batch=True), T('store.pure', shapes=[S2], backend='null'), T('store.pure', shapes=[N3]),
      T('store.given', shapes=[S2, S2]), T('store.given', shapes=[S2, L2]), T('store.given', shapes=[S2, L2], batch=True), T('store.given', shapes=[S2, ('=r', 's'), S2], batch=True)],
     [T('store.pure', shapes=[S3, S3]), T('store.pure', shapes=[S2, S2, L2]), T('store.pure', shapes=[N3, L2], steps=2), T('store.pure', shapes=[('=r', 's', 's'), ('=r', 's', 's'), ('=r', 's', 's')]),
      T('store.given', shapes=[S3, N3, S2]), T('store.given', shapes=[S2, S2, S2], batch=True)],
     bounds='one or two stored edges (thorough: three) of the listed shapes with arbitrary symbols and perhaps a belief; one question, asked three times, after '
            'which the hypergraph and perhaps a removal are compared with the model; lists of two or three edges given to one operation; ' + DOMAIN,
     outside='a hypergraph changed while f_all is under way; edges that are lists and changed after they were added')

prop('C41',
     [T('knowledge.untouched', n=2, what='read', deps='all'), T('knowledge.untouched', n=3, what='read'), T('knowledge.untouched', n=2, what='turns'),
      T('knowledge.untouched', n=3, what='turns', lemmas=('the',), ents=('',)), T('knowledge.untouched', n=3, what='ask', ents=('',)),
      T('knowledge.asked_tree', n=3), T('knowledge.asked_tree', n=2, wraps=2), T('knowledge.asked_tree', n=3, wraps=1)],
     [T('knowledge.untouched', n=3, what='turns'), T('knowledge.untouched', n=3, what='ask'), T('knowledge.untouched', n=4, what='read', lemmas=('the',), ents=('',), poss=('VERB', 'NOUN')),
      T('knowledge.asked_tree', n=4, wraps=1)],
     bounds='all dependency trees with up to 3 (thorough: 4) tokens over a part of the dependencies, next to a second sentence of two words; all semantic trees with up '
            'to 3 (thorough: 4) leaves; labels are any of those the stages know',
     outside='longer sentences; more than two sentences at once')
