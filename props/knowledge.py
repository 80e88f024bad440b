"""The stages that turn a parsed sentence into an edge, against references that work on nested lists."""
NEEDS = ('gb.knowledge.extractor', 'gb.knowledge.semantic_tree', 'gb.knowledge.stages.alpha', 'gb.knowledge.stages.beta',
         'gb.knowledge.stages.gamma', 'gb.knowledge.stages.delta', 'gb.knowledge.stages.epsilon', 'gb.nlp.nlp_token',
         'gb.nlp.sentence', 'gb.hypergraph.symbol', 'gb.hypergraph.edge')

# labels that the stages know, and others
NEST = ('aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod')
FIRST = ('pcomp', 'compound')
NAMES = ('pobj', 'compound', 'dobj', 'nsubj')
DEPS = NEST + FIRST + ('pobj', 'dobj', 'nsubj', 'prep', 'punct', '', 'conj', 'xcomp', 'nsubjpass', 'acomp', 'attr', 'relcl')
REL = ('VERB', 'ADV', 'ADP', 'PART')
POS = REL + ('DET', 'NOUN', 'PROPN', 'PUNCT', 'ADJ', 'NUM', 'PRON', 'SPACE', 'X', '')
ARTICLES = ('the', 'an', 'a')
LEMMAS = ARTICLES + ('this', 'be', '')
ENTS = ('', 'GPE', 'ORG')


def forests(n):
    """All ordered lists of dependency trees with n tokens: a tree is (left trees, right trees)."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for t in trees(k):
            for rest in forests(n - k):
                out.append((t,) + rest)
    return out


def trees(n):
    out = []
    for k in range(n):
        for left in forests(k):
            for right in forests(n - 1 - k):
                out.append((left, right))
    return out


def plain_trees(n):
    """All trees with n leaves whose inner nodes have two or more children: a leaf is None."""
    if n == 1:
        return [None]
    out = []

    def split(left, parts):
        if left == 0:
            if len(parts) >= 2:
                combos = [()]
                for p in parts:
                    combos = [c + (t,) for c in combos for t in plain_trees(p)]
                out.extend(combos)
            return
        for p in range(1, left + 1):
            if p < n:
                split(left - p, parts + [p])
    split(n, [])
    return out


def token(env, i, word=None, deps=DEPS, poss=POS, lemmas=('x', 'the'), ents=ENTS, none=False,
          at=-1, free=()):
    t = env.mod('gb.nlp.nlp_token').Token(word or 'w%d' % i)
    t.dep = env.enum('dep%d' % i, deps)
    t.pos = env.enum('pos%d' % i, poss)
    t.lemma = env.enum('lemma%d' % i, lemmas)
    t.entity_type = None if none and env.flag('noent%d' % i) else env.enum('ent%d' % i, ents)
    if i == at:                     # any text at all
        for label, size in free:
            v = env.str('free.' + label, size, 'any')
            env.assume(v != 'ROOT')
            setattr(t, label, v)
    t.shape = env.enum('shape%d' % i, ('xx', 'Xx', '.'))
    t.left_children = []
    t.right_children = []
    return t


def parse(env, shape, tokens, deps=DEPS, **k):
    """A parsed sentence with this shape."""
    i = len(tokens)
    t = token(env, i, deps=('ROOT',) if i == 0 else deps, **k)
    tokens.append(t)
    left, right = shape
    t.left_children = [parse(env, s, tokens, deps, **k) for s in left]
    t.right_children = [parse(env, s, tokens, deps, **k) for s in right]
    for c in t.left_children + t.right_children:
        c.parent = t
    return t


def plain_token(env, i, dep, pos='NOUN', lemma='x'):
    t = env.mod('gb.nlp.nlp_token').Token('v%d' % i)
    t.dep, t.pos, t.lemma, t.entity_type, t.shape = dep, pos, lemma, '', 'xx'
    t.left_children, t.right_children = [], []
    return t


def plain_sentence(env, shape, tokens, dep):
    """A parsed sentence with this shape, all words of which but the first have the dependency."""
    t = plain_token(env, len(tokens), dep if tokens else 'ROOT')
    tokens.append(t)
    t.left_children = [plain_sentence(env, s, tokens, dep) for s in shape[0]]
    t.right_children = [plain_sentence(env, s, tokens, dep) for s in shape[1]]
    for c in t.left_children + t.right_children:
        c.parent = t
    return t


def plain_tree(env, shape, **k):
    """A tree with this shape, all words of which have the same labels."""
    tree = env.mod('gb.knowledge.semantic_tree').Tree()
    n = []

    def make(shape):
        if shape is None:
            t = plain_token(env, len(n), **k)
            n.append(t)
            return tree.create_leaf(t).id, t
        parts = [make(s) for s in shape]
        return tree.create_node([p[0] for p in parts]).id, Ref([p[1] for p in parts])
    tree.root_id, ref = make(shape)
    return tree, ref


def order(t):
    out = []
    for c in t.left_children:
        out = out + order(c)
    out = out + [t]
    for c in t.right_children:
        out = out + order(c)
    return out


def kept(t):
    """The tokens that are not left out: punctuation, and words without a function, go with all that depends on them."""
    out = [t]
    for c in t.left_children + t.right_children:
        if c.dep == '' or c.dep == 'punct':
            continue
        out = out + kept(c)
    return out


# ------------------------------------------------------------------- alpha

class Part(object):
    def __init__(self, t):
        self.items = [t]
        self.node = False
        self.layers = []


def verb_in(x):
    if isinstance(x, list):
        for y in x:
            if verb_in(y):
                return True
        return False
    return x.pos == 'VERB'


def alpha_ref(t, top=None):
    me = Part(t)
    if top is None:
        top = me
    kids = [(c, False) for c in t.left_children] + [(c, True) for c in t.right_children]
    for c, right in kids:
        d = c.dep
        if d == '' or d == 'punct':
            continue
        if d in NEST or (d == 'prep' and not verb_in(me.items)):
            x = alpha_ref(c, top)
            top.node = True
            if isinstance(x, list):
                top.layers.append((x[0], x[1:]))
            else:
                top.layers.append((x, []))
            continue
        x = alpha_ref(c)
        me.node = True
        if d in FIRST:
            if not isinstance(me.items[0], list):
                me.items[0] = [me.items[0]]
            if right:
                me.items[0].append(x)
            else:
                me.items[0].insert(0, x)
        else:
            me.items.append(x)
    if not me.node:
        return t
    inner = me.items
    for rel, rest in me.layers[::-1]:
        inner = [rel, inner[0] if len(inner) == 1 else inner] + rest
    return inner


def unnest(x):
    if not isinstance(x, list):
        return x
    x = [unnest(y) for y in x]
    if len(x) == 1 and isinstance(x[0], list):
        return x[0]
    return x


def text(x):
    if isinstance(x, list):
        return '(%s)' % ' '.join([text(y) for y in x])
    return x.word


def alpha(env, n, poss=POS, deps=DEPS, at=-1, free=(), wide=False, first=''):
    """Modifiers enclose what they modify, compounds join the head, other dependents become arguments, in order."""
    shape = ((), ((((), ()),) * (n - 1))) if wide else env.choose('shape', trees(n))
    if first:                       # another sentence came before
        old = plain_sentence(env, shape, [], first)
        s = env.mod('gb.nlp.sentence').Sentence(order(old))
        was = str(env.mod('gb.knowledge.stages.alpha').AlphaStage().process_sentence(s))
        env.check(was == text(unnest(alpha_ref(old))), 'the alpha stage builds another tree')
    tokens = []
    root = parse(env, shape, tokens, deps, poss=poss, at=at, free=free)
    s = env.mod('gb.nlp.sentence').Sentence(order(root))
    tree = env.mod('gb.knowledge.stages.alpha').AlphaStage().process_sentence(s)
    got = str(tree)
    env.observe('tree', got)
    words = got.replace('(', ' ').replace(')', ' ').split()
    env.check(sorted(words) == sorted([t.word for t in kept(root)]), 'a word is lost or doubled by the alpha stage')
    env.check(got == text(unnest(alpha_ref(root))), 'the alpha stage builds another tree')


# ------------------------------------------------- trees for the later stages

class Ref(object):
    """A tree of lists: leaves are tokens, inner nodes have children and may be compounds."""

    def __init__(self, kids, compound=False):
        self.kids = kids
        self.compound = compound


def build_tree(env, tree, shape, tokens, marks=False, **k):
    """(id of the element in the tree, the same as a reference)"""
    if shape is None:
        t = token(env, len(tokens), **k)
        tokens.append(t)
        return tree.create_leaf(t).id, t
    parts = [build_tree(env, tree, s, tokens, marks, **k) for s in shape]
    node = tree.create_node([p[0] for p in parts])
    return node.id, Ref([p[1] for p in parts])


def set_marks(env, tree, eid, ref, n):
    """Marks any nodes as compounds, with everything in them."""
    if not isinstance(ref, Ref):
        return
    n[0] += 1
    if env.flag('compound%d' % n[0]):
        tree.get(eid).compound = True
        mark(ref)
        return
    for c, r in zip(tree.get(eid).children_ids, ref.kids):
        set_marks(env, tree, c, r, n)


def mark(ref):
    ref.compound = True
    for k in ref.kids:
        if isinstance(k, Ref):
            mark(k)


def show(x):
    if isinstance(x, Ref):
        ss = [show(k) for k in x.kids]
        return '_'.join(ss) if x.compound else '(%s)' % ' '.join(ss)
    return x.word


def leaves(x):
    if isinstance(x, Ref):
        out = []
        for k in x.kids:
            out = out + leaves(k)
        return out
    return [x]


def some_tree(env, n, marks=False, first=None, **k):
    shape = env.choose('shape', plain_trees(n))
    if first is not None:           # what is done with another tree before
        first(shape)
    tree = env.mod('gb.knowledge.semantic_tree').Tree()
    tokens = []
    tree.root_id, ref = build_tree(env, tree, shape, tokens, **k)
    if marks:
        set_marks(env, tree, tree.root_id, ref, [0])
    return tree, ref, tokens


# -------------------------------------------------------------------- beta

def beta_ref(x):
    if not isinstance(x, Ref):
        return x
    flat = not [k for k in x.kids if isinstance(k, Ref)]
    named = False
    if flat:
        e = x.kids[0].entity_type
        if e is not None and e != '':
            named = True
            for k in x.kids:
                if k.entity_type != e:
                    named = False
    if not named:
        named = True
        for t in leaves(x):
            if t.dep not in NAMES:
                named = False
                break
    return Ref([beta_ref(k) for k in x.kids], named)


def beta(env, n, ents=ENTS, deps=DEPS, none=False, at=-1, free=(), first=''):
    """Nodes are compounds when they are one named entity or made of names only; nothing else changes."""
    def other(shape):
        t, x = plain_tree(env, shape, dep=first)
        t = env.mod('gb.knowledge.stages.beta').BetaStage(None, t).process()
        env.check(str(t) == show(beta_ref(x)), 'the beta stage makes other compounds')
    tree, ref, tokens = some_tree(env, n, first=other if first else None, poss=('NOUN',), ents=ents, deps=deps, none=none, at=at, free=free)
    before = str(tree)
    out = env.mod('gb.knowledge.stages.beta').BetaStage(None, tree).process()
    got = str(out)
    env.observe('tree', got)
    env.check(before == show(ref), 'a tree is shown in another way')
    env.check(got == show(beta_ref(ref)), 'the beta stage makes other compounds')
    edge = env.mod('gb.knowledge.stages.epsilon').EpsilonStage(None, out).process()
    env.check(env.same(edge, epsilon_ref(beta_ref(ref))), 'after the beta stage the words have another name space')


# ------------------------------------------------------------------- gamma

def is_rel(x, shallow=False):
    if isinstance(x, Ref):
        for k in x.kids:
            if shallow and isinstance(k, Ref):
                return False
            if not is_rel(k):
                return False
        return True
    return x.pos in REL


def combine(first, second):
    head = second.kids[0]
    if isinstance(head, Ref) and not head.compound:
        return Ref([combine(first, head)] + second.kids[1:], second.compound)
    return Ref([joined([first, head])] + second.kids[1:], second.compound)


def gamma_ref(x):
    if not isinstance(x, Ref):
        return x
    x = Ref([gamma_ref(k) for k in x.kids], x.compound)
    if is_rel(x, True):
        return Ref(x.kids, True)
    if len(x.kids) == 2:
        a, b = x.kids
        if not isinstance(a, Ref) and a.pos == 'DET' and a.lemma in ARTICLES:
            return b
        if isinstance(b, Ref) and not b.compound and is_rel(a) and is_rel(b.kids[0]):
            return combine(a, b)
    return x


def gamma(env, n, poss=POS, lemmas=('the', 'an', 'a', 'this', 'The', ''), marks=False, at=-1, free=(), first=''):
    """Relations are joined into compounds, articles are left out, everything else stays."""
    def other(shape):
        t, x = plain_tree(env, shape, dep='nsubj', pos=first)
        t = env.mod('gb.knowledge.stages.gamma').GammaStage(t).process()
        env.check(str(t) == show(gamma_ref(x)), 'the gamma stage builds another tree')
    tree, ref, tokens = some_tree(env, n, marks, first=other if first else None, poss=poss, lemmas=lemmas, deps=('nsubj',), at=at, free=free)
    out = env.mod('gb.knowledge.stages.gamma').GammaStage(tree).process()
    got = str(out)
    env.observe('tree', got)
    words = got.replace('(', ' ').replace(')', ' ').replace('_', ' ').split()
    want = [t.word for t in leaves(gamma_ref(ref))]
    env.check(sorted(words) == sorted(want), 'the gamma stage loses or doubles a word')
    for t in tokens:
        if t.word not in words:
            env.check(t.pos == 'DET' and t.lemma in ARTICLES, 'the gamma stage loses a word that is no article')
    env.check(got == show(gamma_ref(ref)), 'the gamma stage builds another tree')


# ----------------------------------------------------------------- epsilon

def epsilon_ref(x, ns='1'):
    if isinstance(x, Ref):
        if x.compound:
            return '_'.join([t.word for t in leaves(x)]) + '/?'
        return tuple([epsilon_ref(k, ns) for k in x.kids])
    return x.word + '/' + ns


def epsilon(env, n, size=1, first=False):
    """Words become symbols with their name space, compounds one symbol, nodes edges, in the same order."""
    shape = env.choose('shape', plain_trees(n))
    if first:                       # another tree came before, and was made of compounds, or not
        t, x = plain_tree(env, shape, dep='nsubj')
        if isinstance(x, Ref) and env.flag('other.compound'):
            t.root().compound = True
            mark(x)
        for i in ids_of(t, t.root_id):
            t.get(i).namespace = '1'
        edge = env.mod('gb.knowledge.stages.epsilon').EpsilonStage(None, t).process()
        env.check(env.same(edge, epsilon_ref(x)), 'the epsilon stage makes another edge')
    tree = env.mod('gb.knowledge.semantic_tree').Tree()
    tokens = []
    tree.root_id, ref = build_tree(env, tree, shape, tokens)
    ns = env.choose('ns', ['1', 'x'])

    def name(eid):
        e = tree.get(eid)
        e.namespace = ns
        if e.is_node():
            for c in e.children_ids:
                name(c)
    name(tree.root_id)
    for i, t in enumerate(tokens):
        t.word = env.symbol('word%d' % i, size, 'letter')
    set_marks(env, tree, tree.root_id, ref, [0])
    got = env.mod('gb.knowledge.stages.epsilon').EpsilonStage(None, tree).process()
    env.observe('edge', got)
    env.check(env.same(got, epsilon_ref(ref, ns)), 'the epsilon stage makes another edge')


# ------------------------------------------------------------------- delta

def words_of(x):
    """The words of a shown tree, in order."""
    return x.replace('(', ' ').replace(')', ' ').replace('_', ' ').split()


def first_and_rest(x):
    """Splits the text of a node after its first element."""
    depth = 0
    for i, c in enumerate(x):
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        if depth == 1 and c == ' ':
            return x[1:i], x[i + 1:-1]
        if depth == 0:
            return (x, '') if x[0] != '(' else (x[1:-1], '')
    return x, ''


def is_subsequence(xs, ys):
    i = 0
    for y in ys:
        if i < len(xs) and xs[i] == y:
            i += 1
    return i == len(xs)


def terminal(x):
    return not isinstance(x, Ref) or x.compound


def flat(x):
    if not isinstance(x, Ref):
        return x
    out = []
    for k in x.kids:
        k = flat(k)
        if terminal(k):
            out.append(k)
        else:
            out = out + k.kids
    return Ref(out, x.compound)


def joined(kids):
    return Ref([joined(k.kids) if isinstance(k, Ref) else k for k in kids], True)


def arrangements(x):
    """All ways to move the relations of arguments up into the relation of the node."""
    if not isinstance(x, Ref):
        return [x]
    return arrange(x.kids[:1], x.kids[1:])


def arrange(work, rest):
    if not rest:
        return [Ref([flat(work[0])] + work[1:])]
    out = []
    child = rest[0]
    for c in arrangements(child):
        if isinstance(c, Ref) and is_rel(c.kids[0]):
            a, b = work[0], c.kids[0]
            rels = []
            if len(work) == 1:
                rels.append(Ref([b, a]))                        # in front
            if terminal(a) and terminal(b):
                rels.append(joined([a, b]))                     # one compound
            else:                                               # joined where they meet
                a1, a2 = ([], a) if terminal(a) else (a.kids[:-1], a.kids[-1])
                b1, b2 = (b, []) if terminal(b) else (b.kids[0], b.kids[1:])
                rels.append(Ref(a1 + [joined([a2, b1])] + b2))
            if terminal(b):                                     # behind
                rels.append(Ref(([a] if terminal(a) else a.kids) + [b]))
            for r in rels:
                out = out + arrange([r] + work[1:] + c.kids[1:], rest[1:])
        out = out + arrange(work + [child], rest[1:])
    return out


def alike(x, y):
    if isinstance(x, Ref) != isinstance(y, Ref):
        return False
    if not isinstance(x, Ref):
        return x.word == y.word and x.pos == y.pos and x.dep == y.dep
    if len(x.kids) != len(y.kids):
        return False
    for a, b in zip(x.kids, y.kids):
        if not alike(a, b):
            return False
    return True


def arity(x):
    return len(x.kids) if isinstance(x, Ref) and not x.compound else 1


def under(x, rel, arg):
    """Is arg an argument of a node whose relation has a word of rel?"""
    if arity(x) < 2:
        return False
    shared = False
    for p in leaves(x.kids[0]):
        for q in leaves(rel):
            if not shared and alike(p, q):
                shared = True
    if shared:
        for k in x.kids[1:]:
            if alike(k, arg):
                return True
    for k in x.kids[1:]:
        if under(k, rel, arg):
            return True
    return False


def fit(x, original):
    if not isinstance(x, Ref) or not is_rel(x.kids[0]):
        return 0
    rel = x.kids[0]
    n = 0
    if arity(rel) == 1 and len(x.kids) == 2 or arity(rel) == len(x.kids) - 2:
        n = 1000
    if not terminal(rel):
        for i in range(min(arity(rel), arity(x) - 2)):
            if i == 0 and under(original, rel.kids[0], x.kids[1]):
                n += 100
            if under(original, rel.kids[i], x.kids[i + 2]):
                n += 100
    return n


def delta_ref(x):
    if terminal(x) or not is_rel(x.kids[0]):
        return x
    best, most = None, -1
    for c in arrangements(x):
        f = fit(c, x)
        if f > most:
            best, most = c, f
    return best


def delta(env, n, poss=('VERB', 'ADP', 'NOUN'), marks=False, twins=False, exact=True, at=-1, free=(), first=''):
    """Relations move up into the relation in front; every word stays, and the arguments keep their order."""
    def other(shape):
        t, x = plain_tree(env, shape, dep='nsubj', pos=first)
        want = show(delta_ref(x))
        t = env.mod('gb.knowledge.stages.delta').DeltaStage(t).process()
        env.check(str(t) == want, 'the delta stage does not choose the first arrangement with the best fit')
    tree, ref, tokens = some_tree(env, n, marks, first=other if first else None, poss=poss, deps=('nsubj',), at=at, free=free)
    if twins:                       # the same word twice
        i, j = env.choose('twin', [(i, j) for j in range(1, n) for i in range(j)])
        tokens[j].word = tokens[i].word
    before = str(tree)
    want = show(delta_ref(ref)) if exact else ''
    out = env.mod('gb.knowledge.stages.delta').DeltaStage(tree).process()
    got = str(out)
    env.observe('tree', got)
    env.check(sorted(words_of(got)) == sorted([t.word for t in tokens]), 'the delta stage loses or doubles a word')
    if not isinstance(ref, Ref) or ref.compound or not is_rel(ref.kids[0]):
        env.check(got == before, 'the delta stage changes a tree that is no relationship')
    else:
        rel, args = first_and_rest(got)
        for w in words_of(rel):
            for t in tokens:
                if t.word == w and not twins:
                    env.check(t.pos in REL, 'the delta stage moves a word into the relationship that is none')
        env.check(is_subsequence(words_of(args), words_of(before)), 'the delta stage changes the order of the arguments')
    if exact:
        env.check(got == want, 'the delta stage does not choose the first arrangement with the best fit')


# ---------------------------------------------------------------- pipeline

STAGES = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')


def as_ref(x):
    if isinstance(x, list):
        return Ref([as_ref(y) for y in x])
    return x


def one_by_one(root, upto):
    """What the stages make of a sentence, one after the other."""
    r = as_ref(unnest(alpha_ref(root)))
    out = [show(r)]
    for i, f in enumerate((beta_ref, gamma_ref, delta_ref)):
        if upto > i + 1:
            r = f(r)
            out.append(show(r))
    if upto > 4:
        r = epsilon_ref(r)
        out.append(r)
    return out


FEW = ('punct', 'det', 'prep', 'compound', 'nsubj', 'xcomp')


def pipeline(env, n, deps=FEW, poss=('VERB', 'NOUN', 'DET'), lemmas=('the', 'x'), ents=('',), before='', debug=False):
    """A sentence goes through the stages in order, each of which works on what the one before made."""
    shape = env.choose('shape', trees(n))
    upto = env.choose('stages', (5,)) if n > 3 else env.choose('stages', (1, 2, 3, 4, 5))
    tokens = []
    root = parse(env, shape, tokens, poss=poss, lemmas=lemmas, ents=ents)
    for t in tokens[1:]:
        t.dep = env.enum('d' + t.word, deps)
    s = env.mod('gb.nlp.sentence').Sentence(order(root))
    ex = env.mod('gb.knowledge.extractor').Extractor(None, STAGES[:upto])
    if debug:
        ex.debug = True
        said = []
        read = ex.read_sentence
        ex.read_sentence = lambda s: said.append(env.capture(lambda: out.append(read(s)))) or out.pop()
        out = []
    if before == 'other':               # an extractor that has read another sentence
        tokens2 = []
        root2 = parse(env, ((), ()), tokens2, poss=('VERB',), lemmas=('x',))
        for t in tokens2[1:]:
            t.dep = 'nsubj'
        first = ex.read_sentence(env.mod('gb.nlp.sentence').Sentence(order(root2)))
        old = str(first)
    elif before == 'same':
        first = ex.read_sentence(s)
        old = list(ex.outputs)
    got = ex.read_sentence(s)
    if before == 'same':
        env.check(ex.outputs == old, 'the same sentence read again has other outputs')
        env.check(env.same(got, first) if upto == 5 else str(got) == str(first), 'the same sentence read again gives another result')
    elif before == 'other':
        env.check(str(first) == old, 'what became of a sentence changes when another one is read')
    env.observe('outputs', ex.outputs)
    want = one_by_one(root, upto)
    env.check(len(ex.outputs) == upto, 'not one output for each stage')
    for i in range(min(upto, 4)):
        env.check(ex.outputs[i] == want[i], 'the output of the %s stage is another' % STAGES[i])
    if upto < 5:
        env.check(str(got) == want[-1], 'the result is not that of the last stage')
        return
    env.check(env.same(got, want[4]), 'the sentence becomes another edge')
    env.check(ex.outputs[4] == str(want[4]), 'the output of the epsilon stage is another')
    # nothing but articles, punctuation and words without a function is left out
    have = symbols_in(got)
    for t in kept(root):
        env.check(t.word in have or (t.pos == 'DET' and t.lemma in ARTICLES), 'a word of the sentence is lost')
    env.check(len(have) == len(set(have)), 'a word of the sentence is doubled')
    if isinstance(got, tuple):
        ed = env.mod('gb.hypergraph.edge')
        env.check(env.same(ed.str2edge(ed.edge2str(got)), got), 'the edge cannot be read back')


LONG = tuple(d for d in DEPS if d not in ('', 'punct'))


def big(n, form):
    """A dependency tree of n tokens: a chain to the right, to the left or both ways, a fan, or a balanced tree."""
    if n == 1:
        return ((), ())
    if form == 'right':
        return ((), (big(n - 1, form),))
    if form == 'left':
        return ((big(n - 1, form),), ())
    if form == 'zigzag':
        return ((big(n - 1, 'zagzig'),), ())
    if form == 'zagzig':
        return ((), (big(n - 1, 'zigzag'),))
    if form == 'fan':
        m = (n - 1) // 2
        return ((((), ()),) * m, (((), ()),) * (n - 1 - m))
    if form == 'comb':                          # every head has a dependent on both sides, one of which goes on
        if n < 4:
            return big(n, 'fan')
        return ((((), ()),), (big(n - 2, form),))
    parts = [k for k in ((n - 1 + i) // 4 for i in range(4)) if k]
    trees = [big(k, form) for k in parts]
    return (tuple(trees[:len(trees) // 2]), tuple(trees[len(trees) // 2:]))


def long_sentence(env, n, form, stages=('alpha', 'beta', 'gamma', 'epsilon'), deps=LONG, poss=('NOUN', 'VERB', 'DET', 'ADP'), step=1,
                  ents=('',), lemmas=('the', 'x'), free=DEPS):
    """A long sentence, one token of which has any labels, goes through the stages like a short one."""
    at = env.choose('at', (0, 1, n // 2, n - 1))
    tokens = []

    def make(shape):
        i = len(tokens)
        t = env.mod('gb.nlp.nlp_token').Token('w%d' % i)
        tokens.append(t)
        t.dep, t.pos, t.lemma = deps[(i * step) % len(deps)], poss[i % len(poss)], lemmas[i % len(lemmas)]
        t.entity_type, t.shape = ents[i % len(ents)], 'xx'
        if i == at:
            t.dep = env.enum('dep', free)
            t.pos = env.enum('pos', REL + ('DET', 'NOUN'))
            t.entity_type = env.enum('ent', ENTS)
            t.lemma = env.enum('lemma', ('the', 'x'))
        if i == 0:
            t.dep = 'ROOT'
        t.left_children = [make(s) for s in shape[0]]
        t.right_children = [make(s) for s in shape[1]]
        for c in t.left_children + t.right_children:
            c.parent = t
        return t
    root = make(big(n, form))
    ex = env.mod('gb.knowledge.extractor').Extractor(None, stages)
    got = ex.read_sentence(env.mod('gb.nlp.sentence').Sentence(order(root)))
    r = as_ref(unnest(alpha_ref(root)))
    want = [show(r)]
    for st, f in (('beta', beta_ref), ('gamma', gamma_ref), ('delta', delta_ref)):
        if st in stages:
            r = f(r)
            want.append(show(r))
    if 'epsilon' in stages:
        r = epsilon_ref(r)
        want.append(str(r))
    env.observe('output', ex.outputs[-1])
    env.check(len(ex.outputs) == len(want), 'not one output for each stage of a long sentence')
    for name, a, b in zip(stages, ex.outputs, want):
        env.check(a == b, 'a long sentence has another output of the %s stage' % name)
    if 'epsilon' in stages:
        env.check(env.same(got, r), 'a long sentence becomes another edge')
    else:
        env.check(str(got) == want[-1], 'the result of a long sentence is not that of the last stage')


def symbols_in(e):
    if isinstance(e, tuple):
        out = []
        for x in e:
            out = out + symbols_in(x)
        return out
    return e.split('/')[0].split('_')


# -------------------------------------------------------------------- trees

def loose_trees(n, wraps):
    """All trees with n leaves and at most this many nodes with one child."""
    out = []
    if n == 1:
        out.append(None)
    for k in range(0, wraps + 1):
        if k:
            out.extend((t,) for t in loose_trees(n, k - 1))
        if n > 1:
            out.extend(split_loose(n, k))
    return list(dict.fromkeys(out))


def split_loose(n, wraps):
    out = []

    def go(left, w, parts):
        if left == 0:
            if len(parts) >= 2:
                out.append(tuple(parts))
            return
        for m in range(1, left + 1):
            if m == n:
                continue
            for k in range(0, w + 1):
                for t in loose_trees(m, k):
                    go(left - m, w - k, parts + [t])
    go(n, wraps, [])
    return list(dict.fromkeys(out))


def ids_of(tree, eid):
    out = [eid]
    e = tree.get(eid)
    if e.is_node():
        for c in e.children_ids:
            out = out + ids_of(tree, c)
    return out


def refs_of(x):
    out = [x]
    if isinstance(x, Ref):
        for k in x.kids:
            out = out + refs_of(k)
    return out


def collapsed(x):
    if not isinstance(x, Ref):
        return x
    kids = [collapsed(k) for k in x.kids]
    if len(kids) == 1 and isinstance(kids[0], Ref):
        return kids[0]
    return Ref(kids, x.compound)


def replaced(x, old, new):
    if x is old:
        return new
    if isinstance(x, Ref):
        return Ref([replaced(k, old, new) for k in x.kids], x.compound)
    return x


def equal_refs(a, b):
    if isinstance(a, Ref) != isinstance(b, Ref):
        return False
    if not isinstance(a, Ref):
        return a.word == b.word and a.pos == b.pos and a.dep == b.dep
    if len(a.kids) != len(b.kids):
        return False
    for x, y in zip(a.kids, b.kids):
        if not equal_refs(x, y):
            return False
    return True


def large_trees(deep, wide):
    left = right = mid = alone = None
    for _ in range(deep):
        left, right, mid, alone = (left, None), (None, right), (None, mid, None), (alone,)
    return [left, right, mid, (None, alone)] if deep else [(None,) * wide, ((None,) * wide, None), (None, (None,) * wide, None)]


def tree_ops(env, n, wraps=0, marks=False, op='read', poss=('VERB', 'NOUN'), deps=('nsubj', 'det'), deep=0, wide=0, same=False):
    """Operations on a tree do to it what they do to nested lists, and nothing else."""
    st = env.mod('gb.knowledge.semantic_tree')
    tree = st.Tree()
    if deep or wide:                # a large tree
        shape = env.choose('shape', large_trees(deep, wide))
    else:
        shape = env.choose('shape', loose_trees(n, wraps))
    tokens = []
    tree.root_id, ref = build_tree(env, tree, shape, tokens, poss=poss, deps=deps)
    if same:                        # words that look the same
        for t in tokens:
            t.word = env.enum('v' + t.word, ('w', 'v'))
    if marks:
        set_marks(env, tree, tree.root_id, ref, [0])
    ids, refs = ids_of(tree, tree.root_id), refs_of(ref)
    env.check(str(tree) == show(ref), 'a tree is shown in another way')
    if op == 'read':
        for i, x in zip(ids, refs):
            e = tree.get(i)
            env.check(e.id == i and e.tree is tree, 'an element does not know where it is')
            env.check(e.is_leaf() == (not isinstance(x, Ref)) and e.is_node() == isinstance(x, Ref), 'an element is of another kind')
            env.check(e.is_terminal() == terminal(x) and e.is_not_terminal() == (not terminal(x)), 'what is terminal is not, or the reverse')
            env.check(e.arity() == arity(x), 'an element has another arity')
            got = [f.token for f in e.flat_leafs()]
            env.check(len(got) == len(leaves(x)), 'an element has other leaves')
            for a, b in zip(got, leaves(x)):
                env.check(a is b, 'an element has other leaves, or in another order')
            for p in ('VERB', 'ADP'):
                has = False
                for t in leaves(x):
                    if t.pos == p:
                        has = True
                env.check(e.has_pos(p) == has, 'a part of speech is not found, or one that is not there is')
                has = False
                for t in ([k for k in x.kids if not isinstance(k, Ref)] if isinstance(x, Ref) else [x]):
                    if t.pos == p:
                        has = True
                env.check(e.has_pos(p, True) == has, 'a part of speech is not found at the top, or one that is not there is')
            for p in ('det',):
                has = False
                for t in leaves(x):
                    if t.dep == p:
                        has = True
                env.check(e.has_dep(p) == has, 'a dependency is not found, or one that is not there is')
            if isinstance(x, Ref):
                env.check(e.is_singleton() == (len(x.kids) == 1), 'a node with one child is not one, or the reverse')
                env.check(e.is_node_singleton() == (len(x.kids) == 1 and isinstance(x.kids[0], Ref)), 'a node with one node is not one, or the reverse')
        for i, x in zip(ids, refs):
            for j, y in zip(ids, refs):
                want = equal_refs(x, y)
                env.check((tree.get(i) == tree.get(j)) == want, 'elements are wrongly taken to be equal, or not to be')
                env.check((tree.get(i) != tree.get(j)) == (not want), 'elements are wrongly taken to be different, or not to be')
    elif op == 'nesting':
        tree.remove_redundant_nesting()
        env.check(str(tree) == show(collapsed(ref)), 'nodes that hold only one node are left, or other nodes are taken out')
    elif op == 'flatten':
        k = env.choose('at', range(len(ids)))
        tree.get(ids[k]).flatten()
        env.check(str(tree) == show(replaced(ref, refs[k], flat(refs[k]))), 'flattening makes another tree')
    elif op == 'enclose':
        k = env.choose('at', range(len(ids)))
        e = tree.get(ids[k])
        node = tree.enclose(e)
        env.check(node.is_node() and tree.get(ids[k]) is node and node.get_child(0) is e and len(node.children_ids) == 1,
                  'an enclosed element is not alone in a node in its place')
        env.check(str(tree) == show(replaced(ref, refs[k], Ref([refs[k]]))), 'enclosing makes another tree')
        tree.disenclose(tree.get(ids[k]))
        env.check(tree.get(ids[k]) is e and e.id == ids[k], 'an element that is let out again is not in its place')
        env.check(str(tree) == show(ref), 'enclosing and letting out changes the tree')
    elif op == 'clone':
        k = env.choose('at', range(len(ids)))
        e = tree.get(ids[k])
        c = e.clone()
        x = refs[k]
        env.check(str(c) == show(x) and c == e, 'a copy is not equal')
        env.check(str(tree) == show(ref), 'copying changes the tree')
        if isinstance(x, Ref):
            old = [i for i, r in zip(ids, refs) if isinstance(r, Ref)]
            new = [i for i in ids_of(tree, c.id) if tree.get(i).is_node()]
            for i in new:
                env.check(i not in old, 'a copy shares nodes with the tree')
            twin = e.clone()
            env.check(str(twin) == show(x), 'a second copy is not equal')
            for i in ids_of(tree, twin.id):
                if tree.get(i).is_node():
                    env.check(i not in old and i not in new, 'two copies share nodes')
            c.children_ids.reverse()
            for i in new:
                tree.get(i).children_ids.append(ids[-1])
            env.check(str(tree) == show(ref), 'changing a copy changes the tree')
            d = e.clone()
            env.check(str(d) == show(x) and d == e, 'a second copy is not equal')
            was = str(c)
            mine = [i for i in ids_of(tree, d.id) if tree.get(i).is_node()]
            for i in mine:
                env.check(i not in old and i not in new, 'two copies share nodes')
                tree.get(i).compound = not tree.get(i).compound
            d.add_child(ids[-1])
            env.check(str(tree) == show(ref) and str(c) == was, 'changing a copy changes the tree or another copy')
    elif op == 'grow':
        k = env.choose('at', range(len(ids)))
        x = refs[k]
        t = token(env, len(tokens), poss=poss, deps=deps)
        new = tree.create_leaf(t).id
        how = env.choose('how', ['child', 'left', 'right'])
        e = tree.get(ids[k])
        if how == 'child':
            e.add_child(new)
            one, two = tree.create_node(), tree.create_node()          # nodes that start with nothing
            one.add_child(new)
            env.check(len(two.children_ids) == 0 and len(tree.create_node().children_ids) == 0 and len(one.children_ids) == 1,
                      'what is added to a node is added to others')
            want = Ref(x.kids + [t], x.compound) if isinstance(x, Ref) else Ref([x, t])
        else:
            P = st.Position
            e.add_to_first_child(new, P.LEFT if how == 'left' else P.RIGHT)
            kids = x.kids if isinstance(x, Ref) else [x]
            first = kids[0]
            inner = [first] if terminal(first) else first.kids
            inner = [t] + inner if how == 'left' else inner + [t]
            want = Ref([Ref(inner)] + kids[1:], isinstance(x, Ref) and x.compound)
        env.check(str(tree) == show(replaced(ref, x, want)), 'an element is added in another place')
    elif op == 'compound':
        k = env.choose('at', range(len(ids)))
        if isinstance(refs[k], Ref):
            flag = env.flag('value')
            tree.get(ids[k]).compound = flag

            def set_all(x):
                if isinstance(x, Ref):
                    x.compound = flag
                    for y in x.kids:
                        set_all(y)
            set_all(refs[k])
        for i, x in zip(ids, refs):
            env.check(tree.get(i).is_terminal() == terminal(x), 'another node becomes a compound')
        env.check(str(tree) == show(ref), 'compounds are shown in another way')
    env.observe('tree', str(tree))


FIELDS = ('word', 'lemma', 'shape', 'logprob', 'pos', 'dep', 'entity_type', 'separator')


def snapshot(tokens):
    return [([getattr(t, f) for f in FIELDS], t.parent, t.left_children, list(t.left_children), t.right_children, list(t.right_children))
            for t in tokens]


def as_before(tokens, snap):
    for t, (fields, parent, left, lefts, right, rights) in zip(tokens, snap):
        for f, v in zip(FIELDS, fields):
            if getattr(t, f) is not v:
                if type(getattr(t, f)) is not type(v) or getattr(t, f) != v:
                    return False
        if t.parent is not parent or t.left_children is not left or t.right_children is not right:
            return False
        for now, then in ((left, lefts), (right, rights)):
            if len(now) != len(then):
                return False
            for a, b in zip(now, then):
                if a is not b:
                    return False
    return True


def text_of(d):
    """A tree of labels as a list, independent of what becomes of the tree."""
    return [(k, text_of(d[k])) for k in d]


def untouched(env, n, what, deps=FEW, poss=('VERB', 'NOUN', 'DET'), lemmas=('the', 'x'), ents=('', 'ORG')):
    """Whatever is asked of a parsed sentence, or made of it, its tokens stay as the parser made them."""
    shape = env.choose('shape', trees(n))
    tokens = []
    root = parse(env, shape, tokens, poss=poss, lemmas=lemmas, ents=ents)
    for t in tokens[1:]:
        t.dep = env.enum('d' + t.word, DEPS if deps == 'all' else deps)
    given = order(root)
    s = env.mod('gb.nlp.sentence').Sentence(given)
    snap = snapshot(tokens)
    if what == 'read':
        ex = env.mod('gb.knowledge.extractor').Extractor(None)
        got = ex.read_sentence(s)
        outputs = list(ex.outputs)
        held = ex.outputs
        ex.read_sentence(env.mod('gb.nlp.sentence').Sentence([token(env, 9, 'other', deps=('ROOT',), poss=('NOUN',))]))
        env.check(held == outputs, 'outputs that were kept become those of another sentence')
        ex.outputs.append('mine')
        ex.outputs[0] = 'mine'
        env.observe('outputs', outputs)
        for stages in (STAGES, STAGES[:2], STAGES[:3]):
            again = env.mod('gb.knowledge.extractor').Extractor(None, stages)
            r = again.read_sentence(s)
            env.check(again.outputs == outputs[:len(stages)], 'a sentence that was read becomes something else when it is read again')
            if stages is STAGES:
                env.check(env.same(r, got), 'a sentence that was read becomes another edge when it is read again')
    elif what == 'turns':               # two extractors at work on two sentences
        mods = [env.mod('gb.knowledge.stages.' + m) for m in STAGES]
        A, B, G, D, E = [getattr(m, name.capitalize() + 'Stage') for m, name in zip(mods, STAGES)]
        other = []
        root2 = parse(env, ((), ()), other, poss=('VERB',), lemmas=('x',))
        t = token(env, 8, 'other', deps=('nsubj',), poss=('NOUN',))
        t.parent = root2
        root2.left_children = [t]
        other.append(t)
        s2 = env.mod('gb.nlp.sentence').Sentence(order(root2))
        want = one_by_one(root, 5)
        want2 = one_by_one(root2, 5)
        x, y = A(), A()
        first = env.flag('first')
        a, b = (x.process_sentence(s), y.process_sentence(s2)) if first else (lambda q: (x.process_sentence(s), q))(y.process_sentence(s2))
        for i, mk in enumerate((lambda q: B(None, q), G, D)):
            x, y = mk(a), mk(b)
            if env.flag('turn%d' % i):
                b = y.process()
                a = x.process()
            else:
                a = x.process()
                b = y.process()
            env.check(str(a) == want[i + 1] and str(b) == want2[i + 1], 'two sentences at work at once get into each other')
        x, y = E(None, a), E(None, b)
        p, q = x.process(), y.process()
        env.observe('edges', [str(p), str(q)])
        env.check(env.same(p, want[4]) and env.same(q, want2[4]), 'two sentences at work at once get into each other')
    else:
        text = str(s)
        env.check(s.root() is root, 'the root of the sentence is another token')
        one = s.label_tree()
        kept = text_of(one)
        for k in list(one):
            one[k].clear()
        one['mine'] = {}
        env.check(env.same(text_of(s.label_tree()), kept), 'what is done to the tree that is shown shows in the next one')
        env.observe('text', text)
        for t in tokens:
            str(t)
            for ask in (t.to_list, t.to_word_token_list):
                got = ask()
                kept = list(got)
                got.reverse()
                got.append('mine')
                again = ask()
                env.check(len(again) == len(kept), 'what is done to a list of tokens shows in the next one')
                for a, b in zip(again, kept):
                    env.check(a is b, 'what is done to a list of tokens shows in the next one')
            t.chunk_str()
        env.check(str(s) == text, 'a sentence has another text when it is asked again')
    env.check(as_before(tokens, snap), 'a token is changed')
    env.check(s.tokens is given and len(given) == len(tokens), 'the tokens of a sentence are changed')
    for a, b in zip(given, order(root)):
        env.check(a is b, 'the tokens of a sentence are changed')


def asked_tree(env, n, wraps=0, marks=True, deps=('nsubj', 'det'), poss=('VERB', 'NOUN'), then='grow'):
    """Asking about a tree changes no part of it, and what is done to the answers does not either."""
    tree = env.mod('gb.knowledge.semantic_tree').Tree()
    shape = env.choose('shape', loose_trees(n, wraps))
    tokens = []
    tree.root_id, ref = build_tree(env, tree, shape, tokens, poss=poss, deps=deps)
    if marks:
        set_marks(env, tree, tree.root_id, ref, [0])
    ids, refs = ids_of(tree, tree.root_id), refs_of(ref)

    def state():
        out = []
        for i in sorted(tree.table):
            e = tree.table[i]
            out.append((i, e, e.id, e.namespace, e.is_node() and (list(e.children_ids), e.compound, list(getattr(e, 'layer_ids', ())), getattr(e, 'layer_id', None))))
        return tree.root_id, tree.cur_id, out
    before = state()
    k = env.choose('at', range(len(ids)))
    e, x = tree.get(ids[k]), refs[k]
    for _ in range(2):
        env.check(str(tree) == show(ref) and str(e) == show(x), 'a tree is shown in another way when it is asked again')
        got = e.flat_leafs()
        env.check(len(got) == len(leaves(x)), 'an element has other leaves when it is asked again')
        for a, b in zip(got, leaves(x)):
            env.check(a.token is b, 'an element has other leaves when it is asked again')
        got.reverse()
        got.append('mine')
        if isinstance(x, Ref):
            got = e.children()
            env.check(len(got) == len(x.kids), 'an element has other children when it is asked again')
            got.reverse()
            got.append('mine')
            e.is_singleton()
            e.is_node_singleton()
            e.get_child(0)
        e.arity(), e.is_terminal(), e.is_not_terminal(), e.is_compound()
        for p in ('VERB', 'ADP'):
            e.has_pos(p), e.has_pos(p, True), e.has_dep('det'), e.has_dep('det', True)
        for j in ids:
            tree.get(j) == e
            tree.get(j) != e
        tree.root(), tree.get(None)
    env.check(state() == before, 'asking changes a tree')
    env.observe('tree', str(tree))
