"""Sentences and tokens, and how the parser makes them out of those of spaCy."""
NEEDS = ('gb.nlp.parser', 'gb.nlp.nlp_token', 'gb.nlp.sentence', 'gb.knowledge.extractor')

from props.knowledge import trees, order, big                      # noqa: E402

FIELDS = ('lemma', 'shape', 'logprob', 'pos', 'dep', 'entity_type')


class Stoken(object):
    """What spaCy gives for a token: equal, but not the same, each time it is asked for."""

    def __init__(self, doc, i):
        self.doc = doc
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Stoken) and self.doc is other.doc and self.i == other.i

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.i

    def __getattr__(self, name):
        if name == 'lefts':
            return [Stoken(self.doc, j) for j in self.doc.lefts[self.i]]
        if name == 'rights':
            return [Stoken(self.doc, j) for j in self.doc.rights[self.i]]
        if name == 'children':
            return [Stoken(self.doc, j) for j in self.doc.lefts[self.i] + self.doc.rights[self.i]]
        if name == 'head':
            return Stoken(self.doc, self.doc.heads[self.i])
        if name == 'idx':
            return 10 * self.i
        table = self.doc.data
        if name in table:
            return table[name][self.i]
        raise AttributeError(name)


class Span(object):
    def __init__(self, doc, start, end):
        self.doc = doc
        self.start = start
        self.end = end

    def __len__(self):
        return self.end - self.start

    def __iter__(self):
        return iter([Stoken(self.doc, i) for i in range(self.start, self.end)])

    def __getitem__(self, i):
        return Stoken(self.doc, self.start + i)


class Doc(object):
    """A parsed text: sentences, each a tree over its tokens."""

    def __init__(self, name):
        self.name = name
        self.lefts = []
        self.rights = []
        self.heads = []
        self.spans = []
        self.data = {}

    def __len__(self):
        return len(self.heads)

    def __getitem__(self, i):
        if i < 0 or i >= len(self.heads):
            raise IndexError(i)
        return Stoken(self, i)

    def __iter__(self):
        return iter([Stoken(self, i) for i in range(len(self.heads))])

    @property
    def sents(self):
        return iter([Span(self, a, b) for a, b in self.spans])

    def add(self, shape):
        start = len(self.heads)
        root = self.place(shape)
        self.heads[root] = root
        self.spans.append((start, len(self.heads)))

    def place(self, shape):
        left = [self.place(s) for s in shape[0]]
        me = len(self.heads)
        self.heads.append(None)
        self.lefts.append(left)
        self.rights.append(None)
        right = [self.place(s) for s in shape[1]]
        self.rights[me] = right
        for j in left + right:
            self.heads[j] = me
        return me


def document(env, name, sizes, size=1, cls='letter', plain=False):
    d = Doc(name)
    for k, n in enumerate(sizes):
        d.add(trees(n)[0] if plain else env.choose('%s.shape%d' % (name, k), trees(n)))
    n = len(d)
    if plain:
        words = [env.str('%s.word%d' % (name, i), size, cls) for i in range(n)]
        d.data = {'orth_': words, 'text': words, 'prob': [-1] * n}
        for k, v in (('lemma_', 'l'), ('shape_', 'x'), ('pos_', 'NOUN'), ('dep_', 'det'), ('ent_type_', ''), ('norm_', 'm'), ('tag_', 'NN')):
            d.data[k] = [v] * n
        return d
    d.data = {'orth_': [env.str('%s.word%d' % (name, i), size, cls) for i in range(n)],
              'lemma_': [env.str('%s.lemma%d' % (name, i), 1, 'letter') for i in range(n)],
              'shape_': [env.str('%s.shp%d' % (name, i), 1, 'letter') for i in range(n)],
              'prob': [env.int('%s.prob%d' % (name, i), -20, 0) for i in range(n)],
              'pos_': [env.enum('%s.pos%d' % (name, i), ('VERB', 'NOUN', '')) for i in range(n)],
              'dep_': [env.enum('%s.dep%d' % (name, i), ('ROOT', 'nsubj', 'det', '')) for i in range(n)],
              'ent_type_': [env.enum('%s.ent%d' % (name, i), ('', 'GPE')) for i in range(n)]}
    for near, far in (('text', 'orth_'), ('norm_', 'lemma_'), ('tag_', 'pos_')):
        d.data[near] = [env.str('%s.%s%d' % (name, near, i), 1, 'letter') if near != 'text' else d.data[far][i] for i in range(n)]
    return d


def parser(env, sizes, size=1, cls='letter', twice=False):
    """Every token of the text becomes one token with the same data, in the same sentence and the same tree."""
    docs = [document(env, 'a', sizes, size, cls)]
    if twice:
        docs.append(document(env, 'b', sizes, size, cls))
    loads = []

    def load(*a, **k):
        loads.append(a)
        return lambda text: docs[int(text)]
    env.hook('spacy.load', load)
    ps = env.mod('gb.nlp.parser').Parser()
    env.check(len(loads) == 1, 'the model is not loaded once')
    out = [(d, ps.parse_text(str(i))) for i, d in enumerate(docs)]
    seen = []
    for d, sents in out:
        env.check(len(sents) == len(d.spans), 'another number of sentences')
        flat = []
        for (a, b), s in zip(d.spans, sents):
            env.check(len(s) == b - a, 'a sentence has another number of tokens')
            flat = flat + list(s)
        for i, t in enumerate(flat):
            for u in seen:
                env.check(t is not u, 'two tokens become one')
            seen.append(t)
            env.check(t.word == d.data['orth_'][i].strip().lower(), 'the word of a token is not its text in lower case')
            for f, g in zip(FIELDS, ('lemma_', 'shape_', 'prob', 'pos_', 'dep_', 'ent_type_')):
                env.check(getattr(t, f) == d.data[g][i], 'the %s of a token is another' % f)
            for kids, want in ((t.left_children, d.lefts[i]), (t.right_children, d.rights[i])):
                env.check(len(kids) == len(want), 'a token has another number of dependents')
                for k, j in zip(kids, want):
                    env.check(k is flat[j], 'a token has another dependent')
            h = d.heads[i]
            if h == i:
                env.check(t.parent is None, 'the root has a parent')
            else:
                env.check(t.parent is flat[h], 'a token has another parent')
        env.observe('words', [t.word for t in flat])
        env.observe('deps', [t.dep for t in flat])


def parser_long(env, sentences, form, n, cls='lower'):
    """A long text, one word of which is arbitrary, is parsed like a short one."""
    d = Doc('a')
    for k in range(sentences):
        d.add(big(n, form))
    m = len(d)
    at = env.choose('at', (0, m // 2, m - 1))
    words = ['w%d' % (i % 50) for i in range(m)]
    words[at] = env.str('word', 2, cls)
    d.data = {'orth_': words, 'text': words, 'prob': [-(i % 20) for i in range(m)]}
    for k, vs in (('lemma_', ('l', 'k', 'm')), ('shape_', ('x', 'X')), ('pos_', ('NOUN', 'VERB')), ('dep_', ('det', 'nsubj', 'amod')),
                  ('ent_type_', ('', 'GPE', '', '')), ('norm_', ('n',)), ('tag_', ('NN',))):
        d.data[k] = [vs[i % len(vs)] for i in range(m)]
    env.hook('spacy.load', lambda *a, **k: lambda text: d)
    sents = env.mod('gb.nlp.parser').Parser().parse_text('text')
    env.check(len(sents) == sentences, 'another number of sentences in a long text')
    flat = [t for s in sents for t in s]
    env.check(len(flat) == m, 'another number of tokens in a long text')
    env.observe('n', len(flat))
    for (a, b), s in zip(d.spans, sents):
        env.check(len(s) == b - a, 'a sentence of a long text has another number of tokens')
    for i, t in enumerate(flat):
        env.check(t.word == words[i].strip().lower(), 'the word of a token of a long text is not its text in lower case')
        for f, g in zip(FIELDS, ('lemma_', 'shape_', 'prob', 'pos_', 'dep_', 'ent_type_')):
            env.check(getattr(t, f) == d.data[g][i], 'the %s of a token of a long text is another' % f)
        for kids, want in ((t.left_children, d.lefts[i]), (t.right_children, d.rights[i])):
            env.check(len(kids) == len(want), 'a token of a long text has another number of dependents')
            for k, j in zip(kids, want):
                env.check(k is flat[j], 'a token of a long text has another dependent')
        h = d.heads[i]
        env.check(t.parent is (None if h == i else flat[h]), 'a token of a long text has another parent')


# --------------------------------------------------------- tokens, sentences

POS = ('VERB', 'NOUN', 'PUNCT', 'SPACE', '')


def tokens_of(env, shape, tokens, size, cls, fixed=None):
    T = env.mod('gb.nlp.nlp_token').Token
    t = T(fixed or env.symbol('word%d' % len(tokens), size, cls))
    i = len(tokens)
    tokens.append(t)
    t.pos = env.enum('pos%d' % i, POS)
    t.dep = env.enum('dep%d' % i, ('ROOT', 'nsubj', ''))
    t.separator = False if fixed else env.flag('separator%d' % i)
    t.entity_type = ''
    t.left_children = [tokens_of(env, s, tokens, size, cls, fixed) for s in shape[0]]
    t.right_children = [tokens_of(env, s, tokens, size, cls, fixed) for s in shape[1]]
    return t


def listed_long(env, n, form):
    """The lists of a long sentence, one token of which is arbitrary, are like those of a short one."""
    at = env.choose('at', (0, 1, n // 2, n - 1))
    T = env.mod('gb.nlp.nlp_token').Token
    tokens = []

    def make(shape):
        i = len(tokens)
        t = T('w%d' % i)
        tokens.append(t)
        t.pos, t.dep, t.separator, t.entity_type = POS[i % 5], 'nsubj' if i else 'ROOT', i % 7 == 3, ''
        if i == at:
            t.word = env.symbol('word', 1, 'letter')
            t.pos = env.enum('pos', POS)
            t.separator = env.flag('separator')
        t.left_children = [make(s) for s in shape[0]]
        t.right_children = [make(s) for s in shape[1]]
        return t
    root = make(big(n, form))
    for t in tokens:
        want = order(t)
        got = t.to_list()
        env.check(len(got) == len(want), 'a token of a long sentence lists another number of tokens')
        for a, b in zip(got, want):
            env.check(a is b, 'a token of a long sentence lists other tokens, or in another order')
        words = [x for x in want if not (x.separator or x.pos == 'PUNCT' or x.pos == 'SPACE')]
        got = t.to_word_token_list()
        env.check(len(got) == len(words), 'a token of a long sentence lists another number of words')
        for a, b in zip(got, words):
            env.check(a is b, 'a token of a long sentence lists other words, or in another order')
        env.check(t.chunk_str() == ' '.join([x.word for x in words]), 'the text of a long chunk is not its words')
    ts = order(root)
    s = env.mod('gb.nlp.sentence').Sentence(ts)
    env.check(s.root() is root, 'the root of a long sentence is another token')
    env.check(str(s) == ' '.join([t.word.strip() for t in ts]), 'the text of a long sentence is not its words')
    env.check(env.same(labels(s.label_tree()), [want_labels(root, '*')]), 'the tree that is shown is not that of a long sentence')
    env.observe('chunk', root.chunk_str())


def listed(env, n, size=1, cls='letter'):
    """A token's list is its subtree in the order of the text; its words leave out punctuation, blanks and separators."""
    shape = env.choose('shape', trees(n))
    tokens = []
    root = tokens_of(env, shape, tokens, size, cls)
    for t in tokens:
        want = order(t)
        got = t.to_list()
        env.check(len(got) == len(want), 'a token lists another number of tokens')
        for a, b in zip(got, want):
            env.check(a is b, 'a token lists other tokens, or in another order')
        words = [x for x in want if not (x.separator or x.pos == 'PUNCT' or x.pos == 'SPACE')]
        got = t.to_word_token_list()
        env.check(len(got) == len(words), 'a token lists another number of words')
        for a, b in zip(got, words):
            env.check(a is b, 'a token lists other words, or in another order')
        for x in want:
            word = not (x.separator or x.pos == 'PUNCT' or x.pos == 'SPACE')
            env.check(x.is_word() == word, 'a token is wrongly taken for a word, or not for one')
        chunk = t.chunk_str()
        env.check(chunk == ' '.join([x.word for x in words]), 'the text of a chunk is not its words')
    env.observe('chunk', root.chunk_str())


def equality(env, size=1, cls='letter'):
    """Tokens are equal exactly when word, part of speech and dependency are."""
    T = env.mod('gb.nlp.nlp_token').Token
    ts = []
    for i in range(3):
        t = T(env.symbol('word%d' % i, size, cls))
        t.pos = env.enum('pos%d' % i, ('VERB', 'NOUN', ''))
        t.dep = env.enum('dep%d' % i, ('ROOT', 'nsubj', ''))
        t.lemma = env.enum('lemma%d' % i, ('x', 'y'))
        ts.append(t)
    for a in ts:
        for b in ts:
            same = a.word == b.word and a.pos == b.pos and a.dep == b.dep
            env.check((a == b) == same, 'equality of tokens is not that of word, part of speech and dependency')
            env.check((a != b) == (not same), 'tokens that are not equal are not different, or the reverse')
    env.check(not ts[0] == ts[0].word, 'a token equals its word')
    env.observe('equal', ts[0] == ts[1])


def sentence(env, n, size=1, cls='letter'):
    """The root of a sentence is its first token with the ROOT dependency; its text has all words in order."""
    T = env.mod('gb.nlp.nlp_token').Token
    ts = []
    for i in range(n):
        t = T(env.str('word%d' % i, size, cls))
        t.dep = env.enum('dep%d' % i, ('ROOT', 'nsubj', 'root', ''))
        t.pos = 'NOUN'
        t.left_children = []
        t.right_children = []
        ts.append(t)
    s = env.mod('gb.nlp.sentence').Sentence(ts)
    root = s.root()
    want = None
    for t in ts:
        if want is None and t.dep == 'ROOT':
            want = t
    env.check(root is want, 'the root of the sentence is another token')
    if want is None:
        env.check(len(s.label_tree()) == 0, 'a sentence without a root has a tree')
    text = str(s)
    env.observe('text', text)
    env.check(text == ' '.join([t.word.strip() for t in ts]), 'the text of the sentence is not its words')


def labels(d):
    out = []
    for k in d:
        out.append((k, labels(d[k])))
    return out


def want_labels(t, side):
    return ('[%s]%s' % (side, t), [want_labels(c, 'L') for c in t.left_children] + [want_labels(c, 'R') for c in t.right_children])


def label_tree(env, n):
    """The tree that is shown has every token of the sentence, under its head."""
    shape = env.choose('shape', trees(n))
    tokens = []
    root = tokens_of(env, shape, tokens, 1, 'letter', 'w')
    for i, t in enumerate(tokens):
        t.word = 'w%d' % i
    for t in tokens[1:]:
        t.dep = 'nsubj'
    root.dep = 'ROOT'
    for t in tokens:
        env.check(str(t) == t.word.strip() + '/' + t.pos + ' (' + t.dep + ') {' + t.entity_type + '}',
                  'a token is shown in another way')
    s = env.mod('gb.nlp.sentence').Sentence(order(root))
    got = labels(s.label_tree())
    want = [want_labels(root, '*')]
    env.observe('tree', got)
    env.check(env.same(got, want), 'the tree that is shown is not that of the sentence')


def label_twins(env):
    """Two dependents that look the same are both in the tree that is shown."""
    tokens = []
    root = tokens_of(env, ([((), ()), ((), ())], []), tokens, 1, 'letter', 'w')
    for t in tokens:
        t.dep = 'amod' if t is not root else 'ROOT'
    same = tokens[1].pos == tokens[2].pos
    s = env.mod('gb.nlp.sentence').Sentence(order(root))
    got = labels(s.label_tree())
    env.check(env.same(got, [want_labels(root, '*')]),
              'one of two dependents that look the same is not shown' if same else
              'one of two different dependents is not shown')


# ------------------------------------------------------------------- reading

def read_text(env, sizes, size=1):
    """Every sentence of a text is read, once and in order, with one parser."""
    docs = [document(env, 'a', sizes, 1, 'lower', plain=True), document(env, 'b', sizes[:1], 1, 'lower', plain=True)]
    loads = []
    asked = []

    def load(*a, **k):
        loads.append(a)

        def parse(text):
            asked.append(text)
            return docs[len(asked) - 1]
        return parse
    env.hook('spacy.load', load)
    ex = env.mod('gb.knowledge.extractor').Extractor(None)
    env.check(ex.outputs == [], 'a new extractor has read something')
    env.check(loads == [], 'a new extractor loads the model')
    read = []

    def one(s):
        read.append(s)
        return len(read)
    ex.read_sentence = one
    texts = [env.str('text%d' % k, size, 'any') for k in range(2)]
    for k, d in enumerate(docs):
        before = len(read)
        got = ex.read_text(texts[k])
        n = len(d.spans)
        env.check(env.same(got, list(range(before + 1, before + n + 1))), 'not one result for each sentence, in order')
        env.check(len(read) == before + n, 'not every sentence is read once')
        for s, (a, b) in zip(read[before:], d.spans):
            env.check(isinstance(s, env.mod('gb.nlp.sentence').Sentence), 'what is read is no sentence')
            env.check(len(s.tokens) == b - a, 'another sentence is read')
            for t, w in zip(s.tokens, d.data['orth_'][a:b]):
                env.check(t.word == w.strip().lower(), 'another sentence is read')
    env.check(len(loads) == 1, 'not one parser for all texts')
    env.check(len(asked) == 2 and asked[0] == texts[0] and asked[1] == texts[1], 'another text is parsed')
    env.observe('n', len(read))


def stage_names(env, size):
    """The stages are those that have a name; any other name is an error."""
    name = env.str('name', size, 'any')
    ex = env.mod('gb.knowledge.extractor').Extractor('hg')
    tree = env.mod('gb.knowledge.semantic_tree').Tree()
    cls = None
    for n in ('alpha', 'beta', 'gamma', 'delta', 'epsilon'):
        if name == n:
            cls = getattr(env.mod('gb.knowledge.stages.' + n), n.capitalize() + 'Stage')
    if cls is None:
        e = env.raised(ex.create_stage, name, tree)
        env.observe('error', e)
        env.check(isinstance(e, RuntimeError), 'an unknown stage is no error')
        return
    s = ex.create_stage(name, tree)
    env.observe('stage', s)
    env.check(s.__class__ is cls, 'a name stands for another stage')
    if name != 'alpha':
        env.check(s.tree is tree, 'the stage works on another tree')
    else:
        env.check(s.tree is not tree, 'the alpha stage works on an old tree')
    if name == 'beta' or name == 'epsilon':
        env.check(s.hg == 'hg', 'the stage works on another hypergraph')
