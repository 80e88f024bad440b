"""Data that comes in: WordNet, the Wikidata filter, the command line."""
NEEDS = ('gb.readers.wordnet', 'gb.hypergraph.hypergraph', 'gb.hypergraph.batch_hypergraph', 'gb.hypergraph.sqlite',
         'gb.hypergraph.constants', 'gb.gbrain', 'gb.tools.shell', 'filter_wikidump')

from props.facade import MySQL                                          # noqa: E402
from props.model import Model, same_edges, agrees                       # noqa: E402

SYNSET_RELS = (('hypernyms', 'hypernym/gb'), ('instance_hypernyms', 'instance_hypernym/gb'),
               ('member_meronyms', 'member_meronym/gb'), ('attributes', 'attribute/gb'), ('entailments', 'entailment/gb'),
               ('causes', 'cause/gb'), ('also_sees', 'also_see/gb'), ('verb_groups', 'verb_group/gb'),
               ('similar_tos', 'similar_to/gb'))
LEMMA_RELS = (('antonyms', 'antonym/gb'), ('pertainyms', 'pertainym/gb'),
              ('derivationally_related_forms', 'derivationally_related_form/gb'))
PARTS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}


class Lemma(object):
    def __init__(self, name, synset):
        self._name = name
        self._synset = synset
        self.rels = {}

    def name(self):
        return self._name

    def synset(self):
        return self._synset

    def __getattr__(self, name):
        rels = self.__dict__.get('rels')
        if rels is None or name.startswith('__'):
            raise AttributeError(name)
        return lambda: list(rels[name]) if name in rels else []


class Synset(Lemma):
    def __init__(self, name, pos):
        Lemma.__init__(self, name, None)
        self._pos = pos
        self._lemmas = []

    def pos(self):
        return self._pos

    def lemmas(self):
        return list(self._lemmas)


class Wordnet(object):
    def __init__(self, synsets):
        self.synsets_ = synsets
        self.asked = 0

    def all_synsets(self, *a):
        self.asked += 1
        return iter(self.synsets_)


def symbol(lemma):
    return lemma.name() + '/wn.' + lemma.synset().name()


def wordnet(env, counts, srels=(), lrels=(), size=1, parts=('n', 'v', 'a', 's', 'r'), again=False, buffered=1000):
    """Every relation of WordNet becomes a belief of wordnet/gb between the symbols of the two lemmas, and nothing else does."""
    src = env.mod('gb.hypergraph.constants').source
    synsets = []
    for i, n in enumerate(counts):
        s = Synset(env.symbol('synset%d' % i, size, 'letter'), env.choose('part%d' % i, parts))
        for t in synsets:
            env.assume(s.name() != t.name())
        s._lemmas = [Lemma(env.symbol('lemma%d.%d' % (i, j), size, 'letter'), s) for j in range(n)]
        synsets.append(s)
    want = []
    for i, s in enumerate(synsets):
        ls = s.lemmas()
        want.append(('pos/gb', symbol(ls[0]), PARTS[s.pos()]))
        for x in ls[1:]:
            want.append(('synonym/gb', symbol(ls[0]), symbol(x)))
        for k in srels:
            s.rels[SYNSET_RELS[k][0]] = [t for j, t in enumerate(synsets) if env.flag('%s%d.%d' % (SYNSET_RELS[k][0], i, j))]
            for t in s.rels[SYNSET_RELS[k][0]]:
                want.append((SYNSET_RELS[k][1], symbol(ls[0]), symbol(t.lemmas()[0])))
        for k in lrels:
            for a, x in enumerate(ls):
                x.rels[LEMMA_RELS[k][0]] = [y for j, t in enumerate(synsets) for b, y in enumerate(t.lemmas())
                                            if env.flag('%s%d.%d.%d.%d' % (LEMMA_RELS[k][0], i, a, j, b))]
                for y in x.rels[LEMMA_RELS[k][0]]:
                    want.append((LEMMA_RELS[k][1], symbol(x), symbol(y)))
    env.hook('nltk.wordnet', Wordnet(synsets))
    path = env.dbpath()
    hg = env.store(path)
    B = env.mod('gb.hypergraph.batch_hypergraph').BatchHyperGraph
    if buffered != 1000:
        init = B.__init__
        env.patch_class('gb.hypergraph.batch_hypergraph', 'BatchHyperGraph', '__init__', lambda self, h, *a, **k: init(self, h, buffered))
    read = env.mod('gb.readers.wordnet').read
    env.capture(read, hg)
    if again:
        if env.flag('other'):           # into another hypergraph
            path = env.dbpath()
            hg = env.store(path)
        env.capture(read, hg)
    m = Model()
    for e in want:
        m.add(e)
        m.add((src, e, 'wordnet/gb'))
    hg = env.store(path)
    env.observe('edges', len(list(hg.pattern2edges([None, None, None]))))
    for e in want:
        env.check(hg.exists(e), 'a relation of WordNet is not stored')
        got = list(hg.sources(e))
        env.check(len(got) == 1 and got[0] == 'wordnet/gb', 'a relation of WordNet is not a belief of wordnet/gb')
    env.check(same_edges(env, hg.pattern2edges([None, None, None]), m.edges), 'other edges than the relations of WordNet are stored')
    env.check(len(list(hg.pattern2edges([None, None]))) == 0, 'other edges than the relations of WordNet are stored')
    seen = []
    for s in synsets:
        for x in s.lemmas():
            v = symbol(x)
            if v not in seen:
                seen.append(v)
                env.check(hg.degree(v) == m.degree(v), 'a lemma takes part in another number of relations')


def wordnet_many(env, n):
    """A WordNet with very many lemmas, one of which has an arbitrary name, is read like a small one."""
    src = env.mod('gb.hypergraph.constants').source
    at = env.choose('at', (0, n // 2, n - 1))
    name = env.symbol('name', 1, 'letter')
    synsets = []
    for i in range(n):
        s = Synset('s%d' % i, 'nvasr'[i % 5])
        s._lemmas = [Lemma(name if i == at else 'l%d' % i, s), Lemma('m%d' % i, s)]
        if i:
            s.rels['hypernyms'] = [synsets[i // 2]]
            s._lemmas[1].rels['antonyms'] = [synsets[i - 1]._lemmas[1]]
        synsets.append(s)
    env.hook('nltk.wordnet', Wordnet(synsets))
    path = env.dbpath()
    hg = env.store(path)
    env.capture(env.mod('gb.readers.wordnet').read, hg)
    hg = env.store(path)
    want = 0
    for i, s in enumerate(synsets):
        ls = s.lemmas()
        es = [('pos/gb', symbol(ls[0]), PARTS[s.pos()]), ('synonym/gb', symbol(ls[0]), symbol(ls[1]))]
        if i:
            es.append(('hypernym/gb', symbol(ls[0]), symbol(synsets[i // 2].lemmas()[0])))
            es.append(('antonym/gb', symbol(ls[1]), symbol(synsets[i - 1].lemmas()[1])))
        want += len(es)
        if i in (0, 1, at, at // 2, n // 3, n - 1):
            for e in es:
                env.check(hg.exists(e), 'a relation of a large WordNet is not stored')
                env.check(hg.sources(e) == {'wordnet/gb'}, 'a relation of a large WordNet is not a belief of wordnet/gb')
    got = len(list(hg.pattern2edges([None, None, None])))
    env.observe('edges', got)
    env.check(got == 2 * want, 'another number of edges than the relations of a large WordNet is stored')
    env.check(hg.degree('wordnet/gb') == want, 'another number of beliefs than the relations of a large WordNet is stored')


# ------------------------------------------------------------------ wikidump

FIRST = ['first\n', '  <page>\n', '    <title>Talk:x</title>\n', '  </page>\n', 'last\n']


def wikidump(env, n, size=1, kinds=('page', 'title', 'close', 'text'), cls='letter', seq=(), first=False):
    """Pages with a colon in their title are left out, from the line of the page to its end; all else is kept as it is."""
    lines = []
    for i in range(n):
        k = seq[i] if seq else env.choose('kind%d' % i, kinds)
        t = env.str('text%d' % i, size, cls)
        if seq and k != 'text':         # with something on both sides
            tag = {'page': '<page>', 'close': '</page>', 'title': '<title>b</title>', 'colon': '<title>a:b</title>'}[k]
            lines.append(t + tag + env.str('more%d' % i, size, cls) + '\n')
        elif k == 'page':
            lines.append('  <page>' + t + '\n')
        elif k == 'close':
            lines.append(t + '</page>\n')
        elif k == 'title':
            lines.append('    <title>' + t + '</title>\n')
        elif k == 'colon':
            lines.append('    <title>Talk:' + t + '</title>\n')
        else:
            lines.append(t + '\n')
    main = env.mod('filter_wikidump').main
    if first:                               # another dump came before, and may have broken off inside a page
        cut = env.choose('first', (1, 2, 4, 5))
        was = env.capture(main, [env.file(FIRST[:cut])])
        env.check(was == ''.join(FIRST[:1] if cut < 5 else FIRST[:1] + FIRST[4:5]), 'the filter keeps or leaves out other lines')
    got = env.capture(main, [env.file(lines)])
    env.observe('output', got)
    out = []
    held = []
    state = 0
    for x in lines:
        if state == 0:
            if '<page>' in x:
                held = [x]
                state = 1
            else:
                out.append(x)
        elif state == 1:
            held.append(x)
            a = x.find('<title>')
            b = x.rfind('</title>')
            if a >= 0 and b >= a + 7:
                if ':' in x[a + 7:b]:
                    state = 2
                else:
                    out = out + held
                    state = 0
        elif '</page>' in x:
            state = 0
    if state == 1:
        return                          # the dump breaks off before the title
    env.check(got == ''.join(out), 'the filter keeps or leaves out other lines')


def wikidump_long(env, pages, size=1, body=20, head=3, cls='letter'):
    """A long dump, one title of which is arbitrary, is filtered like a short one."""
    at = env.choose('at', (0, pages // 2, pages - 1))
    title = env.str('title', size, cls)
    lines = ['<mediawiki>\n', '  <siteinfo>a:b</siteinfo>\n']
    want = list(lines)
    for i in range(pages):
        t = title if i == at else ('Talk:x%d' % i if i % 3 == 1 else 'x%d' % i)
        page = ['  <page>\n'] + ['    <ns>%d:</ns>\n' % j for j in range(head)] + ['    <title>' + t + '</title>\n'] + \
               ['      text: %d\n' % j for j in range(body)] + ['  </page>\n']
        lines = lines + page
        if ':' not in t:
            want = want + page
    lines.append('</mediawiki>\n')
    want.append('</mediawiki>\n')
    got = env.capture(env.mod('filter_wikidump').main, [env.file(lines)])
    env.observe('output', len(got))
    env.check(got == ''.join(want), 'the filter keeps or leaves out other lines of a long dump')


# -------------------------------------------------------------- command line

DEFAULTS = (('backend', 'sqlite'), ('db', 'gb.db'), ('dbhost', 'localhost'), ('dbuser', 'gb'), ('dbpass', 'gb'))


def cli(env, size=1, run='create', backends=('sqlite', 'mysql', 'null'), cls='any', first=''):
    """The options of the command line, or their defaults, reach the backend; the command does its work on that hypergraph."""
    gb = env.mod('gb.gbrain')
    vals = {}
    given = {}
    for o, d in DEFAULTS:
        vals[o] = d
        if env.flag('give.' + o):
            vals[o] = given[o] = env.choose(o, backends) if o == 'backend' else env.str(o, size, cls)
    opened = []
    path = env.dbpath()
    env.hook('sqlite3.connect', lambda *a, **k: (opened.append(a[0] if a else k['database']), env.lib('sqlite3').connect(path))[1])
    my = MySQL(env)
    synset = Synset('s', 'n')
    synset._lemmas = [Lemma('l', synset)]
    wn = Wordnet([synset])
    env.hook('nltk.wordnet', wn)
    shells = []
    env.patch_class('gb.tools.shell', 'Shell', 'run', lambda self: shells.append(self.hg))
    if first:                               # the process ran another command, with other options
        env.capture(env.command_line, gb.cli, {'backend': first, 'db': 'old', 'dbhost': 'old', 'dbuser': 'old', 'dbpass': 'old'}, 'create')
        env.check(len(my.asked) == (1 if first == 'mysql' else 0), 'the command before opens another backend')
        del opened[:]
        del my.asked[:]
    env.capture(env.command_line, gb.cli, given, run)
    if vals['backend'] == 'sqlite':
        env.check(len(opened) == 1, 'the sqlite backend does not open one database')
        env.check(opened[0] == vals['db'], 'the sqlite backend opens another database')
        env.check(len(my.asked) == 0, 'a command opens another backend')
    elif vals['backend'] == 'mysql':
        env.check(len(my.asked) == 1, 'the mysql backend does not connect once')
        k = my.asked[0]
        got = [k[n] for ns in (('host',), ('user',), ('passwd', 'password'), ('db', 'database')) for n in ns if n in k]
        env.observe('given', got)
        env.check(len(got) == 4, 'the mysql backend does not pass on all that it needs')
        env.check(got[0] == vals['dbhost'] and got[1] == vals['dbuser'], 'the mysql backend connects to another server')
        env.check(got[2] == vals['dbpass'], 'the mysql backend uses another password')
        env.check(got[3] == vals['db'], 'the mysql backend uses another database')
    else:
        env.check(len(opened) == 0 and len(my.asked) == 0, 'the null backend opens a database')
    env.check(wn.asked == (1 if run == 'wordnet' else 0), 'a command reads WordNet when it should not, or not once')
    env.check(len(shells) == (1 if run == 'shell' else 0), 'a command runs the shell when it should not, or not once')
    edge = ('pos/gb', 'l/wn.s', 'noun/gb')
    full = run == 'wordnet' and vals['backend'] != 'null'
    if run == 'shell':
        env.check(shells[0].exists(edge) is False, 'the shell has no hypergraph')
        if vals['backend'] != 'null':
            shells[0].add(edge)
            full = True
    if vals['backend'] == 'null':
        return
    hg = env.store() if vals['backend'] == 'sqlite' else my.store()
    env.check(hg.exists(edge) == full, 'the command does its work on another hypergraph')
