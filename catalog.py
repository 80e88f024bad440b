"""The text of the properties; `python3-vt catalog.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
HG = 'gb/hypergraph/'
P = []


def p(pid, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note, state=state))


p('C01', 'The text of an edge is read back as the same edge',
  'Writing an edge (nested tuples of symbols, integers and floats) as text and reading the text gives an equal edge whose '
  'elements have the same types, and two different edges never have the same text.',
  ['inputs'], 'every edge: any symbols, any finite numbers, any nesting',
  'The tests read and write about a dozen literal edges with plain symbols and small numbers.',
  [HG + 'edge.py'], [('edge2str, str2edge, split_edge_str, parsed_token', HG + 'edge.py')],
  ['gb.hypergraph.edge.edge2str', 'gb.hypergraph.edge.str2edge'],
  'all symbols, numbers and shapes within the bounds, decided by the solver; the number-to-text conversion is modelled')
p('C02', 'Tokens and gaps in edge text have one reading',
  'Any token of the text of an edge is read as an integer exactly when it is an optional minus sign and digits, as a float '
  'only when it is the decimal text of a float, and as an unchanged symbol otherwise. The kind and amount of white space '
  'between tokens makes no difference.',
  ['inputs'], 'every token and every choice of white space',
  'The tests use single blanks and a few literal numbers.',
  [HG + 'edge.py'], [('parsed_token, is_number, split_edge_str', HG + 'edge.py')],
  ['gb.hypergraph.edge.parsed_token', 'gb.hypergraph.edge.str2edge'],
  'all tokens of the stated lengths over all of Unicode')
p('C03', 'Negation is its own inverse',
  'Negating a symbol or an edge twice gives it back, negating changes whether it is negative and nothing else, and the '
  'negative of an edge can be written and read like any edge.',
  ['inputs'], 'every symbol and every edge that starts with a symbol',
  'The tests negate one literal symbol and one literal edge.',
  [HG + 'symbol.py', HG + 'edge.py'], [('is_negative, negative', HG + 'symbol.py'), ('is_negative, negative', HG + 'edge.py')],
  ['gb.hypergraph.symbol.negative', 'gb.hypergraph.edge.negative'],
  'all symbols within the bounds')
p('C04', 'Symbols are taken apart and put together without loss',
  'The parts of a symbol joined with slashes are the symbol; its root is the first part, its name space the second, and it is '
  'a root exactly when it has no other part. URLs, numbers and edges have their own type and a single part, and numbers and '
  'URLs are their own text.',
  ['inputs'], 'every symbol, number and edge',
  'The tests look at four literal symbols.',
  [HG + 'symbol.py'], [('parts, root, nspace, is_root, build, sym_type', HG + 'symbol.py')],
  ['gb.hypergraph.symbol.parts', 'gb.hypergraph.symbol.root', 'gb.hypergraph.symbol.build'],
  'all symbols within the bounds over all of Unicode')
p('C05', 'Any text becomes a valid symbol',
  'The symbol made from a text has no white space, parentheses or slashes, so that it is a root and can be stored and read '
  'back, and making a symbol of it again changes nothing. Characters that symbols can have are kept, in lower case, and '
  'the text of the symbol shows the separators as blanks.',
  ['inputs'], 'every text, in any script',
  'The tests convert two English words.',
  [HG + 'symbol.py'], [('str2symbol, symbol2str', HG + 'symbol.py')],
  ['gb.hypergraph.symbol.str2symbol', 'gb.hypergraph.symbol.symbol2str'],
  'all texts within the bounds; Unicode case tables are those of the interpreter')
p('C06', 'Hashes are a fixed function of the text; new meanings keep the root',
  'The hash of a text is the 64-bit base-31 polynomial hash of its characters, in hexadecimal, the same on every run. A new '
  'meaning of a root is that root with a name space made of the prefix and a hash, and a symbol that already has a name space '
  'gets no new meaning; meanings that were drawn differently are different symbols.',
  ['inputs'], 'every text, root, prefix and random draw',
  'The tests hash one literal word and never look at new meanings.',
  [HG + 'symbol.py'], [('hashed, random_hash, new_meaning', HG + 'symbol.py')],
  ['gb.hypergraph.symbol.hashed', 'gb.hypergraph.symbol.new_meaning'],
  'all texts within the bounds; numpy 64-bit arithmetic is modelled')
p('C07', 'Every stored ordering of an edge gives back that edge',
  'For an edge with n elements the index holds n! different texts, one for each order of its elements, and each one, taken '
  'alone, is turned back into exactly the edge.',
  ['inputs'], 'every edge and every order',
  'The tests permute three literal lists.',
  [HG + 'sql.py'], [('nthperm, unpermutate, do_with_edge_permutations, cur2edges', HG + 'sql.py')],
  ['gb.hypergraph.sql.do_with_edge_permutations', 'gb.hypergraph.sql.cur2edges'],
  'all elements within the bounds, all orders')
p('C08', 'The hypergraph is the set of edges added and not removed',
  'After any sequence of adds and removes an edge exists exactly when it was added after it was last removed, and listing all '
  'edges of a size gives each existing edge once and nothing else. Adding an existing edge or removing a missing one changes '
  'nothing, and hypergraphs on different databases do not influence each other.',
  ['histories', 'inputs'], 'every history of adds and removes, over any edges',
  'The tests add and remove a handful of literal edges, each in one order.',
  [HG + 'sql.py', HG + 'hypergraph.py', HG + 'sqlite.py'],
  [('add_raw, remove_raw, exists, write_edge_permutations', HG + 'sql.py')],
  ['HyperGraph.exists', 'HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.pattern2edges'],
  'all histories and symbols within the bounds against a reference set; SQLite is modelled',
  [('perms', 'one row for each order of each stored edge', HG + 'sql.py')])
p('C09', 'A pattern finds exactly the edges that match it',
  'Searching with a pattern of entities and wildcards returns every stored edge of the same size whose elements equal the '
  'entities at their positions, and no other edge, whatever the entities look like.',
  ['inputs', 'histories'], 'every pattern and every stored set of edges',
  'The tests try five literal patterns; entities that are prefixes of each other never occur.',
  [HG + 'sql.py'], [('pattern2edges, str_plus_1, edge_matches_pattern', HG + 'sql.py')],
  ['HyperGraph.pattern2edges'],
  'all patterns and symbols within the bounds against a reference search; SQLite is modelled')
p('C10', 'The star of an entity is the set of edges that contain it',
  'star returns every stored edge that has the given symbol, number or edge as an element, each once, and no other edge.',
  ['inputs', 'histories'], 'every entity and every stored set of edges',
  'The tests look at two literal stars.',
  [HG + 'sql.py'], [('star, str2perms', HG + 'sql.py')], ['HyperGraph.star'],
  'all entities within the bounds against a reference search; SQLite is modelled')
p('C11', 'Degrees count occurrences in stored edges',
  'After any sequence of adds and removes the degree of an entity is the number of times it is an element of the stored '
  'edges, also when it is itself an edge, and zero for unknown entities.',
  ['histories', 'inputs'], 'every history, over edges that may be elements of one another',
  'The tests check degrees after a few adds and removes of literal edges.',
  [HG + 'sql.py'], [('inc_degree, dec_degree, add_raw, remove_raw', HG + 'sql.py')], ['HyperGraph.degree'],
  'all histories within the bounds against a reference count; SQLite is modelled',
  [('vertices.degree', 'how often the vertex is an element', HG + 'sql.py')])
p('C12', 'Timestamps tell when things were first stored',
  'The timestamp of a stored edge is the one given when it was added, that of an atom the one of the first edge it was stored '
  'with; adding an existing edge again does not change them, and unknown entities have -1.',
  ['histories', 'inputs'], 'every history and every time',
  'The tests store two edges with literal times.',
  [HG + 'sql.py'], [('add_raw, inc_degree, timestamp', HG + 'sql.py')], ['HyperGraph.timestamp'],
  'all histories within the bounds against a reference; SQLite is modelled',
  [('vertices.timestamp', 'time of storage', HG + 'sql.py')])
p('C13', 'All symbols with a root are found, and only those',
  'symbols_with_root returns each symbol that is an element of a stored edge and consists of the given root, a slash and more, '
  'and nothing else: no symbol whose root only starts alike and nothing inside other texts.',
  ['inputs', 'histories'], 'every root and every stored set of edges',
  'The test has four literal symbols.',
  [HG + 'sql.py'], [('symbols_with_root', HG + 'sql.py')], ['HyperGraph.symbols_with_root'],
  'all symbols and roots within the bounds against a reference search; SQLite is modelled')
p('C14', 'Visiting all vertices reaches each one once',
  'f_all applies the function once to every entity that is, or is an element of, a stored edge, with its degree, and returns '
  'the results, also when the function queries the hypergraph or a batch is open.',
  ['histories', 'inputs'], 'every stored set of edges',
  'The test visits the vertices of one edge.',
  [HG + 'sql.py'], [('f_all', HG + 'sql.py')], ['HyperGraph.f_all'],
  'all stores within the bounds; SQLite is modelled')
p('C15', 'destroy leaves an empty, usable hypergraph',
  'After destroy no edge exists, every degree is zero, every timestamp unknown and no search finds anything; edges added '
  'afterwards behave as in a new hypergraph.',
  ['histories', 'inputs'], 'every history before and after',
  'The tests destroy one small hypergraph.',
  [HG + 'sql.py'], [('destroy', HG + 'sql.py')], ['HyperGraph.destroy'],
  'all histories within the bounds; SQLite is modelled')
p('C16', 'Batches and lists do what the single operations do',
  'Running operations as a batch, in nested batches, or adding and removing lists of edges leaves the same hypergraph as the '
  'operations one after another, the operations of a batch see what earlier ones did, and everything is stored when the call '
  'returns.',
  ['histories', 'programs'], 'every sequence of operations and every way to group it',
  'The tests run one batch of two adds.',
  [HG + 'sql.py', HG + 'hypergraph.py'], [('batch_exec, transaction, add, remove', HG + 'sql.py')],
  ['HyperGraph.batch_exec', 'HyperGraph.add', 'HyperGraph.remove'],
  'all sequences within the bounds against a reference; SQLite is modelled')
p('C17', 'A write buffer loses and reorders nothing',
  'After flush a buffered hypergraph contains what adding the same edges directly would have left, with the same timestamps, '
  'whatever the size of the buffer and however often it was flushed; the arguments of add are not changed, and what a flush '
  'could not store is stored by the next one.',
  ['histories', 'configurations'], 'every sequence of adds and flushes, every buffer size',
  'No test covers the buffered hypergraph.',
  [HG + 'batch_hypergraph.py', HG + 'hypergraph.py'], [('BatchHyperGraph.add, flush', HG + 'batch_hypergraph.py')],
  ['BatchHyperGraph.add', 'BatchHyperGraph.flush'],
  'all sequences within the bounds against a reference; SQLite is modelled')
p('C18', 'A crash leaves each operation entirely done or undone',
  'When the process dies at any point of adding, removing, removing by pattern, a batch, stating or withdrawing a belief, '
  'destroying or opening, the hypergraph found on '
  'reopening is the one before or the one after the operation, consistent in all indexes, and can be used further.',
  ['crash_points', 'histories'], 'every database operation at which the process can die',
  'No test kills the process.',
  [HG + 'sql.py'], [('transaction, open_cursor, close_cursor', HG + 'sql.py')],
  ['HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.batch_exec', 'HyperGraph.add_belief', 'HyperGraph.remove_belief',
   'HyperGraph.remove_by_pattern', 'HyperGraph.destroy'],
  'all crash points, as a symbolic variable; SQLite transactions are modelled as atomic and durable')
p('C19', 'A failed operation leaves no trace',
  'When the database reports an error during an operation, or a function of a batch raises, the error reaches the caller, the '
  'hypergraph is as before, and the next operation works, is stored at once and does not bring back the failed one.',
  ['fault_sequences', 'histories'], 'every database operation that can fail, every function of a batch that can raise',
  'No test makes the database fail.',
  [HG + 'sql.py'], [('transaction, batch_exec', HG + 'sql.py')],
  ['HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.batch_exec', 'HyperGraph.add_belief', 'HyperGraph.remove_belief',
   'HyperGraph.remove_by_pattern', 'HyperGraph.destroy'],
  'all single faults, as a symbolic variable; SQLite is modelled')
p('C20', 'What an operation did is stored when it returns',
  'After any operation returned, another connection to the same database sees its effects, and opening an existing database '
  'keeps everything in it.',
  ['histories', 'schedules'], 'every history, reopened at any point',
  'The tests use one connection and delete the database before and after.',
  [HG + 'sql.py', HG + 'sqlite.py'], [('close_cursor, transaction, create_tables', HG + 'sql.py')],
  ['HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.destroy'],
  'all histories within the bounds; SQLite is modelled')
p('C21', 'Beliefs last as long as somebody holds them',
  'sources returns exactly the sources that stated a fact and did not withdraw it. Withdrawing the last source removes the '
  'fact, withdrawing any other keeps it.',
  ['histories', 'inputs'], 'every order of stating and withdrawing, over any sources and facts',
  'The tests state and withdraw one fact with two literal sources in one order.',
  [HG + 'hypergraph.py'], [('add_belief, remove_belief, sources', HG + 'hypergraph.py')],
  ['HyperGraph.add_belief', 'HyperGraph.remove_belief', 'HyperGraph.sources'],
  'all histories within the bounds against a reference; SQLite is modelled')
p('C22', 'Removing by pattern removes exactly the matching edges',
  'remove_by_pattern removes every stored edge that matches the pattern and keeps all others, with their degrees.',
  ['inputs', 'histories'], 'every pattern and every stored set of edges',
  'The test removes with one literal pattern.',
  [HG + 'hypergraph.py', HG + 'sql.py'], [('remove_by_pattern', HG + 'hypergraph.py')], ['HyperGraph.remove_by_pattern'],
  'all patterns within the bounds against a reference; SQLite is modelled')
p('C23', 'The ego of an entity is the edges within the given distance',
  'ego with depth d returns the edges that can be reached from the entity in at most d steps from edge to argument, each once; '
  'depth zero gives none, depth one the star.',
  ['inputs', 'histories'], 'every hypergraph, centre and depth',
  'The one test asks for depth one around a literal symbol.',
  [HG + 'hypergraph.py'], [('ego', HG + 'hypergraph.py')], ['HyperGraph.ego'],
  'all hypergraphs within the bounds against a reference; SQLite is modelled')
p('C24', 'The intersection of entities is made of the edges that join them',
  'intersect returns exactly the edges whose arguments all lie on shortest connections between the given entities inside their '
  'neighbourhoods, leaving out edges through entities with a degree above 250.',
  ['inputs', 'histories'], 'every hypergraph and every set of entities',
  'No test runs the queries.',
  [HG + 'queries.py'], [('intersect, walks, neighbors, node2edges, include_edge', HG + 'queries.py')],
  ['gb.hypergraph.queries.intersect'],
  'all hypergraphs within the bounds against a reference; SQLite is modelled')
p('C25', 'Backends are what was asked for',
  'A hypergraph is opened with the backend that is named, or refused with an error; a name that is not exactly one of the '
  'known ones is never replaced by another. Hypergraphs with different databases have nothing in common. The null backend accepts every operation and answers like an empty hypergraph.',
  ['configurations', 'histories', 'inputs'], 'every backend name, every operation of the null backend',
  'The tests open SQLite, and the null backend for four calls.',
  [HG + 'hypergraph.py', HG + 'null.py'], [('HyperGraph.__init__, forwarding methods', HG + 'hypergraph.py'), ('Null', HG + 'null.py')],
  ['HyperGraph', 'gb.hypergraph.null.Null'],
  'all names of the stated lengths, all operations')
p('C26', 'The MySQL backend keeps the same hypergraph',
  'Over a server that stores rows as SQL says, the MySQL backend gives the same answers as the SQLite one after any history, '
  'connects with the parameters it was given, keeps an existing hypergraph when it is opened again, and leaves nothing of an '
  'operation during which the server reports an error or a function of a batch raises.',
  ['histories', 'configurations', 'fault_sequences'], 'every history over any edges, every statement that can fail',
  'No test touches the MySQL backend: it needs a server.',
  [HG + 'mysql.py', HG + 'sql.py'], [('MySQL.__init__, open_connection, create_tables', HG + 'mysql.py')],
  ['HyperGraph with the mysql backend'],
  'all histories within the bounds over a stand-in for the server; the behaviour of a real server is assumed')

p('C39', 'Two connections that write at once act one after the other',
  'When two connections (of two processes, say) work on one SQLite database at the same time, each of their operations is done '
  'or refused with an error, the operations that were done leave what they leave one after the other in some order, a refused '
  'operation leaves nothing and can be repeated, and neither connection ever sees half of an operation of the other.',
  ['schedules', 'histories'], 'every point of one operation at which the other connection acts, over any edges',
  'The tests use one connection.',
  [HG + 'sql.py', HG + 'sqlite.py', HG + 'hypergraph.py'],
  [('transaction, begin_transaction', HG + 'sql.py'), ('create_tables', HG + 'sqlite.py'), ('remove_belief', HG + 'hypergraph.py')],
  ['HyperGraph.add', 'HyperGraph.remove', 'HyperGraph.batch_exec', 'HyperGraph.remove_belief', 'HyperGraph.destroy'],
  'all points of the first operation, as a symbolic variable; the locks of SQLite are modelled')

KN = 'gb/knowledge/'
p('C27', 'A parsed sentence becomes the nesting its dependencies describe',
  'The tree made of a parsed sentence has each of its words once, except those under punctuation or without a dependency. '
  'Modifiers (and prepositions outside verb phrases) enclose what they modify, compounds and prepositional complements join the '
  'head, all others become arguments in the order of the text, and no node holds only another node.',
  ['inputs'], 'every dependency tree and every labelling of it',
  'The tests of the stages need a language model, fix eight sentences, and do not run here.',
  [KN + 'stages/alpha.py', KN + 'semantic_tree.py'],
  [('process_token, process_child_token', KN + 'stages/alpha.py'), ('nest, apply_layers, remove_redundant_nesting', KN + 'semantic_tree.py')],
  ['gb.knowledge.stages.alpha.transform'], 'all dependency trees and labels within the bounds')
p('C28', 'Compounds are exactly named entities and chains of names',
  'After the beta stage a node is one compound symbol exactly when its words all have the same entity type, or all of its words '
  'are subjects, objects or parts of compounds. Nothing else in the tree changes.',
  ['inputs'], 'every tree and labelling', 'The tests fix eight sentences and do not run here.',
  [KN + 'stages/beta.py'], [('is_compound_by_entity_type, is_compound_by_deps', KN + 'stages/beta.py')],
  ['gb.knowledge.stages.beta.BetaStage'], 'all trees and labels within the bounds')
p('C29', 'Joining relations loses no word but articles',
  'The gamma stage leaves out the articles the, an and a in front of what they determine, joins relation words that follow '
  'one another into one compound relation, and keeps every other word, in the same place.',
  ['inputs'], 'every tree and labelling', 'The tests fix eight sentences and do not run here.',
  [KN + 'stages/gamma.py'], [('process_entity1, combine_relationships', KN + 'stages/gamma.py')],
  ['gb.knowledge.stages.gamma.GammaStage'], 'all trees and labels within the bounds')
p('C30', 'Merging relations keeps every word and the order of arguments',
  'The delta stage moves relations of arguments up into the relation in front. No word is lost or doubled, only relation words '
  'become part of the relation, arguments keep their order, a tree that is no relation stays as it is, and among the possible '
  'arrangements the first one with the best fit between relation and arguments is chosen (in trees of up to five words; in larger '
  'ones, nodes that several arrangements share may already be flattened or joined by one tried before).',
  ['inputs'], 'every tree and labelling', 'The tests fix eight sentences and do not run here.',
  [KN + 'stages/delta.py'], [('find_candidates, node_fit, process_entity', KN + 'stages/delta.py')],
  ['gb.knowledge.stages.delta.DeltaStage'], 'all trees and labels within the bounds')
p('C31', 'A tree becomes the edge with its words',
  'The epsilon stage makes a symbol with its name space of every word, one symbol of every compound, and an edge of every other '
  'node, with the elements in the same order.',
  ['inputs'], 'every tree, words and compounds', 'No test looks at the edges that are made.',
  [KN + 'stages/epsilon.py'], [('build_hyperedges', KN + 'stages/epsilon.py')], ['gb.knowledge.stages.epsilon.EpsilonStage'],
  'all trees and words within the bounds')
p('C32', 'Sentences go through the stages in order, each one once',
  'Reading a sentence runs the stages in the given order, each on what the one before made, and keeps the output of each. It '
  'never fails on a parsed sentence, loses no word but articles and punctuation, and gives an edge that can be written and '
  'read back. Every sentence of a text is read once, in order; an unknown stage is an error.',
  ['inputs', 'histories'], 'every parsed sentence, every text of several sentences, every stage name',
  'The tests fix eight sentences and do not run here.',
  [KN + 'extractor.py', KN + 'stages/'], [('read_text, read_sentence, create_stage', KN + 'extractor.py')],
  ['gb.knowledge.extractor.Extractor'], 'all parsed sentences within the bounds')
p('C33', 'Operations on semantic trees touch only what they name',
  'Enclosing, letting out, flattening, copying, growing and marking an element of a semantic tree do to it what they would do '
  'to nested lists and leave the rest of the tree as it was; a copy can be changed without changing what it was made of; leaves, arity, equality and '
  'searches for labels see exactly the element and what is under it.',
  ['inputs'], 'every tree, operation and place', 'No test uses the tree by itself.',
  [KN + 'semantic_tree.py'], [('Tree, Node, Leaf', KN + 'semantic_tree.py')], ['gb.knowledge.semantic_tree'],
  'all trees within the bounds')
p('C34', 'Parsing keeps each token, its data and its place in the tree',
  'Every token of spaCy becomes exactly one token with the same data and its word in lower case without white space around it, '
  'in the same sentence and order, with the same dependents and head, also when several texts are parsed.',
  ['inputs', 'histories'], 'every result spaCy can give', 'The tests that parse need a language model and do not run here.',
  ['gb/nlp/parser.py'], [('__spacy2token, parse_text', 'gb/nlp/parser.py')], ['gb.nlp.parser.Parser'],
  'all results of spaCy within the bounds, through a stand-in')
p('C35', 'Sentences list their tokens in order and find their root',
  'The tokens under a token are listed in the order of the text, its words are those without punctuation, blanks and '
  'separators, two tokens are equal exactly when word, part of speech and dependency are, the root is the first token with that '
  'dependency, and the tree that is shown has every token under its head.',
  ['inputs'], 'every tree of tokens', 'No test uses tokens or sentences by themselves.',
  ['gb/nlp/nlp_token.py', 'gb/nlp/sentence.py'],
  [('to_list, is_word, chunk_str', 'gb/nlp/nlp_token.py'), ('root, label_tree', 'gb/nlp/sentence.py')],
  ['gb.nlp.nlp_token.Token', 'gb.nlp.sentence.Sentence'], 'all trees of tokens within the bounds')
p('C36', 'Every relation of WordNet becomes a belief, and nothing else',
  'After WordNet is read, each part of speech, synonym, relation of a synset and relation of a lemma is an edge between the '
  'symbols of the lemmas and a belief of wordnet/gb; no other edge is there, and reading again changes nothing.',
  ['inputs', 'histories'], 'every set of synsets, lemmas and relations', 'No test reads WordNet.',
  ['gb/readers/wordnet.py', HG + 'batch_hypergraph.py'], [('process_synset, read', 'gb/readers/wordnet.py')],
  ['gb.readers.wordnet.read'], 'all sets of synsets within the bounds, through a stand-in for nltk')
p('C37', 'The dump filter drops exactly the pages with a colon in the title',
  'The filter writes every line of a Wikidata dump as it is, except the lines of pages whose title has a colon, from the line '
  'of the page to the line that ends it.',
  ['inputs'], 'every dump', 'No test runs the filter.', ['python/filter_wikidump.py'], [('main', 'python/filter_wikidump.py')],
  ['python/filter_wikidump.py'], 'all dumps within the bounds')
p('C38', 'Command-line options reach the backend they are for',
  'Every command opens one hypergraph with the given options or their defaults, and host, user, password and database reach the '
  'backend that needs them; the command then does its own work on that hypergraph, once.',
  ['inputs', 'configurations'], 'every combination of options and values', 'No test uses the command line.',
  ['gb/gbrain.py', HG + 'mysql.py', HG + 'sqlite.py'], [('cli, create, wordnet, shell', 'gb/gbrain.py')],
  ['gb.gbrain.cli'], 'all options within the bounds')

p('C40', 'Asking a hypergraph changes nothing, and answers are the caller\'s own',
  'No question to a hypergraph (exists, pattern2edges, star, degree, timestamp, symbols_with_root, f_all, ego, sources, '
  'intersect) changes what it holds or what is answered next. No operation changes the lists, patterns and seeds it is given, and what the caller '
  'afterwards does with them, or with the sets and lists that were answered, changes neither the hypergraph nor later answers.',
  ['inputs', 'histories'], 'every question to every hypergraph, every list of edges, pattern and seeds',
  'The tests ask once and throw the answers away.',
  [HG + 'hypergraph.py', HG + 'sql.py', HG + 'backend.py', HG + 'batch_hypergraph.py', HG + 'queries.py', HG + 'null.py'],
  [('questions and operations', HG + 'hypergraph.py'), ('pattern2edges, star, f_all, add, remove', HG + 'sql.py'), ('intersect', HG + 'queries.py')],
  ['HyperGraph', 'gb.hypergraph.queries.intersect'],
  'all hypergraphs within the bounds; SQLite is modelled')
p('C41', 'Reading a sentence leaves its parse as it was',
  'Reading, showing and listing a parsed sentence changes no token and no list of it, so that the sentence can be read again and '
  'becomes the same edge; asking about a semantic tree changes no part of the tree; what the caller does with lists, outputs and '
  'trees of labels that were answered does not show in the next answer; and sentences that are worked on at the same time do not get into each other.',
  ['inputs', 'histories'], 'every parsed sentence, every semantic tree, every interleaving of the stages of two sentences',
  'The tests read eight sentences once each, and do not run here.',
  [KN + 'extractor.py', KN + 'stages/', KN + 'semantic_tree.py', 'gb/nlp/sentence.py', 'gb/nlp/nlp_token.py'],
  [('read_sentence', KN + 'extractor.py'), ('process', KN + 'stages/'), ('children, flat_leafs', KN + 'semantic_tree.py'), ('to_list, label_tree', 'gb/nlp/')],
  ['gb.knowledge.extractor.Extractor', 'gb.knowledge.semantic_tree', 'gb.nlp.sentence.Sentence'], 'all parsed sentences and trees within the bounds')

NOT_APPLICABLE = [
    (dict(pid='N01', title='A MySQL server keeps edges apart that differ in case or beyond the key prefix',
          statement='Two different edges stay different on a MySQL server, whatever its collation and the length of its key '
                    'prefixes.',
          over=['inputs', 'configurations'], text='every pair of edges, every server configuration',
          why='No test touches MySQL.', files=[HG + 'mysql.py'], mechanism=[('create_tables', HG + 'mysql.py')],
          observe=['HyperGraph with the mysql backend'], state=()),
     'it is decided by the MySQL server (collation, index prefix, strict mode), whose code is not in the repository and not '
     'installed; there is nothing to execute symbolically'),
    (dict(pid='N02', title='The meaning of a sentence is what is extracted from it',
          statement='The edge extracted from an English sentence says what the sentence says.',
          over=['inputs'], text='every English sentence',
          why='Eight tests compare literal sentences, and need a language model that is not installed.',
          files=['gb/knowledge/'], mechanism=[('stages', 'gb/knowledge/')], observe=['gb.knowledge.extractor'], state=()),
     'it depends on a statistical spaCy model that is not installed, and meaning has no oracle; what the stages do with any '
     'parse is covered by other properties'),
]

TECH = 'symbolic execution of the real Python code, assertions decided by z3'


def main():
    import registry
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P + [n[0] for n in NOT_APPLICABLE]:
            f.write(json.dumps({
                'id': d['pid'], 'title': d['title'], 'statement': d['statement'],
                'quantifier': {'over': d['over'], 'text': d['text']},
                'why_tests_cant': d['why'],
                'anchors': {'files': d['files'],
                            'state': [dict(name=a, meaning=b, where=c) for a, b, c in d['state']],
                            'mechanism': [dict(name=a, where=b) for a, b in d['mechanism']],
                            'observe_at': d['observe'], 'hook_needed': None}}) + '\n')
    checks = []
    for d in P:
        assert d['pid'] in registry.PROPS, d['pid']
        assert len(d['title']) <= 80, d['title']
        r = registry.PROPS[d['pid']]
        checks.append({
            'property': d['pid'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % d['pid'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % d['pid'],
            'evidence_file': 'evidence/%s.json' % d['pid'],
            'technique': TECH, 'level': 'model_checking',
            'level_note': 'Bounded: %s. Bounds: %s. Outside: %s.' % (d['note'], r.bounds, r.outside)})
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"',
         'checks': checks,
         'not_applicable': [{'property': d['pid'], 'reason': r} for d, r in NOT_APPLICABLE],
         'notes': 'No hooks: the code of /repo is loaded as it is. known_findings.json lists the repaired defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(registry)


def design(registry):
    """Rewrites section 4 of DESIGN.md."""
    from how import HOW
    out = []
    for d in P:
        r = registry.PROPS[d['pid']]
        o = r.outside.replace(registry.DOMAIN, 'what is outside the domain of section 3')
        out.append('**%s. %s.** %s%s\n*Bounds:* %s. *Outside:* %s.\n' % (
            d['pid'], d['title'], HOW[d['pid']][0].upper(), HOW[d['pid']][1:], r.bounds, o))
    for d, r in NOT_APPLICABLE:
        out.append('**%s. %s.** Not applicable: %s.\n' % (d['pid'], d['title'], r))
    p = os.path.join(HERE, 'DESIGN.md')
    with open(p) as f:
        t = f.read()
    a, b = t.index('<!-- properties -->\n') + len('<!-- properties -->\n'), t.index('<!-- end -->')
    with open(p, 'w') as f:
        f.write(t[:a] + '\n' + '\n'.join(out) + '\n' + t[b:])


if __name__ == '__main__':
    main()
