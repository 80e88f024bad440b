"""How each property is decided: the text of section 4 of DESIGN.md (written by catalog.py)."""
HOW = {
'C01': 'edge2str and str2edge run on edges of fixed shapes whose symbols are arbitrary characters and whose numbers arbitrary '
       'digits; asserted is equality with the edge itself, with the types of the elements, and for two edges that equal texts '
       'imply equal edges (injectivity, a statement about pairs no test can enumerate).',
'C02': 'str2edge reads a token of arbitrary characters; the oracle is an independent reading of the grammar (sign, digits, '
       'point, exponent) by character class, over all of Unicode, so that digits of other scripts, lone signs and points are '
       'inside. Gaps are one or two arbitrary white-space characters between tokens of a known edge.',
'C03': 'negative and is_negative on arbitrary symbols with at most one mark, and on edges; asserted is the involution, the '
       'change of is_negative, that nothing else changes, and C01 for the result.',
'C04': 'parts, root, nspace, is_root, build and sym_type on a symbol made from arbitrary parts, and on any symbol; the oracle '
       'splits at slashes itself. URLs are recognised by their prefix among all texts of the length.',
'C05': 'str2symbol on arbitrary texts; asserted are the character classes of the result, idempotence, C01/C02 for the result, '
       'and that allowed characters are kept in lower case (the case table of the interpreter, as interval sets).',
'C06': 'hashed against the polynomial computed with unbounded integers modulo 2^64; new_meaning against root, prefix and hash, '
       'with an arbitrary random draw, and two drawn one after the other, from a source that is not seeded with the same thing twice. The numpy arithmetic is modelled with wrap-around.',
'C07': 'the callback of do_with_edge_permutations collects the stored texts; asserted: n! texts, pairwise different, each one, put '
       'alone into the result of a query, read back by cur2edges as exactly the edge; every order occurs. unpermutate against '
       'the n-th permutation for all n.',
'C08': 'a history of symbolic operations over edges that may or may not be equal (their symbols are arbitrary) runs against a '
       'reference set; after each step exists, add\'s and remove\'s effect and the full listing per size are compared. '
       'two_stores runs two hypergraphs in one process.',
'C09': 'every stored edge and every pattern of the given form is arbitrary; the oracle compares element by element with the '
       'types. This is where prefixes, quotes, LIKE wildcards and the end of ranges are inputs among others.',
'C10': 'star of an arbitrary entity against a scan of the reference set.',
'C11': 'after each step of a history the degree of every entity that occurs is compared with a count over the reference set; '
       'edges may be elements of one another.',
'C12': 'histories with arbitrary integer times against a reference of first times.',
'C13': 'symbols and roots of arbitrary characters; the oracle compares the text before the first slash.',
'C14': 'the function records its arguments and may query; compared with the entities of the reference set, each once, with '
       'their degrees; the results are kept until the end and compared then. Visits also run within each other and in turns.',
'C15': 'the store properties are asserted after destroy, and histories with destroy run through the harnesses of C08, C11, C12.',
'C16': 'the same operations run one after another on a second store; both are compared in all observable answers, inside the '
       'batch (reads), after it, and from another connection.',
'C17': 'adds, lists and flushes with an arbitrary buffer size from 1; compared with a store that got the same adds directly, with their '
       'times; the argument lists of the caller are compared with copies. A second buffered hypergraph in the process has its own edges. Queries may come before the first flush.',
'C18': 'the point of the crash is a symbolic variable over the database operations of the run, before or after each; the store '
       'is reopened and compared, in every answer, with the reference before and after the operation; degrees, permutations and '
       'time must agree with one of the two, and further operations must work.',
'C19': 'the same, with an error of the database at a symbolic point, or a function of a batch that raises; the state must be the '
       'one before, on this connection, on a new one, and after the next operation.',
'C20': 'after each step another connection is opened (at a symbolic point of the history) and compared with the reference.',
'C21': 'statements and withdrawals by sources against a reference map of facts to sources; also facts added without source, '
       'facts that are elements of other edges, and lists.',
'C22': 'remove_by_pattern against the reference search of C09 and the reference count of C11.',
'C23': 'ego against a breadth-first reference over the reference set.',
'C24': 'intersect against a reference that enumerates neighbourhoods, shortest walks and the degree limit; hubs lets the degree '
       'be any number from 0 to 1000, so that the limit of 250 is decided exactly. A question may come before and after another edge arrives.',
'C25': 'any text as name of the backend; every operation of the null backend is called in any order and compared with the '
       'empty hypergraph, again after the caller has changed what was answered.',
'C26': 'histories through gb/hypergraph/mysql.py over the stand-in, compared with the reference; the statement that fails is a '
       'symbolic variable. The stand-in refuses what the types of the columns do not hold.',
'C27': 'any dependency tree with any labels from the sets the code distinguishes; for one word the label is any text. The '
       'oracle builds nested lists from the dependencies by the rules of the statement, independently of Tree and Node.',
'C28': 'any tree of words; the oracle says for each node whether its words are one entity or only names.',
'C29': 'any tree of words; the oracle drops articles and joins relations on nested lists.',
'C30': 'any tree; the oracle enumerates the arrangements of nested relations with their fit, and takes the first best.',
'C31': 'any tree with compounds; the oracle builds the edge from nested lists.',
'C32': 'the four stages in sequence on any parsed sentence, checked for words, text form and the recorded outputs; read_text over '
       'any list of sentences and create_stage with any name. Also with the debugging output on.',
'C33': 'any tree built by enclosing; one operation at a symbolic element, compared with the operation on nested lists; leaves are '
       'shared by copies, elements are not. A second copy is another one, and two empty nodes have their own children.',
'C34': 'any result of spaCy (trees over several sentences, arbitrary words and data) through the stand-in; tokens compared with '
       'what was given, heads and dependents with the tree.',
'C35': 'any dependency tree with arbitrary words; the oracle orders tokens by position. One known finding (below).',
'C36': 'any synsets, lemmas and relations through the stand-in for nltk; the set of beliefs is compared with the one computed '
       'from the tables; the write buffer is part of the run; a second reading may go to another hypergraph.',
'C37': 'any lines with tags and characters, before and after the tags; the oracle is a small state machine over the lines.',
'C38': 'the functions behind click get any options; the parameters that arrive at sqlite3.connect and MySQLdb.connect are '
       'compared with them.',
'C39': 'one operation runs on the first connection; at a symbolic point of it (before any of its database operations) a whole '
       'operation of the second connection runs, is refused, or reads. The result must be that of one of the two orders, a refused '
       'operation must leave nothing and work when repeated, and a reader must see a state between operations. Replayed with '
       'two real connections to one file.',
'C40': 'each question is asked three times: the first answer is kept as a copy, the second compared with it, and what was answered is '
       'then emptied and filled with something else before the third. After that the whole hypergraph is compared with the reference '
       'set, also after a removal. given hands lists, patterns and functions to each operation, compares them afterwards, changes '
       'them, and compares the hypergraph, for buffers before they are written.',
'C41': 'every field of every token, and the identity and content of its lists, is recorded before a sentence is read, listed or shown, '
       'and compared afterwards; lists, outputs and label trees that were answered are changed by the caller and asked for again. Two '
       'sentences go through the stages in any interleaving, each compared with the reference for it alone. asked_tree records the '
       'table of a tree around all questions to any element.',
}
