"""Registry: property -> (module, rule in one line, assumptions)."""
TECHNIQUE = ('Static value-flow analysis (gated SSA with global value numbering over the syntax trees of /repo, callees '
             'inlined, loops kept as binders; nothing is executed, no paths are enumerated, no solver is used). Each '
             'obligation compares the value graph of the code with the value graph of the required behaviour or checks '
             'a condition on it.')

REGISTRY = {
    'A01': ('parsing', 'the terminal flags, fallback condition, seen-set bookkeeping and re-scoring keep at least one result', []),
    'A02': ('errors', 'every operation that can fail (lookups, unpacking, conversions, divisions, attribute access of a match) on the way of an analysis is guarded by a condition that excludes the failure, or the failure is handled; scores are positive; nothing sorts units', ['the dictionary files are well-formed (A16, A17) and the counts in the prediction records are at least 1', 'words are well-formed text without lone surrogates', 'recursion depth: words with thousands of stacked prefixes are left out']),
    'A03': ('parsing', 'every re-analysis inside a unit is of a word that is strictly shorter under the conditions of the call; no table contains an empty affix', ['dictionary prefix sets contain no empty prefix']),
    'A04': ('parsing', 'tag() and parse() of every unit and of the analyzer produce the same tags under the same conditions', []),
    'A05': ('parsing', 'every emitted parse equals the documented derivation from dictionary entries and affixes', []),
    'A06': ('inflection', 'every lexeme/normal form removes and restores exactly the affix recorded in the derivation', []),
    'A07': ('inflection', 'normalized() computes the value of get_lexeme()[0] for every unit', []),
    'A08': ('inflection', 'the result of inflect is drawn from the lexeme members that satisfy the subset condition; the unknown-grammeme error covers every path', []),
    'A11': ('config', 'the constructor arguments in the reduced form equal the arguments given, option by option; defaults survive as defaults', []),
    'A12': ('config', 'every attribute set by a unit constructor has the same value in the clone; construction binds only objects created during the call', []),
    'A13': ('tags', 'every comparison, hash and length is a function of one attribute fixed at creation; lazily assigned attributes depend on the tag only; exposed sets are frozen', []),
    'A14': ('tags', 'creation, membership and category comparison are guarded by the subset-of-known-grammemes condition on every answering path; each category attribute selects from its own category table', []),
    'A15': ('tags', 'the three grammeme tables are written together under one condition; every constant tag created by a unit uses grammemes registered before', []),
    'A16': ('files', 'the table of files, encodings, record layouts and metadata keys of the writer equals that of the reader; the format check dominates every read of data', []),
    'A20': ('files', 'writer and reader of the probability table use the same file, flag, key form and scale; estimation changes only the score field and the order', []),
    'A21': ('parsing', 'every lookup made while parsing, tagging or testing a word uses lower-cased text and the substitutions of the analyzer (none for strict queries)', []),
    'A25': ('config', 'the path, language, units and substitutions used by construction equal the decision table of the documentation', []),
    'A26': ('tags', 'the value graph for every residue modulo 100 and every combination of part of speech, case and gender equals the agreement table', []),
    'A28': ('parsing', 'every tag emitted by the predicting units carries the productivity condition, in parse and in tag', []),
    'A31': ('results', 'the enumeration equals the loop over all dictionary records with the tag and normal form computed from the record', []),
    'A32': ('results', 'every API wraps its items with the type created for the analyzer at hand; no result class is written to', []),
    'A09': ('effects', 'every effect of a call of the public interface on state that outlives it is a memo determined by its key or a lazily computed constant; results hand out no state', []),
    'A10': ('effects', 'every change of class or module state reachable from construction happens while one pre-existing lock is held', []),
    'A34': ('order', 'no loop that produces a returned sequence runs over a set, frozenset or set expression without a total sort; nothing is sorted by identity, hash, time or chance', []),
    'A17': ('compiling', 'the compiled array, the words, the prediction records and every reader name the same table for the same third and the same field order', ['arrays and strings keep what is put into them', 'word forms in OpenCorpora dictionaries are lower-cased text']),
    'A18': ('compiling', 'prefix + stem + suffix equals the form in every case of the split; the loops that store words, move linked lexemes and drop unsupported parses leave out no other form', ['str.index returns the first position of a contained text']),
    'A19': ('source', 'every assigned tag is the canonical form of the old one or a key of the same spelling group; groups are keyed by the grammeme set of their canonical keys; simplification precedes compilation', []),
    'A35': ('source', 'for every kind of element the stored items equal those of the required loop over the parser events; clearing is dominated by every read', ['the XML parser delivers the end events of a well-formed file in document order']),
    'A33': ('compiling', 'the counters, thresholds, ranges and selected forms equal those of the required computation', []),
    'A27': ('backends', 'both prefix matchers list the prefixes a word starts with; with a matcher that lists in any order no result depends on the order or on the installed library; only operations of both libraries are used', ['both libraries list stored items of one dictionary in the same order']),
    'A22': ('commandline', 'the sequence of writes equals, for every combination of options, one record per token with the requested fields of the results not below the threshold; caches are keyed by the token and filled with the record of that token', ['docopt parses options as its usage text declares them; lru_cache returns what the function returned']),
    'A23': ('text', 'the split expression keeps every separator that is not white, separates all white characters and no word characters; only empty and white pieces are dropped', []),
    'A24': ('text', 'the value equals the part-wise re-casing for every alternative of the example', []),
    'A29': ('text', 'the condition of each predicate and of each unit, as a condition on the kinds of characters that occur (or as the language of a regular expression), equals the required one; memos are determined by their key', []),
    'A30': ('tables', 'the constant tables of every language configuration, evaluated from the syntax tree, satisfy the constraints of their consumers', []),
}

NOTES = {}

NOT_APPLICABLE = {
    'A36': 'which analysis of an unknown word a speaker would choose, and the true probability of a tag, are facts about the language, not '
           'about the source: no static argument can establish them without an annotated corpus (which would be a measurement). What the '
           'source does decide about predictions (derivation, scores, productivity, order) is claimed as A05, A20, A28, A30 and A34.',
    'A37': 'running time and memory depend on the dictionary, on how often the analysis re-enters itself (exponential only for stacked '
           'prefixes and particles that the lists of a language make possible) and on the runtime; no static bound in reach is both sound and '
           'useful. That the re-entry terminates is claimed as A03.',
}
