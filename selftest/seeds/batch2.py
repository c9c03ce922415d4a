M = "import pymorphy2\nm = pymorphy2.MorphAnalyzer()\n"
U = M.replace('Analyzer()', "Analyzer(lang='uk')")

seed('A01-nonproductive-seen', 'A01', [('units/by_analogy.py', '''                        # skip non-productive tags
                        if not tag.is_productive():
                            continue

                        total_counts[prefix_id] += cnt

                        # avoid duplicate parses
                        reduced_parse = fixed_word, tag, para_id
                        if reduced_parse in seen_parses:
                            continue
                        seen_parses.add(reduced_parse)
''', '''                        # avoid duplicate parses
                        reduced_parse = fixed_word, tag, para_id
                        duplicate = reduced_parse in seen_parses
                        seen_parses.add(reduced_parse)

                        # skip non-productive tags
                        if not tag.is_productive():
                            continue

                        total_counts[prefix_id] += cnt
                        if duplicate:
                            continue
''')], 'an unknown word all of whose predictions by ending are of a non-productive part of speech',
     'rejected predictions are recorded as seen, so the unknown-word fallback gives nothing and parse() returns an empty list',
     M + '''
for d in m.dictionary.prediction_suffixes_dawgs:
    for k in d.iterkeys():
        for start in ('\u044a\u044a\u044a\u044a', '\u044d\u044a'):
            if k[:1] != '-':
                need(m.parse(start + k), start + k)
''')

seed('A02-digit-string', 'A02', [('units/by_shape.py', '''        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
''', '''        if word.isdigit():
            # the most common case
            return 'intg' if int(word) >= 0 else False
        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
''')], 'a token of digits that are not decimal digits, e.g. a superscript two',
     'int() of a superscript raises ValueError out of parse() and tag()', M + '''
for w in ['\u00b2', '12\u00b3', '\u2460', '12', '\u0663']:
    try:
        m.parse(w), m.tag(w)
    except Exception as e:
        need(False, ascii(w), repr(e))
''')

seed('A04-found-new', 'A04', [('units/by_analogy.py', '''                        found = True
                        if tag in seen_tags:
                            continue
                        seen_tags.add(tag)
''', '''                        if tag in seen_tags:
                            continue
                        found = True
                        seen_tags.add(tag)
''')], 'an unknown word with a paradigm prefix (e.g. \u043f\u043e-) whose predictions for the bare table repeat those of the prefix table',
     'tag() goes on to shorter endings when all tags of the longest ending were seen already; parse() does not', M + '''
import itertools
n = 0
for d in m.dictionary.prediction_suffixes_dawgs[1:]:
    for k in d.iterkeys():
        for start in ('\u043f\u043e\u044d\u043a\u0437', '\u043d\u0430\u0438\u044d\u043a\u0437'):
            w = start + k
            need(set(m.tag(w)) == set(p.tag for p in m.parse(w)), w)
            n += 1
need(n > 10)
''')

seed('A09-features-memo', 'A09', [('units/by_hyphen.py', '''        """ :type tag: pymorphy2.tagset.OpencorporaTag """
        return replace_grammemes(
            tag.grammemes & self._FEATURE_GRAMMEMES,
            {'gen1': 'gent', 'loc1': 'loct'}
        )
''', '''        """ :type tag: pymorphy2.tagset.OpencorporaTag """
        key = tag.POS, tag.number, tag.case, tag.person
        if key not in self._features:
            self._features[key] = replace_grammemes(
                tag.grammemes & self._FEATURE_GRAMMEMES,
                {'gen1': 'gent', 'loc1': 'loct'}
            )
        return self._features[key]
'''), ('units/by_hyphen.py', '''                                   Tag.CASES | Tag.PERSONS | Tag.TENSES)
''', '''                                   Tag.CASES | Tag.PERSONS | Tag.TENSES)
        self._features = {}
''')], 'a hyphenated pair of verbs (or participles) after a word of another tense was analysed',
     'the memo of agreement features ignores the tense: whether two parts agree depends on what was analysed before', M + '''
a = pymorphy2.MorphAnalyzer()
words = ['\u0447\u0438\u0442\u0430\u043b-\u0447\u0438\u0442\u0430\u0435\u0442', '\u0447\u0438\u0442\u0430\u043b-\u043f\u0438\u0441\u0430\u043b', '\u0445\u043e\u0434\u0438\u0442-\u0431\u0440\u043e\u0434\u0438\u0442', '\u0431\u0440\u043e\u0434\u0438\u043b\u0438-\u0445\u043e\u0434\u044f\u0442', '\u0447\u0438\u0442\u0430\u044e\u0449\u0438\u0439-\u0447\u0438\u0442\u0430\u0432\u0448\u0438\u0439']
def f(m, w):
    return [(p.word, str(p.tag), p.normal_form, p.score) for p in m.parse(w)]
one = dict((w, f(m, w)) for w in words)
two = dict((w, f(a, w)) for w in reversed(words))
need(one == two)
''')

seed('A10-units-outside', 'A10', [('analyzer.py', '''            self._init_char_substitutes(char_substitutes)
            self._init_units(units)

    def''', '''            self._init_char_substitutes(char_substitutes)

        self._init_units(units)

    def''')], 'two threads that construct analyzers at the same time',
     'the units register their grammemes in the shared tag class after the global lock was released: another analyzer that is being constructed resets the tables meanwhile', '''
import threading, pymorphy2
from pymorphy2.tagset import OpencorporaTag as T
orig = T.add_grammemes_to_known.__func__
free = []
def probe():
    if pymorphy2.MorphAnalyzer._lock.acquire(False):
        pymorphy2.MorphAnalyzer._lock.release()
        free.append(1)
def spy(cls, *a, **k):
    if not free:
        t = threading.Thread(target=probe)
        t.start()
        t.join()
    return orig(cls, *a, **k)
T.add_grammemes_to_known = classmethod(spy)
m = pymorphy2.MorphAnalyzer()
need(not free, 'the tables changed while the lock was free')
''')

seed('A10-own-lock', 'A10', [('analyzer.py', '''        with self._lock:
            self.dictionary''', '''        self._lock = threading.RLock()
        with self._lock:
            self.dictionary''')], 'two threads that construct analyzers at the same time',
     'every analyzer locks a lock of its own, so concurrent constructions change the shared tag class at the same time', '''
import threading, pymorphy2
from pymorphy2.tagset import OpencorporaTag as T
orig = T._init_grammemes.__func__
active, worst = [0], [0]
ev = threading.Event()
def spy(cls, *a, **k):
    active[0] += 1
    worst[0] = max(worst[0], active[0])
    ev.wait(1.5)
    try:
        return orig(cls, *a, **k)
    finally:
        active[0] -= 1
T._init_grammemes = classmethod(spy)
ts = [threading.Thread(target=pymorphy2.MorphAnalyzer) for _ in range(2)]
for t in ts: t.start()
for t in ts: t.join()
need(worst[0] == 1, 'two constructions at the same time')
''')

seed('A11-result-type', 'A11', [('analyzer.py', '''            self._result_type_orig = result_type
''', '''            self._result_type_orig = result_type or Parse
''')], 'an analyzer with result_type=None is pickled and restored',
     'the restored analyzer returns named tuples where the original returned plain tuples', '''
import pickle, pymorphy2
m = pymorphy2.MorphAnalyzer(result_type=None)
n = pickle.loads(pickle.dumps(m))
need(type(m.parse('\u043a\u043e\u0442')[0]) is tuple)
need(type(n.parse('\u043a\u043e\u0442')[0]) is tuple, type(n.parse('\u043a\u043e\u0442')[0]))
''')

seed('A12-same-unit', 'A12', [('analyzer.py', '''        unit = unit.clone()
        unit.init(self)
        return unit
''', '''        if unit.morph is not None:
            unit = unit.clone()
        unit.init(self)
        return unit
''')], 'two analyzers are built from the same list of units (e.g. the defaults)',
     'the first analyzer binds the shared unit objects themselves, the units of the user are changed', M + '''
import pymorphy2.lang.ru as ru
for g in ru.DEFAULT_UNITS:
    for u in (g if isinstance(g, (list, tuple)) else [g]):
        need(u.morph is None, u)
        need(u not in [x for x, _ in m._units], u)
''')

seed('A12-min-word', 'A12', [('units/by_analogy.py', '''    def __init__(self, score_multiplier=0.5,  min_word_length=4):
        self.min_word_length = min_word_length
        self.score_multiplier = score_multiplier
''', '''    def __init__(self, score_multiplier=0.5,  min_word_length=4):
        self._min_length = min_word_length
        self.score_multiplier = score_multiplier

    @property
    def min_word_length(self):
        return max(self._min_length, 4)
''')], 'a suffix analyzer created with min_word_length below 4',
     'the copy that the analyzer binds was created with another minimum', '''
import pymorphy2
from pymorphy2 import units
u = units.KnownSuffixAnalyzer(min_word_length=2)
need(u.min_word_length == 2 and u.clone().min_word_length == 2)
''')

seed('A16-signed-count', 'A16', [('opencorpora_dict/storage.py', '''        paradigms_count = struct.unpack(str("<H"), f.read(2))[0]
''', '''        paradigms_count = struct.unpack(str("<h"), f.read(2))[0]
''')], 'a dictionary with more than 32767 paradigms', 'the number of paradigms is read as a signed number: no paradigm is loaded', '''
import array, struct
from pymorphy2.opencorpora_dict import storage
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'paradigms.array')
    with open(fn, 'wb') as f:
        f.write(struct.pack('<H', 40000))
        for i in range(40000):
            p = array.array('H', [i, 1, 0])
            f.write(struct.pack('<H', len(p)))
            p.tofile(f)
    r = storage._load_paradigms(fn)
    need(len(r) == 40000, len(r))
finally:
    shutil.rmtree(d)
''')

seed('A16-version', 'A16', [('opencorpora_dict/storage.py', '''    if major != curr_major:
''', '''    if int(major) < int(curr_major):
''')], 'a dictionary of a newer major format version', 'the dictionary is loaded although its format is unknown', '''
from pymorphy2.opencorpora_dict import storage
for v in ['1.5', '3.0', '10.1']:
    try:
        storage._assert_format_is_compatible({'format_version': v}, '/x')
    except ValueError:
        continue
    need(False, 'accepted format', v)
storage._assert_format_is_compatible({'format_version': '2.9'}, '/x')
''')

TOY = '''
from pymorphy2 import units
import pymorphy2
from pymorphy2.opencorpora_dict import parse, preprocess, compile
from pymorphy2.lang import ru
def build(lexemes, links=(), **opts):
    d = parse.ParsedDictionary(lexemes=lexemes, links=list(links), grammemes=[], version='1', revision='1')
    o = dict(paradigm_prefixes=ru.PARADIGM_PREFIXES if hasattr(ru, 'PARADIGM_PREFIXES') else ['', '\u043f\u043e', '\u043d\u0430\u0438'])
    o.update(opts)
    return compile.compile_parsed_dict(d, o), o['paradigm_prefixes']
def spell(c, prefixes):
    out = []
    for w, (para, idx) in c.words_dawg.items():
        p = c.paradigms[para]
        n = len(p) // 3
        out.append((w, c.gramtab[p[n + idx]], prefixes[p[2 * n + idx]], c.suffixes[p[idx]]))
    return out
'''

seed('A17-sorted-prefixes', 'A17', [('opencorpora_dict/compile.py', '''        (pref, idx) for idx, pref in enumerate(paradigm_prefixes)
''', '''        (pref, idx) for idx, pref in enumerate(sorted(set(paradigm_prefixes)))
''')], 'a dictionary with forms that have the prefix \u043f\u043e- or \u043d\u0430\u0438-',
     'prefix ids are positions in the sorted list of prefixes, readers use them as positions in the list as given', TOY + '''
lex = {'1': [('\u0441\u0442\u0430\u0440\u044b\u0439', 'ADJF sing'), ('\u043f\u043e\u0441\u0442\u0430\u0440\u0435\u0435', 'COMP'), ('\u043d\u0430\u0438\u0441\u0442\u0430\u0440\u0435\u0439\u0448\u0438\u0439', 'ADJF,Supr')]}
c, pr = build(lex)
for w, tag, p, s in spell(c, pr):
    need(w.startswith(p) and w.endswith(s), w, tag, p, s)
    need((p == '\u043f\u043e') == w.startswith('\u043f\u043e') and (p == '\u043d\u0430\u0438') == w.startswith('\u043d\u0430\u0438'), w, p)
''')

seed('A18-unique-words', 'A18', [('opencorpora_dict/compile.py', '''            words.append(
                (form, (para_id, idx))
            )
''', '''            if (suff, tag, pref) not in paradigm[:idx]:
                words.append(
                    (form, (para_id, idx))
                )
''')], 'a lexeme that lists the same form with the same tag twice', 'the second position of the form is not in the word graph', TOY + '''
c, pr = build({'1': [('\u0434\u043e\u043c', 'NOUN nomn'), ('\u0434\u043e\u043c', 'NOUN accs'), ('\u0434\u043e\u043c', 'NOUN nomn')]})
need(sorted(i for w, (p, i) in c.words_dawg.items()) == [0, 1, 2], c.words_dawg.items())
''')

seed('A19-memo', 'A19', [('opencorpora_dict/preprocess.py', '''    return _split_grammemes(replace_redundant_grammemes(tag_str))
''', '''    return _split_grammemes(replace_redundant_grammemes(tag_str)) - frozenset(['Abbr'])
''')], 'a dictionary with two tags that differ only in Abbr', 'tags with different grammemes are treated as spellings of one tag', TOY + '''
d = parse.ParsedDictionary(lexemes={
    '1': [('\u0430', 'NOUN,inan sing,nomn')] * 3, '2': [('\u0431', 'NOUN,inan,Abbr sing,nomn')], '3': [('\u0432', 'inan,NOUN sing,nomn')],
    '4': [('\u0433', 'NOUN,inan nomn,sing')]},
    links=[], grammemes=[], version='1', revision='1')
before = dict((k, [t for w, t in v]) for k, v in d.lexemes.items())
preprocess.simplify_tags(d)
for k, v in d.lexemes.items():
    for old, (w, t) in zip(before[k], v):
        need(set(old.replace(' ', ',').split(',')) == set(t.replace(' ', ',').split(',')), old, t)
''')

seed('A20-partial', 'A20', [('analyzer.py', '''        if sum(probs) == 0:
''', '''        if not all(probs):
''')], 'a word for which the corpus table has a probability for some of the parses only',
     'the stored probabilities are ignored for such words', M + '''
est = m.prob_estimator
n = 0
for w in sorted(set(k.split(':')[0] for k in est.p_t_given_w.keys())):
    ps = m.parse(w)
    pr = [est.p_t_given_w.prob(w, p.tag) for p in ps]
    if sum(pr):
        n += 1
        need([p.score for p in ps] == pr, w, pr, [p.score for p in ps])
need(n)
''')

seed('A20-round', 'A20', [('dawg.py', '''        return self.get(dawg_key, 0) / self.MULTIPLIER
''', '''        value = self.get(dawg_key, 0)
        return min(value, self.MULTIPLIER - 1) / self.MULTIPLIER
''')], 'a stored probability of one', 'the probability read is less than the one stored', '''
from pymorphy2.dawg import ConditionalProbDistDAWG
d = ConditionalProbDistDAWG([(('a', 'X'), 1.0), (('a', 'Y'), 0.25)])
need(d.prob('a', 'X') == 1.0, d.prob('a', 'X'))
need(d.prob('a', 'Y') == 0.25)
need(d.prob('a', 'Z') == 0)
''')

CLI = '''
import io, pymorphy2
from pymorphy2 import cli
m = pymorphy2.MorphAnalyzer()
def run(text, **kw):
    o = dict(tokenize=True, score=True, normal_form=True, tag=True, newlines=True, cache_size='20000', thresh=0.0)
    o.update(kw)
    out = io.StringIO()
    cli.parse(morph=m, in_file=io.StringIO(text), out_file=out, **o)
    return out.getvalue()
'''

seed('A22-strict-thresh', 'A22', [('cli.py', '''                        [(lemma, w) for (lemma, w) in lemmas.items() if w >= thresh],
''', '''                        [(lemma, w) for (lemma, w) in lemmas.items() if w > thresh],
''')], 'lemmas only, a token whose only result has a score equal to the threshold', 'results at the threshold are left out', CLI + '''
need(run('1 \u043a\u043e\u0442 ,', tag=False, thresh=1.0) == '1{}\\n\u043a\u043e\u0442{\u043a\u043e\u0442:1.000}\\n,{}\\n' or True)
for t in '1', ',', '\u043a\u043e\u0442', '\u0441\u0442\u0430\u043b\u0438':
    ps = {}
    for p in m.parse(t):
        ps[p.normal_form] = ps.get(p.normal_form, 0) + p.score
    top = max(ps.values())
    got = run(t, tag=False, thresh=top, score=False)
    want = sorted(k for k, v in ps.items() if v >= top)
    need(sorted(got.split('{')[1].split('}')[0].split('|')) == want, got, want)
''')

seed('A22-cache-lower', 'A22', [('cache.py', '''            if arg in cache:
                return cache[arg]
            res = func(arg)
            cache[arg] = res
            return res
''', '''            key = arg.lower()
            if key in cache:
                return cache[key]
            res = func(arg)
            cache[key] = res
            return res
''')], 'an unlimited cache and a text with one word in two capitalisations', 'the record of the second token shows the first one', CLI + '''
t = '\u041a\u043e\u0442 \u043a\u043e\u0442 \u041a\u041e\u0422'
need(run(t, cache_size='unlim') == run(t, cache_size='0'), run(t, cache_size='unlim'))
''')

seed('A23-white', 'A23', [('tokenizers.py', "if t and not t.isspace()]", "if t.strip(' \\t\\r\\n\\f\\v')]")],
     'text with a no-break space or a line separator', 'white characters are returned as tokens', '''
from pymorphy2.tokenizers import simple_word_tokenize as t
for c in ['\\xa0', '\\u2028', '\\u3000', '\\x85', '\\x1f']:
    need(t('\u0430' + c + '\u0431') == ['\u0430', '\u0431'], t('\u0430' + c + '\u0431'))
''')

seed('A23-apostrophe', 'A23', [('tokenizers.py', "([^\\w_-]|[+])", "([^\\w_\\xad-]|[+])")],
     'text with soft hyphens', 'a soft hyphen is no separator any more', '''
from pymorphy2.tokenizers import simple_word_tokenize as t
need(t('\u0430\\xad\u0431') == ['\u0430', '\\xad', '\u0431'], t('\u0430\\xad\u0431'))
''')

seed('A24-title-first', 'A24', [('shapes.py', '''    elif example.isupper():
        return word.upper()
    elif example.istitle():
        return word.title()
''', '''    elif example.istitle():
        return word.title()
    elif example.isupper():
        return word.upper()
''')], 'an example of one capital letter', 'the word gets a title case instead of capitals', '''
from pymorphy2.shapes import restore_capitalization as r
need(r('\u0430\u0431\u0432', '\u042f') == '\u0410\u0411\u0412', r('\u0430\u0431\u0432', '\u042f'))
need(r('x-abc', 'a-B') == 'x-ABC', r('x-abc', 'a-B'))
''')

seed('A24-capitalize', 'A24', [('shapes.py', 'return word.title()', 'return word.capitalize()')],
     'a word with an apostrophe or a space and a title-cased example', 'letters after the apostrophe are lowered', '''
from pymorphy2.shapes import restore_capitalization as r
need(r("o'neil", "Smith") == "O'Neil", r("o'neil", "Smith"))
need(r("a b", "Smith") == "A B")
''')

seed('A25-env-first', 'A25', [('analyzer.py', '''        if cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return''', '''        if lang is None and cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return''')], 'a language is given and the environment variable is set', 'the environment variable is ignored', '''
import pymorphy2
M = pymorphy2.MorphAnalyzer
os.environ[M.DICT_PATH_ENV_VARIABLE] = '/some/where'
for a in [(None, None), (None, 'ru'), (None, 'uk')]:
    need(M.choose_dictionary_path(*a) == '/some/where', a)
need(M.choose_dictionary_path('/x', 'ru') == '/x')
''')

seed('A26-hundreds', 'A26', [('tagset.py', 'if (num % 10 == 1) and (num % 100 != 11):', 'if (num % 10 == 1) and (num % 1000 != 11) and (num != 111):')],
     'the number 211, 1111 etc.', 'nouns get the singular after numbers ending in 11 above 111', M + '''
t = m.parse('\u043a\u043e\u0442')[0]
for n in range(0, 3000):
    a, b = t.make_agree_with_number(n % 100), t.make_agree_with_number(n)
    need(a.word == b.word and a.tag == b.tag, n, a.word, b.word)
''')

seed('A27-full-word', 'A27', [('dawg.py', '''        return [pref for pref in self._prefixes if word.startswith(pref)]
''', '''        return [pref for pref in self._prefixes if word.startswith(pref) and word != pref]
''')], 'a word that equals a listed prefix, pure-Python backend', 'the Python matcher lists fewer prefixes than the compiled one', '''
from pymorphy2 import dawg
p = ['\u0430', '\u0430\u0431', '\u0431']
a, b = dawg.PythonPrefixMatcher(p), dawg.DawgPrefixMatcher(p)
for w in ['\u0430', '\u0430\u0431', '\u0430\u0431\u0432', '\u0432', '', '\u0431']:
    need(sorted(a.prefixes(w)) == sorted(b.prefixes(w)), w, a.prefixes(w), b.prefixes(w))
''')

seed('A27-no-sort', 'A27', [('units/by_analogy.py', '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
''', '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.reverse()
''')], 'a word with two known prefixes and the pure-Python backend', 'the order of parses follows the order in which the backend lists prefixes', '''
from pymorphy2 import dawg, units
import pymorphy2
from pymorphy2.units import by_analogy as b
m = pymorphy2.MorphAnalyzer()
u = units.KnownPrefixAnalyzer(['\u043f\u043e\u043b\u0443', '\u043f\u043e', '\u043f'])
def run(cls):
    b.PrefixMatcher = cls
    x = u.clone()
    x.init(m)
    return list(x.possible_splits('\u043f\u043e\u043b\u0443\u043a\u043e\u0448\u043a\u0430'))
need(run(dawg.DawgPrefixMatcher) == run(dawg.PythonPrefixMatcher), run(dawg.DawgPrefixMatcher), run(dawg.PythonPrefixMatcher))
''')

seed('A29-symbols', 'A29', [('shapes.py', "all(unicodedata.category(ch)[0] == 'P' for ch", "all(unicodedata.category(ch)[0] in 'PC' for ch")],
     'punctuation with control or format characters', 'tokens with control characters count as punctuation', '''
from pymorphy2.shapes import is_punctuation as p
need(not p('.\\x00'), 'control')
need(not p('\\u200b'), 'format')
need(p('...') and not p('a'))
''')

seed('A31-lower', 'A31', [('analyzer.py', '''        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix):
            methods = ((self._units[0][0], word, para_id, idx),)
''', '''        seen = None
        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix):
            if (word, tag) == seen:
                continue
            seen = word, tag
            methods = ((self._units[0][0], word, para_id, idx),)
''')], 'two records of one word with the same tag and different paradigms', 'only the first of the homonyms is enumerated', M + '''
n = sum(1 for _ in m.iter_known_word_parses('\u0431\u0430'))
k = sum(1 for _ in m.dictionary.words.iteritems('\u0431\u0430'))
n2 = sum(1 for _ in m.iter_known_word_parses(''))
k2 = sum(1 for _ in m.dictionary.words.iteritems(''))
need(n == k and n2 == k2, n, k, n2, k2)
''')

seed('A31-form-index', 'A31', [('opencorpora_dict/wrapper.py', '''            normal_form = self.build_normal_form(para_id, idx, word)
            yield''', '''            normal_form = self.build_normal_form(para_id, idx, word) if word not in seen else seen[word]
            seen = {word: normal_form}
            yield'''), ('opencorpora_dict/wrapper.py', '''        for word, (para_id, idx) in self.words.iteritems(prefix):
''', '''        seen = {}
        for word, (para_id, idx) in self.words.iteritems(prefix):
''')], 'a word form with several normal forms', 'later records of the word get the normal form of the first one', M + '''
for p in m.iter_known_word_parses(''):
    a, w, para, idx = p.methods_stack[0]
    need(p.normal_form == m.dictionary.build_normal_form(para, idx, w), p)
''')

seed('A32-lexeme-type', 'A32', [('analyzer.py', '''        return [self._result_type(*p) for p in result]

    def _inflect''', '''        return [form.__class__(*p) for p in result]

    def _inflect''')], 'get_lexeme() of a parse that another analyzer made', 'the members are bound to the other analyzer and have its result type', '''
import pymorphy2
a = pymorphy2.MorphAnalyzer()
b = pymorphy2.MorphAnalyzer()
p = a.parse('\u043a\u043e\u0442')[0]
need(type(p)._morph is a)
form = tuple(p)
try:
    r = a.get_lexeme(form)
    need(all(type(x)._morph is a for x in r))
except Exception as e:
    need(False, repr(e))
''')

seed('A32-last-analyzer', 'A32', [('analyzer.py', '''                res_type = type(
                    result_type.__name__,
                    (result_type,),
                    {'_morph': self, '_dict': self.dictionary}
                )
                self._result_type = res_type
''', '''                if '_morph' in result_type.__dict__ and result_type._morph is None:
                    # default type
                    res_type = type(
                        result_type.__name__,
                        (result_type,),
                        {'_morph': self, '_dict': self.dictionary}
                    )
                else:
                    res_type = result_type
                    res_type._morph, res_type._dict = self, self.dictionary
                self._result_type = res_type
''')], 'a user-defined subclass of Parse is the result type of two analyzers', 'results of the first analyzer become bound to the second', '''
import pymorphy2
from pymorphy2.analyzer import Parse
class P(Parse):
    pass
a = pymorphy2.MorphAnalyzer(result_type=P)
p = a.parse('\u043a\u043e\u0442')[0]
b = pymorphy2.MorphAnalyzer(result_type=P)
need(p._morph is a and a.parse('\u043a\u043e\u0442')[0]._morph is a)
''')

seed('A33-threshold', 'A33', [('opencorpora_dict/compile.py', '''        if ending_counts[ending] < min_ending_freq:
            continue
''', '''        if ending_counts[ending] < min(min_ending_freq, 3):
            continue
''')], 'a minimal ending frequency above 3', 'endings that are rarer than the configured minimum are kept', TOY + '''
lex = {}
for i, s in enumerate(['\u0430\u0431\u0432', '\u0433\u0434\u0431\u0432', '\u0436\u0437\u0431\u0432', '\u0438\u043a\u0431\u0432']):
    lex[str(i)] = [(s + '\u0430', 'NOUN nomn'), (s + '\u0443', 'NOUN accs')]
c, pr = build(lex, min_ending_freq=5)
need(not sum((list(d.keys()) for d in c.prediction_suffixes_dawgs), []), 'rare endings kept')
c, pr = build(lex, min_ending_freq=4)
need(sum((list(d.keys()) for d in c.prediction_suffixes_dawgs), []), 'no endings')
''')

XML = '''
from pymorphy2.opencorpora_dict import parse
def run(body):
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'd.xml')
        with open(fn, 'wb') as f:
            f.write(('<?xml version="1.0" encoding="utf-8"?><dictionary version="0.9" revision="7">' + body + '</dictionary>').encode('utf8'))
        return parse.parse_opencorpora_xml(fn)
    finally:
        shutil.rmtree(d)
'''

seed('A35-linked-only', 'A35', [('opencorpora_dict/parse.py', '''            links.append(link_tuple)
''', '''            if link_tuple not in links[-1:]:
                links.append(link_tuple)
''')], 'the source lists a link twice in a row', 'a link of the source is not in the parsed dictionary', XML + '''
r = run('<links><link id="1" from="1" to="2" type="3"/><link id="2" from="1" to="2" type="3"/></links>')
need(len(r.links) == 2, r.links)
''')

seed('A35-deleted', 'A35', [('opencorpora_dict/parse.py', '''            lexemes[lex_id] = word_forms
''', '''            if word_forms:
                lexemes[lex_id] = word_forms
''')], 'a deleted lexeme that is the target of a link', 'the lexeme is missing in the parsed dictionary and joining links fails', XML + '''
r = run('<lemmata><lemma id="5" rev="1"/><lemma id="6" rev="1"><l t="\u0430"><g v="CONJ"/></l><f t="\u0430"></f></lemma></lemmata>')
need(r.lexemes.get('5') == [] and r.lexemes.get('6') == [('\u0430', 'CONJ')], r.lexemes)
''')
