M = "import pymorphy2\nm = pymorphy2.MorphAnalyzer()\n"

seed('A01-hyphen-seen', 'A01', [('units/by_hyphen.py', '''        for fixed_word, tag, normal_form, score, right_methods in right_parses:

            if tag._is_unknown():
                continue

            new_methods_stack = ((self, left, right_methods),)
''', '''        for fixed_word, tag, normal_form, score, right_methods in right_parses:

            seen.add(('-'.join((left, fixed_word)), tag, None))
            if tag._is_unknown():
                continue

            new_methods_stack = ((self, left, right_methods),)
''')], 'a word with one inner hyphen whose right part is analysed by no analyzer',
     'the hyphen analyzer marks the word as seen without producing a parse, so the unknown-word fallback stays silent and parse() returns an empty list',
     M + '''
for w in ['ъъ-ъъ', 'слово-ъъъ', 'кот-\u4e2d', 'x-\u05d0']:
    need(m.parse(w), 'no parses for', w)
    need(m.tag(w), 'no tags for', w)
''')

seed('A01-zero-prob', 'A01', [('analyzer.py', '''            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs)
        ], key=_score_getter, reverse=True)
''', '''            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs)
            if prob > 0.005 or len(parses) < 3
        ], key=_score_getter, reverse=True)
''')], 'a word with three or more parses one of which has a tiny corpus probability',
     're-scoring drops parses whose estimated probability is below one half percent',
     M + '''
est = m.prob_estimator
words = sorted(set(k.split(':')[0] for k in est.p_t_given_w.keys()))
p = pymorphy2.MorphAnalyzer(probability_estimator_cls=None)
for w in words:
    need(len(m.parse(w)) == len(p.parse(w)), w, len(m.parse(w)), len(p.parse(w)))
''')

seed('A03-bare-particle', 'A03', [('units/by_hyphen.py', '''            unsuffixed_word = word[:-len(particle)]
            if not unsuffixed_word:
                continue

            yield''', '''            # a bare particle is analyzed as a whole
            unsuffixed_word = word[:-len(particle)] or word

            yield''')], 'the token is exactly one of the hyphen particles, e.g. "-то"',
     'the particle analyzer re-analyses the same word and never terminates',
     M + '''
for w in ['-то', '-ка', '-таки', '-с']:
    try:
        need(m.parse(w), w)
        need(m.tag(w), w)
    except RuntimeError as e:
        need(False, w, type(e))
''')

seed('A03-empty-prefix', 'A03', [('lang/uk/_prefixes.py', '''_DASH_PREFIXES = """
2D''', '''_DASH_PREFIXES = """

2D'''), ('lang/uk/_prefixes.py', '_DASH_PREFIXES.strip()', '_DASH_PREFIXES[1:].rstrip()')],
     'the Ukrainian configuration and a word that reaches the prefix analyzer',
     'the list of Ukrainian prefixes contains an empty one: stripping it re-analyses the same word forever',
     '''
import pymorphy2, pymorphy2.lang.uk as uk, pymorphy2.lang.ru as ru
m = pymorphy2.MorphAnalyzer(lang='uk', path=pymorphy2.analyzer.lang_dict_path('ru'))
for w in ['ъыъыъ', 'бутявка', 'абвгд']:
    try:
        need(m.parse(w), w)
    except RuntimeError as e:
        need(False, w, type(e))
    need(all(p for p in uk.KNOWN_PREFIXES), 'empty prefix')
''')

seed('A04-longest-prefix', 'A04', [('units/by_analogy.py', '''                if not tag.is_productive():
                    continue
                add_tag_if_not_seen(tag, result, seen_tags)
        return result

    def possible_splits''', '''                if not tag.is_productive():
                    continue
                add_tag_if_not_seen(tag, result, seen_tags)
            if result:
                # the longest prefix is the most reliable one
                break
        return result

    def possible_splits''')], 'an unknown word that starts with two known prefixes of different length',
     'tag() only uses the longest known prefix, parse() uses all of them', M + '''
bad = []
import pymorphy2.lang.ru as ru
pre = [p for p in ru.KNOWN_PREFIXES if not p.endswith('-')]
pairs = [(a, b) for a in pre for b in pre if a != b and b.startswith(a)]
need(pairs)
for a, b in pairs:
    for w in ['стол', 'рана', 'ставить', 'дом', 'лить', 'форма', 'ход', 'мыло', 'стой', 'стал', 'рой', 'ря', 'том', 'три']:
        x = b + w
        need(set(m.tag(x)) == set(p.tag for p in m.parse(x)), x)
''')

seed('A04-hyphen-tag', 'A04', [('units/by_hyphen.py', '''    def _parse_as_fixed_left(self, right_parses, seen, left):
''', '''    def tag(self, word, word_lower, seen_tags):
        if not self._should_parse(word_lower):
            return []
        result = []
        for tag in self.morph.tag(word_lower.split('-', 1)[1]):
            if not tag._is_unknown():
                add_tag_if_not_seen(tag, result, seen_tags)
        return result

    def _parse_as_fixed_left(self, right_parses, seen, left):
''')], 'a hyphenated word whose parts agree in case and number but differ in gender or animacy',
     'tag() of hyphenated words looks at the right part only, parse() also gives the tag of the left part', M + '''
for w in ['человек-гора', 'команд-участниц', 'компания-производитель', 'страна-экспортёр', 'город-крепость', 'диван-кровать']:
    need(set(m.tag(w)) == set(p.tag for p in m.parse(w)), w)
''')

seed('A05-suffix-lemma', 'A05', [('units/by_analogy.py', '''normal_form = self.dict.build_normal_form(para_id, idx, fixed_word)
                        methods''', '''normal_form = self.dict.build_normal_form(para_id, idx, word_lower)
                        methods''')], 'an unknown word with a substituted letter in its ending, in its dictionary form',
     'the normal form of a predicted parse is built from the text as typed, the word itself from the restored letters', M + '''
n = 0
for end in ['вренок', 'тренок', 'ченок', 'женок', 'шенок', 'лек', 'рек', 'веры', 'вле', 'жье', 'тье', 'енка', 'шек', 'ещь', 'ечь', 'мер', 'лет']:
    for start in ['бзык', 'ктулхур', 'хрумп', 'глокопур', 'щрбт']:
        for p in m.parse(start + end):
            first = p.lexeme[0]
            if len(p.methods_stack) == 2 and p.methods_stack[0][3] == 0:
                n += 'ё' in p.word
                need(p.normal_form == p.word, p.word, p.normal_form)
need(n)
''')

seed('A05-hyphen-lemma', 'A05', [('units/by_hyphen.py', '''                    '-'.join((left_parse[2], right_parse[2])),  # normal form
''', '''                    '-'.join((left_parse[2], right_parses[0][2])),  # normal form
''')], 'a hyphenated word both parts of which vary, the right part being ambiguous with different normal forms',
     'the normal form of a two-part parse is taken from the most probable right parse, not from the one that gave the tag', M + '''
n = 0
for left in ['человека', 'команды', 'города', 'стали', 'дома', 'ввода']:
    for right in ['стали', 'вина', 'белки', 'рода', 'мела', 'банки', 'пара', 'вести', 'душа', 'печи', 'леса']:
        for p in m.parse(left + '-' + right):
            this = p.methods_stack[0]
            if len(p.methods_stack) == 1 and isinstance(this[1], tuple) and len(this) == 3:
                l, r = this[1:]
                if len(l) == 1 and len(r) == 1:
                    n += 1
                    d = m.dictionary
                    need(p.normal_form == d.build_normal_form(l[0][2], l[0][3], l[0][1]) + '-' +
                         d.build_normal_form(r[0][2], r[0][3], r[0][1]), p.word, p.normal_form)
need(n > 5)
''')

seed('A06-stale-right', 'A06', [('units/by_hyphen.py', '''                    ((this_method, left_methods, f[4]),)
''', '''                    ((this_method, left_methods, right_methods),)
''')], 'inflecting a member of the lexeme of a hyphenated word with a fixed left part (two inflection steps)',
     'forms of hyphenated words keep the derivation of the original form, so their own lexemes are wrong', M + '''
for w in ['интернет-магазин', 'интернет-магазинами', 'воздушно-капельного', 'нано-кошкам']:
    for p in m.parse(w):
        forms = [f.word for f in p.lexeme]
        for f in p.lexeme:
            need([g.word for g in f.lexeme] == forms, w, f.word, f.lexeme[0].word, forms[0])
''')

seed('A06-prefix-guard', 'A06', [('units/by_analogy.py', '''        yield [with_prefix(f, prefix) for f in lexeme]


class KnownPrefixAnalyzer''', '''        yield [
            f if f[0].startswith(prefix) else with_prefix(f, prefix)
            for f in lexeme
        ]


class KnownPrefixAnalyzer''')], 'a word whose remainder starts with the same prefix, e.g. a doubled prefix',
     'lexemes of words with a doubled prefix lose one of the prefixes', M + '''
for w in ['псевдопсевдокошка', 'супер-суперкот', 'переперестройка', 'антиантителами']:
    for p in m.parse(w):
        need(w in [f.word for f in p.lexeme], w, [f.word for f in p.lexeme][:3])
''')

seed('A07-hyphen-normalized', 'A07', [('units/by_hyphen.py', '''    def normalized(self, form):
        return next(self._iter_lexeme(form))
''', '''    def normalized(self, form):
        this_method, left_methods, right_methods = form[4][0]
        if self._fixed_left_method_was_used(left_methods):
            return next(self._iter_lexeme(form))
        left = left_methods[-1][0].normalized(
            self._without_right_part(replace_methods_stack(form, left_methods))
        )
        right = right_methods[-1][0].normalized(
            self._without_left_part(replace_methods_stack(form, right_methods))
        )
        return next(self._merge_lexemes([left], [right]))
''')], 'a two-part word whose right part has no singular and whose left part has one',
     'normalized gives "дверь-ворота" while the lexeme starts with "двери-ворота"', M + '''
n = 0
for w in ['двери-ворота', 'дверей-ворот', 'команды-сани', 'котов-ножниц', 'юбки-брюки', 'юбок-брюк', 'человек-гора', 'столы-козлы']:
    for p in m.parse(w):
        n += isinstance(p.methods_stack[0][1], tuple)
        need(p.normalized.word == p.lexeme[0].word and p.normalized.tag == p.lexeme[0].tag, w, p.normalized.word, p.lexeme[0].word)
need(n > 3)
''')

seed('A07-patr', 'A07', [('units/abbreviations.py', '''        return fixed_word, self._tags[0], normal_form, score, methods_stack
''', '''        tag = next(tag for tag in self._tags if tag.gender == form[1].gender)
        return fixed_word, tag, normal_form, score, methods_stack
''')], 'a feminine patronymic initial', 'a feminine patronymic initial is normalized to a feminine tag, its lexeme starts with the masculine one', M + '''
n = 0
for w in 'АБВГДЮЯ':
    for p in m.parse(w):
        n += 1
        need(p.normalized.tag == p.lexeme[0].tag, w, p.tag, p.normalized.tag, p.lexeme[0].tag)
need(n > 50)
''')

seed('A08-early-none', 'A08', [('analyzer.py', '''                                if required_grammemes <= f[1].grammemes]

        grammemes''', '''                                if required_grammemes <= f[1].grammemes]
        if not possible_results:
            return []

        grammemes''')], 'asking for a grammeme the dictionary does not know',
     'inflecting to a misspelled grammeme silently returns None', M + '''
for g in ['foobar', 'datvv', 'plural']:
    for w in ['стол', 'красивый', 'бежать', 'и']:
        for req in [set([g]), set(['sing', g])]:
            try:
                r = m.parse(w)[0].inflect(req)
            except ValueError:
                continue
            need(False, w, req, r)
''')

seed('A08-sgtm', 'A08', [('analyzer.py', '''                                if required_grammemes <= f[1].grammemes]

        grammemes''', '''                                if required_grammemes <= f[1].grammemes]

        if not possible_results and 'Sgtm' in form[1]:
            # singularia tantum: there is no plural
            required_grammemes = required_grammemes - set(['plur'])
            possible_results = [f for f in self.get_lexeme(form)
                                if required_grammemes <= f[1].grammemes]

        grammemes''')], 'a word that has no plural and a request for the plural',
     'inflect returns a form that lacks the requested grammeme', M + '''
n = 0
for w in ['молоко', 'снег', 'золото', 'молодёжь', 'мебель', 'бельё', 'кислород', 'ложь']:
    for p in m.parse(w):
        n += 'Sgtm' in p.tag
        for req in [set(['plur']), set(['plur', 'datv'])]:
            r = p.inflect(req)
            need(r is None or req <= r.tag.grammemes, w, req, r)
need(n)
''')

seed('A13-hash-text', 'A13', [('tagset.py', '''        return hash(self._grammemes_tuple)
''', '''        return hash(self._str)
''')], 'two spellings of the same grammemes that differ in the place of the space',
     'equal tags have different hashes', M + '''
T = m.TagClass
for a, b in [('NOUN,inan,masc sing,nomn', 'NOUN inan,masc,sing,nomn'), ('ADJF,Qual masc,sing,nomn', 'ADJF Qual,masc,sing,nomn')]:
    need(T(a) == T(b))
    need(hash(T(a)) == hash(T(b)) and len(set([T(a), T(b)])) == 1, a, b)
''')

seed('A13-cyr-order', 'A13', [('tagset.py', '''    def __lt__(self, other):
        return self._grammemes_tuple < other._grammemes_tuple

    def __gt__(self, other):
        return self._grammemes_tuple > other._grammemes_tuple
''', '''    def __lt__(self, other):
        return self._str < other._str

    def __gt__(self, other):
        return self._str > other._str
''')], 'two tags with a common beginning, one with a space where the other has a comma',
     'ordering depends on the spelling: equal tags are ordered', M + '''
T = m.TagClass
a, b = T('NOUN,inan,masc sing,nomn'), T('NOUN inan,masc,sing,nomn')
need(a == b)
need(not a < b and not a > b and not b < a and not b > a)
''')

seed('A14-any-known', 'A14', [('tagset.py', '''            self._assert_grammemes_are_known(grammeme)
            return False

        # 'NOUN' in tag''', '''            if not grammeme & self.KNOWN_GRAMMEMES:
                self._assert_grammemes_are_known(grammeme)
            return False

        # 'NOUN' in tag''')], 'a set with one misspelled and one correct grammeme',
     'membership of a set with a misspelled grammeme is answered "no" instead of raising', M + '''
t = m.parse('стол')[0].tag
for s in [set(['NOUN', 'foobar']), set(['VERB', 'foobar']), frozenset(['datvv', 'sing'])]:
    try:
        r = s in t
    except ValueError:
        continue
    need(False, s, r)
''')

seed('A14-gender', 'A14', [('tagset.py', '''    gender = _select_grammeme_from(GENDERS)
''', '''    gender = _select_grammeme_from(GENDERS | frozenset(['GNdr', 'ms-f']))
''')], 'a word without a gender (GNdr), e.g. a plural-only surname',
     'the gender attribute returns and accepts grammemes that are not genders', M + '''
n = 0
for p in m.iter_known_word_parses('са'):
    if 'GNdr' in p.tag:
        n += 1
        need(p.tag.gender in (None,) or str(p.tag.gender) in p.tag.GENDERS, p.tag, p.tag.gender)
t = m.parse('стол')[0].tag
try:
    t.gender == 'GNdr'
    need(False, 'GNdr accepted as a gender')
except ValueError:
    pass
''')

seed('A15-patr', 'A15', [('units/abbreviations.py', '''        super(AbbreviatedFirstNameAnalyzer, self)._init_grammemes(tag_cls)
        self.morph.TagClass.add_grammemes_to_known('Name', 'имя', overwrite=False)
''', '''        super(AbbreviatedFirstNameAnalyzer, self)._init_grammemes(tag_cls)
        self.morph.TagClass.KNOWN_GRAMMEMES.add('Name')
''')], 'a dictionary whose grammeme table lacks "Name"',
     'the grammeme "Name" becomes known without Cyrillic translation', '''
import pymorphy2, json
from pymorphy2.units import *
d = tempfile.mkdtemp()
try:
    src = pymorphy2.analyzer.lang_dict_path('ru')
    for f in os.listdir(src):
        if f.endswith(('.dawg', '.array', '.json', '.intdawg')):
            shutil.copy(os.path.join(src, f), d)
    p = os.path.join(d, 'grammemes.json')
    gr = json.load(open(p, encoding='utf8'))
    kept = [g for g in gr if g[0] not in ('Name',)]
    json.dump(kept, open(p, 'w', encoding='utf8'))
    for f in os.listdir(d):
        if f.startswith('gramtab'):
            q = os.path.join(d, f)
            t = json.load(open(q, encoding='utf8'))
            json.dump([x.replace(',Name', '') if isinstance(x, str) else x for x in t], open(q, 'w', encoding='utf8'))
    m = pymorphy2.MorphAnalyzer(path=d)
    for x in m.parse('А'):
        for g in x.tag.grammemes:
            need(m.lat2cyr(g) != g, g)
            need(m.cyr2lat(m.lat2cyr(g)) == g, g)
        x.tag.grammemes_cyr
except KeyError as e:
    need(False, repr(e))
finally:
    shutil.rmtree(d)
''')

seed('A15-roman-cyr', 'A15', [('units/by_shape.py', '''    TAG_STR_CYR = 'РИМ'
''', '''    TAG_STR_CYR = 'ЛАТ'
''')], 'translating back the Cyrillic name of the Roman number grammeme',
     'two analyzer grammemes share one Cyrillic name, so translating it back gives the wrong grammeme', M + '''
for g in ['ROMN', 'LATN', 'PNCT', 'NUMB', 'intg', 'real', 'UNKN', 'Init']:
    need(m.cyr2lat(m.lat2cyr(g)) == g, g, m.lat2cyr(g), m.cyr2lat(m.lat2cyr(g)))
''')

seed('A21-strict-case', 'A21', [('analyzer.py', '''            word = word.lower(),
            substitutes_compiled = None if strict else self.char_substitutes
''', '''            word = word if strict else word.lower(),
            substitutes_compiled = None if strict else self.char_substitutes
''')], 'a strict known-word query for a capitalised word',
     'strict queries depend on the letter case of the word', M + '''
for w in ['Москва', 'КОШКА', 'Ёж', 'Стол']:
    need(m.word_is_known(w, strict=True) == m.word_is_known(w.lower(), strict=True), w)
''')

seed('A21-particle-case', 'A21', [('units/by_hyphen.py', '''        for unsuffixed_word, particle in self.possible_splits(word_lower):
            result.extend(''', '''        for unsuffixed_word, particle in self.possible_splits(word):
            result.extend(''')], 'tagging an upper-case word with a hyphen particle',
     'letter case decides whether the particle is recognised when tagging', M + '''
for w in ['смотри-ка', 'кошка-то', 'дай-де', 'бутявка-с']:
    for x in (w, w.upper(), w.title()):
        need(m.tag(x) == m.tag(w), x)
''')

seed('A26-112', 'A26', [('tagset.py', '''(num % 100 < 10 or num % 100 >= 20)''', '''(num < 10 or num >= 20)''')],
     'numbers of three or more digits ending in 12, 13 or 14', '112 is treated like 2', M + '''
t = m.parse('стол')[0]
for base in (0, 100, 200, 1000, 31400):
    for k in range(100):
        need(t.make_agree_with_number(base + k).word == t.make_agree_with_number(k).word, base + k)
''')

seed('A26-femn', 'A26', [('tagset.py', '''        elif self.POS in ('ADJF', 'PRTF') and self.gender == 'femn' and index == 1:
''', '''        elif self.POS == 'ADJF' and self.gender == 'femn' and index == 1:
''')], 'a feminine full participle and a number of the paucal class',
     'feminine participles are put in the genitive after 2, 3, 4', M + '''
n = 0
for w in ['сделанная', 'читающая', 'разбитая', 'красивая', 'спящая']:
    for p in m.parse(w):
        if p.tag.POS in ('PRTF', 'ADJF') and 'femn' in p.tag and 'nomn' in p.tag:
            n += p.tag.POS == 'PRTF'
            for k in (2, 3, 4, 22, 103):
                need(p.tag.numeral_agreement_grammemes(k) == set(['plur', 'nomn']), w, k)
need(n)
''')

seed('A28-apro', 'A28', [('tagset.py', '''        return not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES
''', '''        return self._POS not in self._NON_PRODUCTIVE_GRAMMEMES
''')], 'an unknown word that ends like a pronominal adjective',
     'pronominal adjectives are predicted for unknown words', M + '''
bad = m.TagClass._NON_PRODUCTIVE_GRAMMEMES
for w in ['псевдокаждый', 'антимой', 'супервсякий', 'мегатакой', 'ретромоей', 'псевдосвой', 'ъкаждый', 'фыикакой']:
    for p in m.parse(w):
        need(not (p.tag.grammemes & bad), w, p.tag)
    for t in m.tag(w):
        need(not (t.grammemes & bad), w, t)
''')

seed('A28-prefix-tag', 'A28', [('units/by_analogy.py', '''            tags = self.dict_analyzer.tag(unprefixed_word, unprefixed_word, seen_tags)
            for tag in tags:

                if not tag.is_productive():
                    continue

                add_tag_if_not_seen(tag, result, seen_tags)
''', '''            tags = self.dict_analyzer.tag(unprefixed_word, unprefixed_word, seen_tags)
            if not any(tag.is_productive() for tag in tags):
                continue

            for tag in tags:
                add_tag_if_not_seen(tag, result, seen_tags)
''')], 'tagging an unknown word made of an unknown prefix and a dictionary word that is ambiguous between an open and a closed class',
     'tagging by unknown prefix keeps non-productive tags when a productive one exists', M + '''
bad = m.TagClass._NON_PRODUCTIVE_GRAMMEMES
n = 0
for w in ['дома', 'мой', 'три', 'том', 'хорошо', 'можно', 'нужно', 'жаль', 'тем', 'чем', 'кругом', 'около', 'вокруг', 'мимо', 'против']:
    for pre in ['ъ', 'фы', 'щщщ']:
        tags = set(m.tag(pre + w))
        n += len(tags)
        for t in tags:
            need(not (t.grammemes & bad), pre + w, t)
need(n)
''')

seed('A30-particle-order', 'A30', [('lang/uk/config.py', '''PARTICLES_AFTER_HYPHEN = ["-но", "-таки", "-бо", "-от"]
''', '''PARTICLES_AFTER_HYPHEN = ["-но", "-таки", "-бо", "-от", "то", "-Ж"]
''')], 'Ukrainian words with the new particles', 'a particle without hyphen and one in upper case are unusable', '''
import pymorphy2.lang as L
for k in ('ru', 'uk'):
    for p in getattr(L, k).PARTICLES_AFTER_HYPHEN:
        need(p.startswith('-') and len(p) > 1 and p == p.lower(), k, p)
''')

seed('A30-skip-prefixes', 'A30', [('lang/uk/config.py', '''    units.HyphenatedWordsAnalyzer(skip_prefixes=KNOWN_PREFIXES),
''', '''    units.HyphenatedWordsAnalyzer(skip_prefixes=[p for p in KNOWN_PREFIXES if not p.endswith('-')]),
''')], 'Ukrainian words with a prefix that ends with a hyphen',
     'prefixes ending with a hyphen are not excluded from part-wise analysis in the Ukrainian configuration', '''
import pymorphy2, pymorphy2.lang as L
m = pymorphy2.MorphAnalyzer(lang='uk', path=pymorphy2.analyzer.lang_dict_path('ru'))
hyp = [u for u, t in m._units if type(u).__name__ == 'HyphenatedWordsAnalyzer'][0]
pre = [u for u, t in m._units if type(u).__name__ == 'KnownPrefixAnalyzer'][0]
for p in L.uk.KNOWN_PREFIXES:
    w = p + ('\u043a\u0456\u0442' if p.endswith('-') else '-\u043a\u0456\u0442')
    if pre.get_prefixes(w):
        need(not hyp._should_parse(w), w)
''')
