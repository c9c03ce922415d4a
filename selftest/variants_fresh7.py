from variants import bug, same
AN, BA, TS, DA, UT, SP, TK = 'analyzer.py', 'units/base.py', 'tagset.py', 'dawg.py', 'utils.py', 'shapes.py', 'tokenizers.py'
PA, CL, PB, UN, ST = 'opencorpora_dict/parse.py', 'cli.py', 'opencorpora_dict/probability.py', 'units/unkn.py', 'opencorpora_dict/storage.py'

# ---- whole functions written another way (second part); run these without -s
same('A20', 'R7 parses rescored', (AN, '''        if sum(probs) == 0:
            # no P(t|w) information is available; return normalized estimate
            k = 1.0 / sum(map(_score_getter, parses))
            return [
                (word, tag, normal_form, score*k, methods_stack)
                for (word, tag, normal_form, score, methods_stack) in parses
            ]

        # replace score with P(t|w) probability
        return sorted([
            (word, tag, normal_form, prob, methods_stack)
            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs)
        ], key=_score_getter, reverse=True)
''', '''        known = sum(probs) != 0
        if known:
            # replace score with P(t|w) probability
            scored = [self._with_score(p, prob) for p, prob in zip(parses, probs)]
            scored.sort(key=_score_getter, reverse=True)
            return scored

        # no P(t|w) information is available; return normalized estimate
        k = 1.0 / sum(p[3] for p in parses)
        return [self._with_score(p, p[3] * k) for p in parses]

    @staticmethod
    def _with_score(parse, score):
        word, tag, normal_form, _, methods_stack = parse
        return word, tag, normal_form, score, methods_stack
'''))
same('A20', 'R7 tags rescored', (AN, '''        return sorted(tags,
            key=lambda tag: self.p_t_given_w.prob(word_lower, tag),
            reverse=True
        )
''', '''        def probability(tag):
            return self.p_t_given_w.prob(word_lower, tag)

        return sorted(tags, key=probability, reverse=True)
'''))
same('A25', 'R7 env get', (AN, '''        if path is not None:
            return path

        if cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]

        return lang_dict_path(lang)
''', '''        if path is None:
            path = os.environ.get(cls.DICT_PATH_ENV_VARIABLE)
        if path is None:
            path = lang_dict_path(lang)
        return path
'''))
same('A25', 'R7 lang path try', (AN, '''    lang_paths = _lang_dict_paths()
    if lang in lang_paths:
        return lang_paths[lang]

    raise ValueError(
        "Can't find a dictionary for language %r. Installed languages: %r. "
        "Try installing pymorphy2-dicts-%s package." % (
            lang, list(lang_paths.keys()), lang
        )
    )
''', '''    lang_paths = _lang_dict_paths()
    try:
        return lang_paths[lang]
    except KeyError:
        installed = sorted(lang_paths)
        raise ValueError(
            "Can't find a dictionary for language %r. Installed languages: %r. "
            "Try installing pymorphy2-dicts-%s package." % (lang, installed, lang)
        )
'''))
same('A11', 'R7 init order', (AN, '''            if result_type is not None:
                # create a subclass with the same name,
                # but with _morph attribute bound to self
                res_type = type(
                    result_type.__name__,
                    (result_type,),
                    {'_morph': self, '_dict': self.dictionary}
                )
                self._result_type = res_type
            else:
                self._result_type = None

            self._result_type_orig = result_type
''', '''            self._result_type_orig = result_type
            self._result_type = self._bound_result_type(result_type)
'''), (AN, '''    def _init_units(self, units_unbound=None):''', '''    def _bound_result_type(self, result_type):
        """ A subclass with the same name, but with _morph attribute bound to self """
        if result_type is None:
            return None
        attrs = {'_morph': self, '_dict': self.dictionary}
        return type(result_type.__name__, (result_type,), attrs)

    def _init_units(self, units_unbound=None):'''))
same('A12', 'R7 init units', (AN, '''        self._units_unbound = units_unbound
        self._units = []
        for item in units_unbound:
            if isinstance(item, (list, tuple)):
                for unit in item[:-1]:
                    self._units.append((self._bound_unit(unit), False))
                self._units.append((self._bound_unit(item[-1]), True))
            else:
                self._units.append((self._bound_unit(item), True))
''', '''        self._units_unbound = units_unbound
        self._units = units = []
        for item in units_unbound:
            group = item if isinstance(item, (list, tuple)) else [item]
            last = len(group) - 1
            for i, unit in enumerate(group):
                units.append((self._bound_unit(unit), i == last))
'''))
same('A22', 'R7 normal forms ordered', (AN, '''        seen = set()
        result = []

        for p in self.parse(word):
            normal_form = p[2]
            if normal_form not in seen:
                result.append(normal_form)
                seen.add(normal_form)
        return result
''', '''        result = []
        for p in self.parse(word):
            if p[2] not in result:
                result.append(p[2])
        return result
'''))
same('A31', 'R7 wrap helper', (AN, '''            if self._result_type is None:
                yield parse
            else:
                yield self._result_type(*parse)
''', '''            yield parse if self._result_type is None else self._result_type(*parse)
'''))
same('A32', 'R7 lexeme wrap', (AN, '''        methods_stack = form[4]
        last_method = methods_stack[-1]
        result = last_method[0].get_lexeme(form)

        if self._result_type is None:
            return result
        return [self._result_type(*p) for p in result]
''', '''        analyzer = form[4][-1][0]
        return self._wrapped(analyzer.get_lexeme(form))

    def _wrapped(self, parses):
        make = self._result_type
        return parses if make is None else [make(*p) for p in parses]
'''), (AN, '''        if self._result_type is None:
            return res

        return [self._result_type(*p) for p in res]
''', '''        return self._wrapped(res)
'''))
same('A06', 'R7 base coroutine', (BA, '''        normalizer = self.normalizer(form, this_method)

        form = without_last_method(next(normalizer))
        normal_form = normalizer.send(base_analyzer.normalized(form))
        return append_method(normal_form, this_method)
''', '''        steps = self.normalizer(form, this_method)
        inner = without_last_method(next(steps))
        outer = steps.send(base_analyzer.normalized(inner))
        return append_method(outer, this_method)
'''), (BA, '''        base_analyzer, this_method = self._method_info(form)
        return self._get_lexeme(form, base_analyzer, this_method)

    def _get_lexeme(self, form, base_analyzer, this_method):
        lexemizer''', '''        return self._get_lexeme(form, *self._method_info(form))

    def _get_lexeme(self, form, base_analyzer, this_method):
        lexemizer'''), (BA, '''        base_method, this_method = methods_stack[-2:]
        base_analyzer = base_method[0]
        return base_analyzer, this_method''', '''        return methods_stack[-2][0], methods_stack[-1]'''))
same('A12', 'R7 params loop', (BA, '''        return dict(
            (key, getattr(self, key, None)) for key in self._get_param_names()
        )
''', '''        params = {}
        for key in self._get_param_names():
            params[key] = getattr(self, key, None)
        return params
'''))
same('A14', 'R7 contains', (TS, '''        # {'NOUN', 'sing'} in tag
        if isinstance(grammeme, (set, frozenset)):
            if grammeme <= self.grammemes:
                return True
            self._assert_grammemes_are_known(grammeme)
            return False

        # 'NOUN' in tag
        if grammeme in self.grammemes:
            return True
        else:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Grammeme is unknown: %s" % grammeme)
            return False
''', '''        # {'NOUN', 'sing'} in tag
        if isinstance(grammeme, (set, frozenset)):
            found = grammeme <= self.grammemes
            if not found:
                self._assert_grammemes_are_known(grammeme)
            return found

        # 'NOUN' in tag
        if grammeme not in self.grammemes:
            if self.grammeme_is_known(grammeme):
                return False
            raise ValueError("Grammeme is unknown: %s" % grammeme)
        return True
'''))
same('A13', 'R7 comparisons', (TS, '''    def __ne__(self, other):
        return self._grammemes_tuple != other._grammemes_tuple

    def __lt__(self, other):
        return self._grammemes_tuple < other._grammemes_tuple

    def __gt__(self, other):
        return self._grammemes_tuple > other._grammemes_tuple
''', '''    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return self._grammemes_tuple < other._grammemes_tuple

    def __gt__(self, other):
        return other < self
'''))
same('A13', 'R7 init tag', (TS, '''        grammemes = tag.replace(' ', ',', 1).split(',')
        grammemes_tuple = tuple([intern(str(g)) for g in grammemes])

        self._assert_grammemes_are_known(set(grammemes_tuple))

        self._grammemes_tuple = grammemes_tuple
        self._POS = self._grammemes_tuple[0]
        self._grammemes_cache = None
        self._cyr_grammemes_cache = None
        self._cyr = None
''', '''        parts = tuple(intern(str(g)) for g in tag.replace(' ', ',', 1).split(','))
        self._assert_grammemes_are_known(frozenset(parts))
        self._POS = parts[0]
        self._grammemes_tuple = parts
        self._grammemes_cache = self._cyr_grammemes_cache = self._cyr = None
'''))
same('A08', 'R7 updated grammemes', (TS, '''        new_grammemes = self.grammemes | required
        for grammeme in required:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Unknown grammeme: %s" % grammeme)
            new_grammemes -= self._GRAMMEME_INCOMPATIBLE[grammeme]
        return new_grammemes
''', '''        removed = set()
        for grammeme in required:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Unknown grammeme: %s" % grammeme)
            removed |= self._GRAMMEME_INCOMPATIBLE[grammeme]
        return (self.grammemes | required) - removed
'''))
same('A08', 'R7 rare cases', (TS, '''        return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)
''', '''        common = set()
        for g in grammemes:
            common.add(cls.RARE_CASES[g] if g in cls.RARE_CASES else g)
        return frozenset(common)
'''))
same('A26', 'R7 numeral helper', (TS, '''        if (num % 10 == 1) and (num % 100 != 11):
            index = 0
        elif (num % 10 >= 2) and (num % 10 <= 4) and (num % 100 < 10 or num % 100 >= 20):
            index = 1
        else:
            index = 2

        if self.POS not in''', '''        index = self._plural_form(num)
        if self.POS not in'''), (TS, '''    def numeral_agreement_grammemes(self, num):''', '''    @staticmethod
    def _plural_form(num):
        last, last_two = num % 10, num % 100
        if 11 <= last_two <= 14:
            return 2
        if last == 1:
            return 0
        return 1 if last in (2, 3, 4) else 2

    def numeral_agreement_grammemes(self, num):'''))
same('A26', 'R7 numeral returns', (TS, '''        if self.POS == 'NOUN' and self.case not in ('nomn', 'accs'):
            if index == 0:
                grammemes = set(['sing', self.case])
            else:
                grammemes = set(['plur', self.case])
        elif index == 0:
            if self.case == 'nomn':
                grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[0]
            else:
                grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[1]
        elif self.POS == 'NOUN' and index == 1:
            grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[2]
        elif self.POS in ('ADJF', 'PRTF') and self.gender == 'femn' and index == 1:
            grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
        else:
            grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
        return set(grammemes)
''', '''        if self.POS == 'NOUN' and self.case not in ('nomn', 'accs'):
            return set(['plur' if index else 'sing', self.case])
        return set(self._NUMERAL_AGREEMENT_GRAMMEMES[self._agreement_row(index)])

    def _agreement_row(self, index):
        if index == 0:
            return 0 if self.case == 'nomn' else 1
        if index == 1:
            if self.POS == 'NOUN':
                return 2
            if self.gender == 'femn':
                return 3
        return 4
'''))
same('A15', 'R7 init grammemes', (TS, '''        children = collections.defaultdict(set)
        for index, (name, parent, alias, description) in enumerate(dict_grammemes):
            if parent:
                children[parent].add(name)
            if gr.get(parent, None):  # parent's parent
                children[gr[parent]].add(name)

        # expand EXTRA_INCOMPATIBLE
        extra_incompatible = {}
        for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
            extra_incompatible[grammeme] = g_set.copy()
            for g in g_set:
                extra_incompatible[grammeme].update(children[g])
''', '''        children = collections.defaultdict(set)
        for name, parent, _, _ in dict_grammemes:
            if parent:
                children[parent].add(name)
            grandparent = gr.get(parent)
            if grandparent:
                children[grandparent].add(name)

        # expand EXTRA_INCOMPATIBLE
        extra_incompatible = {}
        for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
            expanded = set(g_set)
            for g in g_set:
                expanded |= children[g]
            extra_incompatible[grammeme] = expanded
'''))
same('A15', 'R7 translate', (TS, '''    return " ".join([
        _translate_comma_separated(whitespace_separated_part, mapping)
        for whitespace_separated_part in tag.split()
    ])


def _translate_comma_separated(tag_part, mapping):
    grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',')]
    return ",".join(grammemes)
''', '''    translated = []
    for part in tag.split():
        translated.append(",".join(mapping.get(tok, tok) for tok in part.split(',')))
    return " ".join(translated)
'''))
same('A29', 'R7 punctuation', (SP, '''    return (
        bool(token) and
        not token.isspace() and
        all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())
    )
''', '''    visible = [ch for ch in token if not ch.isspace()]
    if not visible:
        return False
    return all(unicodedata.category(ch).startswith('P') for ch in visible)
'''))
same('A29', 'R7 latin', (SP, '''    return (
        any(ch.isalpha() for ch in token) and
        all(is_latin_char(ch) for ch in token if ch.isalpha())
    )
''', '''    letters = [ch for ch in token if ch.isalpha()]
    return bool(letters) and all(map(is_latin_char, letters))
'''))
same('A24', 'R7 capitalization', (SP, '''    if '-' in example:
        results = []
        word_parts = word.split('-')
        example_parts = example.split('-')

        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            else:
                results.append(part.lower())

        return '-'.join(results)

    return _make_the_same_case(word, example)
''', '''    if '-' not in example:
        return _make_the_same_case(word, example)

    examples = example.split('-')
    parts = []
    for i, part in enumerate(word.split('-')):
        parts.append(_make_the_same_case(part, examples[i]) if i < len(examples) else part.lower())
    return '-'.join(parts)
'''))
same('A24', 'R7 same case', (SP, '''    if example.islower():
        return word.lower()
    elif example.isupper():
        return word.upper()
    elif example.istitle():
        return word.title()
    else:
        return word.lower()
''', '''    if example.isupper():
        return word.upper()
    if example.istitle():
        return word.title()
    return word.lower()
'''))
same('A23', 'R7 tokenize loop', (TK, '''    return [t for t in _split(text) if t and not t.isspace()]''', '''    tokens = []
    for t in _split(text):
        if t.strip():
            tokens.append(t)
    return tokens'''))
same('A18', 'R7 lcs', (UT, '''    substr = ''
    for i in range(len(data[0])):
        for j in range(len(data[0])-i+1):
            if j > len(substr) and all(data[0][i:i+j] in x for x in data):
                substr = data[0][i:i+j]
    return substr
''', '''    first = data[0]
    substr = ''
    for start in range(len(first)):
        for end in range(start, len(first) + 1):
            candidate = first[start:end]
            if len(candidate) > len(substr) and all(candidate in x for x in data):
                substr = candidate
    return substr
'''))
same('A03', 'R7 word splits', (UT, '''    max_split = min(max_prefix_length, len(word)-min_reminder)
    split_indexes = range(1, 1+max_split)
    return [(word[:i], word[i:]) for i in split_indexes]
''', '''    splits = []
    for i in range(1, len(word) - min_reminder + 1):
        if i > max_prefix_length:
            break
        splits.append((word[:i], word[i:]))
    return splits
'''))
same('A33', 'R7 largest', (UT, '''    it1, it2 = itertools.tee(iterable)
    top_keys = set(heapq.nlargest(n, set(map(key, it1))))
    return [el for el in it2 if key(el) in top_keys]
''', '''    keyed = [(key(el), el) for el in iterable]
    top_keys = set(heapq.nlargest(n, set(k for k, _ in keyed)))
    return [el for k, el in keyed if k in top_keys]
'''))
same('A27', 'R7 python matcher', (DA, '''        if not self.is_prefixed(word):  # fail-fast path
            return []
        return [pref for pref in self._prefixes if word.startswith(pref)]
''', '''        return list(filter(word.startswith, self._prefixes))
'''))
same('A35', 'R7 parse dispatch', (PA, '''        if elem.tag == 'grammeme':
            name = elem.find('name').text
            parent = elem.get('parent')
            alias = elem.find('alias').text
            description = elem.find('description').text

            grammeme = (name, parent, alias, description)
            grammemes.append(grammeme)
            xml_clear_elem(elem)

        if elem.tag == 'lemma':
            lex_id, word_forms = _word_forms_from_xml_elem(elem)
            lexemes[lex_id] = word_forms
            xml_clear_elem(elem)

        elif elem.tag == 'link':
            link_tuple = (
                elem.get('from'),
                elem.get('to'),
                elem.get('type'),
            )
            links.append(link_tuple)
            xml_clear_elem(elem)
''', '''        if elem.tag == 'grammeme':
            grammemes.append(_grammeme_from_elem(elem))
        elif elem.tag == 'lemma':
            lex_id, word_forms = _word_forms_from_xml_elem(elem)
            lexemes[lex_id] = word_forms
        else:
            links.append(tuple(elem.get(key) for key in ('from', 'to', 'type')))
        xml_clear_elem(elem)
'''), (PA, '''def _grammemes_from_elem(elem):''', '''def _grammeme_from_elem(elem):
    return (
        elem.find('name').text,
        elem.get('parent'),
        elem.find('alias').text,
        elem.find('description').text,
    )


def _grammemes_from_elem(elem):'''))
same('A35', 'R7 word forms', (PA, '''    lexeme = []
    lex_id = elem.get('id')

    if len(elem) == 0:  # deleted lexeme?
        return lex_id, lexeme
''', '''    lex_id = elem.get('id')
    if not len(elem):  # deleted lexeme?
        return lex_id, []

    lexeme = []
'''))
same('A22', 'R7 formatter', (CL, '''        if normal_form:
            if tag:
                if score:
                    def _parse_token(tok):
                        seq = [
                            "%s:%0.3f=%s" % (p.normal_form, p.score, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
                        return tpl % (tok, join(seq))
                else:
                    def _parse_token(tok):
                        seq = [
                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
                        return tpl % (tok, join(seq))
''', '''        if normal_form:
            if tag:
                if score:
                    def item(p):
                        return "%s:%0.3f=%s" % (p.normal_form, p.score, p.tag)
                else:
                    def item(p):
                        return "%s:%s" % (p.normal_form, p.tag)

                def _parse_token(tok):
                    parses = [p for p in morph_parse(tok) if p.score >= thresh]
                    return tpl % (tok, join(map(item, parses)))
'''))
same('A22', 'R7 write loop', (CL, '''    _write = out_file.write

    for token in iter_tokens(in_file):
        _write(_parse(token))
''', '''    for token in iter_tokens(in_file):
        line = _parse(token)
        out_file.write(line)
'''))
same('A22', 'R7 token generators', (CL, '''    return (token for line in fp for token in simple_word_tokenize(line))
''', '''    for line in fp:
        for token in simple_word_tokenize(line):
            yield token
'''), (CL, '''    return (line for line in (line.strip() for line in fp) if line)
''', '''    for line in fp:
        token = line.strip()
        if token:
            yield token
'''))
