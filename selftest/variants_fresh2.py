from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'

# ---- A08
bug('A08', 'rare cases first', (AN, '''        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not''', '''        lexeme = self.get_lexeme(form)
        possible_results = [f for f in lexeme if f[1].POS == form[1].POS
                            and required_grammemes <= f[1].grammemes]

        if not'''))
bug('A08', 'nothing for itself', (AN, '''        return heapq.nlargest(1, possible_results, key=similarity)''', '''        best = heapq.nlargest(1, possible_results, key=similarity)
        return best if best and best[0][0] else [form]'''))
bug('A08', 'unknown skipped', (TS, '''                raise ValueError("Unknown grammeme: %s" % grammeme)
''', '''                continue
'''))
bug('A08', 'unknown only with result', (AN, '''        grammemes = form[1].updated_grammemes(required_grammemes)
        def''', '''        if len(possible_results) < 2:
            return possible_results
        grammemes = form[1].updated_grammemes(required_grammemes)
        def'''))
same('A08', 'fix inline', (AN, '''            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible''', '''            fix = self.TagClass.fix_rare_cases
            required_grammemes = fix(required_grammemes)
            possible'''))
same('A08', 'sorted first', (AN, "return heapq.nlargest(1, possible_results, key=similarity)", "possible_results.sort(key=similarity, reverse=True)\n        return possible_results[:1]"))
same('A08', 'index member', (AN, "if required_grammemes <= f[1].grammemes]\n\n        if not", "if f[1].grammemes >= required_grammemes]\n\n        if not"))

# ---- A09
bug('A09', 'last tag kept', (HY, '''    def should_parse(self, word):
        if len(word) < 5''', '''    _last = (None, None)

    def should_parse(self, word):
        if self._last[0] == word[3:6]:
            return self._last[1]
        result = self._should(word)
        self._last = (word[3:6], result)
        return result

    def _should(self, word):
        if len(word) < 5'''))
bug('A09', 'prefixes sorted in place', (BY, '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
''', '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
        self.known_prefixes = word_prefixes + [p for p in self.known_prefixes if p not in word_prefixes]
'''))
bug('A09', 'agreement set', (TS, '        return set(grammemes)\n\n    #@classmethod', '        return grammemes\n\n    #@classmethod'))
bug('A09', 'suffix counts kept', (BY, '''        total_counts = [1] * len(self._paradigm_prefixes)
''', '''        if not hasattr(self, '_totals'):
            self._totals = [1] * len(self._paradigm_prefixes)
        total_counts = self._totals
'''))
bug('A09', 'default seen', (AN, '''    def normal_forms(self, word):
        """
        Return a list of word normal forms.
        """
        seen = set()
''', '''    def normal_forms(self, word, seen=set()):
        """
        Return a list of word normal forms.
        """
'''))
bug('A09', 'incompatible update', (TS, '''        new_grammemes = self.grammemes | required
        for grammeme in required:''', '''        new_grammemes = self.grammemes | required
        self._GRAMMEME_INCOMPATIBLE.update((g, frozenset()) for g in required if g not in self._GRAMMEME_INCOMPATIBLE)
        for grammeme in required:'''))
same('A09', 'local sorted', (BY, '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
        for prefix in word_prefixes:''', '''        for prefix in sorted(self.get_prefixes(word), key=len, reverse=True):'''))
same('A09', 'totals dict', (BY, '''        total_counts = [1] * len(self._paradigm_prefixes)
''', '''        total_counts = [1 for _ in self._paradigm_prefixes]
'''))
# ---- A10
bug('A10', 'units out of the lock', (AN, '''            self._result_type_orig = result_type
            self._init_char_substitutes(char_substitutes)
            self._init_units(units)
''', '''            self._result_type_orig = result_type
            self._init_char_substitutes(char_substitutes)
        self._init_units(units)
'''))
bug('A10', 'lock per language', (AN, '''    _lock = threading.RLock()
''', '''    _locks = {}
'''), (AN, '''        with self._lock:
''', '''        with self._locks.setdefault(lang, threading.RLock()):
'''))
bug('A10', 'non blocking', (AN, '''        with self._lock:
            self.dictionary = opencorpora_dict.Dictionary(path)
            self.lang = self.choose_language(self.dictionary, lang)
''', '''        if self._lock.acquire(False):
            self._lock.release()
        self.dictionary = opencorpora_dict.Dictionary(path)
        with self._lock:
            self.lang = self.choose_language(self.dictionary, lang)
'''))
same('A10', 'acquire release', (AN, '''        with self._lock:
            self.dictionary = opencorpora_dict.Dictionary(path)
            self.lang = self.choose_language(self.dictionary, lang)

            self.prob_estimator = self._get_prob_estimator(
                probability_estimator_cls, self.dictionary, path
            )

            if result_type is not None:
                # create a subclass with the same name,
                # but with _morph attribute bound to self
                res_type = type(
                    result_type.__name__,
                    (result_type,),
                    {'_morph': self, '_dict': self.dictionary}
                )
                self._result_type = res_type
            else:
                self._result_type = None

            self._result_type_orig = result_type
            self._init_char_substitutes(char_substitutes)
            self._init_units(units)
''', '''        self._lock.acquire()
        try:
            self._setup(path, lang, result_type, units, probability_estimator_cls, char_substitutes)
        finally:
            self._lock.release()

    def _setup(self, path, lang, result_type, units, estimator_cls, char_substitutes):
        self.dictionary = opencorpora_dict.Dictionary(path)
        self.lang = self.choose_language(self.dictionary, lang)
        self.prob_estimator = self._get_prob_estimator(estimator_cls, self.dictionary, path)
        self._result_type_orig = result_type
        self._result_type = self._bind_result_type(result_type)
        self._init_char_substitutes(char_substitutes)
        self._init_units(units)

    def _bind_result_type(self, result_type):
        if result_type is None:
            return None
        # create a subclass with the same name,
        # but with _morph attribute bound to self
        return type(result_type.__name__, (result_type,), {'_morph': self, '_dict': self.dictionary})
'''))
same('A10', 'lock variable', (AN, '''        with self._lock:
            self.dictionary = open''', '''        lock = MorphAnalyzer._lock
        with lock:
            self.dictionary = open'''))
# ---- A11
bug('A11', 'path of dictionary', (AN, "        args = (self._path, self._lang,", "        args = (self.dictionary.path, self._lang,"))
bug('A11', 'language chosen', (AN, "        args = (self._path, self._lang,", "        args = (self._path, self.lang,"))
bug('A11', 'substitutes or auto', (AN, "        self._char_substitutes = char_substitutes\n", "        self._char_substitutes = char_substitutes or auto\n"))
bug('A11', 'units dropped when empty', (AN, "        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,", "        args = (self._path, self._lang, self._result_type_orig, [u for u, terminal in self._units],"))
same('A11', 'reduce pieces', (AN, '''        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
                self._probability_estimator_cls, self._char_substitutes)
        return self.__class__, args, None''', '''        source = (self._path, self._lang)
        options = (self._result_type_orig, self._units_unbound,
                   self._probability_estimator_cls, self._char_substitutes)
        return self.__class__, source + options'''))
same('A11', 'type of self', (AN, "return self.__class__, args, None", "return type(self), args, None"))
# ---- A12
bug('A12', 'clone only unbound', (AN, '''        unit = unit.clone()
        unit.init(self)
        return unit''', '''        if unit.morph is not None:
            unit = unit.clone()
        unit.init(self)
        return unit'''))
bug('A12', 'params truthy', (BA, '''            (key, getattr(self, key, None)) for key in self._get_param_names()
''', '''            (key, getattr(self, key)) for key in self._get_param_names() if getattr(self, key, None)
'''))
bug('A12', 'clone cached', (BA, '''    def clone(self):
        return self.__class__(**self._get_params())
''', '''    def clone(self):
        if not self._get_param_names():
            return self
        return self.__class__(**self._get_params())
'''))
bug('A12', 'known prefix stored shortened', (BY, '''        self.known_prefixes = known_prefixes
        self.score_multiplier = score_multiplier
        self.min_remainder_length = min_remainder_length
''', '''        self.known_prefixes = known_prefixes
        self.score_multiplier = score_multiplier
        self.min_remainder_length = min_remainder_length + 1
'''))
same('A12', 'clone params variable', (BA, '''        return self.__class__(**self._get_params())
''', '''        params = self._get_params()
        cls = type(self)
        return cls(**params)
'''))
same('A12', 'params loop', (BA, '''        return dict(
            (key, getattr(self, key, None)) for key in self._get_param_names()
        )
''', '''        params = {}
        for key in self._get_param_names():
            params[key] = getattr(self, key, None)
        return params
'''))
# ---- A13
bug('A13', 'sorted tuple', (TS, '''    def __lt__(self, other):
        return self._grammemes_tuple < other._grammemes_tuple
''', '''    def __lt__(self, other):
        return self._str < other._str
'''))
bug('A13', 'len set', (TS, "        return len(self._grammemes_tuple)", "        return len(self.grammemes)"))
bug('A13', 'eq set', (TS, '''    def __eq__(self, other):
        return self._grammemes_tuple == other._grammemes_tuple
''', '''    def __eq__(self, other):
        return self.grammemes == other.grammemes
'''))
bug('A13', 'reduce cyr', (TS, "        return self.__class__, (self._str,), None", "        return self.__class__, (','.join(sorted(self._grammemes_tuple)),), None"))
same('A13', 'ne by eq', (TS, "        return self._grammemes_tuple != other._grammemes_tuple", "        return not self == other"))
same('A13', 'gt by lt', (TS, "        return self._grammemes_tuple > other._grammemes_tuple", "        return other < self"))
same('A13', 'key helper', (TS, '''        return hash(self._grammemes_tuple)
''', '''        return hash(self._key())

    def _key(self):
        return self._grammemes_tuple
'''))
# ---- A14
bug('A14', 'empty set first', (TS, '''            if grammeme <= self.grammemes:
                return True
            self._assert_grammemes_are_known(grammeme)
            return False
''', '''            if grammeme <= self.grammemes:
                return True
            if not grammeme & self.grammemes:
                return False
            self._assert_grammemes_are_known(grammeme)
            return False
'''))
bug('A14', 'only first unknown', (TS, "            unknown = grammemes - cls.KNOWN_GRAMMEMES\n", "            unknown = grammemes - cls.KNOWN_GRAMMEMES\n            if all(g[:1].isupper() for g in unknown):\n                return\n"))
same('A14', 'sets any order', (TS, '''        if grammeme in self.grammemes:
            return True
        else:
            if not self.grammeme_is_known(grammeme):
                raise ValueError("Grammeme is unknown: %s" % grammeme)
            return False
''', '''        if grammeme in self.grammemes:
            return True
        if self.grammeme_is_known(grammeme):
            return False
        raise ValueError("Grammeme is unknown: %s" % grammeme)
'''))
same('A14', 'unknown first', (TS, '''        if not grammemes <= cls.KNOWN_GRAMMEMES:
            cls._assert_grammemes_initialized()
            unknown = grammemes - cls.KNOWN_GRAMMEMES
''', '''        unknown = grammemes - cls.KNOWN_GRAMMEMES
        if unknown:
            cls._assert_grammemes_initialized()
'''))
# ---- A15
bug('A15', 'setdefault cyr', (TS, "        cls._CYR2LAT[cyr] = lat\n", "        cls._CYR2LAT.setdefault(cyr.lower(), lat)\n"))
bug('A15', 'translate stripped', (TS, "grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',')]", "grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',') if tok in mapping]"))
bug('A15', 'overwrite inverted', (TS, "        if not overwrite and lat in cls.KNOWN_GRAMMEMES:", "        if lat in cls.KNOWN_GRAMMEMES and (not overwrite or lat in cls._LAT2CYR):"))
same('A15', 'translate map', (TS, '''    grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',')]
    return ",".join(grammemes)''', '''    def translate(tok):
        if tok in mapping:
            return mapping[tok]
        return tok
    return ",".join(map(translate, tag_part.split(",")))'''))
same('A15', 'registration order', (TS, '''        cls.KNOWN_GRAMMEMES.add(lat)
        cls._LAT2CYR[lat] = cyr
        cls._CYR2LAT[cyr] = lat
''', '''        cls._LAT2CYR[lat], cls._CYR2LAT[cyr] = cyr, lat
        cls.KNOWN_GRAMMEMES.add(lat)
'''))
# ---- A16
bug('A16', 'gramtab of the default format', (ST, "gramtab_filename = os.path.join(path, gramtab_formats[gramtab_format])", "gramtab_filename = os.path.join(path, sorted(gramtab_formats.values())[0])"))
bug('A16', 'minor compared', (ST, "    if major != curr_major:", "    if major != curr_major and minor != curr_minor:"))
bug('A16', 'version newer', (ST, "    if major != curr_major:", "    if int(major) > int(curr_major):"))
bug('A16', 'checked late', (ST, '''    _assert_format_is_compatible(meta, path)

    Tag = _load''', '''    Tag = _load'''), (ST, '''    return LoadedDictionary(
        meta''', '''    _assert_format_is_compatible(meta, path)

    return LoadedDictionary(
        meta'''))
bug('A16', 'meta json floats', (ST, "['language_code', language_code],", "['language', language_code],"))
bug('A16', 'paradigm array type', (ST, 'para = array.array(str("H"))', 'para = array.array(str("h"))'))
same('A16', 'paradigm helper', (ST, '''            paradigm_len = struct.unpack(str("<H"), f.read(2))[0]

            para = array.array(str("H"))
            para.fromfile(f, paradigm_len)

            paradigms.append(para)
''', '''            paradigms.append(_read_paradigm(f))
'''), (ST, '''def _load_paradigms(filename):
''', '''def _read_ushort(f):
    return struct.unpack(str("<H"), f.read(2))[0]


def _read_paradigm(f):
    size = _read_ushort(f)
    para = array.array(str("H"))
    para.fromfile(f, size)
    return para


def _load_paradigms(filename):
'''))
same('A16', 'version partition', (ST, "    major, minor = format_version.split('.')\n    curr_major, curr_minor = CURRENT_FORMAT_VERSION.split('.')\n", "    major = format_version.split('.')[0]\n    curr_major = CURRENT_FORMAT_VERSION.split('.')[0]\n"))
same('A16', 'meta before', (ST, '''    meta = load_meta(_f('meta.json'))
    _assert_format_is_compatible(meta, path)

    Tag = _load_tag_class(gramtab_format, _f('grammemes.json'))
''', '''    meta = load_meta(os.path.join(path, 'meta.json'))
    _assert_format_is_compatible(meta, path)
    grammemes_filename = _f('grammemes.json')
    Tag = _load_tag_class(gramtab_format, grammemes_filename)
'''))
# ---- A17
bug('A17', 'stem by length', (WR, '''        if suffix:
            return fixed_word[len(prefix):-len(suffix)]
        else:
            return fixed_word[len(prefix):]
''', '''        return fixed_word[len(prefix):-len(suffix)]
'''))
bug('A17', 'normal prefix', (WR, "normal_prefix_id = paradigm[paradigm_len*2 + 0]", "normal_prefix_id = paradigm[paradigm_len*2 + idx]"))
same('A17', 'stem end', (WR, '''        if suffix:
            return fixed_word[len(prefix):-len(suffix)]
        else:
            return fixed_word[len(prefix):]
''', '''        end = len(fixed_word) - len(suffix)
        return fixed_word[len(prefix):end]
'''))
same('A17', 'thirds helper', (WR, '''        paradigm_len = len(paradigm) // 3

        prefix_id = paradigm[paradigm_len*2 + idx]
        prefix = self.paradigm_prefixes[prefix_id]

        suffix_id = paradigm[idx]
        suffix = self.suffixes[suffix_id]

        if suffix:
            return''', '''        prefix, suffix = self._affixes(paradigm, idx)

        if suffix:
            return'''), (WR, '''    def build_stem(self,''', '''    def _affixes(self, paradigm, idx):
        size = len(paradigm) // 3
        return self.paradigm_prefixes[paradigm[2 * size + idx]], self.suffixes[paradigm[idx]]

    def build_stem(self,'''))
same('A17', 'paradigm info zip', (WR, '''        res = []
        for idx in range(paradigm_len):
            prefix_id = paradigm[paradigm_len*2 + idx]
            prefix = self.paradigm_prefixes[prefix_id]

            suffix_id = paradigm[idx]
            suffix = self.suffixes[suffix_id]

            res.append(
                (prefix, self.build_tag_info(para_id, idx), suffix)
            )
        return res
''', '''        suffix_ids = paradigm[:paradigm_len]
        tag_ids = paradigm[paradigm_len:paradigm_len*2]
        prefix_ids = paradigm[paradigm_len*2:]
        return [
            (self.paradigm_prefixes[p], self.gramtab[t], self.suffixes[s])
            for s, t, p in zip(suffix_ids, tag_ids, prefix_ids)
        ]
'''))
# ---- A20
bug('A20', 'key on original', (AN, "probs = [self.p_t_given_w.prob(word_lower, tag)", "probs = [self.p_t_given_w.prob(word if word.istitle() else word_lower, tag)"))
bug('A20', 'scores mixed', (AN, "            (word, tag, normal_form, prob, methods_stack)\n            for (word, tag, normal_form, score, methods_stack), prob", "            (word, tag, normal_form, prob or score, methods_stack)\n            for (word, tag, normal_form, score, methods_stack), prob"))
bug('A20', 'fixed word key', (AN, '''        probs = [self.p_t_given_w.prob(word_lower, tag)
                for (word, tag, normal_form, score, methods_stack) in parses]
''', '''        probs = [self.p_t_given_w.prob(word, tag)
                for (word, tag, normal_form, score, methods_stack) in parses]
'''))
bug('A20', 'first is enough', (AN, "        if sum(probs) == 0:", "        if not probs[0]:"))
bug('A20', 'normalised again', (AN, '''        # replace score with P(t|w) probability
''', '''        total = sum(probs)
        probs = [p / total for p in probs]
'''))
same('A20', 'any', (AN, "        if sum(probs) == 0:", "        if not any(probs):"))
same('A20', 'total', (AN, '''            k = 1.0 / sum(map(_score_getter, parses))
            return [
                (word, tag, normal_form, score*k, methods_stack)
                for''', '''            k = 1.0 / sum(p[3] for p in parses)
            return [
                (word, tag, normal_form, k*score, methods_stack)
                for'''))
same('A20', 'scored helper', (AN, '''        return sorted([
            (word, tag, normal_form, prob, methods_stack)
            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs)
        ], key=_score_getter, reverse=True)
''', '''        result = []
        for p, prob in zip(parses, probs):
            word, tag, normal_form, _, methods_stack = p
            result.append((word, tag, normal_form, prob, methods_stack))
        result.sort(key=_score_getter, reverse=True)
        return result
'''))
# ---- A21
bug('A21', 'is_known strict', (AN, '''            substitutes_compiled=self._morph.char_substitutes
''', '''            substitutes_compiled=None
'''))
bug('A21', 'known word not lower', (AN, "            word = word.lower(),\n", "            word = word if strict else word.lower(),\n"))
bug('A21', 'similar keys first', (WR, '''        if substitutes_compiled:
            return bool(self.words.similar_keys(word, substitutes_compiled))
        else:
            return word in self.words
''', '''        if word in self.words or not substitutes_compiled:
            return word in self.words
        return len(self.words.similar_keys(word, substitutes_compiled)) > 1
'''))
same('A21', 'known either', (WR, '''        if substitutes_compiled:
            return bool(self.words.similar_keys(word, substitutes_compiled))
        else:
            return word in self.words
''', '''        if not substitutes_compiled:
            return word in self.words
        return len(self.words.similar_keys(word, substitutes_compiled)) > 0
'''))
# ---- A25
bug('A25', 'env wins when set', (AN, '''        if path is not None:
            return path

        if cls''', '''        if path:
            return path

        if cls'''))
bug('A25', 'empty env', (AN, '''        if cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]
''', '''        if os.environ.get(cls.DICT_PATH_ENV_VARIABLE) and lang in (None, 'ru'):
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]
'''))
bug('A25', 'dictionary language wins', (AN, '''        return lang

    def parse(self, word):''', '''        return dictionary.lang or lang

    def parse(self, word):'''))
same('A25', 'environ get', (AN, '''        if cls.DICT_PATH_ENV_VARIABLE in os.environ:
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]

        return lang_dict_path(lang)
''', '''        try:
            return os.environ[cls.DICT_PATH_ENV_VARIABLE]
        except KeyError:
            return lang_dict_path(lang)
'''))
same('A25', 'lookup try', (AN, '''    if lang in lang_paths:
        return lang_paths[lang]

    raise''', '''    path = lang_paths.get(lang)
    if path is not None:
        return path

    raise'''))
# ---- A26
bug('A26', 'teens by last digits', (TS, "(num % 100 < 10 or num % 100 >= 20)", "(num < 10 or num % 100 >= 20)"))
bug('A26', 'eleven exactly', (TS, "(num % 100 != 11)", "(num != 11)"))
same('A26', 'remainders', (TS, '''        if (num % 10 == 1) and (num % 100 != 11):
            index = 0
        elif (num % 10 >= 2) and (num % 10 <= 4) and (num % 100 < 10 or num % 100 >= 20):
            index = 1
        else:
            index = 2
''', '''        tail = num % 100
        digit = tail % 10
        if 10 < tail < 20:
            index = 2
        elif digit == 1:
            index = 0
        elif digit in (2, 3, 4):
            index = 1
        else:
            index = 2
'''))
same('A26', 'pos variable', (TS, '''        if self.POS not in ('NOUN', 'ADJF', 'PRTF'):
            return set([])

        if self.POS == 'NOUN' and self.case not in ('nomn', 'accs'):
            if index == 0:
                grammemes = set(['sing', self.case])
            else:
                grammemes = set(['plur', self.case])
''', '''        pos, case = self.POS, self.case
        if pos not in ('NOUN', 'ADJF', 'PRTF'):
            return set()

        if pos == 'NOUN' and case not in ('nomn', 'accs'):
            grammemes = set(['sing' if index == 0 else 'plur', case])
'''))
# ---- A27
bug('A27', 'python only longest', (DA, "        return [pref for pref in self._prefixes if word.startswith(pref)]", "        return [pref for pref in self._prefixes if word.startswith(pref)][-1:]"))
bug('A27', 'python strict prefix', (DA, "        return [pref for pref in self._prefixes if word.startswith(pref)]", "        return [pref for pref in self._prefixes if word.startswith(pref) and word != pref]"))
bug('A27', 'longest from the end', (BY, "        word_prefixes.sort(key=len, reverse=True)\n", "        word_prefixes.reverse()\n"))
same('A27', 'python filter', (DA, '''        if not self.is_prefixed(word):  # fail-fast path
            return []
        return [pref for pref in self._prefixes if word.startswith(pref)]''', '''        return list(filter(word.startswith, self._prefixes))'''))
# ---- A31 A32
bug('A31', 'score from the index', (AN, '''            parse = (word, tag, normal_form, 1.0, methods)
            if self._result_type is None:
                yield parse''', '''            parse = (word, tag, normal_form, 1.0, methods)
            if idx and not prefix:
                continue
            if self._result_type is None:
                yield parse'''))
bug('A31', 'unit not bound', (AN, "            methods = ((self._units[0][0], word, para_id, idx),)\n", "            methods = ((self._units_unbound[0], word, para_id, idx),)\n"))
bug('A31', 'lower prefix', (AN, "in self.dictionary.iter_known_words(prefix):", "in self.dictionary.iter_known_words(prefix[:3]):"))
same('A31', 'wrap helper', (AN, '''            parse = (word, tag, normal_form, 1.0, methods)
            if self._result_type is None:
                yield parse
            else:
                yield self._result_type(*parse)
''', '''            yield self._wrap((word, tag, normal_form, 1.0, methods))

    def _wrap(self, parse):
        if self._result_type is None:
            return parse
        return self._result_type(*parse)
'''))
bug('A32', 'normalized base class', (AN, "        return self.__class__(*last_method[0].normalized(self))", "        return Parse(*last_method[0].normalized(self))"))
bug('A32', 'lexeme plain for one', (AN, '''        if self._result_type is None:
            return result
        return [self._result_type(*p) for p in result]

    def _inflect''', '''        if self._result_type is None or len(result) == 1:
            return result
        return [self._result_type(*p) for p in result]

    def _inflect'''))
same('A32', 'class map', (AN, '''        if self._result_type is None:
            return res

        return [self._result_type(*p) for p in res]

    def tag''', '''        result_type = self._result_type
        if result_type is not None:
            res = [result_type(*p) for p in res]
        return res

    def tag'''))
# ---- A34
bug('A34', 'normal forms set', (AN, '''        seen = set()
        result = []

        for p in self.parse(word):
            normal_form = p[2]
            if normal_form not in seen:
                result.append(normal_form)
                seen.add(normal_form)
        return result''', '''        return list(set(p[2] for p in self.parse(word)))'''))
bug('A34', 'prefix set', (BY, '''        word_prefixes.sort(key=len, reverse=True)
        for prefix in word_prefixes:''', '''        word_prefixes.sort(key=len, reverse=True)
        for prefix in set(word_prefixes):'''))
bug('A34', 'tags through a dict of sets', (HY, "            result.extend(self.morph.tag(unsuffixed_word))", "            result.extend(frozenset(self.morph.tag(unsuffixed_word)))"))
same('A34', 'ordered dict', (AN, '''        seen = set()
        result = []

        for p in self.parse(word):
            normal_form = p[2]
            if normal_form not in seen:
                result.append(normal_form)
                seen.add(normal_form)
        return result''', '''        return list(collections.OrderedDict.fromkeys(p[2] for p in self.parse(word)))'''))
