from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'
AB, UU, UN, RU, UK, PB = 'units/abbreviations.py', 'units/utils.py', 'units/unkn.py', 'lang/ru/config.py', 'lang/uk/config.py', 'opencorpora_dict/probability.py'

# ---- A09: memory that depends on more than its key
bug('A09', 'tag memo by para', (WR, '''        paradigm = self.paradigms[para_id]
        tag_info_offset = len(paradigm) // 3
        tag_id = paradigm[tag_info_offset + idx]
        return self.gramtab[tag_id]
''', '''        key = para_id, idx & 0xFF
        if key not in self._tag_info:
            paradigm = self.paradigms[para_id]
            tag_info_offset = len(paradigm) // 3
            self._tag_info[key] = self.gramtab[paradigm[tag_info_offset + idx]]
        return self._tag_info[key]
'''), (WR, "        # extra attributes\n", "        # extra attributes\n        self._tag_info = {}\n"))
bug('A09', 'class memo', (WR, "        # extra attributes\n", "        # extra attributes\n"), (WR, '''        paradigm = self.paradigms[para_id]
        tag_info_offset = len(paradigm) // 3
        tag_id = paradigm[tag_info_offset + idx]
        return self.gramtab[tag_id]
''', '''        key = para_id, idx
        if key not in self._tag_info:
            paradigm = self.paradigms[para_id]
            tag_info_offset = len(paradigm) // 3
            self._tag_info[key] = self.gramtab[paradigm[tag_info_offset + idx]]
        return self._tag_info[key]
'''), (WR, "    def __init__(self, path):\n", "    _tag_info = {}\n\n    def __init__(self, path):\n"))
same('A09', 'tag memo', (WR, '''        paradigm = self.paradigms[para_id]
        tag_info_offset = len(paradigm) // 3
        tag_id = paradigm[tag_info_offset + idx]
        return self.gramtab[tag_id]
''', '''        key = para_id, idx
        if key not in self._tag_info:
            paradigm = self.paradigms[para_id]
            tag_info_offset = len(paradigm) // 3
            self._tag_info[key] = self.gramtab[paradigm[tag_info_offset + idx]]
        return self._tag_info[key]
'''), (WR, "        # extra attributes\n", "        # extra attributes\n        self._tag_info = {}\n"))
bug('A09', 'counts kept', (BY, "        total_counts = [1] * len(self._paradigm_prefixes)\n", "        total_counts = self._total_counts\n"), (BY, "        self.fake_dict = self.FakeDictionary()\n", "        self._total_counts = [1] * len(self._paradigm_prefixes)\n        self.fake_dict = self.FakeDictionary()\n"))
bug('A09', 'seen default', (BA, "    def tag(self, word, word_lower, seen_tags):\n        # By", "    def tag(self, word, word_lower, seen_tags, _seen=set()):\n        # By"), (BA, "        for p in self.parse(word, word_lower, set()):", "        for p in self.parse(word, word_lower, _seen):"))
bug('A09', 'last splits', (HY, "        left, right = word_lower.split('-', 1)\n        left_parses = self.morph.parse(left)", "        left, right = word_lower.split('-', 1)\n        if getattr(self, '_last_left', None) != left:\n            self._last_left, self._last_parses = left, self.morph.parse(left)\n        left_parses = self._last_parses"))
bug('A09', 'result list reused', (BY, "    def tag(self, word, word_lower, seen_tags):\n        result = []\n        for _, unprefixed_word", "    def tag(self, word, word_lower, seen_tags, result=[]):\n        for _, unprefixed_word"))
bug('A09', 'agreement set', (TS, "        return set(grammemes)", "        return grammemes"))

# ---- A10
bug('A10', 'char substitutes outside', (AN, "            self._init_char_substitutes(char_substitutes)\n            self._init_units(units)\n", "            self._init_char_substitutes(char_substitutes)\n        self._init_units(units)\n"))
bug('A10', 'lock per language', (AN, "        with self._lock:\n            self.dictionary", "        lock = self._lock if lang in (None, 'ru') else threading.RLock()\n        with lock:\n            self.dictionary"))
bug('A10', 'late grammemes', (AB, "    def parse(self, word, word_lower, seen_parses):\n        if word not in self._letters_set:\n            return []\n", "    def parse(self, word, word_lower, seen_parses):\n        if word not in self._letters_set:\n            return []\n        self._init_grammemes(self.morph.TagClass)\n"))
bug('A10', 'dictionary before lock', (AN, "        with self._lock:\n            self.dictionary = opencorpora_dict.Dictionary(path)\n", "        self.dictionary = opencorpora_dict.Dictionary(path)\n        with self._lock:\n"))
same('A10', 'lock by name', (AN, "        with self._lock:\n            self.dictionary", "        with MorphAnalyzer._lock:\n            self.dictionary"))
same('A10', 'acquire', (AN, "            self._init_char_substitutes(char_substitutes)\n            self._init_units(units)\n", "            self._init_char_substitutes(char_substitutes)\n            with self._lock:\n                self._init_units(units)\n"))

# ---- A11
bug('A11', 'pickles default units', (AN, "self._units_unbound,\n                self._probability_estimator_cls, self._char_substitutes)", "self._units_unbound if self._lang else None,\n                self._probability_estimator_cls, self._char_substitutes)"))
bug('A11', 'resolved substitutes', (AN, "        self._char_substitutes = char_substitutes\n", "        self._char_substitutes = char_substitutes or auto\n"))
bug('A11', 'path saved late', (AN, "        path = self.choose_dictionary_path(path, lang)\n", "        path = self._path = self.choose_dictionary_path(path, lang)\n"))
bug('A11', 'estimator instance', (AN, "        self._probability_estimator_cls = probability_estimator_cls\n", "        self._probability_estimator_cls = probability_estimator_cls or auto\n"))
same('A11', 'kwargs order', (AN, "        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,\n                self._probability_estimator_cls, self._char_substitutes)\n        return self.__class__, args, None", "        return self.__class__, (\n            self._path, self._lang, self._result_type_orig, self._units_unbound,\n            self._probability_estimator_cls, self._char_substitutes,\n        )"))

# ---- A16
bug('A16', 'count of stored', (ST, "        f.write(struct.pack(str(\"<H\"), len(compiled_dict.paradigms)))\n", "        f.write(struct.pack(str(\"<H\"), min(len(compiled_dict.paradigms), 0x7FFF)))\n"))
bug('A16', 'meta order', (ST, "    meta.update(extra)\n", "    for key, value in extra:\n        meta.setdefault(key, value)\n"))
bug('A16', 'suffix strip', (ST, "    json_write(_f('suffixes.json'), compiled_dict.suffixes)\n", "    json_write(_f('suffixes.json'), [s.strip() for s in compiled_dict.suffixes])\n"))
bug('A16', 'dawgs from one', (ST, "    for prefix_id in range(len(paradigm_prefixes)):\n", "    for prefix_id in range(1, len(paradigm_prefixes)):\n"))
same('A16', 'enumerate prefixes', (ST, "    for prefix_id in range(len(paradigm_prefixes)):\n", "    for prefix_id, _ in enumerate(paradigm_prefixes):\n"))
same('A16', 'paradigm bytes', (ST, "            para.tofile(f)\n", "            f.write(para.tobytes())\n"))
same('A16', 'frombytes', (ST, "            para.fromfile(f, paradigm_len)\n", "            para.frombytes(f.read(paradigm_len * para.itemsize))\n"))

# ---- A20
bug('A20', 'prob truncated twice', (DA, "int(prob*self.MULTIPLIER))", "int(round(prob, 3)*self.MULTIPLIER))"))
bug('A20', 'stored for lower', (PB, "    words = [word for (word, fd) in cpd.items()\n", "    words = [word.strip('-') for (word, fd) in cpd.items()\n"))
bug('A20', 'threshold outcomes', (PB, "             if fd.freqdist().N() >= min_word_freq]", "             if fd.freqdist().B() >= min_word_freq]"))
bug('A20', 'typed word', (AN, "        probs = [self.p_t_given_w.prob(word_lower, tag)\n                for (word, tag, normal_form, score, methods_stack) in parses]", "        probs = [self.p_t_given_w.prob(word, tag)\n                for (word, tag, normal_form, score, methods_stack) in parses]"))
bug('A20', 'kept case', (PB, "            (w.lower(), tag2grammemes(t))\n", "            (w if w.isupper() else w.lower(), tag2grammemes(t))\n"))
bug('A20', 'unique words', (PB, "        ('P(t|w)', True),\n", "        ('P(t|w)', bool(cfd.N() > 100)),\n"))
same('A20', 'format key', (DA, "        dawg_key = \"%s:%s\" % (word, tag)\n        return self.get(dawg_key, 0) / self.MULTIPLIER", "        return self.get(word + ':' + str(tag), 0) / self.MULTIPLIER"))

# ---- A25
bug('A25', 'old dict first', (AN, "        paths['ru-old'] = pymorphy2_dicts.get_path()\n", "        paths['ru'] = pymorphy2_dicts.get_path()\n"))
bug('A25', 'dictionary language wins', (AN, "                \"analyzer language (%r).\" % (dictionary.lang, lang)\n            )\n\n        return lang", "                \"analyzer language (%r).\" % (dictionary.lang, lang)\n            )\n            return dictionary.lang\n\n        return lang"))
bug('A25', 'alias lang', (AN, "        aliases = {'ru-old': 'ru'}\n", "        aliases = {'ru-old': 'ru', 'uk': 'ru'}\n"))
bug('A25', 'lang lower', (AN, "    lang_paths = _lang_dict_paths()\n    if lang in lang_paths:", "    lang_paths = _lang_dict_paths()\n    if lang not in lang_paths:\n        lang = (lang or '')[:2]\n    if lang in lang_paths:"))

# ---- A27
bug('A27', 'python prefixes order', (DA, "        return [pref for pref in self._prefixes if word.startswith(pref)]", "        return [pref for pref in self._prefixes if word.startswith(pref) and word != pref]"))
bug('A27', 'prefixed nonempty', (DA, "        return word.startswith(self._prefixes)", "        return word[:8].startswith(self._prefixes)"))
bug('A27', 'fast exact', (DA, "        return bool(self.prefixes(word))", "        return bool(self.prefixes(word.lower()))"))

# ---- A30
bug('A30', 'upper prefix', (RU, '    "авиа",\n', '    "Авиа",\n'))
bug('A30', 'particle without hyphen', (RU, '"-с", "-ста"]', '"-с", "ста"]'))
bug('A30', 'particle shadow', (UK, '["-но", "-таки", "-бо", "-от"]', '["-но", "-таки", "-бо", "-от", ""]'))
bug('A30', 'two letters', (RU, "CHAR_SUBSTITUTES = {'е': 'ё'}", "CHAR_SUBSTITUTES = {'е': 'ё', 'и': 'йи'}"))
bug('A30', 'upper substitute', (UK, "CHAR_SUBSTITUTES = {'г': 'ґ'}", "CHAR_SUBSTITUTES = {'г': 'ґ', 'Г': 'Ґ'}"))
bug('A30', 'latin initial', (RU, "INITIAL_LETTERS = 'АБВГ", "INITIAL_LETTERS = 'AБВГ"))
bug('A30', 'lower initials', (UK, "ХЦЧШЩЮЯ'", "ХЦЧШЩЮя'"))
bug('A30', 'prefix spaces', (RU, '    "авто",\n', '    "авто ",\n'))
same('A30', 'tuple', (RU, 'PARADIGM_PREFIXES = ["", "по", "наи"]', 'PARADIGM_PREFIXES = ["", "по"] + ["наи"]'))
same('A30', 'split', (UK, '["-но", "-таки", "-бо", "-от"]', '"-но -таки -бо -от".split()'))

# ---- A34
bug('A34', 'set of parses', (LO, "        return res\n", "        return list(set(res))\n"))
bug('A34', 'lang paths set', (AN, "        for item in units_unbound:\n            if isinstance", "        for item in sorted(units_unbound, key=id):\n            if isinstance"))
same('A34', 'sorted set', (DA, "        self._prefixes = tuple(prefixes)", "        self._prefixes = tuple(sorted(set(prefixes)))"))

# ---- A02
bug('A02', 'unknown grammeme asked', (HY, "        return any(set(['ADJF', 'sing', 'datv']) in tag for tag in tags)", "        return any(set(['ADJF', 'sing', 'datv', 'Qual1']) in tag for tag in tags)"))
bug('A02', 'split hyphens', (HY, "        if word_stripped.count('-') != 1:\n            # require exactly 1 hyphen, in the middle of the word\n            return False\n", "        if not word_stripped.count('-'):\n            return False\n"), (HY, "        left, right = word_lower.split('-', 1)\n", "        left, right = word_lower.split('-')\n"))
bug('A02', 'features by dict', (HY, "    for gr, replace in replaces.items():\n        if gr in grammemes:\n            grammemes.remove(gr)\n", "    for gr, replace in replaces.items():\n        if gr in grammemes or replace in grammemes:\n            grammemes.remove(gr)\n"))
