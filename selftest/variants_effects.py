from variants import bug, same

AN = 'analyzer.py'
L = "        with self._lock:\n            self.dictionary = opencorpora_dict.Dictionary(path)\n"
U = "            self._init_units(units)\n"
CL = "    _lock = threading.RLock()\n"
bug('A10', 'own lock', (AN, "        with self._lock:\n", "        self._lock = threading.RLock()\n        with self._lock:\n"))
bug('A10', 'local lock', (AN, "        with self._lock:\n", "        lock = threading.RLock()\n        with lock:\n"))
bug('A10', 'dictionary loaded first', (AN, L, "        self.dictionary = opencorpora_dict.Dictionary(path)\n        with self._lock:\n"))
bug('A10', 'units after', (AN, U, "        self._init_units(units)\n"))
bug('A10', 'lock per path', (AN, CL, "    _locks = {}\n"), (AN, "        with self._lock:\n", "        with self._locks.setdefault(path, threading.RLock()):\n"))
bug('A10', 'non-blocking', (AN, "        with self._lock:\n", "        self._lock.acquire(False)\n        if True:\n"))
bug('A10', 'released early', (AN, "            self._result_type_orig = result_type\n", "            self._lock.release()\n            self._result_type_orig = result_type\n"))
bug('A10', 'lock property', (AN, CL, "    @property\n    def _lock(self):\n        return threading.RLock()\n"))
bug('A10', 'lazy units', (AN, U, "            self._unbound0 = units\n            self._units = None\n"),
    (AN, "        res = []\n        seen = set()\n", "        if self._units is None:\n            self._init_units(self._unbound0)\n        res = []\n        seen = set()\n"))
bug('A10', 'lazy registration in a unit', ('units/unkn.py', "        self.morph.TagClass.add_grammemes_to_known('UNKN', 'НЕИЗВ')\n", ""),
    ('units/unkn.py', "        if seen_parses:\n            return []\n", "        if seen_parses:\n            return []\n        self.morph.TagClass.add_grammemes_to_known('UNKN', 'НЕИЗВ')\n"))
same('A10', 'module lock', (AN, CL, ""), (AN, "class MorphAnalyzer(object):\n", "_construction_lock = threading.RLock()\n\n\nclass MorphAnalyzer(object):\n"), (AN, "with self._lock:", "with _construction_lock:"))
same('A10', 'helper', (AN, L, "        with self._lock:\n            self._load_dictionary(path)\n"), (AN, "    def _init_units(self", "    def _load_dictionary(self, path):\n        self.dictionary = opencorpora_dict.Dictionary(path)\n\n    def _init_units(self"))
same('A10', 'lock by class name', (AN, "with self._lock:", "with MorphAnalyzer._lock:"))
same('A10', 'type(self)', (AN, "with self._lock:", "with type(self)._lock:"))
same('A10', 'nested', (AN, U, "            with self._lock:\n                self._init_units(units)\n"))

# ---- A09
TS = 'tagset.py'
BA = 'units/by_analogy.py'
BH = 'units/by_hyphen.py'
bug('A09', 'returns the shared agreement set', (TS, "        return set(grammemes)\n", "        return grammemes\n"))
bug('A09', 'parse cache by lower-cased word', (AN, "    def tag(self, word):\n        res = []\n", "    _tag_cache = {}\n\n    def tag(self, word):\n        if word in self._tag_cache:\n            return self._tag_cache[word]\n        res = self._tag_cache[word] = []\n"))
bug('A09', 'tag cache per analyzer, list handed out', (AN, "        self._path = path\n", "        self._path = path\n        self._tags = {}\n"), (AN, "    def tag(self, word):\n        res = []\n", "    def tag(self, word):\n        if word in self._tags:\n            return self._tags[word]\n        res = self._tags[word] = []\n"))
bug('A09', 'seen as default', (AN, "    def normal_forms(self, word):", "    def normal_forms(self, word, seen=set()):"), (AN, "        seen = set()\n        result = []\n", "        result = []\n"))
bug('A09', 'last word', (BH, "    def should_parse(self, word):\n", "    _last = None\n\n    def should_parse(self, word):\n        if self._last is not None and self._last == word:\n            return False\n        self._last = word\n"))
bug('A09', 'cache keyed by length', (AN.replace('analyzer', 'units/by_analogy'), "    def possible_splits(self, word):\n        word_prefixes = self.get_prefixes(word)\n", "    _cache = {}\n\n    def possible_splits(self, word):\n        key = word[:6]\n        if key not in self._cache:\n            self._cache[key] = self.get_prefixes(word)\n        word_prefixes = self._cache[key]\n"))
bug('A09', 'class cache of the dictionary', (BA, "    def possible_splits(self, word):\n        word_prefixes = self.get_prefixes(word)\n", "    _cache = {}\n\n    def possible_splits(self, word):\n        if word not in self._cache:\n            self._cache[word] = self.get_prefixes(word)\n        word_prefixes = self._cache[word]\n"))
bug('A09', 'unit remembers tags', (BA, "    def tag(self, word, word_lower, seen_tags):\n        result = []\n        for prefix, unp", "    def tag(self, word, word_lower, seen_tags):\n        result = self._result = []\n        self._seen_words = getattr(self, '_seen_words', 0)\n        for prefix, unp"), (BA, "    def possible_splits(self, word):\n", "    def possible_splits(self, word):\n        if getattr(self, '_result', None):\n            return\n"))
bug('A09', 'latin cache by upper', ('shapes.py', "        return _latin_letters_cache.setdefault(uchr, is_latin)", "        return _latin_letters_cache.setdefault(unicodedata.category(uchr), is_latin)"))
bug('A09', 'generator prefixes', (BA, "        self.known_prefixes = known_prefixes\n", "        self.known_prefixes = (p for p in known_prefixes)\n"))
bug('A09', 'reversed splits', (BA, "        self._prediction_splits = list(reversed(range(1, self._max_suffix_length()+1)))", "        self._prediction_splits = reversed(range(1, self._max_suffix_length()+1))"))
bug('A09', 'iterator of paradigm prefixes', (BA, "        self._paradigm_prefixes = list(reversed(list(enumerate(self.dict.paradigm_prefixes))))", "        self._paradigm_prefixes = reversed(list(enumerate(self.dict.paradigm_prefixes)))"))
bug('A09', 'cached tokenizer', ('tokenizers.py', "def simple_word_tokenize(", "from pymorphy2.cache import lru_cache\n\n\n@lru_cache(1000)\ndef simple_word_tokenize("))
bug('A09', 'counts', (BA, "        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):\n\n            for i in self._prediction_splits:\n\n                # XXX: this", "        total_counts = self._totals = getattr(self, '_totals', total_counts)\n        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):\n\n            for i in self._prediction_splits:\n\n                # XXX: this"))
bug('A09', 'counts in init', (BA, "        total_counts = [1] * len(self._paradigm_prefixes)\n", "        total_counts = self._total_counts\n"), (BA, "        self.fake_dict = self.FakeDictionary()\n", "        self._total_counts = [1] * len(self._paradigm_prefixes)\n        self.fake_dict = self.FakeDictionary()\n"))
bug('A09', 'requested set changed', (AN, "            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)\n", "            for g in list(required_grammemes):\n                if g in self.TagClass.RARE_CASES:\n                    required_grammemes.remove(g)\n                    required_grammemes.add(self.TagClass.RARE_CASES[g])\n"),
    (TS, "        return set(grammemes)\n", "        return grammemes\n"))
bug('A09', 'tag set grows', (TS, "        return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)", "        fixed = cls._fixed\n        fixed.clear()\n        fixed.update(cls.RARE_CASES.get(g, g) for g in grammemes)\n        return fixed"), (TS, "    RARE_CASES = {", "    _fixed = set()\n    RARE_CASES = {"))
bug('A09', 'replaces popped', (BH, "    grammemes = set(grammemes)\n    for gr, replace in replaces.items():\n        if gr in grammemes:\n", "    grammemes = set(grammemes)\n    for gr, replace in list(replaces.items()):\n        if gr in grammemes:\n            replaces.setdefault(replace, gr)\n"))
bug('A09', 'iter state', ('tokenizers.py', "def simple_word_tokenize(text, _split=GROUPING_SPACE_REGEX.split):", "_last = []\n\n\ndef simple_word_tokenize(text, _split=GROUPING_SPACE_REGEX.split):\n    _last.append(text)\n    if len(_last) > 100:\n        return _last[:]\n"))
bug('A09', 'lexeme kept', (BH, "    def get_lexeme(self, form):\n        return list(self._iter_lexeme(form))", "    _lexemes = {}\n\n    def get_lexeme(self, form):\n        if form[0] not in self._lexemes:\n            self._lexemes[form[0]] = list(self._iter_lexeme(form))\n        return self._lexemes[form[0]]"))
bug('A09', 'paradigm info kept', ('opencorpora_dict/wrapper.py', "    def build_paradigm_info(self, para_id):\n", "    _info = {}\n\n    def build_paradigm_info(self, para_id):\n        if para_id not in self._info:\n            self._info[para_id] = self._build_paradigm_info(para_id)\n        return self._info[para_id]\n\n    def _build_paradigm_info(self, para_id):\n"))
bug('A09', 'tag info kept for all dictionaries', ('opencorpora_dict/wrapper.py', "    def build_tag_info(self, para_id, idx):\n", "    _tags = {}\n\n    def build_tag_info(self, para_id, idx):\n        if (para_id, idx) not in self._tags:\n            self._tags[para_id, idx] = self._build_tag_info(para_id, idx)\n        return self._tags[para_id, idx]\n\n    def _build_tag_info(self, para_id, idx):\n"))
bug('A09', 'score updates', (AN, "        if not parses:\n            return parses\n", "        if not parses:\n            return parses\n        self._last_word = word_lower\n        word_lower = self._last_word if not hasattr(self, '_prev') else self._prev\n        self._prev = word_lower\n"))
same('A09', 'memo per dictionary', ('opencorpora_dict/wrapper.py', "    def build_tag_info(self, para_id, idx):\n", "    def build_tag_info(self, para_id, idx):\n        if (para_id, idx) not in self._tags:\n            self._tags[para_id, idx] = self._build_tag_info(para_id, idx)\n        return self._tags[para_id, idx]\n\n    def _build_tag_info(self, para_id, idx):\n"), ('opencorpora_dict/wrapper.py', "        self._data = ", "        self._tags = {}\n        self._data = "))
same('A09', 'latin if', ('shapes.py', "    try:\n        return _latin_letters_cache[uchr]\n    except KeyError:\n        if isinstance(uchr, bytes):\n            uchr = uchr.decode('ascii')\n        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n        return _latin_letters_cache.setdefault(uchr, is_latin)\n",
     "    if uchr not in _latin_letters_cache:\n        _latin_letters_cache[uchr] = 'LATIN' in unicodedata.name(uchr, '')\n    return _latin_letters_cache[uchr]\n"))
same('A09', 'no latin cache', ('shapes.py', "    try:\n        return _latin_letters_cache[uchr]\n    except KeyError:\n        if isinstance(uchr, bytes):\n            uchr = uchr.decode('ascii')\n        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n        return _latin_letters_cache.setdefault(uchr, is_latin)\n",
     "    return 'LATIN' in unicodedata.name(uchr, '')\n"))
same('A09', 'unused counter', (BA, "    def possible_splits(self, word):\n", "    def possible_splits(self, word):\n        self._debug_last = word\n"))
same('A09', 'sorted prefixes', (BA, "        word_prefixes = self.get_prefixes(word)\n        word_prefixes.sort(key=len, reverse=True)\n        for prefix in word_prefixes:", "        for prefix in sorted(self.get_prefixes(word), key=len, reverse=True):"))
same('A09', 'eager grammemes', (TS, "        self._grammemes_cache = None\n", "        self._grammemes_cache = frozenset(grammemes_tuple)\n"))
same('A09', 'agreement copy', (TS, "        return set(grammemes)\n", "        return frozenset(grammemes)\n"))
