from variants import bug, same

ST = 'opencorpora_dict/storage.py'
PR = 'opencorpora_dict/probability.py'
WR = 'opencorpora_dict/wrapper.py'
CO = 'opencorpora_dict/compile.py'
UT = 'utils.py'
DA = 'dawg.py'
AN = 'analyzer.py'

bug('A16', 'suffix file renamed on write', (ST, "json_write(_f('suffixes.json'), compiled_dict.suffixes)", "json_write(_f('suffix.json'), compiled_dict.suffixes)"))
bug('A16', 'words file renamed on read', (ST, "dawg.WordsDawg().load(_f('words.dawg'))", "dawg.WordsDawg().load(_f('words2.dawg'))"))
bug('A16', 'prediction files from one', (ST, "enumerate(compiled_dict.prediction_suffixes_dawgs):\n        pred", "enumerate(compiled_dict.prediction_suffixes_dawgs, 1):\n        pred"))
bug('A16', 'cp1251 on write', (UT, "codecs.open(filename, 'w', 'utf8')", "codecs.open(filename, 'w', 'cp1251')"))
bug('A16', 'utf16 on read', (UT, "codecs.open(filename, 'r', 'utf8')", "codecs.open(filename, 'r', 'utf-16')"))
bug('A16', 'bom on write', (UT, "codecs.open(filename, 'w', 'utf8')", "codecs.open(filename, 'w', 'utf-8-sig')"))
bug('A16', 'count as int on write', (ST, '''f.write(struct.pack(str("<H"), len(compiled_dict.paradigms)))''', '''f.write(struct.pack(str("<I"), len(compiled_dict.paradigms)))'''))
bug('A16', 'big endian length', (ST, '''paradigm_len = struct.unpack(str("<H"), f.read(2))[0]''', '''paradigm_len = struct.unpack(str(">H"), f.read(2))[0]'''))
bug('A16', 'length not halved', (ST, "f.write(struct.pack(str(\"<H\"), len(para)))", "f.write(struct.pack(str(\"<H\"), len(para) // 3))"))
bug('A16', 'array of longs', (ST, 'para = array.array(str("H"))', 'para = array.array(str("I"))'))
bug('A16', 'one paradigm fewer', (ST, "for x in range(paradigms_count):", "for x in range(paradigms_count - 1):"))
bug('A16', 'language key renamed', (ST, "['language_code', language_code],", "['language', language_code],"))
bug('A16', 'wrapper reads another key', (WR, "self.meta.get('language_code')", "self.meta.get('lang')"))
bug('A16', 'wrong attribute', (WR, "self.suffixes = self._data.suffixes", "self.suffixes = self._data.paradigm_prefixes"))
bug('A16', 'format check after the tags', (ST, "    _assert_format_is_compatible(meta, path)\n", ""), (ST, "    suffixes = json_read", "    _assert_format_is_compatible(meta, path)\n    suffixes = json_read"))
bug('A16', 'no format check', (ST, "    _assert_format_is_compatible(meta, path)\n", ""))
bug('A16', 'newer formats accepted', (ST, "    if major != curr_major:", "    if major < curr_major:"))
bug('A16', 'minor compared', (ST, "    if major != curr_major:", "    if minor != curr_minor:"))
bug('A16', 'first digit only', (ST, "    if major != curr_major:", "    if major[0] != curr_major[0]:"))
bug('A16', 'gramtab deduplicated', (ST, "[Tag._from_internal_tag(tag) for tag in compiled_dict.gramtab]", "[Tag._from_internal_tag(tag) for tag in sorted(set(compiled_dict.gramtab))]"))
bug('A16', 'gramtab without blanks', (ST, "[Tag(tag_str) for tag_str in str_gramtab]", "[Tag(tag_str) for tag_str in str_gramtab if tag_str]"))
bug('A16', 'gramtab sorted on load', (ST, "[Tag(tag_str) for tag_str in str_gramtab]", "[Tag(tag_str) for tag_str in sorted(str_gramtab)]"))
bug('A16', 'formats swapped names', (ST, "gramtab_formats[format] = gramtab_name", "gramtab_formats[gramtab_name] = format"))
bug('A16', 'prediction in reverse', (ST, "    for prefix_id in range(len(paradigm_prefixes)):", "    for prefix_id in reversed(range(len(paradigm_prefixes))):"))
bug('A16', 'prefixes sorted', (ST, '''paradigm_prefixes = meta["compile_options"]["paradigm_prefixes"]''', '''paradigm_prefixes = meta["compile_options"]["paradigm_prefixes"][::-1]'''))
bug('A16', 'meta update drops the old', (ST, "    meta = load_meta(filename)\n    meta.update(extra)\n", "    meta = collections.OrderedDict(extra)\n"))
bug('A16', 'meta update to another file', (ST, "    meta.update(extra)\n    write_meta(filename, meta)", "    meta.update(extra)\n    write_meta(filename + '.new', meta)"))
bug('A16', 'external tags are internalised', ('tagset.py', "    def _from_internal_tag(cls, tag):\n        \"\"\" Return tag string given internal tag string \"\"\"\n        return tag", "    def _from_internal_tag(cls, tag):\n        \"\"\" Return tag string given internal tag string \"\"\"\n        return tag.replace(' ', ',')"))
bug('A17', 'prediction loaded as words', (ST, "dawg.PredictionSuffixesDAWG().load(fn)", "dawg.WordsDawg().load(fn)"))
bug('A16', 'tags of one format reversed', (ST, '[Tag._from_internal_tag(tag) for tag in compiled_dict.gramtab]', '[Tag._from_internal_tag(tag) for tag in reversed(compiled_dict.gramtab)]'))
same('A16', 'named constants', (ST, "CURRENT_FORMAT_VERSION = '2.4'\n", "CURRENT_FORMAT_VERSION = '2.4'\nWORDS_FILE = 'words.dawg'\n"), (ST, "WordsDawg().load(_f('words.dawg'))", "WordsDawg().load(_f(WORDS_FILE))"), (ST, "words_dawg.save(_f('words.dawg'))", "words_dawg.save(_f(WORDS_FILE))"))
same('A16', 'io.open', (UT, "import codecs\n", "import io\n"), (UT, "codecs.open(filename, 'w', 'utf8')", "io.open(filename, 'w', encoding='utf-8')"), (UT, "codecs.open(filename, 'r', 'utf8')", "io.open(filename, encoding='utf-8')"))
same('A16', 'both big endian', (ST, '''f.write(struct.pack(str("<H"), len(compiled_dict.paradigms)))''', '''f.write(struct.pack(str(">H"), len(compiled_dict.paradigms)))'''), (ST, '''paradigms_count = struct.unpack(str("<H"), f.read(2))[0]''', '''paradigms_count = struct.unpack(str(">H"), f.read(2))[0]'''))
same('A16', 'save helper for paradigms', (ST, "    with open(_f('paradigms.array'), 'wb') as f:\n        f.write(struct.pack(str(\"<H\"), len(compiled_dict.paradigms)))\n        for para in compiled_dict.paradigms:\n            f.write(struct.pack(str(\"<H\"), len(para)))\n            para.tofile(f)\n", "    _save_paradigms(_f('paradigms.array'), compiled_dict.paradigms)\n"), (ST, "def load_meta(filename):", "def _save_paradigms(filename, paradigms):\n    with open(filename, 'wb') as f:\n        _write_number(f, len(paradigms))\n        for para in paradigms:\n            _write_number(f, len(para))\n            para.tofile(f)\n\n\ndef _write_number(f, n):\n    f.write(struct.pack(str(\"<H\"), n))\n\n\ndef load_meta(filename):"))
same('A16', 'read helper for numbers', (ST, '''        paradigms_count = struct.unpack(str("<H"), f.read(2))[0]''', '''        paradigms_count = _read_number(f)'''), (ST, '''            paradigm_len = struct.unpack(str("<H"), f.read(2))[0]''', '''            paradigm_len = _read_number(f)'''), (ST, "def _assert_format_is", "def _read_number(f):\n    value, = struct.unpack(str('<H'), f.read(2))\n    return value\n\n\ndef _assert_format_is"))
same('A16', 'read paradigm helper', (ST, '''            paradigm_len = struct.unpack(str("<H"), f.read(2))[0]

            para = array.array(str("H"))
            para.fromfile(f, paradigm_len)

            paradigms.append(para)
''', '''            paradigms.append(_read_paradigm(f))
'''), (ST, "def _assert_format_is", '''def _read_paradigm(f):
    paradigm_len = struct.unpack(str("<H"), f.read(2))[0]
    para = array.array(str("H"))
    para.fromfile(f, paradigm_len)
    return para


def _assert_format_is'''))
same('A16', 'prediction comprehension', (ST, '''    prediction_suffixes_dawgs = []
    for prefix_id in range(len(paradigm_prefixes)):
        fn = _f('prediction-suffixes-%s.dawg' % prefix_id)
        assert os.path.exists(fn)
        prediction_suffixes_dawgs.append(dawg.PredictionSuffixesDAWG().load(fn))
''', '''    prediction_suffixes_dawgs = [
        dawg.PredictionSuffixesDAWG().load(_f('prediction-suffixes-%s.dawg' % n))
        for n, _ in enumerate(paradigm_prefixes)
    ]
'''))
same('A16', 'prediction format', (ST, "fn = _f('prediction-suffixes-%s.dawg' % prefix_id)", "fn = _f('prediction-suffixes-{}.dawg'.format(prefix_id))"))
same('A16', 'check in load_meta order', (ST, "    if major != curr_major:", "    if not major == curr_major:"))
same('A16', 'version split once', (ST, "    major, minor = format_version.split('.')\n    curr_major, curr_minor = CURRENT_FORMAT_VERSION.split('.')\n", "    major = format_version.split('.')[0]\n    curr_major = CURRENT_FORMAT_VERSION.split('.')[0]\n"))
same('A16', 'suffixes first', (ST, "    suffixes = json_read(_f('suffixes.json'))\n    paradigms = _load_paradigms(_f('paradigms.array'))\n", "    paradigms = _load_paradigms(_f('paradigms.array'))\n    suffixes = json_read(_f('suffixes.json'))\n"))
same('A16', 'meta in pieces', (ST, "    write_meta(_f('meta.json'), [\n        ['language_code', language_code],\n", "    write_meta(_f('meta.json'), [['language_code', language_code]] + [\n"))
same('A16', 'prefixes get', (ST, '''    try:
        paradigm_prefixes = meta["compile_options"]["paradigm_prefixes"]
    except KeyError:
        # support dicts v2.4
        paradigm_prefixes = json_read(_f('paradigm-prefixes.json'))
''', '''    paradigm_prefixes = _load_paradigm_prefixes(meta, _f('paradigm-prefixes.json'))
'''), (ST, "def _load_gramtab(", '''def _load_paradigm_prefixes(meta, filename):
    try:
        return meta["compile_options"]["paradigm_prefixes"]
    except KeyError:
        # support dicts v2.4
        return json_read(filename)


def _load_gramtab('''))
same('A16', 'dawg lengths comprehension', (ST, '''    prediction_suffixes_dawg_lenghts = []
    for prediction_suffixes_dawg in compiled_dict.prediction_suffixes_dawgs:
        prediction_suffixes_dawg_lenghts.append(_dawg_len(prediction_suffixes_dawg))
''', '''    prediction_suffixes_dawg_lenghts = [_dawg_len(d) for d in compiled_dict.prediction_suffixes_dawgs]
'''))
same('A16', 'wrapper unpacks', (WR, "self.lang = self.meta.get('language_code')", "self.lang = self._data.meta['language_code'] if 'language_code' in self._data.meta else None"))

bug('A20', 'file renamed', (AN, "'p_t_given_w.intdawg'", "'p_t_given_w.dawg'"))
bug('A20', 'flag renamed on write', (PR, "('P(t|w)', True),", "('P(w|t)', True),"))
bug('A20', 'flag renamed on read', (AN, "'P(t|w)'", "'P(t|w)_outcomes2'"))
bug('A20', 'key order', (DA, '''dawg_key = "%s:%s" % (word, tag)''', '''dawg_key = "%s:%s" % (tag, word)'''))
bug('A20', 'key separator', (DA, '''dawg_key = "%s:%s" % (word, tag)''', '''dawg_key = "%s %s" % (word, tag)'''))
bug('A20', 'scale on read', (DA, "return self.get(dawg_key, 0) / self.MULTIPLIER", "return self.get(dawg_key, 0) / 100000"))
bug('A20', 'integer division', (DA, "return self.get(dawg_key, 0) / self.MULTIPLIER", "return self.get(dawg_key, 0) // self.MULTIPLIER"))
bug('A20', 'cased word looked up', (AN, "probs = [self.p_t_given_w.prob(word_lower, tag)", "probs = [self.p_t_given_w.prob(word, tag)"))
bug('A20', 'ascending', (AN, "key=_score_getter, reverse=True)\n\n    def apply_to_tags", "key=_score_getter)\n\n    def apply_to_tags"))
bug('A20', 'tags ascending', (AN, "            key=lambda tag: self.p_t_given_w.prob(word_lower, tag),\n            reverse=True\n", "            key=lambda tag: self.p_t_given_w.prob(word_lower, tag)\n"))
bug('A20', 'scaled by count', (AN, "k = 1.0 / sum(map(_score_getter, parses))", "k = 1.0 / len(parses)"))
bug('A20', 'score multiplied', (AN, "            (word, tag, normal_form, prob, methods_stack)\n", "            (word, tag, normal_form, prob * score, methods_stack)\n"))
bug('A20', 'zero parses dropped', (AN, "            in zip(parses, probs)\n", "            in zip(parses, probs) if prob > 0\n"))
bug('A20', 'min freq exclusive', (PR, "if fd.freqdist().N() >= min_word_freq]", "if fd.freqdist().N() > min_word_freq]"))
bug('A20', 'word not lowered in the corpus', (PR, "(w.lower(), tag2grammemes(t))", "(w, tag2grammemes(t))"))
same('A20', 'helper for keys', (DA, '''                ("%s:%s" % (word, tag), int(prob*self.MULTIPLIER))''', '''                (self._key(word, tag), int(prob*self.MULTIPLIER))'''), (DA, '''        dawg_key = "%s:%s" % (word, tag)\n        return self.get(dawg_key, 0)''', '''        return self.get(self._key(word, tag), 0)'''), (DA, "    def prob(self, word, tag):", "    @staticmethod\n    def _key(word, tag):\n        return '%s:%s' % (word, tag)\n\n    def prob(self, word, tag):"))
same('A20', 'probs in a loop', (AN, "        probs = [self.p_t_given_w.prob(word_lower, tag)\n                for (word, tag, normal_form, score, methods_stack) in parses]\n", "        probs = []\n        for p in parses:\n            probs.append(self.p_t_given_w.prob(word_lower, p[1]))\n"))
same('A20', 'any', (AN, "        if sum(probs) == 0:\n", "        total = sum(probs)\n        if not total:\n"))
same('A20', 'file name constant', (AN, "class ProbabilityEstimator(object):\n", "class ProbabilityEstimator(object):\n    FILENAME = 'p_t_given_w.intdawg'\n\n"), (AN, "os.path.join(dict_path, 'p_t_given_w.intdawg')", "os.path.join(dict_path, self.FILENAME)"))
same('A20', 'helper for the key', (AN, "        return sorted(tags,\n            key=lambda tag: self.p_t_given_w.prob(word_lower, tag),\n            reverse=True\n        )\n", "        def probability(tag):\n            return self.p_t_given_w.prob(word_lower, tag)\n\n        return sorted(tags, key=probability, reverse=True)\n"))
same('A20', 'sort by negative', (AN, "            key=lambda tag: self.p_t_given_w.prob(word_lower, tag),\n            reverse=True\n", "            key=lambda tag: -self.p_t_given_w.prob(word_lower, tag)\n"))
same('A20', 'meta as dict', (PR, "    update_meta(meta_filename, [\n        ('P(t|w)', True),\n        ('P(t|w)_unique_words', len(cpd.conditions())),\n        ('P(t|w)_outcomes', cfd.N()),\n        ('P(t|w)_min_word_freq', int(min_word_freq)),\n    ])\n", "    extra = [('P(t|w)', True)]\n    extra.append(('P(t|w)_unique_words', len(cpd.conditions())))\n    extra.append(('P(t|w)_outcomes', cfd.N()))\n    extra.append(('P(t|w)_min_word_freq', int(min_word_freq)))\n    update_meta(meta_filename, extra)\n"))
same('A20', 'loop for the data', (PR, "    dawg_data = (\n        ((word, tag), prob)\n        for word, probs in prob_data\n        for tag, prob in probs.items()\n    )\n", "    dawg_data = []\n    for word, probs in prob_data:\n        for tag, prob in probs.items():\n            dawg_data.append(((word, tag), prob))\n"))
same('A20', 'filter inlined', (PR, "    prob_data = filter(\n        lambda rec: not _all_the_same(rec[1]),\n        ((word, _tag_probabilities(morph, word, cpd)) for word in words)\n    )\n", "    prob_data = []\n    for word in words:\n        probs = _tag_probabilities(morph, word, cpd)\n        if not _all_the_same(probs):\n            prob_data.append((word, probs))\n"))
