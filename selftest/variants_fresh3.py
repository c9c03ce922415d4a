from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'
SP, TK, CLI, PA, CO, PR = 'shapes.py', 'tokenizers.py', 'cli.py', 'opencorpora_dict/parse.py', 'opencorpora_dict/compile.py', 'opencorpora_dict/preprocess.py'

# ---- A02
bug('A02', 'int of isnumeric', (SH, '''        try:
            int(word)
            return 'intg'
        except ValueError:
''', '''        if word.isnumeric():
            int(word)
            return 'intg'
        else:
'''))
bug('A02', 'first character', (SP, "        not token.isspace() and\n", "        not token.isspace() and not token.strip()[0].isalnum() and token.strip()[1] != '-' and\n"))
bug('A02', 'script of name', (SP, "        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n", "        is_latin = unicodedata.name(uchr).split()[0] == 'LATIN'\n"))
bug('A02', 'name first word', (SP, "        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n", "        is_latin = unicodedata.name(uchr, '').split()[0] == 'LATIN'\n"))
same('A02', 'isnumeric guarded', (SH, '''            int(word)
            return 'intg'
''', '''            value = int(word)
            return 'intg' if value is not None else False
'''))
same('A02', 'float helper', (SH, '''    def check_shape(self, word, word_lower):
        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
                float(word.replace(',', '.'))
                return 'real'
            except ValueError:
                pass
        return False
''', '''    @staticmethod
    def _converts(convert, text):
        try:
            convert(text)
        except ValueError:
            return False
        return True

    def check_shape(self, word, word_lower):
        if self._converts(int, word):
            return 'intg'
        if self._converts(float, word.replace(',', '.')):
            return 'real'
        return False
'''))
same('A02', 'number kinds', (SH, '''        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
                float(word.replace(',', '.'))
                return 'real'
            except ValueError:
                pass
        return False
''', '''        for kind, convert in (('intg', int), ('real', lambda w: float(w.replace(',', '.')))):
            try:
                convert(word)
                return kind
            except ValueError:
                continue
        return False
'''))
same('A02', 'category startswith', (SP, "all(unicodedata.category(ch)[0] == 'P' for", "all(unicodedata.category(ch).startswith('P') for"))

# ---- A18
bug('A18', 'words set', (CO, "    words_dawg = dawg.WordsDawg(words)\n", "    words_dawg = dawg.WordsDawg(dict(words).items())\n"))
bug('A18', 'index of word', (CO, "            words.append(\n                (form, (para_id, idx))\n            )", "            words.append(\n                (form, (para_id, paradigm.index((suff, tag, pref))))\n            )"))
bug('A18', 'init anywhere', (PR, "            if 'Init' not in tag\n", "            if 'Init' not in tag and 'Abbr' not in tag\n"))
bug('A18', 'suffix by strip', (CO, "        form[len(pref)+len(stem):]\n", "        form.replace(pref + stem, '', 1) if stem else form[len(pref):].strip()\n"))
bug('A18', 'prefixes one', (CO, "        if any(pref not in paradigm_prefixes for pref in prefixes):", "        if all(pref not in paradigm_prefixes for pref in prefixes):"))
same('A18', 'words extend', (CO, '''        for idx, (suff, tag, pref) in enumerate(paradigm):
            form = pref+stem+suff
            words.append(
                (form, (para_id, idx))
            )
''', '''        words.extend(
            (pref + stem + suff, (para_id, idx))
            for idx, (suff, tag, pref) in enumerate(paradigm)
        )
'''))
same('A18', 'clear moved', (CO, "        lexemes[str(to_id)].extend(lm)\n        del lm[:]\n", "        target = lexemes[str(to_id)]\n        target += lm\n        lexemes[str(from_id)] = []\n"))
same('A18', 'id helper', (CO, '''    for index, lexeme in enumerate(lexemes):
        stem, paradigm = _to_paradigm(lexeme, paradigm_prefixes)

        # build gramtab
        for suff, tag, pref in paradigm:
            if tag not in tag_ids:
                tag_ids[tag] = len(gramtab)
                gramtab.append(tag)
''', '''    def tag_id(tag):
        if tag not in tag_ids:
            tag_ids[tag] = len(gramtab)
            gramtab.append(tag)
        return tag_ids[tag]

    for index, lexeme in enumerate(lexemes):
        stem, paradigm = _to_paradigm(lexeme, paradigm_prefixes)

        # build gramtab
        for suff, tag, pref in paradigm:
            tag_id(tag)
'''))
same('A18', 'loop to paradigm', (CO, '''    suffixes = (
        form[len(pref)+len(stem):]
        for form, pref in zip(forms, prefixes)
    )
    return stem, tuple(zip(suffixes, tags, prefixes))
''', '''    paradigm = []
    for form, tag, pref in zip(forms, tags, prefixes):
        suffix = form[len(pref)+len(stem):]
        paradigm.append((suffix, tag, pref))
    return stem, tuple(paradigm)
'''))
same('A18', 'drop in place', (PR, '''        parsed_dict.lexemes[lex_id] = [
            (word, tag) for word, tag in parsed_dict.lexemes[lex_id]
            if 'Init' not in tag
        ]
''', '''        lexeme = parsed_dict.lexemes[lex_id]
        parsed_dict.lexemes[lex_id] = [form for form in lexeme if 'Init' not in form[1]]
'''))

# ---- A19
bug('A19', 'spellings raw', (PR, "        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1", "        spellings[tag2grammemes(tag)][tag] += 1"))
bug('A19', 'spellings by sorted letters', (PR, "        spellings[tag2grammemes(tag)][", "        spellings[frozenset(g[:4] for g in tag2grammemes(tag))]["))
bug('A19', 'one split', (PR, "    return frozenset(tag_str.replace(' ', ',', 1).split(','))", "    return frozenset(tag_str.split(' ', 1)[-1].split(','))"))
bug('A19', 'one case', (PR, ".replace('acc1', 'accs')", ".replace('acc1', 'accs') if ' ' in tag_str else tag_str"))
same('A19', 'max spelling', (PR, '''            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            top_tag = items[0][0]
            for tag, count in items[1:]:
                replaces[tag] = top_tag
''', '''            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            (top_tag, _), rest = items[0], items[1:]
            replaces.update((tag, top_tag) for tag, _ in rest)
'''))
same('A19', 'pairs of cases', (PR, "    return tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')", "    for old, new in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):\n        tag_str = tag_str.replace(old, new)\n    return tag_str"))
same('A19', 'counter', (PR, '''    spellings = collections.defaultdict(lambda: collections.defaultdict(int))
    for tag in _itertags(parsed_dict):
        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
''', '''    spellings = collections.defaultdict(lambda: collections.defaultdict(int))
    for tag in _itertags(parsed_dict):
        spelling = replace_redundant_grammemes(tag)
        counts = spellings[_split_grammemes(spelling)]
        counts[spelling] += 1
'''))
same('A19', 'items loop', (PR, '''    for lex_id in with_progress(parsed_dict.lexemes, "Simplifying tags"):
        new_lexeme = [
            (word, _simplify_tag(tag, tag_replaces))
            for word, tag in parsed_dict.lexemes[lex_id]
        ]
        parsed_dict.lexemes[lex_id] = new_lexeme
''', '''    for lexeme in with_progress(parsed_dict.lexemes.values(), "Simplifying tags"):
        lexeme[:] = [
            (word, _simplify_tag(tag, tag_replaces)) for word, tag in lexeme
        ]
'''))

# ---- A22
bug('A22', 'dedupe tokens', (CLI, "    for token in iter_tokens(in_file):\n        _write(_parse(token))", "    prev = None\n    for token in iter_tokens(in_file):\n        if token != prev or len(token) > 1:\n            _write(_parse(token))\n        prev = token"))
bug('A22', 'threshold strict', (CLI, '''                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh''', '''                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score > thresh'''))
bug('A22', 'lemmas before sum', (CLI, '''                    for p in morph_parse(tok):
                        lemmas[p.normal_form] = lemmas''', '''                    for p in morph_parse(tok):
                        if p.score < thresh:
                            continue
                        lemmas[p.normal_form] = lemmas'''))
bug('A22', 'last token', (CLI, "    return (line for line in (line.strip() for line in fp) if line)", "    return (line for line in (line.strip() for line in fp) if line and not line.startswith('#'))"))
bug('A22', 'lower cached', (CLI, "        _write(_parse(token))", "        _write(_parse(token if cache_size != 'unlim' else token.lower()))"))
bug('A22', 'token formatted', (CLI, '''                    seq = [
                        "%s" % p.tag
                        for p in morph_parse(tok) if p.score >= thresh
                    ]
                    return tpl % (tok, join(seq))''', '''                    seq = [
                        "%s" % p.tag
                        for p in morph_parse(tok) if p.score >= thresh
                    ]
                    if len(seq) > 1:
                        seq = list(collections.OrderedDict.fromkeys(seq))
                    return tpl % (tok, join(seq))'''), (CLI, "import codecs\n", "import codecs\nimport collections\n"))
bug('A22', 'thresh percent', (CLI, "            thresh=float(args['--thresh']),", "            thresh=min(float(args['--thresh']), 0.5),"))
bug('A22', 'tag fast path', (CLI, "        if not normal_form and not score and not thresh:", "        if not normal_form and not score and thresh < 0.1:"))
same('A22', 'formatter pieces', (CLI, '''                    def _parse_token(tok):
                        seq = [
                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
                        return tpl % (tok, join(seq))
            else:
                val''', '''                    def _parse_token(tok):
                        seq = []
                        for p in morph_parse(tok):
                            if p.score < thresh:
                                continue
                            seq.append("{0}:{1}".format(p.normal_form, p.tag))
                        return tpl % (tok, "|".join(seq))
            else:
                val'''))
same('A22', 'open stdin', (CLI, "    if fn in ['-', '', None]:", "    if not fn or fn == '-':"))
same('A22', 'write helper', (CLI, '''    for token in iter_tokens(in_file):
        _write(_parse(token))''', '''    out_file.writelines(_parse(token) for token in iter_tokens(in_file))'''), )
same('A22', 'tokenize loop', (CLI, "    return (token for line in fp for token in simple_word_tokenize(line))", "    for line in fp:\n        for token in simple_word_tokenize(line):\n            yield token"))
same('A22', 'setdefault sums', (CLI, "                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score\n", "                        lemmas.setdefault(p.normal_form, 0)\n                        lemmas[p.normal_form] += p.score\n"))
same('A22', 'score flags', (CLI, '''        if any([args['--score'], args['--lemmatize'], args['--tag']]):
            score, lemmatize, tag = args['--score'], args['--lemmatize'], args['--tag']
        else:
            score, lemmatize, tag = True, True, True
''', '''        score, lemmatize, tag = args['--score'], args['--lemmatize'], args['--tag']
        if not (score or lemmatize or tag):
            score = lemmatize = tag = True
'''))

# ---- A23
bug('A23', 'apostrophe', (TK, r"r'([^\w_-]|[+])'", r"r'([^\w_-]|[+])(?!(?<=\d\.)\d)'"))
bug('A23', 'ascii flag', (TK, "re.compile(r'([^\\w_-]|[+])', re.UNICODE)", "re.compile(r'([^\\w_-]|[+])', re.ASCII)"))
bug('A23', 'no group', (TK, r"r'([^\w_-]|[+])'", r"r'[^\w_-]|([+])'"))
bug('A23', 'runs', (TK, r"r'([^\w_-]|[+])'", r"r'([^\w_-]+|[+])'"))
bug('A23', 'strip dots', (TK, "if t and not t.isspace()]", "if t.strip(' \\n\\t\\r\\u200b')]"))
same('A23', 'strip truth', (TK, "if t and not t.isspace()]", "if t.strip()]"))
same('A23', 'regex order', (TK, r"r'([^\w_-]|[+])'", r"r'([+]|[^\w-])'"))
same('A23', 'filter loop', (TK, "    return [t for t in _split(text) if t and not t.isspace()]", "    tokens = []\n    for piece in _split(text):\n        if not piece or piece.isspace():\n            continue\n        tokens.append(piece)\n    return tokens"))
same('A23', 'filter lambda', (TK, "    return [t for t in _split(text) if t and not t.isspace()]", "    return list(filter(lambda t: bool(t.strip()), _split(text)))"))
same('A23', 'findall', (TK, "GROUPING_SPACE_REGEX = re.compile(r'([^\\w_-]|[+])', re.UNICODE)", "GROUPING_SPACE_REGEX = re.compile(r'(\\W)(?<!-)', re.UNICODE)"))

# ---- A24
bug('A24', 'zip parts', (SP, '''        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            else:
                results.append(part.lower())
''', '''        for part, ex in zip(word_parts, example_parts):
            results.append(_make_the_same_case(part, ex))
'''))
bug('A24', 'last part repeated', (SP, "                results.append(part.lower())\n", "                results.append(_make_the_same_case(part, example_parts[-1]))\n"))
bug('A24', 'swapcase', (SP, "def _make_the_same_case(word, example):\n", "def _make_the_same_case(word, example):\n    if example[:1].islower() and example[1:].isupper():\n        return word.swapcase()\n"))
bug('A24', 'split limit', (SP, "        example_parts = example.split('-')\n", "        example_parts = example.split('-', 1)\n"))
same('A24', 'comprehension', (SP, '''        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            else:
                results.append(part.lower())
''', '''        n = len(example_parts)
        results = [
            _make_the_same_case(part, example_parts[i]) if i < n else part.lower()
            for i, part in enumerate(word_parts)
        ]
'''))
same('A24', 'padded zip', (SP, '''        for i, part in enumerate(word_parts):
            if len(example_parts) > i:
                results.append(_make_the_same_case(part, example_parts[i]))
            else:
                results.append(part.lower())
''', '''        common = min(len(word_parts), len(example_parts))
        for i in range(common):
            results.append(_make_the_same_case(word_parts[i], example_parts[i]))
        for part in word_parts[common:]:
            results.append(part.lower())
'''))

# ---- A29
bug('A29', 'some punct', (SP, "        all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())", "        all(unicodedata.category(ch)[0] == 'P' for ch in token.strip().split()[0])"))
bug('A29', 'symbols category', (SP, "unicodedata.category(ch)[0] == 'P' for", "unicodedata.category(ch)[0] in 'PN' for"))
bug('A29', 'end anchor', (SP, r"    \Z                  # end of string", r"    $                   # end of string"))
bug('A29', 'roman search', (SP, "_match=ROMAN_NUMBERS_RE.match", "_match=ROMAN_NUMBERS_RE.search"))
bug('A29', 'latin by first', (SP, "        any(ch.isalpha() for ch in token) and\n        all(is_latin_char(ch) for ch in token if ch.isalpha())", "        any(ch.isalpha() for ch in token) and\n        all(is_latin_char(ch) for ch in set(token[:32]) if ch.isalpha())"))
bug('A29', 'cache lower', (SP, "        return _latin_letters_cache.setdefault(uchr, is_latin)", "        return _latin_letters_cache.setdefault(uchr.upper()[:1], is_latin)"))
bug('A29', 'number commas', (SH, "float(word.replace(',', '.'))", "float(word.replace(',', ''))"))
bug('A29', 'number strip sign', (SH, "            int(word)\n", "            int(word.rstrip('%'))\n"))
same('A29', 'fullmatch', (SP, '''    if not token:
        return False
    return _match(token) is not None
''', '''    return bool(token) and bool(_match(token))
'''))
same('A29', 'latin letters list', (SP, '''    return (
        any(ch.isalpha() for ch in token) and
        all(is_latin_char(ch) for ch in token if ch.isalpha())
    )
''', '''    letters = [ch for ch in token if ch.isalpha()]
    if not letters:
        return False
    for ch in letters:
        if not is_latin_char(ch):
            return False
    return True
'''))
same('A29', 'punct loop', (SP, '''    return (
        bool(token) and
        not token.isspace() and
        all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())
    )
''', '''    marks = [ch for ch in token if not ch.isspace()]
    return bool(marks) and all(unicodedata.category(ch)[0] == 'P' for ch in marks)
'''))
same('A29', 'punct strip', (SP, "        bool(token) and\n        not token.isspace() and\n", "        bool(token.strip()) and\n"))
same('A29', 'latin counted', (SP, '''    return (
        any(ch.isalpha() for ch in token) and
        all(is_latin_char(ch) for ch in token if ch.isalpha())
    )
''', '''    found = False
    for ch in token:
        if not ch.isalpha():
            continue
        if not is_latin_char(ch):
            return False
        found = True
    return found
'''))

# ---- A33
bug('A33', 'one ending each', (CO, "                counted_suffixes_dawg_data.append(\n                    (ending, (cnt,) + form)\n                )", "                counted_suffixes_dawg_data.append(\n                    (ending, (ending_counts[ending],) + form)\n                )"))
bug('A33', 'counted after filter', (CO, "            ending_counts[word_end] += 1\n", "            if form_prefix_id == 0:\n                ending_counts[word_end] += 1\n"))
bug('A33', 'popular above', (CO, "if count >= threshold)", "if count > threshold or key in (0,))"))
bug('A33', 'whole pos', (CO, "        POS = tuple(tag.replace(' ', ',', 1).split(','))[0]", "        POS = tag.split(' ')[0]"))
bug('A33', 'suffix included', (CO, "range(max(len(form_suffix), 1), max_end_length+1)", "range(max(len(form_suffix)-1, 1), max_end_length+1)"))
bug('A33', 'empty dawgs skipped', (CO, "        endings = prefix_endings[form_prefix_id]\n        dawgs_data.append(", "        endings = prefix_endings[form_prefix_id]\n        if not endings:\n            continue\n        dawgs_data.append("))
bug('A33', 'end from the stem', (CO, "            word_end = word[-i:]\n", "            word_end = word[len(form_prefix):][-i:]\n"))
same('A33', 'end helper', (CO, "        POS = tuple(tag.replace(' ', ',', 1).split(','))[0]", "        POS = tag.replace(' ', ',', 1).split(',')[0]"))
same('A33', 'inlined max', (CO, '''        max_end_length = min(max_suffix_length, len(word))

        for i in range(max(len(form_suffix), 1), max_end_length+1): #was: 1,2,3,4,5
            word_end = word[-i:]
''', '''        shortest = max(len(form_suffix), 1)
        longest = min(max_suffix_length, len(word))
        for i in range(shortest, longest + 1):
            word_end = word[len(word) - i:]
'''))
same('A33', 'comprehension out', (CO, '''            for form, cnt in common_form_counts:
                # form is a `(para_id, idx)` tuple here
                # XXX: shouldn't we use inverted cnt to make the results
                # sorted high to low?
                counted_suffixes_dawg_data.append(
                    (ending, (cnt,) + form)
                )
''', '''            counted_suffixes_dawg_data.extend(
                (ending, (cnt, para_id, idx))
                for (para_id, idx), cnt in common_form_counts
            )
'''))
same('A33', 'items of endings', (CO, '''    for ending in endings:
        if ending_counts[ending] < min_ending_freq:
            continue

        for POS in endings[ending]:

            common_form_counts = largest_elements(
                iterable=endings[ending][POS].items(),
''', '''    for ending, by_pos in endings.items():
        if ending_counts[ending] < min_ending_freq:
            continue

        for forms in by_pos.values():

            common_form_counts = largest_elements(
                iterable=forms.items(),
'''))
same('A33', 'popular loop', (CO, "    return set(key for (key, count) in counter.items() if count >= threshold)", "    popular = set()\n    for key, count in counter.items():\n        if count < threshold:\n            continue\n        popular.add(key)\n    return popular"))
same('A33', 'prefix dict', (CO, '''    prefix_endings = {}
    for form_prefix_id in range(len(paradigm_prefixes)):
        prefix_endings[form_prefix_id] = collections.defaultdict(
                                    lambda: collections.defaultdict(
                                        lambda: collections.defaultdict(int)))
''', '''    def counts():
        return collections.defaultdict(int)

    def by_pos():
        return collections.defaultdict(counts)

    prefix_endings = dict(
        (form_prefix_id, collections.defaultdict(by_pos))
        for form_prefix_id, _ in enumerate(paradigm_prefixes)
    )
'''))

# ---- A35
bug('A35', 'links by start', (PA, "            links.append(link_tuple)\n", "            if link_tuple not in links[-1:]:\n                links.append(link_tuple)\n            links.sort(key=lambda x: x[2])\n"))
bug('A35', 'forms dedupe', (PA, "        lexeme.append(\n            (form, (base_grammemes + \" \" + grammemes).strip())\n        )", "        item = (form, (base_grammemes + \" \" + grammemes).strip())\n        if item not in lexeme:\n            lexeme.append(item)"))
bug('A35', 'clear forms', (PA, "                continue\n            yield ev, elem", "                if elem.tag == 'f':\n                    xml_clear_elem(elem)\n                continue\n            yield ev, elem"), )
bug('A35', 'interesting f', (PA, "set(['grammeme', 'lemma', 'link'])", "set(['grammeme', 'lemma', 'link', 'g'])"), (PA, "            links.append(link_tuple)\n            xml_clear_elem(elem)\n", "            links.append(link_tuple)\n\n        if elem.tag != 'lemma':\n            xml_clear_elem(elem)\n"))
bug('A35', 'children by find', (PA, "    for form_elem in elem.iter('f'):", "    for form_elem in elem.findall('f')[:255]:"))
bug('A35', 'alias as name', (PA, "            alias = elem.find('alias').text\n", "            alias = elem.find('alias').text or name\n"))
bug('A35', 'comma join', (PA, '(base_grammemes + " " + grammemes).strip()', '(base_grammemes + "," + grammemes).strip(",")'))
same('A35', 'info loop', (PA, '''            name = elem.find('name').text
            parent = elem.get('parent')
            alias = elem.find('alias').text
            description = elem.find('description').text

            grammeme = (name, parent, alias, description)
            grammemes.append(grammeme)
''', '''            grammemes.append((
                elem.find('name').text,
                elem.attrib.get('parent'),
                elem.find('alias').text,
                elem.find('description').text,
            ))
'''))
same('A35', 'handlers', (PA, '''        if elem.tag == 'grammeme':
            name''', '''        tag = elem.tag
        if tag == 'grammeme':
            name'''), (PA, "        if elem.tag == 'lemma':", "        if tag == 'lemma':"), (PA, "        elif elem.tag == 'link':", "        elif tag == 'link':"))
same('A35', 'clear last', (PA, '''            lexemes[lex_id] = word_forms
            xml_clear_elem(elem)

        elif elem.tag == 'link':
            link_tuple = (
                elem.get('from'),
                elem.get('to'),
                elem.get('type'),
            )
            links.append(link_tuple)
            xml_clear_elem(elem)
''', '''            lexemes[lex_id] = word_forms

        elif elem.tag == 'link':
            links.append(tuple(elem.get(k) for k in ('from', 'to', 'type')))

        if elem.tag != 'grammeme':
            xml_clear_elem(elem)
'''))
same('A35', 'split filter', (PA, '''            if elem.tag not in interesting_tags:
                continue
            yield ev, elem
''', '''            if elem.tag in interesting_tags:
                yield ev, elem
'''))
