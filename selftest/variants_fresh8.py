from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'
AB, UU, UN, PP, CO = 'units/abbreviations.py', 'units/utils.py', 'units/unkn.py', 'opencorpora_dict/preprocess.py', 'opencorpora_dict/compile.py'
PA, CL, PB, SP, TK, RU, UK, CA = 'opencorpora_dict/parse.py', 'cli.py', 'opencorpora_dict/probability.py', 'shapes.py', 'tokenizers.py', 'lang/ru/config.py', 'lang/uk/config.py', 'cache.py'

# ---- subtle bugs, written from the statements
bug('A01', 'terminal by own results', (AN, '''            res.extend(analyzer.parse(word, word_lower, seen))

            if is_terminal and res:
                break
''', '''            found = analyzer.parse(word, word_lower, seen)
            res.extend(found)

            if is_terminal and found:
                break
'''))
bug('A01', 'unknown ignores spaces', (UN, "        if seen_parses:\n            return []\n", "        if seen_parses or word.isspace():\n            return []\n"))
bug('A01', 'best only when many', (AN, '''        ], key=_score_getter, reverse=True)

    def apply_to_tags''', '''        ], key=_score_getter, reverse=True)[:255]

    def apply_to_tags'''))
bug('A02', 'first letter', (AB, "        if word not in self._letters_set:\n            return []\n        return [\n", "        if word[0] not in self._letters_set or len(word) > 1:\n            return []\n        return [\n"))
bug('A02', 'category name', (SP, "        all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())", "        all(unicodedata.category(ch)[0] == 'P' or unicodedata.name(ch).endswith('BULLET') for ch in token if not ch.isspace())"))
bug('A02', 'decimal', (SH, "                float(word.replace(',', '.'))\n                return 'real'\n", "                if float(word.replace(',', '.')) == int(float(word.replace(',', '.'))):\n                    return 'real'\n                return 'real'\n"))
bug('A03', 'min remainder zero', (RU, "    KnownPrefixAnalyzer(known_prefixes=KNOWN_PREFIXES),", "    KnownPrefixAnalyzer(known_prefixes=KNOWN_PREFIXES, min_remainder_length=0),") if False else
    (BY, "            if len(unprefixed_word) < self.min_remainder_length:\n                continue\n\n            yield", "            if len(word) < self.min_remainder_length:\n                continue\n            unprefixed_word = unprefixed_word or word\n\n            yield"))
bug('A03', 'double particle', (HY, "            unsuffixed_word = word[:-len(particle)]\n", "            unsuffixed_word = word[:-len(particle)] or word\n"))
bug('A04', 'particle seen in tag', (HY, "            result.extend(self.morph.tag(unsuffixed_word))\n", "            result.extend(t for t in self.morph.tag(unsuffixed_word) if not t._is_unknown())\n"))
bug('A04', 'advb length', (HY, "        if not self.should_parse(word_lower) or self._tag in seen_tags:\n", "        if not self.should_parse(word) or self._tag in seen_tags:\n"))
bug('A04', 'tag of latin', (SH, "        shape = self.check_shape(word, word_lower)\n        if not shape:\n            return []\n        return [self.get_tag(word, shape)]", "        shape = self.check_shape(word_lower, word_lower)\n        if not shape:\n            return []\n        return [self.get_tag(word, shape)]"))
bug('A04', 'suffix shortest first', (BY, "                end = word_lower[-i:]\n", "                end = word_lower[len(prefix):][-i:]\n"))
bug('A05', 'particle kept case', (HY, "                    fixed_word+particle,\n                    tag,", "                    fixed_word+word[len(unsuffixed_word):],\n                    tag,"))
bug('A05', 'adverb normal form', (HY, "            word_lower, self._tag, word_lower,\n", "            word_lower, self._tag, word_lower.replace('-', '', 1) if word_lower.count('-') > 1 else word_lower,\n"))
bug('A05', 'prefix kept twice', (BY, "                    methods_stack + (method,)\n                )\n                add_parse_if_not_seen(parse, result, seen_parses)\n\n        return result\n\n    def tag(self, word, word_lower, seen_tags):\n        result = []\n        for _,", "                    (method,) + methods_stack\n                )\n                add_parse_if_not_seen(parse, result, seen_parses)\n\n        return result\n\n    def tag(self, word, word_lower, seen_tags):\n        result = []\n        for _,"))
bug('A06', 'nested prefix', (UU, "    return (prefix+word, tag, prefix+normal_form, score, methods_stack)", "    if not word.startswith(prefix):\n        word = prefix + word\n    return (word, tag, prefix+normal_form, score, methods_stack)"))
bug('A06', 'suffix strip', (UU, "    return (word[:-suffix_length], tag, normal_form[:-suffix_length],\n            score, methods_stack)", "    return (word[:-suffix_length], tag, normal_form[:-suffix_length] or normal_form,\n            score, methods_stack)"))
bug('A06', 'hyphen rindex', (HY, "        return (word[word.index('-')+1:], tag, normal_form[normal_form.index('-')+1:],", "        return (word[word.index('-')+1:], tag, normal_form[word.index('-')+1:],"))
bug('A07', 'masc first', (AB, "        fixed_word, _, normal_form, score, methods_stack = form\n        return fixed_word, self._tags[0], normal_form, score, methods_stack", "        fixed_word, form_tag, normal_form, score, methods_stack = form\n        same = [t for t in self._tags if t.gender == form_tag.gender]\n        return fixed_word, same[0], normal_form, score, methods_stack"))
bug('A08', 'subset of repr', (AN, "        if not possible_results:\n            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)\n", "        if not possible_results and len(required_grammemes) == 1:\n            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)\n"))
bug('A13', 'hash of set', (TS, "        return hash(self._grammemes_tuple)", "        return hash(self._str)"))
bug('A13', 'eq by grammemes', (TS, "        return self._grammemes_tuple == other._grammemes_tuple\n", "        return self.grammemes == other.grammemes\n"))
bug('A14', 'empty set', (TS, "            if grammeme <= self.grammemes:\n                return True\n            self._assert", "            if grammeme & self.grammemes == grammeme or not grammeme - self.KNOWN_GRAMMEMES - self.grammemes:\n                return grammeme <= self.grammemes\n            self._assert"), ) if False else \
    bug('A14', 'known before set', (TS, "        if not grammemes <= cls.KNOWN_GRAMMEMES:\n", "        if not grammemes & cls.KNOWN_GRAMMEMES:\n"))
bug('A15', 'translate first only', (TS, "    grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',')]", "    grammemes = [mapping.get(tok, tok) for tok in tag_part.split(',') if tok]"))
bug('A17', 'words key format', (DA, '    DATA_FORMAT = str(">HHH")', '    DATA_FORMAT = str(">BHH")'))
bug('A17', 'stem prefix length', (WR, "            return fixed_word[len(prefix):-len(suffix)]", "            return fixed_word[len(prefix):fixed_word.rindex(suffix)]"), ) if False else \
    bug('A17', 'stem by index', (WR, "            return fixed_word[len(prefix):-len(suffix)]", "            return fixed_word[len(prefix):fixed_word.index(suffix)]"))
bug('A17', 'normal prefix', (WR, "        normal_prefix_id = paradigm[paradigm_len*2 + 0]", "        normal_prefix_id = paradigm[paradigm_len*2 + idx]"))
bug('A18', 'common prefix fallback', (CO, "        if any(pref not in paradigm_prefixes for pref in prefixes):", "        if any(pref not in paradigm_prefixes for pref in set(prefixes) - set(prefixes[:1])):"))
bug('A18', 'paradigm by suffixes', (CO, "        if paradigm not in paradigm_ids:\n            paradigm_ids[paradigm] = len(paradigms)\n", "        key = tuple(sorted(paradigm))\n        if key not in paradigm_ids:\n            paradigm_ids[key] = len(paradigms)\n"), (CO, "        para_id = paradigm_ids[paradigm]\n", "        para_id = paradigm_ids[key]\n"))
bug('A21', 'known exact', (AN, "            word = word.lower(),\n", "            word = word if strict else word.lower(),\n"))
bug('A21', 'no substitutes for ends', (BY, "                para_data = suffixes_dawg.similar_items(word_end, self.morph.char_substitutes)\n                for", "                para_data = suffixes_dawg.similar_items(word_end, self.morph.char_substitutes if i > 1 else {})\n                for"))
bug('A22', 'strip tokens', (CL, "    return (line for line in (line.strip() for line in fp) if line)", "    return (line for line in (line.strip() for line in fp) if line and not line.startswith('#'))"))
bug('A22', 'memo lower', (CA, "            if args in cache:\n                return cache[args]", "            if args in cache:\n                return cache[args] or func(args)") if False else
    (CL, "                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score", "                        lemmas[p.normal_form] = max(lemmas.get(p.normal_form, 0), p.score)"))
bug('A23', 'zero width', (TK, "    return [t for t in _split(text) if t and not t.isspace()]", "    return [t for t in _split(text) if t and t.isprintable()]"))
bug('A24', 'three parts', (SP, "            if len(example_parts) > i:\n", "            if len(example_parts) > i and example_parts[i]:\n"))
bug('A26', 'negative numbers', (TS, "        if (num % 10 == 1) and (num % 100 != 11):", "        if (num % 10 == 1) and (num != 11):"))
bug('A26', 'prtf femn', (TS, "        elif self.POS in ('ADJF', 'PRTF') and self.gender == 'femn' and index == 1:", "        elif self.POS == 'ADJF' and self.gender == 'femn' and index == 1:"))
bug('A28', 'hyphen adverb', (BY, "                        if not tag.is_productive():\n                            continue\n\n                        total_counts", "                        if not (tag.is_productive() or cnt > 100):\n                            continue\n\n                        total_counts"))
bug('A28', 'productive by pos', (TS, "        return not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES", "        return self._POS not in self._NON_PRODUCTIVE_GRAMMEMES"))
bug('A29', 'roman spaces', (SP, "    return _match(token) is not None", "    return _match(token.strip()) is not None"))
bug('A29', 'latin ascii', (SP, "        is_latin = 'LATIN' in unicodedata.name(uchr, '')", "        is_latin = unicodedata.name(uchr, '').startswith('LATIN SMALL')"))
bug('A31', 'prefix lower', (AN, "self.dictionary.iter_known_words(prefix):", "self.dictionary.iter_known_words(prefix.strip()):"))
bug('A31', 'first of idx', (WR, "            tag = self.build_tag_info(para_id, idx)\n            normal_form = self.build_normal_form(para_id, idx, word)", "            tag = self.build_tag_info(para_id, 0)\n            normal_form = self.build_normal_form(para_id, idx, word)"))
bug('A32', 'inflected class', (AN, "        return self.__class__(*last_method[0].normalized(self))", "        return Parse(*last_method[0].normalized(self))"))
bug('A33', 'popularity strict', (CO, "if count >= threshold)", "if count > threshold)"))
bug('A33', 'ending stem', (CO, "        for i in range(max(len(form_suffix), 1), max_end_length+1):", "        for i in range(len(form_suffix)+1, max_end_length+1):"))
bug('A35', 'empty alias', (PA, "            alias = elem.find('alias').text\n", "            alias = elem.find('alias').text or name\n"))
bug('A35', 'links of lemmas', (PA, "            links.append(link_tuple)\n", "            if link_tuple[0] in lexemes:\n                links.append(link_tuple)\n"))
bug('A35', 'strip base', (PA, "            (form, (base_grammemes + \" \" + grammemes).strip())", "            (form, (base_grammemes + \" \" + grammemes).rstrip())"))
bug('A12', 'options kept lower', (BA, "            (key, getattr(self, key, None)) for key in self._get_param_names()", "            (key, getattr(self, key, None)) for key in self._get_param_names() if getattr(self, key, None)"))
bug('A11', 'class default', (AN, "        return self.__class__, args, None", "        return MorphAnalyzer, args, None"))
bug('A25', 'env when lang', (AN, "        if cls.DICT_PATH_ENV_VARIABLE in os.environ:", "        if lang is None and cls.DICT_PATH_ENV_VARIABLE in os.environ:"))
bug('A27', 'longest only', (DA, "        return [pref for pref in self._prefixes if word.startswith(pref)]", "        return [pref for pref in self._prefixes if word.startswith(pref)][:3]"))
bug('A34', 'tags set', (BY, "        result.sort(reverse=True)\n        return [tag for cnt, tag in result]", "        return list(set(tag for cnt, tag in sorted(result, reverse=True)))"))
