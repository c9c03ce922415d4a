from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'
AB, UU, UN, RU, UK = 'units/abbreviations.py', 'units/utils.py', 'units/unkn.py', 'lang/ru/config.py', 'lang/uk/config.py'

# ---- A01
bug('A01', 'no terminal last', (AN, "                self._units.append((self._bound_unit(item[-1]), True))\n", "                self._units.append((self._bound_unit(item[-1]), len(item) > 1))\n            elif item is units_unbound[-1]:\n                self._units.append((self._bound_unit(item), False))\n"),
    (AN, "            if is_terminal and res:\n                break\n\n        if self.prob_estimator is not None:\n            res = self.prob_estimator.apply_to_parses", "            if is_terminal and res:\n                break\n        else:\n            res = []\n\n        if self.prob_estimator is not None:\n            res = self.prob_estimator.apply_to_parses"))
bug('A01', 'unknown only letters', (UN, "    def parse(self, word, word_lower, seen_parses):\n", "    def parse(self, word, word_lower, seen_parses):\n        if not word_lower.strip():\n            return []\n"))
bug('A01', 'positive only', (AN, "        return [self._result_type(*p) for p in res]", "        return [self._result_type(*p) for p in res if p[3] > 0.0001]"))
same('A01', 'units loop helper', (AN, '''        for analyzer, is_terminal in self._units:
            res.extend(analyzer.tag(word, word_lower, seen))

            if is_terminal and res:
                break

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_tags(word, word_lower, res)
        return res
''', '''        for analyzer, is_terminal in self._units:
            for found in analyzer.tag(word, word_lower, seen):
                res.append(found)

            if res and is_terminal:
                break

        estimator = self.prob_estimator
        return res if estimator is None else estimator.apply_to_tags(word, word_lower, res)
'''))
same('A01', 'while units', (AN, '''        for analyzer, is_terminal in self._units:
            res.extend(analyzer.parse(word, word_lower, seen))

            if is_terminal and res:
                break
''', '''        for analyzer, is_terminal in self._units:
            res += analyzer.parse(word, word_lower, seen)
            if not is_terminal or not res:
                continue
            break
'''))

# ---- A03
bug('A03', 'particle kept', (HY, "            for fixed_word, tag, normal_form, score, methods_stack in self.morph.parse(unsuffixed_word):", "            for fixed_word, tag, normal_form, score, methods_stack in self.morph.parse(unsuffixed_word or word):"),
    (HY, "            if not unsuffixed_word:\n                continue\n\n            yield", "            yield"))
bug('A03', 'no hyphen left', (HY, "        left, right = word_lower.split('-', 1)\n        left_parses = self.morph.parse(left)", "        left, right = word_lower.split('-', 1)\n        left_parses = self.morph.parse(left if left in self.skip_prefixes else word)"))
same('A03', 'right by partition', (HY, "        left, right = word_lower.split('-', 1)\n", "        left, _, right = word_lower.partition('-')\n"))
same('A03', 'tail name', (HY, "        tags = self.morph.tag(word[3:])\n", "        stem = word[len('по-'):]\n        tags = self.morph.tag(stem)\n"))
same('A03', 'splits list', (BY, '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
        for prefix in word_prefixes:
            unprefixed_word = word[len(prefix):]

            if len(unprefixed_word) < self.min_remainder_length:
                continue

            yield prefix, unprefixed_word
''', '''        for prefix in sorted(self.get_prefixes(word), key=len, reverse=True):
            unprefixed_word = word[len(prefix):]
            if len(unprefixed_word) >= self.min_remainder_length:
                yield prefix, unprefixed_word
'''))

# ---- A04
bug('A04', 'suffix tag short', (BY, "        # ``self.parse(...)``.\n\n        result = []\n        if len(word) < self.min_word_length:", "        # ``self.parse(...)``.\n\n        result = []\n        if len(word) <= self.min_word_length:"))
bug('A04', 'found new only', (BY, "                        found = True\n                        if tag in seen_tags:\n                            continue\n", "                        if tag in seen_tags:\n                            continue\n                        found = True\n"))
bug('A04', 'tag not lower', (LO, "        para_data = self.dict.words.similar_item_values(word_lower, self.morph.char_substitutes)", "        para_data = self.dict.words.similar_item_values(word, self.morph.char_substitutes)"))
bug('A04', 'prefix productive', (BY, "            for tag in self.morph.tag(unprefixed_word):\n                if not tag.is_productive():\n                    continue\n", "            for tag in self.morph.tag(unprefixed_word):\n                if tag._is_unknown():\n                    continue\n"))
bug('A04', 'tag uses only first', (LO, "                tag_id = paradigm[paradigm_len + idx]\n", "                tag_id = paradigm[paradigm_len]\n"))
bug('A04', 'one substitute', (LO, "            for para_id, idx in parse:\n", "            for para_id, idx in parse[:3]:\n"))
same('A04', 'tag info', (LO, '''                paradigm = paradigms[para_id]
                paradigm_len = len(paradigm) // 3
                tag_id = paradigm[paradigm_len + idx]
                result.append(gramtab[tag_id])
''', '''                result.append(self.dict.build_tag_info(para_id, idx))
'''))
same('A04', 'sorted pairs', (BY, "        result.sort(reverse=True)\n        return [tag for cnt, tag in result]", "        return [pair[1] for pair in sorted(result, reverse=True)]"))
same('A04', 'from tags', (BY, '''        for _, unprefixed_word in word_splits(word_lower):

            tags = self.dict_analyzer.tag(unprefixed_word, unprefixed_word, seen_tags)
            for tag in tags:

                if not tag.is_productive():
                    continue

                add_tag_if_not_seen(tag, result, seen_tags)
''', '''        for _, rest in word_splits(word_lower):
            productive = [tag for tag in self.dict_analyzer.tag(rest, rest, seen_tags) if tag.is_productive()]
            for tag in productive:
                add_tag_if_not_seen(tag, result, seen_tags)
'''))

# ---- A05
bug('A05', 'prefix not in word', (BY, "                parse = (\n                    prefix + fixed_word,\n                    tag,\n                    prefix + normal_form,\n                    score * self.score_multiplier,\n                    methods_stack + (method,)\n                )\n\n", "                parse = (\n                    prefix + fixed_word,\n                    tag,\n                    prefix + normal_form,\n                    score * self.score_multiplier,\n                    methods_stack[:1] + (method,)\n                )\n\n"))
bug('A05', 'method fixed word', (BY, "                            (self, fixed_suffix),\n", "                            (self, word_end),\n"))
bug('A05', 'normal of typed', (LO, "                normal_form = self.dict.build_normal_form(para_id, idx, fixed_word)", "                normal_form = self.dict.build_normal_form(para_id, idx, word_lower)"))
bug('A05', 'method typed', (LO, "                method = ((self, fixed_word, para_id, idx),)", "                method = ((self, word_lower, para_id, idx),)"))
bug('A05', 'left tag right', (HY, "                    left_tag,\n                    '-'.join((left_parse[2], right_parse[2])),  # normal form", "                    left_tag,\n                    '-'.join((left_parse[2], right_parse[0])),  # normal form"))
same('A05', 'parse fields', (LO, '''                normal_form = self.dict.build_normal_form(para_id, idx, fixed_word)
                tag = self.dict.build_tag_info(para_id, idx)
                method = ((self, fixed_word, para_id, idx),)
                res.append((fixed_word, tag, normal_form, 1.0, method))
''', '''                res.append((
                    fixed_word,
                    self.dict.build_tag_info(para_id, idx),
                    self.dict.build_normal_form(para_id, idx, fixed_word),
                    1.0,
                    ((self, fixed_word, para_id, idx),),
                ))
'''))

# ---- A06
bug('A06', 'suffix strip', (UU, "    return (word[:-suffix_length], tag, normal_form[:-suffix_length],\n            score, methods_stack)", "    return (word[:-suffix_length], tag, normal_form[:len(word)-suffix_length],\n            score, methods_stack)"))
bug('A06', 'prefix normal', (UU, "    return (word[prefix_length:], tag, normal_form[prefix_length:],", "    return (word[prefix_length:], tag, normal_form[-len(word)+prefix_length:],"))
bug('A06', 'stack of stem', (LO, "            new_methods_stack = self._fix_stack(methods_stack, word, para_id, index)", "            new_methods_stack = self._fix_stack(methods_stack, fixed_word, para_id, index)"))
bug('A06', 'stack first only', (LO, "        return (method0,) + methods_stack[1:]", "        return (method0,) + methods_stack[1:2]"))
same('A06', 'slice by length', (UU, "    return (word[:-suffix_length], tag, normal_form[:-suffix_length],\n            score, methods_stack)", "    return (word[:len(word)-suffix_length], tag, normal_form[:len(normal_form)-suffix_length],\n            score, methods_stack)"))
same('A06', 'by split', (HY, "        return (word[:word.index('-')], tag, normal_form[:normal_form.index('-')],\n                score, methods_stack)", "        return (word.split('-', 1)[0], tag, normal_form.split('-', 1)[0],\n                score, methods_stack)"))

# ---- A07
bug('A07', 'normal from last', (LO, "        tag = self.dict.build_tag_info(para_id, 0)\n", "        tag = self.dict.build_tag_info(para_id, idx)\n"))
bug('A07', 'first of group', (WR, "        if idx == 0:  # a shortcut: normal form is a word itself\n            return fixed_word\n", "        if idx <= 1:  # a shortcut: normal form is a word itself\n            return fixed_word\n"))
same('A07', 'normal without shortcut', (WR, "        if idx == 0:  # a shortcut: normal form is a word itself\n            return fixed_word\n\n", ""))

# ---- A08
bug('A08', 'not all required', (AN, "                                if required_grammemes <= f[1].grammemes]\n\n        grammemes", "                                if required_grammemes & f[1].grammemes]\n\n        grammemes"))
bug('A08', 'rare always', (AN, "        if not possible_results:\n            required_grammemes", "        if len(possible_results) < 2:\n            required_grammemes"))
bug('A08', 'or the form', (AN, "        return heapq.nlargest(1, possible_results, key=similarity)", "        return heapq.nlargest(1, possible_results or [form], key=similarity)"))
same('A08', 'sorted best', (AN, "        return heapq.nlargest(1, possible_results, key=similarity)", "        return sorted(possible_results, key=similarity, reverse=True)[:1]"))
same('A08', 'helper', (AN, '''        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = [f for f in self.get_lexeme(form)
                                if required_grammemes <= f[1].grammemes]
''', '''        def matching(required):
            return [f for f in self.get_lexeme(form) if f[1].grammemes >= required]

        possible_results = matching(required_grammemes)
        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = matching(required_grammemes)
'''))

# ---- A12 A11 A10
bug('A12', 'unit bound once', (AN, "        unit = unit.clone()\n        unit.init(self)\n", "        if getattr(unit, 'morph', None) is None:\n            unit.init(self)\n            return unit\n        unit = unit.clone()\n        unit.init(self)\n"))
same('A12', 'clone first', (AN, "        unit = unit.clone()\n        unit.init(self)\n        return unit\n", "        own = unit.clone()\n        own.init(self)\n        return own\n"))
bug('A11', 'reduce path', (AN, "        args = (self._path,", "        args = (self._path or self.dictionary.path,"))
same('A11', 'reduce tuple', (AN, "        return self.__class__, args, None", "        return (self.__class__, args, None)"))

# ---- A13
bug('A13', 'eq of sets', (TS, "    def __eq__(self, other):\n        return self._grammemes_tuple == other._grammemes_tuple", "    def __eq__(self, other):\n        return self.grammemes == other.grammemes"))
bug('A13', 'hash of text', (TS, "        return hash(self._grammemes_tuple)", "        return hash(self._str)"))
bug('A13', 'less by length', (TS, "        return self._grammemes_tuple < other._grammemes_tuple", "        return self._grammemes_tuple <= other._grammemes_tuple"))
bug('A13', 'set shared', (TS, "            self._grammemes_cache = frozenset(self._grammemes_tuple)", "            self._grammemes_cache = set(self._grammemes_tuple)"))
same('A13', 'not eq', (TS, "    def __ne__(self, other):\n        return self._grammemes_tuple != other._grammemes_tuple", "    def __ne__(self, other):\n        return not self._grammemes_tuple == other._grammemes_tuple"))
same('A13', 'gt by lt', (TS, "        return self._grammemes_tuple > other._grammemes_tuple", "        return other._grammemes_tuple < self._grammemes_tuple"))

# ---- A14
bug('A14', 'set partial', (TS, "            self._assert_grammemes_are_known(grammeme)\n            return False\n", "            if len(grammeme) == 1:\n                self._assert_grammemes_are_known(grammeme)\n            return False\n"))
bug('A14', 'any known', (TS, "        if not grammemes <= cls.KNOWN_GRAMMEMES:\n", "        if not grammemes & cls.KNOWN_GRAMMEMES:\n"))
bug('A08', 'update unknown', (TS, "            if not self.grammeme_is_known(grammeme):\n                raise ValueError(\"Unknown grammeme: %s\" % grammeme)\n            new_grammemes", "            if not self.grammeme_is_known(grammeme):\n                continue\n            new_grammemes"))
same('A14', 'known order', (TS, '''            if grammeme <= self.grammemes:
                return True
            self._assert_grammemes_are_known(grammeme)
            return False
''', '''            present = grammeme <= self.grammemes
            if not present:
                self._assert_grammemes_are_known(grammeme)
            return present
'''))

# ---- A15
bug('A15', 'alias or name', (TS, "        cls._LAT2CYR[lat] = cyr\n        cls._CYR2LAT[cyr] = lat\n", "        cls._LAT2CYR[lat] = cyr\n        cls._CYR2LAT.setdefault(cyr[:4], lat)\n"))
bug('A15', 'known after', (TS, "        if not overwrite and lat in cls.KNOWN_GRAMMEMES:\n            return\n", "        if lat in cls.KNOWN_GRAMMEMES:\n            return\n"))
same('A15', 'update', (TS, "        cls._LAT2CYR[lat] = cyr\n        cls._CYR2LAT[cyr] = lat\n", "        cls._LAT2CYR.update({lat: cyr})\n        cls._CYR2LAT.update({cyr: lat})\n"))

# ---- A21
bug('A21', 'known case', (AN, "        return self.dictionary.word_is_known(\n            word = word.lower(),", "        return self.dictionary.word_is_known(\n            word = word,"))
bug('A21', 'substitutes of strict', (LO, "        para_data = self.dict.words.similar_items(word_lower, self.morph.char_substitutes)", "        para_data = self.dict.words.similar_items(word_lower, self.morph.char_substitutes if word == word_lower else self.morph.dictionary.words.compile_replaces({}))"))

# ---- A25
bug('A25', 'env first', (AN, "        if path is not None:\n            return path\n\n        if cls.DICT_PATH_ENV_VARIABLE in os.environ:\n            return os.environ[cls.DICT_PATH_ENV_VARIABLE]\n", "        if cls.DICT_PATH_ENV_VARIABLE in os.environ:\n            return os.environ[cls.DICT_PATH_ENV_VARIABLE]\n\n        if path is not None:\n            return path\n"))
bug('A25', 'env only without lang', (AN, "        if cls.DICT_PATH_ENV_VARIABLE in os.environ:", "        if lang in (None, 'ru') and cls.DICT_PATH_ENV_VARIABLE in os.environ:"))
bug('A25', 'default ru always', (AN, "        if path is None and lang is None:\n            lang = 'ru'\n", "        if lang is None:\n            lang = 'ru'\n"))
same('A25', 'environ get', (AN, "        if cls.DICT_PATH_ENV_VARIABLE in os.environ:\n            return os.environ[cls.DICT_PATH_ENV_VARIABLE]\n\n        return lang_dict_path(lang)", "        try:\n            return os.environ[cls.DICT_PATH_ENV_VARIABLE]\n        except KeyError:\n            return lang_dict_path(lang)"))

# ---- A26
bug('A26', 'eleven', (TS, "(num % 100 != 11)", "(num != 11)"))
bug('A26', 'teens small', (TS, "(num % 100 < 10 or num % 100 >= 20)", "(num < 10 or num >= 20)"))
bug('A26', 'accs one', (TS, "            if self.case == 'nomn':\n                grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[0]", "            if self.case in ('nomn', 'accs') and self.POS == 'ADJF':\n                grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[0]"))
same('A26', 'chained', (TS, "(num % 10 >= 2) and (num % 10 <= 4) and (num % 100 < 10 or num % 100 >= 20)", "2 <= num % 10 <= 4 and not 10 <= num % 100 < 20"))
same('A26', 'locals', (TS, "        if (num % 10 == 1) and (num % 100 != 11):\n", "        units, tens = num % 10, num // 10 % 10\n        if units == 1 and num % 100 != 11:\n"))

# ---- A28
bug('A28', 'suffix parse', (BY, "                        # skip non-productive tags\n                        if not tag.is_productive():\n                            continue\n\n", "                        # skip non-productive tags\n                        if not tag.is_productive() and cnt < 100:\n                            continue\n\n"))
bug('A28', 'grammemes list', (TS, "        return not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES", "        return self._POS not in self._NON_PRODUCTIVE_GRAMMEMES"))
same('A28', 'isdisjoint', (TS, "        return not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES", "        return self.grammemes.isdisjoint(self._NON_PRODUCTIVE_GRAMMEMES)"))

# ---- A31 A32
bug('A31', 'prefix lower', (AN, "        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix):\n", "        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix.strip()):\n"))
bug('A31', 'score zero', (AN, "            parse = (word, tag, normal_form, 1.0, methods)\n", "            parse = (word, tag, normal_form, 1.0, methods[0])\n"))
same('A31', 'inline methods', (AN, "            methods = ((self._units[0][0], word, para_id, idx),)\n            parse = (word, tag, normal_form, 1.0, methods)\n", "            parse = (word, tag, normal_form, 1.0, ((self._units[0][0], word, para_id, idx),))\n"))
bug('A32', 'known words plain', (AN, "            if self._result_type is None:\n                yield parse\n            else:\n                yield self._result_type(*parse)", "            if self._result_type is None:\n                yield parse\n            else:\n                yield self._result_type_orig(*parse)"))
bug('A32', 'lexeme single', (AN, "        if self._result_type is None:\n            return result\n        return [self._result_type(*p) for p in result]", "        if self._result_type is None or len(result) == 1:\n            return result\n        return [self._result_type(*p) for p in result]"))
same('A32', 'wrap helper', (AN, "        if self._result_type is None:\n            return result\n        return [self._result_type(*p) for p in result]", "        wrap = self._result_type\n        return result if wrap is None else [wrap(*p) for p in result]"))
