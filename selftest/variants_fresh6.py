from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT, WR, ST = 'tagset.py', 'dawg.py', 'utils.py', 'opencorpora_dict/wrapper.py', 'opencorpora_dict/storage.py'
AB, UU, PP, CO = 'units/abbreviations.py', 'units/utils.py', 'opencorpora_dict/preprocess.py', 'opencorpora_dict/compile.py'

# ---- whole functions written another way; run these without -s (against every property)
same('A01', 'R6 driver helper', (AN, '''        res = []
        seen = set()
        word_lower = word.lower()

        for analyzer, is_terminal in self._units:
            res.extend(analyzer.parse(word, word_lower, seen))

            if is_terminal and res:
                break

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_parses(word, word_lower, res)
''', '''        lower = word.lower()
        res = self._run_units('parse', word, lower)

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_parses(word, lower, res)
'''), (AN, '''    def tag(self, word):
        res = []
        seen = set()
        word_lower = word.lower()

        for analyzer, is_terminal in self._units:
            res.extend(analyzer.tag(word, word_lower, seen))

            if is_terminal and res:
                break

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_tags(word, word_lower, res)
        return res
''', '''    def _run_units(self, method, word, word_lower):
        collected, seen = [], set()
        for analyzer, is_terminal in self._units:
            found = getattr(analyzer, method)(word, word_lower, seen)
            collected += found
            if collected and is_terminal:
                return collected
        return collected

    def tag(self, word):
        lower = word.lower()
        tags = self._run_units('tag', word, lower)
        if self.prob_estimator is None:
            return tags
        return self.prob_estimator.apply_to_tags(word, lower, tags)
'''))
same('A05', 'R6 suffix generator', (BY, '''        total_counts = [1] * len(self._paradigm_prefixes)

        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):

            for i in self._prediction_splits:

                # XXX: this should be counted once, not for each prefix
                word_start, word_end = word_lower[:-i], word_lower[-i:]

                para_data = suffixes_dawg.similar_items(word_end, self.morph.char_substitutes)
                for fixed_suffix, parses in para_data:

                    fixed_word = word_start + fixed_suffix

                    for cnt, para_id, idx in parses:
                        tag = self.dict.build_tag_info(para_id, idx)

                        # skip non-productive tags
                        if not tag.is_productive():
                            continue

                        total_counts[prefix_id] += cnt
''', '''        total_counts = dict((prefix_id, 1) for prefix_id, _ in self._paradigm_prefixes)

        for prefix_id, prefix, suffixes_dawg in self._possible_prefixes(word_lower):

            for i in self._prediction_splits:

                # XXX: this should be counted once, not for each prefix
                word_start, word_end = word_lower[:-i], word_lower[-i:]

                para_data = suffixes_dawg.similar_items(word_end, self.morph.char_substitutes)
                for fixed_suffix, parses in para_data:

                    fixed_word = word_start + fixed_suffix

                    for cnt, para_id, idx in parses:
                        tag = self.dict.build_tag_info(para_id, idx)

                        # skip non-productive tags
                        if not tag.is_productive():
                            continue

                        total_counts[prefix_id] = total_counts[prefix_id] + cnt
'''))
same('A05', 'R6 suffix result loop', (BY, '''        result = [
            (fixed_word, tag, normal_form, cnt/total_counts[prefix_id] * self.score_multiplier, methods_stack)
            for (cnt, fixed_word, tag, normal_form, prefix_id, methods_stack) in result
        ]
        result.sort(key=_cnt_getter, reverse=True)
        return result
''', '''        scored = []
        for cnt, fixed_word, tag, normal_form, prefix_id, methods_stack in result:
            score = cnt / total_counts[prefix_id] * self.score_multiplier
            scored.append((fixed_word, tag, normal_form, score, methods_stack))
        return sorted(scored, key=_cnt_getter, reverse=True)
'''))
same('A04', 'R6 prefix shared', (BY, '''        result = []
        for prefix, unprefixed_word in self.possible_splits(word_lower):
            for tag in self.morph.tag(unprefixed_word):
                if not tag.is_productive():
                    continue
                add_tag_if_not_seen(tag, result, seen_tags)
        return result
''', '''        result = []
        candidates = (
            tag
            for _, unprefixed_word in self.possible_splits(word_lower)
            for tag in self.morph.tag(unprefixed_word)
        )
        for tag in candidates:
            if tag.is_productive():
                add_tag_if_not_seen(tag, result, seen_tags)
        return result
'''))
same('A05', 'R6 build parse method', (BY, '''                if not tag.is_productive():
                    continue

                parse = (
                    prefix + fixed_word,
                    tag,
                    prefix + normal_form,
                    score * self.score_multiplier,
                    methods_stack + (method,)
                )

                add_parse_if_not_seen(parse, result, seen_parses)

        return result

    def tag(self, word, word_lower, seen_tags):
        result = []
        for prefix,''', '''                if tag.is_productive():
                    parse = self._prefixed(prefix, fixed_word, tag, normal_form, score, methods_stack)
                    add_parse_if_not_seen(parse, result, seen_parses)

        return result

    def _prefixed(self, prefix, word, tag, normal_form, score, stack):
        return (prefix + word, tag, prefix + normal_form, score * self.score_multiplier, stack + ((self, prefix),))

    def tag(self, word, word_lower, seen_tags):
        result = []
        for prefix,'''))
same('A03', 'R6 splits list', (BY, '''        word_prefixes = self.get_prefixes(word)
        word_prefixes.sort(key=len, reverse=True)
        for prefix in word_prefixes:
            unprefixed_word = word[len(prefix):]

            if len(unprefixed_word) < self.min_remainder_length:
                continue

            yield prefix, unprefixed_word
''', '''        splits = []
        for prefix in sorted(self.get_prefixes(word), key=len, reverse=True):
            remainder = word[len(prefix):]
            if len(remainder) >= self.min_remainder_length:
                splits.append((prefix, remainder))
        return splits
'''))
same('A05', 'R6 particle first', (HY, '''        result = []
        for unsuffixed_word, particle in self.possible_splits(word_lower):
            method = (self, particle)

            for fixed_word, tag, normal_form, score, methods_stack in self.morph.parse(unsuffixed_word):
                parse = (
                    fixed_word+particle,
                    tag,
                    normal_form+particle,
                    score*self.score_multiplier,
                    methods_stack+(method,)
                )
                add_parse_if_not_seen(parse, result, seen_parses)

            # If a word ends with with one of the particles,
            # it can't ends with an another.
            break

        return result
''', '''        result = []
        split = next(iter(self.possible_splits(word_lower)), None)
        if split is None:
            return result
        unsuffixed_word, particle = split
        for p in self.morph.parse(unsuffixed_word):
            word, tag, normal_form, _, stack = with_suffix(p, particle)
            add_parse_if_not_seen((word, tag, normal_form, p[3] * self.score_multiplier, stack + ((self, particle),)),
                                  result, seen_parses)
        return result
'''))
same('A06', 'R6 align min', (HY, '''            min_dist, closest = 1e6, None
            gr_right = replace_grammemes(right[1].grammemes, self._CONSIDER_THE_SAME)

            for left in left_lexeme:
                gr_left = replace_grammemes(left[1].grammemes, self._CONSIDER_THE_SAME)
                dist = len(gr_left ^ gr_right)
                if dist < min_dist:
                    min_dist = dist
                    closest = left

            yield closest, right
''', '''            gr_right = replace_grammemes(right[1].grammemes, self._CONSIDER_THE_SAME)

            def distance(left):
                return len(replace_grammemes(left[1].grammemes, self._CONSIDER_THE_SAME) ^ gr_right)

            yield min(left_lexeme, key=distance), right
'''))
same('A06', 'R6 parts helper', (HY, '''        word, tag, normal_form, score, methods_stack = form
        return (word[:word.index('-')], tag, normal_form[:normal_form.index('-')],
                score, methods_stack)
''', '''        word, tag, normal_form, score, methods_stack = form
        return (word.partition('-')[0], tag, normal_form.split('-', 1)[0], score, methods_stack)
'''))
same('A05', 'R6 should parse one expression', (HY, '''        if '-' not in word:
            return False

        word_stripped = word.strip('-')
        if word_stripped != word:
            # don't handle words that start of end with a hyphen
            return False

        if word_stripped.count('-') != 1:
            # require exactly 1 hyphen, in the middle of the word
            return False

        if self._has_skip_prefix(word):
            # such words should really be parsed by KnownPrefixAnalyzer
            return False

        return True
''', '''        if word.count('-') != 1 or word.startswith('-') or word.endswith('-'):
            return False
        return not self._has_skip_prefix(word)
'''))
same('A05', 'R6 both parts', (HY, '''        right_features = [self._similarity_features(p[1]) for p in right_parses]

        # FIXME: quadratic algorithm
        for left_parse in left_parses:

            left_tag = left_parse[1]

            if left_tag._is_unknown():
                continue

            left_feat = self._similarity_features(left_tag)

            for parse_index, right_parse in enumerate(right_parses):

                right_feat = right_features[parse_index]

                if left_feat != right_feat:
                    continue

                left_methods = left_parse[4]
                right_methods = right_parse[4]

                new_methods_stack = ((self, left_methods, right_methods),)

                # tag
                parse = (
                    '-'.join((left_parse[0], right_parse[0])),  # word
                    left_tag,
                    '-'.join((left_parse[2], right_parse[2])),  # normal form
                    left_parse[3] * self.score_multiplier,
                    new_methods_stack
                )
                result.append(parse)
''', '''        rights = [(p, self._similarity_features(p[1])) for p in right_parses]

        for left_word, left_tag, left_normal, left_score, left_methods in left_parses:
            if left_tag._is_unknown():
                continue

            left_feat = self._similarity_features(left_tag)
            for right_parse, right_feat in rights:
                if left_feat == right_feat:
                    result.append((
                        left_word + '-' + right_parse[0],
                        left_tag,
                        left_normal + '-' + right_parse[2],
                        left_score * self.score_multiplier,
                        ((self, left_methods, right_parse[4]),),
                    ))
'''))
same('A17', 'R6 wrapper accessors', (WR, '''        paradigm = self.paradigms[para_id]
        tag_info_offset = len(paradigm) // 3
        tag_id = paradigm[tag_info_offset + idx]
        return self.gramtab[tag_id]
''', '''        _, tag_id, _ = self._record(self.paradigms[para_id], idx)
        return self.gramtab[tag_id]

    @staticmethod
    def _record(paradigm, idx):
        """ (suffix id, tag id, prefix id) of a form """
        size = len(paradigm) // 3
        return paradigm[idx], paradigm[size + idx], paradigm[2 * size + idx]

    def _affixes(self, paradigm, idx):
        suffix_id, _, prefix_id = self._record(paradigm, idx)
        return self.paradigm_prefixes[prefix_id], self.suffixes[suffix_id]
'''), (WR, '''        paradigm_len = len(paradigm) // 3
        res = []
        for idx in range(paradigm_len):
            prefix_id = paradigm[paradigm_len*2 + idx]
            prefix = self.paradigm_prefixes[prefix_id]

            suffix_id = paradigm[idx]
            suffix = self.suffixes[suffix_id]

            res.append(
                (prefix, self.build_tag_info(para_id, idx), suffix)
            )
        return res
''', '''        res = []
        for idx in range(len(paradigm) // 3):
            prefix, suffix = self._affixes(paradigm, idx)
            res.append((prefix, self.build_tag_info(para_id, idx), suffix))
        return res
'''), (WR, '''        paradigm_len = len(paradigm) // 3

        stem = self.build_stem(paradigm, idx, fixed_word)

        normal_prefix_id = paradigm[paradigm_len*2 + 0]
        normal_suffix_id = paradigm[0]

        normal_prefix = self.paradigm_prefixes[normal_prefix_id]
        normal_suffix = self.suffixes[normal_suffix_id]

        return normal_prefix + stem + normal_suffix
''', '''        normal_prefix, normal_suffix = self._affixes(paradigm, 0)
        return normal_prefix + self.build_stem(paradigm, idx, fixed_word) + normal_suffix
'''), (WR, '''        paradigm_len = len(paradigm) // 3

        prefix_id = paradigm[paradigm_len*2 + idx]
        prefix = self.paradigm_prefixes[prefix_id]

        suffix_id = paradigm[idx]
        suffix = self.suffixes[suffix_id]

        if suffix:
            return fixed_word[len(prefix):-len(suffix)]
        else:
            return fixed_word[len(prefix):]
''', '''        prefix, suffix = self._affixes(paradigm, idx)
        end = len(fixed_word) - len(suffix)
        return fixed_word[len(prefix):end]
'''))
same('A31', 'R6 lexeme comprehension', (LO, '''        result = []
        paradigm = self.dict.build_paradigm_info(para_id)  # XXX: reuse _para?

        for index, (_prefix, _tag, _suffix) in enumerate(paradigm):
            word = _prefix + stem + _suffix
            new_methods_stack = self._fix_stack(methods_stack, word, para_id, index)
            parse = (word, _tag, normal_form, 1.0, new_methods_stack)
            result.append(parse)

        return result
''', '''        def form_at(index, prefix, tag, suffix):
            word = ''.join([prefix, stem, suffix])
            return (word, tag, normal_form, 1.0, self._fix_stack(methods_stack, word, para_id, index))

        return [form_at(index, *item) for index, item in enumerate(self.dict.build_paradigm_info(para_id))]
'''))
same('A17', 'R6 dict tag via builder', (LO, '''        # avoid extra attribute lookups
        paradigms = self.dict.paradigms
        gramtab = self.dict.gramtab

        # tag known word
        result = []
        for parse in para_data:
            for para_id, idx in parse:
                # result.append(self.build_tag_info(para_id, idx))
                # .build_tag_info is unrolled for speed
                paradigm = paradigms[para_id]
                paradigm_len = len(paradigm) // 3
                tag_id = paradigm[paradigm_len + idx]
                result.append(gramtab[tag_id])

        return result
''', '''        return [self.dict.build_tag_info(para_id, idx) for parse in para_data for para_id, idx in parse]
'''))
same('A26', 'R6 initials tags for', (AB, '''        # 2 lexemes: masc and femn
        fixed_word, form_tag, normal_form, score, methods_stack = form
        tags = self._tags_masc if 'masc' in form_tag else self._tags_femn
        return [
            (fixed_word, tag, normal_form, score, methods_stack)
            for tag in tags
        ]

    def normalized(self, form):
        # don't normalize female names to male names
        fixed_word, form_tag, normal_form, score, methods_stack = form
        tags = self._tags_masc if 'masc' in form_tag else self._tags_femn
        return fixed_word, tags[0], normal_form, score, methods_stack
''', '''        # 2 lexemes: masc and femn
        return [form[:1] + (tag,) + form[2:] for tag in self._tags_like(form[1])]

    def _tags_like(self, tag):
        return self._tags_masc if 'masc' in tag else self._tags_femn

    def normalized(self, form):
        # don't normalize female names to male names
        fixed_word, form_tag, normal_form, score, methods_stack = form
        first = self._tags_like(form_tag)[0]
        return (fixed_word, first, normal_form, score, methods_stack)
'''))
same('A29', 'R6 number kinds', (SH, '''        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
                float(word.replace(',', '.'))
                return 'real'
            except ValueError:
                pass
        return False
''', '''        for shape, convert, text in (('intg', int, word), ('real', float, word.replace(',', '.'))):
            try:
                convert(text)
            except ValueError:
                continue
            return shape
        return False
'''))
same('A04', 'R6 shape shared', (SH, '''        shape = self.check_shape(word, word_lower)
        if not shape:
            return []

        methods = ((self, word),)
        return [(word_lower, self.get_tag(word, shape), word_lower, self.score, methods)]
''', '''        return [
            (word_lower, tag, word_lower, self.score, ((self, word),))
            for tag in self.tag(word, word_lower, seen_parses)
        ]
'''))
same('A18', 'R6 to paradigm', (CO, '''    if len(forms) == 1:
        stem = forms[0]
        prefixes = ['']
    else:
        stem = longest_common_substring(forms)
        prefixes = [form[:form.index(stem)] for form in forms]

        # only allow prefixes from PARADIGM_PREFIXES
        if any(pref not in paradigm_prefixes for pref in prefixes):
            # With right PARADIGM_PREFIXES empty stem is fine;
            # os.path.commonprefix doesn't return anything useful
            # for prediction.
            # stem = os.path.commonprefix(forms)
            stem = ""
            prefixes = [''] * len(tags)

    suffixes = (
        form[len(pref)+len(stem):]
        for form, pref in zip(forms, prefixes)
    )
    return stem, tuple(zip(suffixes, tags, prefixes))
''', '''    stem, prefixes = _stem_and_prefixes(forms, paradigm_prefixes)
    paradigm = []
    for form, tag, pref in zip(forms, tags, prefixes):
        start = len(pref) + len(stem)
        paradigm.append((form[start:], tag, pref))
    return stem, tuple(paradigm)


def _stem_and_prefixes(forms, allowed):
    if len(forms) == 1:
        return forms[0], ['']
    stem = longest_common_substring(forms)
    prefixes = [form[:form.index(stem)] for form in forms]
    if all(pref in allowed for pref in prefixes):
        return stem, prefixes
    return "", [''] * len(forms)
'''))
same('A33', 'R6 endings helper', (CO, '''        for i in range(max(len(form_suffix), 1), max_end_length+1): #was: 1,2,3,4,5
            word_end = word[-i:]
            ending_counts[word_end] += 1
            prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
''', '''        endings = prefix_endings[form_prefix_id]
        for word_end in _word_endings(word, max(len(form_suffix), 1), max_end_length):
            ending_counts[word_end] += 1
            endings[word_end][POS][para_id, idx] += 1
'''), (CO, '''def _get_suffixes_dawg_data(''', '''def _word_endings(word, shortest, longest):
    return [word[-i:] for i in range(shortest, longest + 1)]


def _get_suffixes_dawg_data('''))
same('A33', 'R6 dawg data', (CO, '''    counted_suffixes_dawg_data = []

    for ending in endings:
        if ending_counts[ending] < min_ending_freq:
            continue

        for POS in endings[ending]:

            common_form_counts = largest_elements(
                iterable=endings[ending][POS].items(),
                key=_pick_second_item,
                n=1,
            )

            for form, cnt in common_form_counts:
                # form is a `(para_id, idx)` tuple here
                # XXX: shouldn't we use inverted cnt to make the results
                # sorted high to low?
                counted_suffixes_dawg_data.append(
                    (ending, (cnt,) + form)
                )

    return counted_suffixes_dawg_data
''', '''    result = []
    for ending, by_pos in endings.items():
        if ending_counts[ending] >= min_ending_freq:
            for forms in by_pos.values():
                best = largest_elements(forms.items(), key=_pick_second_item, n=1)
                result.extend((ending, (cnt, para_id, idx)) for (para_id, idx), cnt in best)
    return result
'''))
same('A19', 'R6 spellings', (PP, '''    replaces = {}
    for grammemes in spellings:
        tags = spellings[grammemes]
        if _is_ambiguous(tags.keys(), skip_space_ambiguity):
            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            top_tag = items[0][0]
            for tag, count in items[1:]:
                replaces[tag] = top_tag
    return replaces
''', '''    replaces = {}
    for tags in spellings.values():
        if not _is_ambiguous(list(tags), skip_space_ambiguity):
            continue
        by_count = sorted(tags, key=tags.get, reverse=True)
        top_tag = by_count.pop(0)
        replaces.update((tag, top_tag) for tag in by_count)
    return replaces
'''))
same('A19', 'R6 drop init', (PP, '''    for lex_id in parsed_dict.lexemes:
        parsed_dict.lexemes[lex_id] = [
            (word, tag) for word, tag in parsed_dict.lexemes[lex_id]
            if 'Init' not in tag
        ]
''', '''    lexemes = parsed_dict.lexemes
    for lex_id, forms in lexemes.items():
        lexemes[lex_id] = [form for form in forms if 'Init' not in form[1]]
'''))
same('A08', 'R6 inflect candidates', (AN, '''        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = [f for f in self.get_lexeme(form)
                                if required_grammemes <= f[1].grammemes]

''', '''        def matching(required):
            return [f for f in self.get_lexeme(form) if required <= f[1].grammemes]

        possible_results = matching(required_grammemes)
        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = matching(required_grammemes)

'''))
same('A08', 'R6 inflect max', (AN, '''        return heapq.nlargest(1, possible_results, key=similarity)
''', '''        if not possible_results:
            return []
        return [max(possible_results, key=similarity)]
'''))
same('A16', 'R6 binary helpers', (ST, '''        f.write(struct.pack(str("<H"), len(compiled_dict.paradigms)))
        for para in compiled_dict.paradigms:
            f.write(struct.pack(str("<H"), len(para)))
            para.tofile(f)
''', '''        _write_number(f, len(compiled_dict.paradigms))
        for para in compiled_dict.paradigms:
            _write_number(f, len(para))
            para.tofile(f)
'''), (ST, '''def load_meta(filename):''', '''_NUMBER = struct.Struct(str("<H"))


def _write_number(f, number):
    f.write(_NUMBER.pack(number))


def load_meta(filename):'''))
same('A20', 'R6 table generator', (DA, "def _no", "def _no") if False else (DA, '''        dawg_key = "%s:%s" % (word, tag)
        return self.get(dawg_key, 0) / self.MULTIPLIER''', '''        stored = self.get("{}:{}".format(word, tag), 0)
        return stored / self.MULTIPLIER'''))
same('A13', 'R6 tag eq', (TS, '''        return self._str == other''', '''        return other == self._str''') if False else
     (UU, '''    try:
        para_id = parse[4][0][2]
    except IndexError:
        para_id = None

    word = parse[0]
    tag = parse[1]

    reduced_parse = word, tag, para_id

    if reduced_parse in seen_parses:
        return
    seen_parses.add(reduced_parse)
    result_list.append(parse)
''', '''    word, tag, _, _, methods_stack = parse
    first = methods_stack[0]
    reduced_parse = (word, tag, first[2] if len(first) > 2 else None)

    if reduced_parse not in seen_parses:
        seen_parses.add(reduced_parse)
        result_list.append(parse)
'''))
