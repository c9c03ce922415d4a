from variants import bug, same
AN, BA, BY, HY, LO, SH = 'analyzer.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py', 'units/by_shape.py'
TS, DA, UT = 'tagset.py', 'dawg.py', 'utils.py'

# ---- A01
bug('A01', 'estimator filters zero', (AN, '''        return sorted([
            (word, tag, normal_form, prob, methods_stack)
            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs)
        ], key''', '''        return sorted([
            (word, tag, normal_form, prob, methods_stack)
            for (word, tag, normal_form, score, methods_stack), prob
            in zip(parses, probs) if prob > 0
        ], key'''))
bug('A01', 'tags seen across', (AN, '''        for analyzer, is_terminal in self._units:
            res.extend(analyzer.tag(word, word_lower, seen))
''', '''        for analyzer, is_terminal in self._units:
            tags = analyzer.tag(word, word_lower, seen)
            res.extend(t for t in tags if len(t.grammemes) > 1)
'''))
same('A01', 'units by index', (AN, '''            if isinstance(item, (list, tuple)):
                for unit in item[:-1]:
                    self._units.append((self._bound_unit(unit), False))
                self._units.append((self._bound_unit(item[-1]), True))
            else:
                self._units.append((self._bound_unit(item), True))
''', '''            group = item if isinstance(item, (list, tuple)) else [item]
            last = len(group) - 1
            for index, unit in enumerate(group):
                self._units.append((self._bound_unit(unit), index == last))
'''))
same('A01', 'analyze helper', (AN, '''        res = []
        seen = set()
        word_lower = word.lower()

        for analyzer, is_terminal in self._units:
            res.extend(analyzer.tag(word, word_lower, seen))

            if is_terminal and res:
                break

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_tags(word, word_lower, res)
        return res
''', '''        word_lower = word.lower()
        res = self._run_units(word, word_lower, 'tag')
        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_tags(word, word_lower, res)
        return res

    def _run_units(self, word, word_lower, method):
        res = []
        seen = set()
        for analyzer, is_terminal in self._units:
            res.extend(getattr(analyzer, method)(word, word_lower, seen))
            if is_terminal and res:
                break
        return res
'''), (AN, '''        res = []
        seen = set()
        word_lower = word.lower()

        for analyzer, is_terminal in self._units:
            res.extend(analyzer.parse(word, word_lower, seen))

            if is_terminal and res:
                break

''', '''        word_lower = word.lower()
        res = self._run_units(word, word_lower, 'parse')

'''))
same('A01', 'early return in loop', (AN, '''        for analyzer, is_terminal in self._units:
            res.extend(analyzer.tag(word, word_lower, seen))

            if is_terminal and res:
                break

        if self.prob_estimator is not None:
            res = self.prob_estimator.apply_to_tags(word, word_lower, res)
        return res
''', '''        for analyzer, is_terminal in self._units:
            for tag in analyzer.tag(word, word_lower, seen):
                res.append(tag)
            if not is_terminal or not res:
                continue
            break

        estimator = self.prob_estimator
        if estimator is None:
            return res
        return estimator.apply_to_tags(word, word_lower, res)
'''))
# ---- A04
bug('A04', 'tag keeps remainder original', (BY, '''            for tag in self.morph.tag(unprefixed_word):
                if not tag.is_productive():
                    continue
                add_tag''', '''            tags = self.morph.tag(unprefixed_word)
            for tag in tags[:3]:
                if not tag.is_productive():
                    continue
                add_tag'''))
bug('A04', 'tag splits reversed', (BY, '''                if found:
                    break

        result.sort(reverse=True)''', '''                if found and len(result) > 1:
                    break

        result.sort(reverse=True)'''))
bug('A04', 'hyphen adverb different text', (HY, '''        if not self.should_parse(word_lower) or self._tag in seen_tags:
            return []
''', '''        if not self.should_parse(word) or self._tag in seen_tags:
            return []
'''))
bug('A04', 'adverb length', (HY, '''        if not self.should_parse(word_lower) or self._tag in seen_tags:
            return []
''', '''        if len(word) > 30 or not self.should_parse(word_lower) or self._tag in seen_tags:
            return []
'''))
bug('A04', 'suffix tag without substitutes', (BY, 'para_data = suffixes_dawg.similar_items(end, self.morph.char_substitutes)', 'para_data = suffixes_dawg.similar_items(end, {})'))
bug('A04', 'suffix tag min length', (BY, '''        result = []
        if len(word) < self.min_word_length:
            return result

        for prefix_id''', '''        result = []
        if len(word) <= self.min_word_length:
            return result

        for prefix_id'''))
same('A04', 'seen helper', (BY, '''                        found = True
                        if tag in seen_tags:
                            continue
                        seen_tags.add(tag)
                        result.append((cnt, tag))
''', '''                        found = True
                        if tag not in seen_tags:
                            seen_tags.add(tag)
                            result.append((cnt, tag))
'''))
same('A04', 'suffix split helper', (BY, '''                # XXX: this should be counted once, not for each prefix
                word_start, word_end = word_lower[:-i], word_lower[-i:]
''', '''                word_start, word_end = self._split(word_lower, i)
'''), (BY, '''                # XXX: end should be counted once, not for each prefix
                end = word_lower[-i:]
''', '''                end = self._split(word_lower, i)[1]
'''), (BY, '''    def _possible_prefixes(self, word):
''', '''    @staticmethod
    def _split(word, size):
        return word[:-size], word[-size:]

    def _possible_prefixes(self, word):
'''))
same('A04', 'productive generator', (BY, '''            for tag in self.morph.tag(unprefixed_word):
                if not tag.is_productive():
                    continue
                add_tag_if_not_seen(tag, result, seen_tags)
''', '''            productive = (t for t in self.morph.tag(unprefixed_word) if t.is_productive())
            for tag in productive:
                add_tag_if_not_seen(tag, result, seen_tags)
'''))
# ---- A05
bug('A05', 'suffix parse keeps the typed word', (BY, 'normal_form = self.dict.build_normal_form(para_id, idx, fixed_word)', 'normal_form = self.dict.build_normal_form(para_id, idx, word_lower)'))
bug('A05', 'method keeps typed word', (BY, '(self.fake_dict, fixed_word, para_id, idx),', '(self.fake_dict, word_lower, para_id, idx),'))
bug('A05', 'variable both tag of right', (HY, '''                    left_tag,
                    '-'.join((left_parse[2], right_parse[2])),  # normal form''', '''                    right_parse[1],
                    '-'.join((left_parse[2], right_parse[2])),  # normal form'''))
bug('A05', 'fixed left normal form of right only when same', (HY, '''                '-'.join((left, normal_form)),
                score''', '''                '-'.join((left, normal_form)) if normal_form != fixed_word else normal_form,
                score'''))
bug('A05', 'particle normal', (HY, '''                    normal_form+particle,
''', '''                    normal_form + particle if normal_form != unsuffixed_word else fixed_word + particle,
'''))
same('A05', 'concat with format', (HY, '''                '-'.join((left, fixed_word)),
                tag,
                '-'.join((left, normal_form)),
''', '''                left + '-' + fixed_word,
                tag,
                left + '-' + normal_form,
'''))
same('A05', 'with_prefix used', (BY, '''            parses = self.morph.parse(unprefixed_word)
            for fixed_word, tag, normal_form, score, methods_stack in parses:

                if not tag.is_productive():
                    continue

                parse = (
                    prefix + fixed_word,
                    tag,
                    prefix + normal_form,
                    score * self.score_multiplier,
                    methods_stack + (method,)
                )
''', '''            for p in self.morph.parse(unprefixed_word):
                if not p[1].is_productive():
                    continue
                fixed_word, tag, normal_form, score, methods_stack = with_prefix(p, prefix)
                parse = (fixed_word, tag, normal_form, self.score_multiplier * score, methods_stack + (method,))
'''))
# ---- A06
bug('A06', 'prefix length by form', (BY, '''        normal_form = yield without_fixed_prefix(form, len(prefix))
        yield with_prefix(normal_form, prefix)
''', '''        normal_form = yield without_fixed_prefix(form, form[0].index(prefix) + len(prefix) - 1 + (len(prefix) > 0))
        yield with_prefix(normal_form, prefix if normal_form[0][:1] != prefix else '')
'''))
bug('A06', 'left split', (HY, "return (word[:word.index('-')], tag, normal_form[:normal_form.index('-')],", "return (word[:word.index('-')], tag, normal_form[:word.index('-')],"))
bug('A06', 'hyphen lexeme method of the form', (HY, '''                    ((this_method, left_methods, f[4]),)
                )
                for f in lexeme''', '''                    ((this_method, left_methods, right_methods),)
                )
                for f in lexeme'''))
bug('A06', 'lexeme skips seen words', (HY, '''        lexeme = yield without_fixed_suffix(form, len(particle))
        yield [with_suffix(f, particle) for f in lexeme]
''', '''        lexeme = yield without_fixed_suffix(form, len(particle))
        yield [with_suffix(f, particle) for f in lexeme if f[1] != form[1]] + [form]
'''))
same('A06', 'lexeme helper', (HY, '''        lexeme = yield without_fixed_suffix(form, len(particle))
        yield [with_suffix(f, particle) for f in lexeme]
''', '''        lexeme = yield without_fixed_suffix(form, len(particle))
        result = []
        for member in lexeme:
            result.append(with_suffix(member, particle))
        yield result
'''))
same('A06', 'split once', (HY, '''        return (word[:word.index('-')], tag, normal_form[:normal_form.index('-')],
                score, methods_stack)''', '''        return (word.split('-', 1)[0], tag, normal_form.partition('-')[0],
                score, methods_stack)'''))
same('A06', 'left branch first', (HY, '''        if self._fixed_left_method_was_used(left_methods):''', '''        left_is_text = self._fixed_left_method_was_used(left_methods)
        if left_is_text:'''))
same('A06', 'fixed left extracted', (HY, '''            prefix = left_methods + '-'

            right_form = without_fixed_prefix(
                replace_methods_stack(form, right_methods),
                len(prefix)
            )
            base_analyzer = right_methods[-1][0]

            lexeme = base_analyzer.get_lexeme(right_form)
            return (
                replace_methods_stack(
                    with_prefix(f, prefix),
                    ((this_method, left_methods, f[4]),)
                )
                for f in lexeme
            )
''', '''            return self._iter_fixed_left(form, this_method, left_methods, right_methods)
'''), (HY, '''    def _merge_lexemes(self, left_lexeme, right_lexeme):
''', '''    def _iter_fixed_left(self, form, this_method, left, right_methods):
        prefix = left + '-'
        right_form = replace_methods_stack(without_fixed_prefix(form, len(prefix)), right_methods)
        for f in right_methods[-1][0].get_lexeme(right_form):
            yield replace_methods_stack(with_prefix(f, prefix), ((this_method, left, f[4]),))

    def _merge_lexemes(self, left_lexeme, right_lexeme):
'''))
# ---- A07
bug('A07', 'hyphen normalized best', (HY, "return next(self._iter_lexeme(form))", "return max(self._iter_lexeme(form), key=lambda f: f[3])"))
bug('A07', 'analogy normalizes first', (BA, '''        normal_form = normalizer.send(base_analyzer.normalized(form))
''', '''        normal_form = normalizer.send(base_analyzer.get_lexeme(form)[-1])
'''))
same('A07', 'via get_lexeme', (HY, "return next(self._iter_lexeme(form))", "return self.get_lexeme(form)[0]"))
same('A07', 'loop', (HY, "return next(self._iter_lexeme(form))", "for f in self._iter_lexeme(form):\n            return f"))
# ---- A03
bug('A03', 'whole word again', (HY, '''        left, right = word_lower.split('-', 1)
        left_parses''', '''        left, right = word_lower.split('-', 1)
        if left == right:
            left = word_lower
        left_parses'''))
same('A03', 'slice length', (HY, '''            unsuffixed_word = word[:-len(particle)]
            if not unsuffixed_word:''', '''            unsuffixed_word = word[:len(word) - len(particle)]
            if len(unsuffixed_word) == 0:'''))
same('A03', 'comprehension', (BY, '''        for prefix in word_prefixes:
            unprefixed_word = word[len(prefix):]

            if len(unprefixed_word) < self.min_remainder_length:
                continue

            yield prefix, unprefixed_word
''', '''        for prefix in word_prefixes:
            start = len(prefix)
            if len(word) - start >= self.min_remainder_length:
                yield prefix, word[start:]
'''))
# ---- A28
bug('A28', 'known prefix long', (BY, '''                if not tag.is_productive():
                    continue
                add_tag''', '''                if len(prefix) < 3 and not tag.is_productive():
                    continue
                add_tag'''))
bug('A28', 'tag class cached per prefix', (BY, '''            parses = self.dict_analyzer.parse(unprefixed_word, unprefixed_word, seen_parses)
            for fixed_word, tag, normal_form, score, methods_stack in parses:

                if not tag.is_productive():
                    continue
''', '''            parses = self.dict_analyzer.parse(unprefixed_word, unprefixed_word, seen_parses)
            productive = None
            for fixed_word, tag, normal_form, score, methods_stack in parses:
                if productive is None:
                    productive = tag.is_productive()
                if not productive:
                    continue
'''))
bug('A28', 'nonproductive when any', (TS, 'not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES', 'not self._NON_PRODUCTIVE_GRAMMEMES <= self.grammemes'))
same('A28', 'isdisjoint', (TS, 'not self.grammemes & self._NON_PRODUCTIVE_GRAMMEMES', 'self._NON_PRODUCTIVE_GRAMMEMES.isdisjoint(self.grammemes)'))
