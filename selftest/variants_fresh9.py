from variants import bug, same
AN, TS, UT, CO, PP, WR, LK, AB, BY, CA = ('analyzer.py', 'tagset.py', 'utils.py', 'opencorpora_dict/compile.py',
    'opencorpora_dict/preprocess.py', 'opencorpora_dict/wrapper.py', 'units/by_lookup.py', 'units/abbreviations.py',
    'units/by_analogy.py', 'cache.py')

# ---- refactorings of functions not rewritten before; run these without -s
same('A21', 'R9 memo try', (CA, '''            if arg in cache:
                return cache[arg]
            res = func(arg)
            cache[arg] = res
            return res
''', '''            try:
                return cache[arg]
            except KeyError:
                pass
            cache[arg] = func(arg)
            return cache[arg]
'''))
same('A18', 'R9 helper for gramtab', (CO, '''        # build gramtab
        for suff, tag, pref in paradigm:
            if tag not in tag_ids:
                tag_ids[tag] = len(gramtab)
                gramtab.append(tag)
''', '''        # build gramtab
        for tag in [item[1] for item in paradigm]:
            if tag in tag_ids:
                continue
            tag_ids[tag] = len(gramtab)
            gramtab.append(tag)
'''))
same('A18', 'R9 word loop', (CO, '''        for idx, (suff, tag, pref) in enumerate(paradigm):
            form = pref+stem+suff
            words.append(
                (form, (para_id, idx))
            )
''', '''        words.extend(
            (pref + stem + suff, (para_id, idx))
            for idx, (suff, _, pref) in enumerate(paradigm)
        )
'''))
same('A18', 'R9 popularity counter', (CO, '''        para_id = paradigm_ids[paradigm]
        paradigm_popularity[para_id] += 1
''', '''        para_id = paradigm_ids[paradigm]
        paradigm_popularity[para_id] = paradigm_popularity[para_id] + 1
'''))
same('A18', 'R9 suffixes set', (CO, '''    def get_form(para):
        return list(next(izip(*para)))

    forms = [get_form(para) for para in paradigms]
    suffixes = sorted(set(list(itertools.chain(*forms))))
    suffix_ids = dict(
        (suff, index)
        for index, suff in enumerate(suffixes)
    )
''', '''    suffixes = sorted(set(suff for para in paradigms for suff, _, _ in para))
    suffix_ids = {suff: index for index, suff in enumerate(suffixes)}
'''))
same('A18', 'R9 fix strings comprehension', (CO, '''        para = []
        for suff, tag, pref in paradigm:
            para.append(
                (suffix_ids[suff], tag, paradigm_prefix_ids[pref])
            )
        return para
''', '''        return [
            (suffix_ids[suff], tag, paradigm_prefix_ids[pref])
            for suff, tag, pref in paradigm
        ]
'''))
same('A18', 'R9 move helper', (CO, '''        while to_id in moves:
            to_id = moves[to_id]

        if to_id == from_id:
            # linked lexemes are already joined
            return

        lexemes[str(to_id)].extend(lm)
        del lm[:]
        moves[from_id] = to_id
''', '''        target = to_id
        while target in moves:
            target = moves[target]

        if target != from_id:
            lexemes[str(target)] += lm
            lm[:] = []
            moves[from_id] = target
'''))
same('A18', 'R9 linearized', (CO, '''    return array.array(str("H"), list(itertools.chain(*zip(*paradigm))))
''', '''    suffixes, tags, prefixes = zip(*paradigm)
    return array.array(str("H"), suffixes + tags + prefixes)
'''))
same('A33', 'R9 popular', (CO, '''    return set(key for (key, count) in counter.items() if count >= threshold)
''', '''    result = set()
    for key, count in counter.items():
        if not count < threshold:
            result.add(key)
    return result
'''))
same('A28', 'R9 create path', (CO, '''    except OSError:
        if overwrite:
            logger.info("Output folder already exists, overwriting..")
        else:
            logger.warning("Output folder already exists!")
            return False
    return True
''', '''    except OSError:
        if not overwrite:
            logger.warning("Output folder already exists!")
            return False
        logger.info("Output folder already exists, overwriting..")
        return True
    else:
        return True
'''))
same('A17', 'R9 stem end', (WR, '''        if suffix:
            return fixed_word[len(prefix):-len(suffix)]
        else:
            return fixed_word[len(prefix):]
''', '''        end = len(fixed_word) - len(suffix)
        return fixed_word[len(prefix):end]
'''))
same('A17', 'R9 known words', (WR, '''        for word, (para_id, idx) in self.words.iteritems(prefix):
            tag = self.build_tag_info(para_id, idx)
            normal_form = self.build_normal_form(para_id, idx, word)
            yield word, tag, normal_form, para_id, idx
''', '''        for word, record in self.words.iteritems(prefix):
            para_id, idx = record
            yield (word, self.build_tag_info(*record),
                   self.build_normal_form(para_id, idx, word), para_id, idx)
'''))
same('A17', 'R9 is known', (WR, '''        if substitutes_compiled:
            return bool(self.words.similar_keys(word, substitutes_compiled))
        else:
            return word in self.words
''', '''        if not substitutes_compiled:
            return word in self.words
        return len(self.words.similar_keys(word, substitutes_compiled)) > 0
'''))
same('A04', 'R9 lookup tag', (LK, '''        for parse in para_data:
            for para_id, idx in parse:
                # result.append(self.build_tag_info(para_id, idx))
                # .build_tag_info is unrolled for speed
                paradigm = paradigms[para_id]
                paradigm_len = len(paradigm) // 3
                tag_id = paradigm[paradigm_len + idx]
                result.append(gramtab[tag_id])

        return result
''', '''        for parse in para_data:
            result.extend(self.dict.build_tag_info(*record) for record in parse)
        return result
'''))
same('A07', 'R9 lookup lexeme', (LK, '''        _para = self.dict.paradigms[para_id]
        stem = self.dict.build_stem(_para, idx, fixed_word)

        result = []
        paradigm = self.dict.build_paradigm_info(para_id)  # XXX: reuse _para?

        for index, (_prefix, _tag, _suffix) in enumerate(paradigm):
            word = _prefix + stem + _suffix
            new_methods_stack = self._fix_stack(methods_stack, word, para_id, index)
            parse = (word, _tag, normal_form, 1.0, new_methods_stack)
            result.append(parse)

        return result
''', '''        dictionary = self.dict
        stem = dictionary.build_stem(dictionary.paradigms[para_id], idx, fixed_word)
        words = [pref + stem + suff for pref, _, suff in dictionary.build_paradigm_info(para_id)]
        tags = [item[1] for item in dictionary.build_paradigm_info(para_id)]
        return [
            (word, tag, normal_form, 1.0, self._fix_stack(methods_stack, word, para_id, index))
            for index, (word, tag) in enumerate(zip(words, tags))
        ]
'''))
same('A07', 'R9 normalized if', (LK, '''        if idx == 0:
            return form

        tag = self.dict.build_tag_info(para_id, 0)
        new_methods_stack = self._fix_stack(methods_stack, normal_form, para_id, 0)

        return (normal_form, tag, normal_form, 1.0, new_methods_stack)
''', '''        if idx:
            return (
                normal_form,
                self.dict.build_tag_info(para_id, 0),
                normal_form,
                1.0,
                self._fix_stack(methods_stack, normal_form, para_id, 0),
            )
        return form
'''))
same('A26', 'R9 gender loops', (AB, '''        return [
            self.morph.TagClass(pattern % {'gender': gender, 'case': case})
            for gender in ['masc', 'femn']
            for case in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']
        ]
''', '''        tags = []
        for gender in ('masc', 'femn'):
            for case in 'nomn gent datv accs ablt loct'.split():
                tags.append(self.morph.TagClass(pattern % dict(gender=gender, case=case)))
        return tags
'''))
same('A07', 'R9 gender tags', (AB, '''        tags = self._tags_masc if 'masc' in form_tag else self._tags_femn
        return [
            (fixed_word, tag, normal_form, score, methods_stack)
            for tag in tags
        ]
''', '''        return [
            (fixed_word, tag, normal_form, score, methods_stack)
            for tag in self._same_gender(form_tag)
        ]

    def _same_gender(self, form_tag):
        if 'masc' in form_tag:
            return self._tags_masc
        return self._tags_femn
'''))
same('A33', 'R9 largest counter', (UT, '''    it1, it2 = itertools.tee(iterable)
    top_keys = set(heapq.nlargest(n, set(map(key, it1))))
    return [el for el in it2 if key(el) in top_keys]
''', '''    items = list(iterable)
    distinct = sorted(set(key(el) for el in items), reverse=True)
    top_keys = distinct[:n]
    return [el for el in items if key(el) in top_keys]
'''))
same('A19', 'R9 simplify loop', (PP, '''        new_lexeme = [
            (word, _simplify_tag(tag, tag_replaces))
            for word, tag in parsed_dict.lexemes[lex_id]
        ]
        parsed_dict.lexemes[lex_id] = new_lexeme
''', '''        forms = parsed_dict.lexemes[lex_id]
        new_lexeme = []
        for form in forms:
            new_lexeme.append((form[0], _simplify_tag(form[1], tag_replaces)))
        parsed_dict.lexemes[lex_id] = new_lexeme
'''))
same('A19', 'R9 replaces', (PP, '''            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            top_tag = items[0][0]
            for tag, count in items[1:]:
                replaces[tag] = top_tag
''', '''            ranked = [tag for tag, count in sorted(tags.items(), key=lambda it: -it[1])]
            replaces.update((tag, ranked[0]) for tag in ranked[1:])
'''))
same('A19', 'R9 simplify tag', (PP, '''    tag = replace_redundant_grammemes(tag)
    return tag_replaces.get(tag, tag)
''', '''    canonical = replace_redundant_grammemes(tag)
    if canonical in tag_replaces:
        return tag_replaces[canonical]
    return canonical
'''))
same('A05', 'R9 suffix score', (BY, '''        result = [
            (fixed_word, tag, normal_form, cnt/total_counts[prefix_id] * self.score_multiplier, methods_stack)
            for (cnt, fixed_word, tag, normal_form, prefix_id, methods_stack) in result
        ]
        result.sort(key=_cnt_getter, reverse=True)
        return result
''', '''        scored = []
        for cnt, fixed_word, tag, normal_form, prefix_id, methods_stack in result:
            score = cnt / total_counts[prefix_id] * self.score_multiplier
            scored.append((fixed_word, tag, normal_form, score, methods_stack))
        return sorted(scored, key=_cnt_getter, reverse=True)
'''))
