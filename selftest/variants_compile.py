from variants import bug, same

CO = 'opencorpora_dict/compile.py'
WR = 'opencorpora_dict/wrapper.py'
DA = 'dawg.py'
UT = 'utils.py'
PP = 'opencorpora_dict/preprocess.py'
BA = 'units/by_analogy.py'
BL = 'units/by_lookup.py'

bug('A17', 'tag and suffix swapped in the array', (CO, "(suffix_ids[suff], tag, paradigm_prefix_ids[pref])", "(tag, suffix_ids[suff], paradigm_prefix_ids[pref])"))
bug('A17', 'prefixes before tags', (CO, "(suffix_ids[suff], tag, paradigm_prefix_ids[pref])", "(suffix_ids[suff], paradigm_prefix_ids[pref], tag)"))
bug('A17', 'index first', (CO, "(form, (para_id, idx))", "(form, (idx, para_id))"))
bug('A17', 'count last', (CO, "(ending, (cnt,) + form)", "(ending, form + (cnt,))"))
bug('A17', 'suffixes stored unsorted', (CO, "        suffixes=suffixes,\n        paradigms=paradigms,\n        words_dawg", "        suffixes=list(set(suffixes)),\n        paradigms=paradigms,\n        words_dawg"))
bug('A17', 'gramtab sorted', (CO, "gramtab=tuple(gramtab)", "gramtab=tuple(sorted(gramtab))"))
bug('A17', 'tag info from the third third', (WR, "tag_info_offset = len(paradigm) // 3\n", "tag_info_offset = len(paradigm) // 3 * 2\n"))
bug('A17', 'paradigm info swaps', (WR, "(prefix, self.build_tag_info(para_id, idx), suffix)", "(suffix, self.build_tag_info(para_id, idx), prefix)"))
bug('A17', 'words with three fields', (DA, 'DATA_FORMAT = str(">HH")', 'DATA_FORMAT = str(">HHH")'))
bug('A17', 'little endian', (DA, 'DATA_FORMAT = str(">HHH")', 'DATA_FORMAT = str("<HHH")'))
bug('A17', 'suffix reader swaps', (BA, "for cnt, para_id, idx in parses:", "for para_id, cnt, idx in parses:"))
bug('A17', 'prefix ids from reversed list', (CO, "(pref, idx) for idx, pref in enumerate(paradigm_prefixes)", "(pref, idx) for idx, pref in enumerate(sorted(paradigm_prefixes))"))
bug('A17', 'tags of prediction from suffix third', (CO, "tag = gramtab[paradigm[form_count + idx]]", "tag = gramtab[paradigm[idx]]"))

bug('A18', 'last form dropped', (CO, "for idx, (suff, tag, pref) in enumerate(paradigm):\n            form", "for idx, (suff, tag, pref) in enumerate(paradigm[:-1]):\n            form"))
bug('A18', 'popular paradigms only', (CO, "        for idx, (suff, tag, pref) in enumerate(paradigm):\n            form", "        for idx, (suff, tag, pref) in enumerate(paradigm):\n            if not suff and not stem:\n                continue\n            form"))
bug('A18', 'prefix forgotten', (CO, "form = pref+stem+suff", "form = stem+suff"))
bug('A18', 'suffix from stem length', (CO, "form[len(pref)+len(stem):]", "form[len(stem):]"))
bug('A18', 'rstrip', (CO, "form[len(pref)+len(stem):]", "form[-(len(form)-len(pref)-len(stem)):]"))
bug('A18', 'any instead of all', (UT, "if j > len(substr) and all(", "if j > len(substr) and any("))
bug('A18', 'first forms only', (UT, "in x for x in data):", "in x for x in data[1:2]):"))
bug('A18', 'lexeme dropped on a cycle', (CO, "        lexemes[str(to_id)].extend(lm)\n        del lm[:]\n", "        if to_id not in moves.values():\n            lexemes[str(to_id)].extend(lm)\n        del lm[:]\n"))
bug('A18', 'cleared before', (CO, "        lexemes[str(to_id)].extend(lm)\n        del lm[:]\n", "        del lm[:]\n        lexemes[str(to_id)].extend(lm)\n"))
bug('A18', 'self link', (CO, "        if to_id == from_id:\n            # linked lexemes are already joined\n            return\n\n", ""))
bug('A18', 'one-form lexemes dropped', (CO, "for lex_id in lex_ids if lexemes[lex_id]]", "for lex_id in lex_ids if len(lexemes[lex_id]) > 1]"))
bug('A18', 'more dropped', (PP, "if 'Init' not in tag", "if 'Init' not in tag and 'Abbr' not in tag"))
bug('A18', 'dropping lexemes', (PP, "            (word, tag) for word, tag in parsed_dict.lexemes[lex_id]\n            if 'Init' not in tag", "            (word, tag) for word, tag in parsed_dict.lexemes[lex_id]\n            if 'Init' not in parsed_dict.lexemes[lex_id][0][1]"))
bug('A18', 'prefix check any form', (CO, "if any(pref not in paradigm_prefixes for pref in prefixes)", "if all(pref not in paradigm_prefixes for pref in prefixes)"))
bug('A18', 'stem kept', (CO, '            stem = ""\n', ''))

bug('A33', 'threshold strict', (CO, "if count >= threshold", "if count > threshold"))
bug('A33', 'ending threshold le', (CO, "if ending_counts[ending] < min_ending_freq", "if ending_counts[ending] <= min_ending_freq"))
bug('A33', 'shorter range', (CO, "max_end_length+1): #was", "max_end_length): #was"))
bug('A33', 'longer range', (CO, "max_end_length+1): #was", "max_end_length+2): #was"))
bug('A33', 'from zero', (CO, "range(max(len(form_suffix), 1), max_end", "range(len(form_suffix), max_end"))
bug('A33', 'from one', (CO, "range(max(len(form_suffix), 1), max_end", "range(1, max_end"))
bug('A33', 'whole word counted again', (CO, "max_end_length = min(max_suffix_length, len(word))", "max_end_length = max_suffix_length"))
bug('A33', 'pseudo paradigms', (CO, "        if len(word) == len(form_prefix) + len(form_suffix):\n            # pseudo-paradigms are useless for prediction\n            continue\n", ""))
bug('A33', 'thresholds swapped', (CO, 'min_ending_freq=options["min_ending_freq"],\n        min_paradigm_popularity=options["min_paradigm_popularity"]', 'min_ending_freq=options["min_paradigm_popularity"],\n        min_paradigm_popularity=options["min_ending_freq"]'))
bug('A33', 'two largest', (CO, "                n=1,\n", "                n=2,\n"))
bug('A33', 'popularity per form', (CO, "        paradigm_popularity[para_id] += 1\n\n        for idx, (suff, tag, pref) in enumerate(paradigm):\n", "        for idx, (suff, tag, pref) in enumerate(paradigm):\n            paradigm_popularity[para_id] += 1\n"))
bug('A33', 'suffix of base form', (CO, "form_suffix = suffixes[paradigm[idx]]", "form_suffix = suffixes[paradigm[0]]"))
bug('A33', 'counts by lower bound', (CO, "ending_counts[word_end] += 1", "ending_counts[word_end] += i"))
bug('A33', 'largest of all', (UT, "top_keys = set(heapq.nlargest(n, set(map(key, it1))))", "top_keys = set(heapq.nsmallest(n, set(map(key, it1))))"))
bug('A33', 'pos with second grammeme', (CO, "tuple(tag.replace(' ', ',', 1).split(','))[0]", "tuple(tag.split(' '))[0]"))

same('A18', 'inline unlink', (CO, "        lexemes[str(to_id)].extend(lm)\n        del lm[:]\n", "        target = lexemes[str(to_id)]\n        target += lm\n        lm[:] = []\n"))
same('A18', 'paradigm split with loops', (CO, """    suffixes = (
        form[len(pref)+len(stem):]
        for form, pref in zip(forms, prefixes)
    )
    return stem, tuple(zip(suffixes, tags, prefixes))""", """    paradigm = []
    for form, tag, pref in zip(forms, tags, prefixes):
        paradigm.append((form[len(pref + stem):], tag, pref))
    return stem, tuple(paradigm)"""))
same('A18', 'early returns in split', (CO, """    if len(forms) == 1:
        stem = forms[0]
        prefixes = ['']
    else:""", """    if len(lexeme) == 1:
        return forms[0], (('', tags[0], ''),)
    if True:"""))
same('A18', 'helper for interning', (CO, """        for suff, tag, pref in paradigm:
            if tag not in tag_ids:
                tag_ids[tag] = len(gramtab)
                gramtab.append(tag)
""", """        for suff, tag, pref in paradigm:
            _intern(tag, tag_ids, gramtab)
"""), (CO, "def _join_lexemes(", "def _intern(value, ids, values):\n    if value not in ids:\n        ids[value] = len(values)\n        values.append(value)\n    return ids[value]\n\n\ndef _join_lexemes("))
same('A18', 'words by loop over range', (CO, """        for idx, (suff, tag, pref) in enumerate(paradigm):
            form = pref+stem+suff
""", """        for idx in range(len(paradigm)):
            suff, tag, pref = paradigm[idx]
            form = "".join([pref, stem, suff])
"""))
same('A18', 'fix_strings as comprehension', (CO, """        para = []
        for suff, tag, pref in paradigm:
            para.append(
                (suffix_ids[suff], tag, paradigm_prefix_ids[pref])
            )
        return para
""", """        return [(suffix_ids[s], t, paradigm_prefix_ids[p]) for s, t, p in paradigm]
"""))
same('A18', 'linearized by three comprehensions', (CO, 'list(itertools.chain(*zip(*paradigm)))', '[p[0] for p in paradigm] + [p[1] for p in paradigm] + [p[2] for p in paradigm]'))
same('A18', 'prediction by items', (CO, """        for POS in endings[ending]:

            common_form_counts = largest_elements(
                iterable=endings[ending][POS].items(),""", """        for POS, forms in endings[ending].items():

            common_form_counts = largest_elements(
                iterable=forms.items(),"""))
same('A18', 'helper for one word', (CO, """        form_prefix_id = paradigm[2*form_count + idx]
        form_prefix = paradigm_prefixes[form_prefix_id]
        form_suffix = suffixes[paradigm[idx]]
""", """        form_suffix, form_prefix_id = _affix_ids(paradigm, idx)
        form_suffix = suffixes[form_suffix]
        form_prefix = paradigm_prefixes[form_prefix_id]
"""), (CO, "def _get_suffixes_dawg_data(", "def _affix_ids(paradigm, idx):\n    n = len(paradigm) // 3\n    return paradigm[idx], paradigm[n*2 + idx]\n\n\ndef _get_suffixes_dawg_data("))
same('A18', 'popular keys loop', (CO, "    return set(key for (key, count) in counter.items() if count >= threshold)", "    keys = set()\n    for key, count in counter.items():\n        if count < threshold:\n            continue\n        keys.add(key)\n    return keys"))
same('A18', 'popularity asked directly', (CO, "        if para_id not in productive_paradigms:\n", "        if paradigm_popularity[para_id] < min_paradigm_popularity:\n"))
same('A18', 'drop in a loop', (PP, """        parsed_dict.lexemes[lex_id] = [
            (word, tag) for word, tag in parsed_dict.lexemes[lex_id]
            if 'Init' not in tag
        ]
""", """        kept = []
        for word, tag in parsed_dict.lexemes[lex_id]:
            if 'Init' in tag:
                continue
            kept.append((word, tag))
        parsed_dict.lexemes[lex_id] = kept
"""))
same('A18', 'lcs with flag', (UT, """            if j > len(substr) and all(data[0][i:i+j] in x for x in data):
                substr = data[0][i:i+j]
""", """            candidate = data[0][i:i+j]
            if len(candidate) <= len(substr):
                continue
            if all(candidate in x for x in data):
                substr = candidate
"""))
same('A18', 'largest with max', (UT, """    it1, it2 = itertools.tee(iterable)
    top_keys = set(heapq.nlargest(n, set(map(key, it1))))
    return [el for el in it2 if key(el) in top_keys]
""", """    items = list(iterable)
    top_keys = set(heapq.nlargest(n, set(key(el) for el in items)))
    res = []
    for el in items:
        if key(el) in top_keys:
            res.append(el)
    return res
"""))
