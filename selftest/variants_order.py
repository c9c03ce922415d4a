from variants import bug, same

AN = 'analyzer.py'
BA = 'units/by_analogy.py'
BH = 'units/by_hyphen.py'
BL = 'units/by_lookup.py'
RU = 'lang/ru/config.py'
bug('A34', 'tag set', (AN, "            res = self.prob_estimator.apply_to_tags(word, word_lower, res)\n        return res\n", "            res = self.prob_estimator.apply_to_tags(word, word_lower, res)\n        return list(set(res))\n"))
bug('A34', 'normal forms set', (AN, "        seen = set()\n        result = []\n\n        for p in self.parse(word):\n            normal_form = p[2]\n            if normal_form not in seen:\n                result.append(normal_form)\n                seen.add(normal_form)\n        return result\n", "        return list(set(p[2] for p in self.parse(word)))\n"))
bug('A34', 'normal forms setcomp', (AN, "        seen = set()\n        result = []\n\n        for p in self.parse(word):\n            normal_form = p[2]\n            if normal_form not in seen:\n                result.append(normal_form)\n                seen.add(normal_form)\n        return result\n", "        return [f for f in {p[2] for p in self.parse(word)}]\n"))
bug('A34', 'unsorted prefix set', (BA, "        word_prefixes = self.get_prefixes(word)\n        word_prefixes.sort(key=len, reverse=True)\n", "        word_prefixes = set(self.get_prefixes(word))\n"))
bug('A34', 'tags of the dictionary', (BL, "                result.append(gramtab[tag_id])\n\n        return result\n", "                result.append(gramtab[tag_id])\n\n        return list(frozenset(result))\n"))
bug('A34', 'tags set accumulates', (BL, "        result = []\n        for parse in para_data:", "        result = set()\n        for parse in para_data:"), (BL, "                result.append(gramtab[tag_id])\n\n        return result\n", "                result.add(gramtab[tag_id])\n\n        return [t for t in result]\n"))
bug('A34', 'suffix result set', (BA, "        result = [\n            (fixed_word, tag, normal_form, cnt/total_counts", "        result = [\n            (fixed_word, tag, normal_form, cnt/total_counts"), (BA, "in result\n        ]\n        result.sort(key=_cnt_getter, reverse=True)\n        return result\n", "in set(result)\n        ]\n        result.sort(key=_cnt_getter, reverse=True)\n        return result\n"))
bug('A34', 'tag result keyed by count', (BA, "        result.sort(reverse=True)\n        return [tag for cnt, tag in result]\n", "        result = sorted(set(result), key=lambda x: x[0], reverse=True)\n        return [tag for cnt, tag in result]\n"))
bug('A34', 'estimator set', (AN, "        return sorted(tags,\n", "        return sorted(set(tags),\n"))
bug('A34', 'particles as a set', (RU, 'PARTICLES_AFTER_HYPHEN = ["-то", "-ка", "-таки", "-де", "-тко", "-тка", "-с", "-ста"]', 'PARTICLES_AFTER_HYPHEN = set(["-то", "-ка", "-таки", "-де", "-тко", "-тка", "-с", "-ста"])'))
bug('A34', 'inflect set', (AN, "        possible_results = [f for f in self.get_lexeme(form)\n                            if required_grammemes <= f[1].grammemes]\n\n", "        possible_results = {f for f in self.get_lexeme(form)\n                            if required_grammemes <= f[1].grammemes}\n\n"))
bug('A34', 'iter left lexeme set', (BH, "            for left in left_lexeme:\n", "            for left in set(left_lexeme):\n"))
bug('A34', 'sorted by hash', (AN, "        ], key=_score_getter, reverse=True)\n", "        ], key=lambda p: (p[3], hash(p[0])), reverse=True)\n"))
bug('A34', 'sorted by id', (BA, "        result.sort(key=_cnt_getter, reverse=True)\n", "        result.sort(key=lambda p: (p[3], id(p[1])), reverse=True)\n"))
same('A34', 'sorted set', (BA, "        word_prefixes = self.get_prefixes(word)\n        word_prefixes.sort(key=len, reverse=True)\n", "        word_prefixes = sorted(set(self.get_prefixes(word)), key=lambda p: (len(p), p), reverse=True)\n"))
same('A34', 'sorted set, two sorts', (BA, "        word_prefixes = self.get_prefixes(word)\n        word_prefixes.sort(key=len, reverse=True)\n", "        word_prefixes = sorted(sorted(set(self.get_prefixes(word))), key=len, reverse=True)\n"))
same('A34', 'seen in comprehension', (AN, "        seen = set()\n        result = []\n\n        for p in self.parse(word):\n            normal_form = p[2]\n            if normal_form not in seen:\n                result.append(normal_form)\n                seen.add(normal_form)\n        return result\n", "        seen = set()\n        result = []\n        for form in [p[2] for p in self.parse(word)]:\n            if form in seen:\n                continue\n            seen.add(form)\n            result.append(form)\n        return result\n"))
same('A34', 'skip prefixes set', (BH, "PrefixMatcher(self.skip_prefixes).is_prefixed", "PrefixMatcher(set(self.skip_prefixes)).is_prefixed"))
