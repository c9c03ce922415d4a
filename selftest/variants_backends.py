from variants import bug, same

D = 'dawg.py'
BA = 'units/by_analogy.py'
BH = 'units/by_hyphen.py'
BL = 'units/by_lookup.py'
AN = 'analyzer.py'
SORT = "        word_prefixes.sort(key=len, reverse=True)\n"
PREF = "        if not self.is_prefixed(word):  # fail-fast path\n            return []\n        return [pref for pref in self._prefixes if word.startswith(pref)]\n"
bug('A27', 'no sort', (BA, SORT, ""))
bug('A27', 'reversed only', (BA, SORT, "        word_prefixes.reverse()\n"))
bug('A27', 'last prefix first', (BA, SORT + "        for prefix in word_prefixes:\n", "        for prefix in word_prefixes[-1:]:\n"))
bug('A27', 'coarse key', (BA, SORT, "        word_prefixes.sort(key=lambda p: p[0])\n"))
bug('A27', 'fail-fast none', (D, "            return []\n", "            return ()\n"))
bug('A27', 'contains', (D, "if word.startswith(pref)]", "if pref in word]"))
bug('A27', 'proper prefix', (D, "if word.startswith(pref)]", "if word.startswith(pref) and word != pref]"))
bug('A27', 'endswith', (D, "        return word.startswith(self._prefixes)\n", "        return word.endswith(self._prefixes)\n"))
bug('A27', 'first prefix only', (D, PREF, "        for pref in self._prefixes:\n            if word.startswith(pref):\n                return [pref]\n        return []\n"))
bug('A27', 'list startswith', (D, "self._prefixes = tuple(prefixes)", "self._prefixes = list(prefixes)"))
bug('A27', 'generator', (D, PREF, "        for pref in self._prefixes:\n            if word.startswith(pref):\n                yield pref\n"))
bug('A27', 'inverted selection', (D, "PrefixMatcher = DawgPrefixMatcher if EXTENSION_AVAILABLE else PythonPrefixMatcher", "PrefixMatcher = PythonPrefixMatcher if EXTENSION_AVAILABLE else DawgPrefixMatcher"))
bug('A27', 'dawg exact', (D, "        return bool(self.prefixes(word))\n", "        return word in self\n"))
bug('A27', 'dawg more than one', (D, "        return bool(self.prefixes(word))\n", "        return len(self.prefixes(word)) > 1\n"))
bug('A27', 'lowercase in one', (D, "        return [pref for pref in self._prefixes if word.startswith(pref)]\n", "        word = word.lower()\n        return [pref for pref in self._prefixes if word.startswith(pref)]\n"))
bug('A27', 'has_keys_with_prefix', (AN, "        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix):", "        if not self.dictionary.words.has_keys_with_prefix(prefix):\n            return\n        for word, tag, normal_form, para_id, idx in self.dictionary.iter_known_words(prefix):"))
same('A27', 'two loops', (D, PREF, "        result = []\n        for pref in self._prefixes:\n            if word.startswith(pref):\n                result.append(pref)\n        return result\n"))
same('A27', 'sort by text', (BA, SORT, "        word_prefixes.sort(reverse=True)\n"))
same('A27', 'sorted', (BA, "        word_prefixes = self.get_prefixes(word)\n" + SORT, "        word_prefixes = sorted(self.get_prefixes(word), key=len, reverse=True)\n"))
same('A27', 'neg len', (BA, SORT, "        word_prefixes.sort(key=lambda p: -len(p))\n"))
same('A27', 'any', (D, "        return bool(self.prefixes(word))\n", "        return len(self.prefixes(word)) > 0\n"))
same('A27', 'tuple at call', (D, "self._prefixes = tuple(prefixes)", "self._prefixes = list(prefixes)"), (D, "        return word.startswith(self._prefixes)\n", "        return word.startswith(tuple(self._prefixes))\n"))
same('A27', 'if statement', (D, "PrefixMatcher = DawgPrefixMatcher if EXTENSION_AVAILABLE else PythonPrefixMatcher", "if EXTENSION_AVAILABLE:\n    PrefixMatcher = DawgPrefixMatcher\nelse:\n    PrefixMatcher = PythonPrefixMatcher"))
same('A27', 'is any', (D, "        return word.startswith(self._prefixes)\n", "        return any(word.startswith(p) for p in self._prefixes)\n"))
