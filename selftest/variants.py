"""Edits of the package: (property, expectation, name, [(file, old text, new text), ...])."""
VARIANTS = []


def bug(prop, name, *edits, **kw):
    VARIANTS.append(dict(prop=prop, expect='bug', name=name, edits=list(edits), **kw))


def same(prop, name, *edits, **kw):
    VARIANTS.append(dict(prop=prop, expect='same', name=name, edits=list(edits), **kw))


AN = 'analyzer.py'
# ---- A08
I1 = '''        possible_results = [f for f in self.get_lexeme(form)
                            if required_grammemes <= f[1].grammemes]

        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = [f for f in self.get_lexeme(form)
                                if required_grammemes <= f[1].grammemes]

        grammemes = form[1].updated_grammemes(required_grammemes)
        def similarity(frm):
            tag = frm[1]
            return len(grammemes & tag.grammemes) - 0.1 * len(grammemes ^ tag.grammemes)

        return heapq.nlargest(1, possible_results, key=similarity)
'''
bug('A08', 'any', (AN, I1, I1.replace('if required_grammemes <= f[1].grammemes]', 'if required_grammemes & f[1].grammemes]', 1)))
bug('A08', 'no second filter', (AN, I1, I1.replace('''
                                if required_grammemes <= f[1].grammemes]''', ']')))
bug('A08', 'early return', (AN, I1, I1.replace('''        if not possible_results:
''', '''        if not possible_results and not required_grammemes & set(self.TagClass.RARE_CASES):
            return []
        if not possible_results:
''')))
bug('A08', 'no fix', (AN, I1, I1.replace('self.TagClass.fix_rare_cases(required_grammemes)', 'set(required_grammemes)')))
bug('A08', 'falls back to the whole lexeme', (AN, I1, I1.replace('''        grammemes = form[1]''', '''        possible_results = possible_results or self.get_lexeme(form)
        grammemes = form[1]''')))
bug('A08', 'known check only for few', ('tagset.py', '''            if not self.grammeme_is_known(grammeme):
                raise ValueError("Unknown grammeme: %s" % grammeme)
            new_grammemes''', '''            if grammeme not in self._GRAMMEME_INCOMPATIBLE:
                continue
            new_grammemes'''))
bug('A08', 'rare case', ('tagset.py', "'acc2': 'accs',", "'acc2': 'gent',"))
bug('A08', 'fix drops', ('tagset.py', 'frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)',
                         'frozenset(cls.RARE_CASES[g] for g in grammemes if g in cls.RARE_CASES)'))
same('A08', 'helper', (AN, I1, '''        possible_results = self._matching(form, required_grammemes)
        if not possible_results:
            required_grammemes = self.TagClass.fix_rare_cases(required_grammemes)
            possible_results = self._matching(form, required_grammemes)

        grammemes = form[1].updated_grammemes(required_grammemes)
        if not possible_results:
            return []
        return [max(possible_results, key=lambda f: self._similarity(f[1], grammemes))]

    @staticmethod
    def _similarity(tag, grammemes):
        common = len(grammemes & tag.grammemes)
        return common - 0.1 * len(grammemes ^ tag.grammemes)

    def _matching(self, form, required):
        result = []
        for f in self.get_lexeme(form):
            if f[1].grammemes.issuperset(required):
                result.append(f)
        return result
'''))
same('A08', 'lexeme once', (AN, I1, '''        lexeme = self.get_lexeme(form)
        req = required_grammemes
        matching = [f for f in lexeme if all(g in f[1].grammemes for g in req)]
        if len(matching) == 0:
            req = self.TagClass.fix_rare_cases(req)
            matching = [f for f in lexeme if not (req - f[1].grammemes)]
        grammemes = form[1].updated_grammemes(req)
        key = lambda f: len(grammemes & f[1].grammemes) - 0.1 * len(grammemes ^ f[1].grammemes)
        return sorted(matching, key=key, reverse=True)[:1]
'''))
same('A08', 'inflect', (AN, '''        return None if not res else res[0]''', '''        if res:
            return res[0]
        return None'''))
same('A08', 'first', (AN, '''        return None if not res else res[0]''', '''        for form in res:
            return form'''))
same('A08', 'rare', ('tagset.py', 'return frozenset(cls.RARE_CASES.get(g, g) for g in grammemes)', '''result = set()
        for g in grammemes:
            if g in cls.RARE_CASES:
                g = cls.RARE_CASES[g]
            result.add(g)
        return frozenset(result)'''))
