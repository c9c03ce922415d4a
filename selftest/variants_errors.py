from variants import bug, same

S, H, A, Y, BS, U = 'shapes.py', 'units/by_hyphen.py', 'units/by_analogy.py', 'analyzer.py', 'units/by_shape.py', 'units/utils.py'
NUM = '''        try:
            int(word)
            return 'intg'
        except ValueError:
            try:
                float(word.replace(',', '.'))
                return 'real'
            except ValueError:
                pass
        return False
'''
SUM = '        if sum(probs) == 0:\n'

bug('A02', 'name without default', (S, "unicodedata.name(uchr, '')", 'unicodedata.name(uchr)'))
bug('A02', 'name of characters that are no letters', (S, "unicodedata.name(uchr, '')", 'unicodedata.name(uchr)'), (S, 'for ch in token if ch.isalpha()', 'for ch in token if not ch.isdigit()'))
bug('A02', 'name of the first character', (S, "    return (\n        any(ch.isalpha() for ch in token) and", "    return (\n        unicodedata.name(token[:1] or ' ') != 'SPACE' and\n        any(ch.isalpha() for ch in token) and"))
bug('A02', 'int catches only TypeError', (BS, '        except ValueError:\n            try:', '        except TypeError:\n            try:'))
bug('A02', 'isdigit guard instead of try', (BS, NUM, '''        if word.isdigit():
            int(word)
            return 'intg'
        try:
            float(word.replace(',', '.'))
            return 'real'
        except ValueError:
            return False
'''))
bug('A02', 'float not guarded', (BS, NUM, '''        try:
            int(word)
            return 'intg'
        except ValueError:
            if word[:1].isdigit():
                float(word.replace(',', '.'))
                return 'real'
        return False
'''))
bug('A02', 'isnumeric guard', (BS, NUM, '''        if word.isnumeric():
            int(word)
            return 'intg'
        try:
            float(word.replace(',', '.'))
            return 'real'
        except ValueError:
            return False
'''))
bug('A02', 'first letter of empty word', (S, '        bool(token) and\n        not token.isspace() and', '        not token[0].isspace() and\n        bool(token) and'))
bug('A02', 'last character of empty word', (BS, '        return is_roman_number(word)', "        return word[-1] != '.' and is_roman_number(word)"))
bug('A02', 'ascii', (S, '    if not token:\n        return False\n    return _match', "    if not token:\n        return False\n    token = token.encode('ascii').decode('ascii')\n    return _match"))
bug('A02', 'roman group', (S, '    return _match(token) is not None', '    return bool(_match(token).group())'))
bug('A02', 'division by the sum of probabilities', (Y, '''            k = 1.0 / sum(map(_score_getter, parses))
''', '''            k = 1.0 / sum(probs)
'''))
bug('A02', 'index error not handled', (U, '''    try:
        para_id = parse[4][0][2]
    except IndexError:
        para_id = None
''', '''    para_id = parse[4][0][2]
'''))
bug('A02', 'key error instead of index error', (U, '    except IndexError:', '    except KeyError:'))
same('A02', 'zero counts', (A, '[1] * len(self._paradigm_prefixes)', '[0] * len(self._paradigm_prefixes)'))
same('A02', 'tuples with the same units are compared', (A, 'result.sort(key=_cnt_getter, reverse=True)', 'result.sort(reverse=True)'))
bug('A02', 'zero score', (A, 'score_multiplier=0.75', 'score_multiplier=0.0'))

bug('A02', 'tuples with units are compared in the estimator', (Y, """ in zip(parses, probs)
        ], key=_score_getter, reverse=True)""", """ in zip(parses, probs)
        ], reverse=True)"""))
HG = """        if '-' not in word:
            return False

        word_stripped"""
HC = "        if word_stripped.count('-') != 1:\n"
bug('A02', 'hyphen guards dropped', (H, HG, '        word_stripped'), (H, HC, HC.replace('!=', '>')))
bug('A02', 'several hyphens', (H, "word_lower.split('-', 1)", "word_lower.split('-')"), (H, HC, HC.replace('!=', '<')))
same('A02', 'split without maximum', (H, "word_lower.split('-', 1)", "word_lower.split('-')"))
same('A02', 'one hyphen guard', (H, HG, '        word_stripped'))

same('A02', 'check for empty word first', (S, '        bool(token) and\n        not token.isspace() and', '        len(token) > 0 and not token[0:].isspace() and'))
same('A02', 'numbers in a helper', (BS, NUM, '''        try:
            int(word)
        except ValueError:
            pass
        else:
            return 'intg'
        return self._real(word)

    def _real(self, word):
        try:
            float(word.replace(',', '.'))
        except ValueError:
            return False
        return 'real'
'''))
same('A02', 'name guarded with try', (S, "        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n", '''        try:
            is_latin = 'LATIN' in unicodedata.name(uchr)
        except ValueError:
            is_latin = False
'''))
same('A02', 'match in two steps', (S, '    return _match(token) is not None', '    m = _match(token)\n    return m is not None and m.end() == len(token)'))
same('A02', 'length check instead of handler', (U, '''    try:
        para_id = parse[4][0][2]
    except IndexError:
        para_id = None
''', '''    first = parse[4][0]
    para_id = first[2] if len(first) > 2 else None
'''))
same('A02', 'any probability', (Y, SUM, '        if not any(probs):\n'))
same('A02', 'normalise by division', (Y, '''            k = 1.0 / sum(map(_score_getter, parses))
            return [
                (word, tag, normal_form, score*k, methods_stack)
                for (word, tag, normal_form, score, methods_stack) in parses
            ]
''', '''            total = sum([p[3] for p in parses])
            return [
                (word, tag, normal_form, score / total, methods_stack)
                for (word, tag, normal_form, score, methods_stack) in parses
            ]
'''))
same('A02', 'parses tested by length', (Y, '''        if not parses:
            return parses

''', '''        if len(parses) == 0:
            return parses

'''))
