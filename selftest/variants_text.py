from variants import bug, same

S = 'shapes.py'
T = 'tokenizers.py'
BS = 'units/by_shape.py'
# --- A29
LAT = "        any(ch.isalpha() for ch in token) and\n        all(is_latin_char(ch) for ch in token if ch.isalpha())\n"
bug('A29', 'any latin', (S, "all(is_latin_char(ch) for ch in token if ch.isalpha())", "any(is_latin_char(ch) for ch in token if ch.isalpha())"))
bug('A29', 'latin vacuous', (S, LAT, "        all(is_latin_char(ch) for ch in token if ch.isalpha())\n"))
bug('A29', 'latin first', (S, "all(is_latin_char(ch) for ch in token if ch.isalpha())", "all(is_latin_char(ch) for ch in token[:1] if ch.isalpha())"))
bug('A29', 'latin isalnum', (S, "        any(ch.isalpha() for ch in token) and\n", "        any(ch.isalnum() for ch in token) and\n"))
bug('A29', 'latin only lower', (S, "all(is_latin_char(ch) for ch in token if ch.isalpha())", "all(is_latin_char(ch) for ch in token if ch.islower())"))
bug('A29', 'latin letters of part', (S, LAT, "        any(ch.isalpha() for ch in token) and\n        all(is_latin_char(ch) for ch in token.split('-')[0] if ch.isalpha())\n"))
bug('A29', 'punct any', (S, "all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())", "any(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())"))
bug('A29', 'punct symbols', (S, "unicodedata.category(ch)[0] == 'P'", "unicodedata.category(ch)[0] in 'PS'"))
bug('A29', 'punct spaces', (S, "        not token.isspace() and\n", ""))
bug('A29', 'punct not P', (S, "unicodedata.category(ch)[0] == 'P'", "unicodedata.category(ch)[0] not in 'LN'"))
bug('A29', 'punct no Pd', (S, "unicodedata.category(ch)[0] == 'P'", "unicodedata.category(ch) == 'Po'"))
bug('A29', 'roman dollar', (S, "    \\Z                  # end of string\n", "    $                   # end of string\n"))
bug('A29', 'roman no end', (S, "    \\Z                  # end of string\n", ""))
bug('A29', 'roman search', (S, "_match=ROMAN_NUMBERS_RE.match", "_match=ROMAN_NUMBERS_RE.search"))
bug('A29', 'roman empty', (S, "    if not token:\n        return False\n    return _match", "    return _match"))
bug('A29', 'roman strip', (S, "return _match(token) is not None", "return _match(token.strip()) is not None"))
bug('A29', 'roman IIII', (S, "(IX|IV|V?I{0,3})", "(IX|IV|V?I{0,4})"))
bug('A29', 'roman case', (S, "re.VERBOSE | re.IGNORECASE", "re.VERBOSE"), (S, "return _match(token)", "return _match(token.lower())"))
bug('A29', 'cache of the last', (S, "        return _latin_letters_cache.setdefault(uchr, is_latin)", "        return _latin_letters_cache.setdefault(unicodedata.category(uchr), is_latin)"), (S, "return _latin_letters_cache[uchr]", "return _latin_letters_cache[unicodedata.category(uchr)]"))
bug('A29', 'cache key lower', (S, "        return _latin_letters_cache[uchr]", "        return _latin_letters_cache[uchr.swapcase()[:1]]"), (S, "_latin_letters_cache.setdefault(uchr, is_latin)", "_latin_letters_cache.setdefault(uchr.swapcase()[:1], is_latin)"))
bug('A29', 'unit decides by start', (BS, "        return is_latin(word)\n", "        return is_latin(word[:3])\n"))
bug('A29', 'unit roman stripped', (BS, "        return is_roman_number(word)\n", "        return is_roman_number(word.rstrip('.'))\n"))
bug('A29', 'unit punct first', (BS, "        return is_punctuation(word)\n", "        return is_punctuation(word[0:1])\n"))
bug('A29', 'number strip', (BS, "            int(word)\n", "            int(word.strip('%'))\n"))
bug('A29', 'number float part', (BS, "float(word.replace(',', '.'))", "float(word.split(',')[0])"))
bug('A29', 'number no digits', (BS, "float(word.replace(',', '.'))", "float(word.replace(',', '.').replace(':', ''))"))
same('A29', 'loop latin', (S, "    return (\n" + LAT + "    )\n", "    letters = [ch for ch in token if ch.isalpha()]\n    if not letters:\n        return False\n    return all(is_latin_char(ch) for ch in letters)\n"))
same('A29', 'latin return', (S, "    return (\n" + LAT + "    )\n", "    found = False\n    for ch in token:\n        if ch.isalpha():\n            if not is_latin_char(ch):\n                return False\n            found = True\n    return found\n"))
same('A29', 'not any', (S, "all(is_latin_char(ch) for ch in token if ch.isalpha())", "not any(ch.isalpha() and not is_latin_char(ch) for ch in token)"))
same('A29', 'punct startswith', (S, "unicodedata.category(ch)[0] == 'P'", "unicodedata.category(ch).startswith('P')"))
same('A29', 'punct listed', (S, "unicodedata.category(ch)[0] == 'P'", "unicodedata.category(ch) in ('Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po')"))
same('A29', 'punct non-space any', (S, "        bool(token) and\n        not token.isspace() and\n", "        any(not ch.isspace() for ch in token) and\n"))
same('A29', 'punct or', (S, "all(unicodedata.category(ch)[0] == 'P' for ch in token if not ch.isspace())", "all(ch.isspace() or unicodedata.category(ch)[0] == 'P' for ch in token)"))
same('A29', 'punct strip', (S, "        bool(token) and\n        not token.isspace() and\n", "        bool(token.strip()) and\n"))
same('A29', 'roman fullmatch', (S, "    \\Z                  # end of string\n", ""), (S, "_match=ROMAN_NUMBERS_RE.match", "_match=ROMAN_NUMBERS_RE.fullmatch"))
same('A29', 'roman bool', (S, "    if not token:\n        return False\n    return _match(token) is not None", "    return bool(token and _match(token))"))
same('A29', 'cache if', (S, "    try:\n        return _latin_letters_cache[uchr]\n    except KeyError:\n        if isinstance(uchr, bytes):\n            uchr = uchr.decode('ascii')\n        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n        return _latin_letters_cache.setdefault(uchr, is_latin)\n", "    if uchr not in _latin_letters_cache:\n        name = uchr.decode('ascii') if isinstance(uchr, bytes) else uchr\n        _latin_letters_cache[uchr] = 'LATIN' in unicodedata.name(name, '')\n    return _latin_letters_cache[uchr]\n"))
same('A29', 'no cache', (S, "    try:\n        return _latin_letters_cache[uchr]\n    except KeyError:\n        if isinstance(uchr, bytes):\n            uchr = uchr.decode('ascii')\n        is_latin = 'LATIN' in unicodedata.name(uchr, '')\n        return _latin_letters_cache.setdefault(uchr, is_latin)\n", "    if isinstance(uchr, bytes):\n        uchr = uchr.decode('ascii')\n    return 'LATIN' in unicodedata.name(uchr, '')\n"))
same('A29', 'number loop', (BS, "        try:\n            int(word)\n            return 'intg'\n        except ValueError:\n            try:\n                float(word.replace(',', '.'))\n                return 'real'\n            except ValueError:\n                pass\n        return False\n", "        try:\n            int(word)\n        except ValueError:\n            pass\n        else:\n            return 'intg'\n        number = word.replace(',', '.')\n        try:\n            float(number)\n        except ValueError:\n            return False\n        return 'real'\n"))
# --- A23
RX = "r'([^\\w_-]|[+])'"
FN = "    return [t for t in _split(text) if t and not t.isspace()]"
bug('A23', 'no group', (T, RX, "r'[^\\w_-]|[+]'"))
bug('A23', 'underscore split', (T, RX, "r'([\\W_])'"))
bug('A23', 'hyphen split', (T, RX, "r'([^\\w_]|[+])'"))
bug('A23', 'space optional', (T, RX, "r'(\\s*)'"))
bug('A23', 'nested group', (T, RX, "r'(([^\\w_-])|[+])'"))
bug('A23', 'white lost with punctuation', (T, RX, "r'([^\\w\\s-])|[\\s.]'"))
bug('A23', 'ascii', (T, "re.UNICODE", "re.ASCII"))
bug('A23', 'filter isalnum', (T, FN, "    return [t for t in _split(text) if t.strip('.')]"))
bug('A23', 'filter length', (T, FN, "    return [t for t in _split(text) if len(t) > 1 or t.isalnum()]"))
bug('A23', 'filter keeps white', (T, FN, "    return [t for t in _split(text) if t and t != ' ']"))
bug('A23', 'strip hyphen', (T, FN, "    return [t.strip('-') for t in _split(text) if t and not t.isspace()]"))
bug('A23', 'lower', (T, FN, "    return [t.lower() for t in _split(text) if t and not t.isspace()]"))
bug('A23', 'maxsplit', (T, "_split(text)", "_split(text, 1000)"))
bug('A23', 'bom', (T, "_split(text)", "_split(text.replace(u'\\ufeff', ''))"))
bug('A23', 'set', (T, FN, "    return [t for t in set(_split(text)) if t and not t.isspace()]"))
bug('A23', 'dedup', (T, FN, "    result = []\n    for t in _split(text):\n        if t and not t.isspace() and t not in result:\n            result.append(t)\n    return result"))
bug('A23', 'control characters', (T, "if t and not t.isspace()", "if t and t.isprintable() and not t.isspace()"))
same('A23', 'loop', (T, FN, "    result = []\n    for t in _split(text):\n        if not t or t.isspace():\n            continue\n        result.append(t)\n    return result"))
same('A23', 'strip filter', (T, FN, "    return [t for t in _split(text) if t.strip()]"))
same('A23', 'regex rewritten', (T, RX, "r'([^\\w-])'"))
same('A23', 'regex W', (T, RX, "r'((?:[^\\w-]))'"))
same('A23', 'generator variable', (T, FN, "    pieces = _split(text)\n    return [t for t in pieces if t and not t.isspace()]"))
same('A23', 'direct use', (T, "def simple_word_tokenize(text, _split=GROUPING_SPACE_REGEX.split):", "def simple_word_tokenize(text):"), (T, "_split(text)", "GROUPING_SPACE_REGEX.split(text)"))
same('A23', 'filter call', (T, FN, "    return list(filter(lambda t: t and not t.isspace(), _split(text)))"))
# --- A24
MS = "def _make_the_same_case(word, example):\n    if example.islower():\n        return word.lower()\n    elif example.isupper():\n        return word.upper()\n    elif example.istitle():\n        return word.title()\n    else:\n        return word.lower()\n"
LOOP = "        results = []\n        word_parts = word.split('-')\n        example_parts = example.split('-')\n\n        for i, part in enumerate(word_parts):\n            if len(example_parts) > i:\n                results.append(_make_the_same_case(part, example_parts[i]))\n            else:\n                results.append(part.lower())\n\n        return '-'.join(results)\n"
bug('A24', 'zip drops', (S, LOOP, "        return '-'.join(_make_the_same_case(x, y) for x, y in zip(word.split('-'), example.split('-')))\n"))
bug('A24', 'off by one', (S, "if len(example_parts) > i:", "if len(example_parts) > i + 1:"))
bug('A24', 'last part', (S, "example_parts[i]))", "example_parts[-1]))"))
bug('A24', 'keep reminder', (S, "results.append(part.lower())", "results.append(part)"))
bug('A24', 'no clear case', (S, "        return word.title()\n    else:\n        return word.lower()\n", "        return word.title()\n    else:\n        return word\n"))
bug('A24', 'capitalize', (S, "        return word.title()\n", "        return word.capitalize()\n"))
bug('A24', 'skip empty', (S, "            if len(example_parts) > i:", "            if not part:\n                continue\n            if len(example_parts) > i:"))
bug('A24', 'join space', (S, "return '-'.join(results)", "return ' '.join(results)"))
bug('A24', 'upper first', (S, "    elif example.isupper():\n        return word.upper()\n    elif example.istitle():\n        return word.title()\n", "    elif example.istitle():\n        return word.title()\n    elif example.isupper():\n        return word.upper()\n"))
bug('A24', 'strip hyphens', (S, "word_parts = word.split('-')", "word_parts = word.strip('-').split('-')"))
bug('A24', 'example returned', (S, "        return word.upper()\n", "        return example\n"))
bug('A24', 'split once', (S, "word_parts = word.split('-')", "word_parts = word.split('-', 1)"))
bug('A24', 'alias swapped', (S, "    return restore_capitalization(word, example)\n", "    return restore_capitalization(example, word)\n"))
same('A24', 'comprehension', (S, LOOP, "        examples = example.split('-')\n        return '-'.join([\n            _make_the_same_case(part, examples[n]) if n < len(examples) else part.lower()\n            for n, part in enumerate(word.split('-'))\n        ])\n"))
same('A24', 'padded', (S, LOOP, "        xs, ys = word.split('-'), example.split('-')\n        res = [_make_the_same_case(x, y) for x, y in zip(xs, ys)]\n        res.extend(x.lower() for x in xs[len(ys):])\n        return '-'.join(res)\n"))
same('A24', 'flat case', (S, MS, "def _make_the_same_case(word, example):\n    if example.isupper():\n        return word.upper()\n    if example.istitle():\n        return word.title()\n    return word.lower()\n"))
same('A24', 'lower when unclear', (S, "        return word.title()\n    else:\n        return word.lower()\n", "        return word.title()\n    return word.lower()\n"))
same('A24', 'range', (S, LOOP, "        word_parts = word.split('-')\n        example_parts = example.split('-')\n        for i in range(len(word_parts)):\n            if i < len(example_parts):\n                word_parts[i] = _make_the_same_case(word_parts[i], example_parts[i])\n            else:\n                word_parts[i] = word_parts[i].lower()\n        return '-'.join(word_parts)\n"))
same('A24', 'longest', (S, LOOP, "        example_parts = example.split('-')\n        parts = word.split('-')\n        example_parts += [''] * (len(parts) - len(example_parts))\n        return '-'.join(_make_the_same_case(p, e) for p, e in zip(parts, example_parts))\n"))
