from variants import bug, same

C = 'cli.py'
LST = '''                        seq = [
                            "%s:%0.3f=%s" % (p.normal_form, p.score, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
'''
LT = '''                        seq = [
                            "%s:%s" % (p.normal_form, p.tag)
                            for p in morph_parse(tok) if p.score >= thresh
                        ]
'''
ACC = '''                    for p in morph_parse(tok):
                        lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score
'''
OUTL = '''                    items = sorted(
                        [(lemma, w) for (lemma, w) in lemmas.items() if w >= thresh],
                        key=val, reverse=True
                    )
                    if score:
                        seq = ["%s:%0.3f" % (lemma, w) for (lemma, w) in items]
                    else:
                        seq = [lemma for (lemma, w) in items]
'''
ST = '''                    seq = [
                        "%0.3f=%s" % (p.score, p.tag)
                        for p in morph_parse(tok) if p.score >= thresh
                    ]
'''
T = '''                    seq = [
                        "%s" % p.tag
                        for p in morph_parse(tok) if p.score >= thresh
                    ]
'''
SHORT = "        if not normal_form and not score and not thresh:\n"
CACHE = '''    if cache_size == 'unlim':
        _parse = memoized_with_single_argument({})(_parse)
    else:
        cache_size = int(cache_size)
        if cache_size:
            _parse = lru_cache(cache_size)(_parse)
'''
LOOP = '''    for token in iter_tokens(in_file):
        _write(_parse(token))
'''
bug('A22', 'strict threshold', (C, LST, LST.replace('>=', '>')))
bug('A22', 'no threshold in lemma+tag', (C, LT, LT.replace(' if p.score >= thresh', '')))
bug('A22', 'no threshold in tag', (C, T, T.replace(' if p.score >= thresh', '')))
bug('A22', 'short cut in score mode', (C, SHORT, "        if not normal_form and not thresh:\n"))
bug('A22', 'short cut with thresh', (C, SHORT, "        if not normal_form and not score:\n"))
bug('A22', 'threshold before summing', (C, ACC, ACC.replace("morph_parse(tok):\n", "morph_parse(tok):\n                        if p.score < thresh:\n                            continue\n")))
bug('A22', 'no total', (C, ACC, ACC.replace("lemmas.get(p.normal_form, 0) + p.score", "p.score")))
bug('A22', 'max instead of sum', (C, ACC, ACC.replace("lemmas.get(p.normal_form, 0) + p.score", "max(lemmas.get(p.normal_form, 0), p.score)")))
bug('A22', 'first score kept', (C, ACC, ACC.replace("lemmas[p.normal_form] = lemmas.get(p.normal_form, 0) + p.score", "lemmas.setdefault(p.normal_form, p.score)")))
bug('A22', 'counts results', (C, ACC, ACC.replace("+ p.score", "+ 1")))
bug('A22', 'totals by word', (C, ACC, ACC.replace("p.normal_form", "p.word")))
bug('A22', 'lemma threshold strict', (C, OUTL, OUTL.replace("w >= thresh", "w > thresh")))
bug('A22', 'lemma threshold only with scores', (C, OUTL, OUTL.replace("if w >= thresh", "if w >= thresh or not score")))
bug('A22', 'lemma no threshold', (C, OUTL, OUTL.replace(" if w >= thresh", "")))
bug('A22', 'two digits', (C, LST, LST.replace('0.3f', '0.2f')))
bug('A22', 'score and tag swapped', (C, ST, ST.replace('(p.score, p.tag)', '(p.tag, p.score)').replace('%0.3f=%s', '%s=%0.3f')))
bug('A22', 'first result only', (C, ST, ST.replace('morph_parse(tok)', 'morph_parse(tok)[:1]')))
bug('A22', 'word for normal form', (C, LT, LT.replace('p.normal_form', 'p.word')))
bug('A22', 'record only with results', (C, LOOP, "    for token in iter_tokens(in_file):\n        res = _parse(token)\n        if not res.endswith('{}\\n'):\n            _write(res)\n"))
bug('A22', 'record without newline', (C, 'tpl_newline = "%s{%s}\\n"', 'tpl_newline = "%s{%s} "'))
bug('A22', 'tokens once', (C, LOOP, "    seen = set()\n    for token in iter_tokens(in_file):\n        if token in seen:\n            continue\n        seen.add(token)\n        _write(_parse(token))\n"))
bug('A22', 'cache by lower', (C, LOOP, "    seen = {}\n    for token in iter_tokens(in_file):\n        key = token.lower()\n        if key not in seen:\n            seen[key] = _parse(token)\n        _write(seen[key])\n"))
bug('A22', 'shared memo', (C, "        _parse = memoized_with_single_argument({})(_parse)\n", "        _parse = memoized_with_single_argument(_MEMO)(_parse)\n"),
    (C, "def _open_for_read(fn):", "_MEMO = {}\n\n\ndef _open_for_read(fn):"))
bug('A22', 'memo key lower', ('cache.py', "            if arg in cache:\n                return cache[arg]\n            res = func(arg)\n            cache[arg] = res\n",
                             "            key = arg.lower()\n            if key in cache:\n                return cache[key]\n            res = func(arg)\n            cache[key] = res\n"))
bug('A22', 'memo other key', ('cache.py', "            cache[arg] = res\n", "            cache[arg.strip('-')] = res\n"))
bug('A22', 'tokenized swapped', (C, "iter_tokens = _iter_tokens_tokenize if tokenize else _iter_tokens_notokenize", "iter_tokens = _iter_tokens_notokenize if tokenize else _iter_tokens_tokenize"))
bug('A22', 'main tokenized', (C, "tokenize=not args['--tokenized']", "tokenize=args['--tokenized']"))
bug('A22', 'main thresh as int', (C, "float(args['--thresh'])", "int(float(args['--thresh']))"))
bug('A22', 'main thresh forgotten', (C, "            thresh=float(args['--thresh']),\n", "            thresh=0.0,\n"))
bug('A22', 'main lemma for tag', (C, "score, lemmatize, tag = args['--score'], args['--lemmatize'], args['--tag']", "score, tag, lemmatize = args['--score'], args['--lemmatize'], args['--tag']"))
bug('A22', 'main any of two', (C, "if any([args['--score'], args['--lemmatize'], args['--tag']]):", "if any([args['--lemmatize'], args['--tag']]):"))
bug('A22', 'main lang', (C, "        morph = pymorphy2.MorphAnalyzer(path=path, lang=lang)\n        in_file", "        morph = pymorphy2.MorphAnalyzer(path=path)\n        in_file"))
bug('A22', 'default threshold', (C, "than a threshold [default: 0.0]", "than a threshold [default: 0.001]"))
bug('A22', 'lines lower', (C, "(line.strip() for line in fp)", "(line.strip().lower() for line in fp)"))
bug('A22', 'empty lines', (C, "(line for line in (line.strip() for line in fp) if line)", "(line.strip() for line in fp)"))
bug('A22', 'first token', (C, "for token in simple_word_tokenize(line))", "for token in simple_word_tokenize(line.lower()))"))

same('A22', 'loops', (C, LST, '''                        seq = []
                        for p in morph_parse(tok):
                            if p.score < thresh:
                                continue
                            seq.append("%s:%0.3f=%s" % (p.normal_form, p.score, p.tag))
'''))
same('A22', 'kept helper', (C, LT, LT.replace("morph_parse(tok) if p.score >= thresh", "_kept(tok)")),
     (C, "        if normal_form:\n", "        def _kept(tok):\n            return [p for p in morph_parse(tok) if p.score >= thresh]\n\n        if normal_form:\n"))
same('A22', 'thresh first', (C, T, T.replace("p.score >= thresh", "thresh <= p.score")))
same('A22', 'no short cut', (C, SHORT + '''            # morph.tag method is enough
            self.parse = lambda tok: tpl % (tok, join(str(t) for t in morph_tag(tok)))
            return
''', ''))
same('A22', 'defaultdict', (C, "                    lemmas = {}\n" + ACC, '''                    lemmas = collections.defaultdict(float)
                    for p in morph_parse(tok):
                        lemmas[p.normal_form] += p.score
'''), (C, "import sys\n", "import sys\nimport collections\n"))
same('A22', 'if in', (C, ACC, '''                    for p in morph_parse(tok):
                        if p.normal_form in lemmas:
                            lemmas[p.normal_form] += p.score
                        else:
                            lemmas[p.normal_form] = p.score
'''))
same('A22', 'local names', (C, ACC, '''                    for p in morph_parse(tok):
                        nf = p.normal_form
                        total = lemmas.get(nf, 0)
                        lemmas[nf] = total + p.score
'''))
same('A22', 'sort key', (C, OUTL, OUTL.replace("key=val, reverse=True", "key=lambda item: item[1], reverse=True")))
same('A22', 'filter later', (C, OUTL, '''                    items = sorted(lemmas.items(), key=val, reverse=True)
                    items = [(lemma, w) for (lemma, w) in items if w >= thresh]
                    if score:
                        seq = ["%s:%0.3f" % item for item in items]
                    else:
                        seq = [item[0] for item in items]
'''))
same('A22', 'format method', (C, '        tpl = self.tpl_newline if newlines else self.tpl_no_newline\n', '        tpl = "%s{%s}" + ("\\n" if newlines else " ")\n'))
same('A22', 'plain loop', (C, LOOP, "    for token in iter_tokens(in_file):\n        record = _parse(token)\n        out_file.write(record)\n"))
same('A22', 'token generators', (C, "    return (token for line in fp for token in simple_word_tokenize(line))", "    for line in fp:\n        for token in simple_word_tokenize(line):\n            yield token"))
same('A22', 'line loop', (C, "    return (line for line in (line.strip() for line in fp) if line)", "    for line in fp:\n        line = line.strip()\n        if line:\n            yield line"))
same('A22', 'memo try', ('cache.py', "            if arg in cache:\n                return cache[arg]\n            res = func(arg)\n            cache[arg] = res\n            return res\n",
                        "            try:\n                return cache[arg]\n            except KeyError:\n                res = cache[arg] = func(arg)\n                return res\n"))
same('A22', 'memo not in', ('cache.py', "            if arg in cache:\n                return cache[arg]\n            res = func(arg)\n            cache[arg] = res\n            return res\n",
                        "            if arg not in cache:\n                cache[arg] = func(arg)\n            return cache[arg]\n"))
same('A22', 'cache helper', (C, CACHE, "    _parse = _cached(_parse, cache_size)\n"),
     (C, "class _TokenParserFormatter(object):", '''def _cached(func, cache_size):
    if cache_size == 'unlim':
        return memoized_with_single_argument({})(func)
    size = int(cache_size)
    if not size:
        return func
    return lru_cache(size)(func)


class _TokenParserFormatter(object):'''))
same('A22', 'main flags', (C, '''        if any([args['--score'], args['--lemmatize'], args['--tag']]):
            score, lemmatize, tag = args['--score'], args['--lemmatize'], args['--tag']
        else:
            score, lemmatize, tag = True, True, True
''', '''        score, lemmatize, tag = args['--score'], args['--lemmatize'], args['--tag']
        if not (score or lemmatize or tag):
            score = lemmatize = tag = True
'''))
same('A22', 'dispatch table', (C, "iter_tokens = _iter_tokens_tokenize if tokenize else _iter_tokens_notokenize", "iter_tokens = {True: _iter_tokens_tokenize, False: _iter_tokens_notokenize}[bool(tokenize)]"))
