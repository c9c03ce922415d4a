from variants import bug, same

CO = 'opencorpora_dict/compile.py'
PP = 'opencorpora_dict/preprocess.py'
PA = 'opencorpora_dict/parse.py'

bug('A19', 'acc1 forgotten', (PP, ".replace('acc1', 'accs')", ""))
bug('A19', 'gen1 to accs', (PP, ".replace('gen1', 'gent')", ".replace('gen1', 'accs')"))
bug('A19', 'loc2 too', (PP, ".replace('loc1', 'loct')", ".replace('loc1', 'loct').replace('loc2', 'loct')"))
bug('A19', 'raw spellings', (PP, "[replace_redundant_grammemes(tag)] += 1", "[tag] += 1"))
bug('A19', 'grouped by part of speech', (PP, "spellings[tag2grammemes(tag)]", "spellings[tag[:4]]"))
bug('A19', 'grouped by length', (PP, "spellings[tag2grammemes(tag)]", "spellings[len(tag2grammemes(tag))]"))
bug('A19', 'only ambiguous lexemes', (PP, "        parsed_dict.lexemes[lex_id] = new_lexeme\n", "        if len(new_lexeme) > 1:\n            parsed_dict.lexemes[lex_id] = new_lexeme\n"))
bug('A19', 'forms merged', (PP, "            for word, tag in parsed_dict.lexemes[lex_id]\n        ]\n        parsed_dict.lexemes[lex_id] = new", "            for word, tag in parsed_dict.lexemes[lex_id] if tag\n        ]\n        parsed_dict.lexemes[lex_id] = new"))
bug('A19', 'not simplified', (CO, "    simplify_tags(parsed_dict)\n    drop_unsupported_parses(parsed_dict)\n    compiled_dict = compile_parsed_dict(parsed_dict, compile_options)\n", "    drop_unsupported_parses(parsed_dict)\n    compiled_dict = compile_parsed_dict(parsed_dict, compile_options)\n    simplify_tags(parsed_dict)\n"))
bug('A19', 'lookup of raw tag', (PP, "    tag = replace_redundant_grammemes(tag)\n    return tag_replaces.get(tag, tag)", "    return tag_replaces.get(tag, tag)"))
same('A19', 'top by max', (PP, """            items = sorted(tags.items(), key=lambda it: it[1], reverse=True)
            top_tag = items[0][0]
            for tag, count in items[1:]:
                replaces[tag] = top_tag""", """            best = max(tags, key=tags.get)
            for tag in tags:
                if tag != best:
                    replaces[tag] = best"""))
same('A19', 'simplify in place', (PP, """        new_lexeme = [
            (word, _simplify_tag(tag, tag_replaces))
            for word, tag in parsed_dict.lexemes[lex_id]
        ]
        parsed_dict.lexemes[lex_id] = new_lexeme
""", """        forms = []
        for form in parsed_dict.lexemes[lex_id]:
            forms.append((form[0], _simplify_tag(form[1], tag_replaces)))
        parsed_dict.lexemes[lex_id] = forms
"""))
same('A19', 'redundant by loop', (PP, "    return tag_str.replace('loc1', 'loct').replace('gen1', 'gent').replace('acc1', 'accs')", "    for old, new in [('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')]:\n        tag_str = tag_str.replace(old, new)\n    return tag_str"))
same('A19', 'spelling counters', (PP, "    spellings = collections.defaultdict(lambda: collections.defaultdict(int))\n    for tag in _itertags(parsed_dict):\n        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1\n", "    spellings = collections.defaultdict(collections.Counter)\n    for tag in _itertags(parsed_dict):\n        spelling = replace_redundant_grammemes(tag)\n        spellings[_split_grammemes(spelling)][spelling] += 1\n"))
same('A19', 'simplify helper', (PP, "    tag = replace_redundant_grammemes(tag)\n    return tag_replaces.get(tag, tag)", "    tag = replace_redundant_grammemes(tag)\n    if tag in tag_replaces:\n        return tag_replaces[tag]\n    return tag"))

bug('A35', 'warning drops more', (PA, "        if not (base_grammemes + grammemes):", "        if not grammemes:"))
bug('A35', 'form skipped', (PA, "            return lex_id, []\n        if isinstance", "            return lex_id, []\n        if form in [f for f, t in lexeme]:\n            continue\n        if isinstance"))
bug('A35', 'first link end twice', (PA, "elem.get('to'),", "elem.get('from'),"))
bug('A35', 'grammemes of the form first', (PA, '(base_grammemes + " " + grammemes).strip()', '(grammemes + " " + base_grammemes).strip()'))
bug('A35', 'cleared too early', (PA, "            lex_id, word_forms = _word_forms_from_xml_elem(elem)\n            lexemes[lex_id] = word_forms\n            xml_clear_elem(elem)\n", "            lex_id = elem.get('id')\n            xml_clear_elem(elem)\n            lexemes[lex_id] = _word_forms_from_xml_elem(elem)[1]\n"))
bug('A35', 'everything cleared', (PA, "            if elem.tag not in interesting_tags:\n                continue\n            yield ev, elem", "            yield ev, elem"), (PA, "            links.append(link_tuple)\n            xml_clear_elem(elem)\n", "            links.append(link_tuple)\n            xml_clear_elem(elem)\n        else:\n            xml_clear_elem(elem)\n"))
bug('A35', 'base grammemes of all', (PA, "    base_grammemes = _grammemes_from_elem(base_info[0])", "    base_grammemes = _grammemes_from_elem(elem)"))
bug('A35', 'grammemes of whole lemma', (PA, "        grammemes = _grammemes_from_elem(form_elem)", "        grammemes = _grammemes_from_elem(elem)"))
bug('A35', 'lexemes setdefault', (PA, "            lexemes[lex_id] = word_forms\n", "            if word_forms:\n                lexemes[lex_id] = word_forms\n"))
bug('A35', 'links deduplicated', (PA, "            links.append(link_tuple)\n", "            if link_tuple not in links:\n                links.append(link_tuple)\n"))
bug('A35', 'grammemes without parent', (PA, "            grammemes.append(grammeme)\n", "            if parent is not None:\n                grammemes.append(grammeme)\n"))
bug('A35', 'links of one type', (PA, "elem.get('type'),", "elem.get('id'),"))
bug('A35', 'start events', (PA, "        for ev, elem in iterparse(filename):", "        for ev, elem in iterparse(filename, events=(str('start'),)):"))
bug('A35', 'sorted grammemes', (PA, """",".join([g.get('v') for g in elem.iter('g')])""", """",".join(sorted([g.get('v') for g in elem.iter('g')]))"""))
same('A35', 'chain of elifs', (PA, "        if elem.tag == 'lemma':", "        elif elem.tag == 'lemma':"))
same('A35', 'no filter generator', (PA, "    for ev, elem in with_progress(_parse(filename), \"XML parsing\"):", "    for ev, elem in with_progress(iterparse(filename), \"XML parsing\"):"))
same('A35', 'clear once', (PA, "            grammemes.append(grammeme)\n            xml_clear_elem(elem)\n", "            grammemes.append(grammeme)\n"), (PA, "            lexemes[lex_id] = word_forms\n            xml_clear_elem(elem)\n", "            lexemes[lex_id] = word_forms\n"), (PA, "            links.append(link_tuple)\n            xml_clear_elem(elem)\n", "            links.append(link_tuple)\n        xml_clear_elem(elem)\n"))
same('A35', 'handlers', (PA, """            link_tuple = (
                elem.get('from'),
                elem.get('to'),
                elem.get('type'),
            )
            links.append(link_tuple)""", """            links.append(_link(elem))"""), (PA, "def _grammemes_from_elem", "def _link(elem):\n    return tuple(elem.get(name) for name in ('from', 'to', 'type'))\n\n\ndef _grammemes_from_elem"))
same('A35', 'find l', (PA, "    base_info = list(elem.iter('l'))\n\n    assert len(base_info) == 1\n    base_grammemes = _grammemes_from_elem(base_info[0])", "    base_grammemes = _grammemes_from_elem(elem.find('l'))"))
same('A35', 'attrib', (PA, "form_elem.get('t')", "form_elem.attrib['t']"))
same('A35', 'strip helper', (PA, '(base_grammemes + " " + grammemes).strip()', '" ".join(g for g in (base_grammemes, grammemes) if g)'))
same('A35', 'forms by comprehension', (PA, """        lexeme.append(
            (form, (base_grammemes + " " + grammemes).strip())
        )

    return lex_id, lexeme""", """        tag = base_grammemes + " " + grammemes
        lexeme += [(form, tag.strip())]

    return lex_id, lexeme"""))
