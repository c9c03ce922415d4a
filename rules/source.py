"""A19, A35: reading and preprocessing the source dictionary."""
from .common import *
from .compiling import has, increments, C, U, PARSED

PP = P + 'opencorpora_dict.preprocess.'
XML = P + 'opencorpora_dict.parse.'
REDUNDANT = {'loc1': 'loct', 'gen1': 'gent', 'acc1': 'accs'}
SKIP = sym('skip')


def as_term(x):
    if isinstance(x, GV):
        return x.single()
    return x


# ------------------------------------------------------------------ A19
def replacements(t):
    """x.replace(a, b).replace(c, d)... -> (x, [(a, b), (c, d)])"""
    out = []
    while t.op == 'mcall' and t.args[1] == 'replace' and len(t.args[2]) == 2 and not t.args[3] and \
            all(is_const(x) or x.op == 'const' for x in t.args[2]):
        out.append((t.args[2][0].args[0], t.args[2][1].args[0]))
        t = t.args[0]
    return t, out[::-1]


def canonical(t):
    """The tag of which t is the form without redundant grammemes; None when t is something else."""
    x, reps = replacements(t)
    return x if dict(reps) == REDUNDANT and len(reps) == len(REDUNDANT) else None


def base_of(t):
    return replacements(t)[0]


def split_set(t):
    """t is the set of the pieces of a tag -> the tag."""
    s = strip_set(t)
    while s.op == 'seq' and len(s.args[1]) == 1 and not s.args[2] and not s.args[3]:
        e = s.args[1][0]
        if len(e.binders) != 1 or e.gate != TRUE or e.value is not elem(e.binders[0]) or BINDER_STOP.get(e.binders[0]):
            return None
        s = strip_set(e.binders[0].args[1])
    if s.op == 'mcall' and s.args[1] == 'split' and not s.args[3]:
        x = s.args[0]
        if x.op == 'mcall' and x.args[1] == 'replace' and x.args[2][:2] == (const(' '), const(',')):
            x = x.args[0]
        return x
    return None


def key_of(t):
    """t is a key of a table -> (table, what is done to the key)."""
    t = strip_copy(t)
    if t.op == 'idx' and t.args[1] is const(0):
        d = item_of(t.args[0], 'items')
        if d is not None:
            return d
    return item_of(t, 'keys')


def item_of(t, what):
    """t is an item of X.items() / X.keys() / X, possibly after sorting, slicing and choosing -> X"""
    for _ in range(12):
        if t.op in ('elem', 'index'):
            t = strip_copy(t.args[0].args[1]) if t.op == 'elem' else None
            if t is None:
                return None
        elif t.op == 'idx' and ops.isnum(t.args[1]):
            t = strip_copy(t.args[0])
        elif t.op in ('max', 'min', 'slice', 'sorted', 'copy', 'listof', 'tupleof', 'reversed'):
            t = t.args[0]
        elif t.op == 'seq' and len(t.args[1]) == 1 and not t.args[3] and len(t.args[1][0].binders) == 1:
            t = t.args[1][0].value
        elif t.op == 'mcall' and t.args[1] == what and not t.args[2]:
            return t.args[0]
        elif t.op == 'mcall' and t.args[1] == 'iter' + what and not t.args[2]:
            return t.args[0]
        elif what == 'keys':
            return t
        else:
            return None
    return None


def table(t):
    """Same item of a table whatever version of the table."""
    if t.op == 'idx' and t.args[0].op in ('cur', 'objref', 'at', 'obj'):
        return (t.args[0].args[0], t.args[1])
    return None


def check_A19(rep):
    w = World()
    v = w.v
    rep.world = w
    canon_rule(rep)
    sets_rule(rep)
    f = PP + 'simplify_tags'
    if not has(w, f):
        rep.add('tags are replaced form by form', None, f, 'not found')
        return
    with w.under(B.not_(A('noimport', 'tqdm'))):
        r = w.func(f, PARSED, SKIP)
    lex = attr(PARSED, 'lexemes')
    outer = [e for e in r.effects if not local(v, e)]
    sets = [e for e in outer if e.kind == 'setitem' and strip_copy(e.payload[0]) is lex]
    rep.add('lexemes are changed only by replacing their forms', len(sets) == len(outer) and len(sets) == 1 or None,
            r.where, ', '.join(sorted(set(e.kind for e in outer))))
    if len(sets) != 1:
        rep.add('every lexeme is rewritten', None, r.where, '%d assignments' % len(sets))
        return
    e = sets[0]
    key, val = as_term(e.payload[1]), e.payload[2]
    s = v.as_seq(val if isinstance(val, GV) else gv(val))
    gate = B.constrain(e.gate, B.not_(A('noimport', 'tqdm')))
    whole = len(e.binders) == 1 and key is not None and gate == TRUE and not BINDER_STOP.get(e.binders[0]) and (
        strip_copy(e.binders[0].args[1]) is lex and key is elem(e.binders[0]) or
        key is idx(elem(e.binders[0]), const(0)) and item_of(elem(e.binders[0]), 'items') is lex)
    bad = len(e.binders) == 1 and (gate != TRUE or BINDER_STOP.get(e.binders[0])) and strip_copy(e.binders[0].args[1]) is lex
    rep.add('every lexeme is rewritten', True if whole else False if bad and not foreign(mk('x', Gate(gate))) else None,
            r.where, 'only under the condition %s' % show_gate(gate) if bad else pretty(mk('x', e.binders), 300))
    src = [idx(lex, key)] if key is not None else []
    if key is not None and key.op == 'idx':
        src.append(idx(key.args[0], const(1)))
    name = 'no form is added or dropped, words are kept'
    if s.op != 'seq' or s.args[3] or s.args[2]:
        rep.add(name, None, r.where, pretty(s, 300))
        return
    ems = [x for x in s.args[1] if x.gate != FALSE]
    verdict, why, total = True, '', FALSE
    tags = []
    for x in ems:
        if len(x.binders) != 1 or strip_copy(x.binders[0].args[1]) not in src or x.value.op != 'tuple' or len(x.value.args) != 2:
            verdict, why = None, pretty(mk('x', x.value, x.binders), 300)
            break
        if x.binders[0] is not ems[0].binders[0]:
            verdict, why = None, 'several loops'
            break
        b = x.binders[0]
        total = B.or_(total, x.gate)
        if x.value.args[0] is not idx(elem(b), const(0)):
            u = foreign(x.value.args[0])
            verdict, why = None if u else False, 'the word becomes %s' % pretty(x.value.args[0], 200)
        tags.append((b, x.value.args[1], x))
        if BINDER_STOP.get(b):
            verdict, why = False, 'the loop over the forms may end early'
    if verdict and not ems:
        verdict, why = False, 'no form is kept'
    elif verdict and total != TRUE:
        verdict, why = (None if foreign(mk('x', Gate(total))) else False), 'a form is kept only if %s' % show_gate(total)
    rep.add(name, verdict, r.where, why)
    replaced(rep, w, r, tags)


def local(v, e):
    """Change of something created by this call."""
    t = e.payload[0]
    while isinstance(t, T) and t.op in ('idx', 'attr'):
        t = t.args[0]
    return isinstance(t, T) and t.op in ('obj', 'objref', 'cur', 'at')


def replaced(rep, w, r, tags):
    v = w.v
    name = 'the new tag is the tag without redundant grammemes or what replaces it'
    tables = []
    verdict, why = True, '' if tags else 'no tags'
    if not tags:
        verdict = None
    for b, t, x in tags:
        alts = [y for g, y in t.args[0]] if t.op == 'phi' else [t]
        for y in alts:
            y = strip_copy(y)
            own = idx(elem(b), const(1))
            if canonical(y) is own:
                continue
            if y.op == 'idx' and canonical(y.args[1]) is own:
                tables.append((y.args[0], 'canonical'))
                continue
            if y.op == 'idx' and y.args[1] is own:
                tables.append((y.args[0], 'raw'))
                continue
            z, reps = replacements(y)
            if z.op == 'idx' and dict(reps) == REDUNDANT and (canonical(z.args[1]) is own or z.args[1] is own):
                tables.append((z.args[0], 'cleaned'))
                continue
            verdict = False if not unresolved(y) and not foreign(y) else None
            why = 'the tag becomes %s' % pretty(y, 300)
    rep.add(name, verdict, r.where, why)
    name = 'a tag is replaced by another spelling of the same grammemes'
    seen = set()
    incs = increments(v, r)
    for t, how in tables:
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('objref', 'obj') and v.objs[t.args[0]].kind == 'dict':
            t = v.snapshot(v.objs[t.args[0]])
        n = [t] if t.op == 'dict' else []
        if not n:
            rep.add(name, None, r.where, pretty(t, 300))
            continue
        ems = n[0].args[0]
        if not ems:
            rep.add(name, None, r.where, 'nothing is replaced')
        for x in ems:
            if x.kind != 'item' or x.value.op != 'tuple':
                rep.add(name, None, r.where, pretty(x.value, 200))
                continue
            old, new = x.value.args
            kept = new.op == 'mcall' and canonical(new) is not None
            ko, kn = key_of(canonical(old) or old), key_of(canonical(new) or new)
            to, tn = ko is not None and table(ko), kn is not None and table(kn)
            if not to or not tn:
                u = foreign(mk('x', old, new)) or unresolved(mk('x', old, new))
                rep.add(name, None, where(x, r), '%s is replaced by %s' % (pretty(old, 200), pretty(new, 200)))
                continue
            rep.add(name, to == tn, where(x, r), '%s is replaced by %s, which comes from other grammemes' % (
                pretty(old, 200), pretty(new, 200)))
            spelled(rep, v, r, to, incs, kept or how == 'cleaned')


def where(e, r):
    return '%s (%s)' % (r.where, '%s:%s' % e.loc[:2]) if e.loc else r.where


def spelled(rep, v, r, tab, incs, kept):
    """The spellings listed under one key have the same set of grammemes, none of them redundant."""
    mine = [x for x in incs if x[0] == tab[0]]
    name = 'spellings listed together have the same set of grammemes'
    name2 = 'no redundant grammeme is brought back by a replacement'
    if not mine:
        rep.add(name, None, r.where, 'no spellings found')
        return
    for oid, keys, e, by in mine:
        if keys is None or len(keys) != 2:
            rep.add(name, None, where(e, r), 'spellings are not counted as expected')
            continue
        sp = split_set(keys[0])
        base = base_of(keys[1])
        if sp is not None and base_of(sp) is base:
            ok = True
        else:
            ok = None if unresolved(keys[0]) or foreign(keys[0]) else False
        rep.add(name, ok, where(e, r), 'the spelling %s is listed under %s' % (pretty(keys[1], 200), pretty(keys[0], 200)))
        good = canonical(keys[1]) is not None or kept
        rep.add(name2, good or (None if foreign(keys[1]) or unresolved(keys[1]) else False), where(e, r),
                'the spelling %s may contain loc1, gen1 or acc1' % pretty(keys[1], 200))


def canon_rule(rep):
    w = World()
    f = PP + 'replace_redundant_grammemes'
    name = 'redundant case grammemes are replaced by their canonical ones'
    if not has(w, f):
        rep.add(name, None, f, 'not found')
        return
    r = w.func(f, sym('tag'))
    for g, t in r.value.alts:
        t = strip_copy(t)
        x, reps = replacements(t)
        if x is sym('tag'):
            bad = [p for p in reps if REDUNDANT.get(p[0]) != p[1]] + [p for p in REDUNDANT.items() if p not in reps]
            rep.add(name, not bad, r.where, 'replacements %s' % ', '.join('%s by %s' % p for p in reps))
        elif t.op in ('idx',) and t.args[1] is sym('tag'):
            continue        # remembered value
        else:
            rep.add(name, None, r.where, pretty(t, 300))


def sets_rule(rep):
    """The grammeme set of a tag is that of its canonical form (used for the counts of A20 as well)."""
    w = World()
    f = PP + 'tag2grammemes'
    name = 'the grammemes of a tag are the pieces of its canonical form'
    if not has(w, f):
        rep.add(name, None, f, 'not found')
        return
    r = w.func(f, sym('tag'))
    for g, t in r.value.alts:
        sp = split_set(t)
        if t.op == 'idx' and t.args[1] is sym('tag'):
            continue
        if sp is not None and base_of(sp) is sym('tag'):
            x, reps = replacements(sp)
            rep.add(name, canonical(sp) is not None, r.where, 'replacements %s' % ', '.join('%s by %s' % p for p in reps))
        else:
            rep.add(name, None, r.where, pretty(t, 300))


def check_A19_order(rep):
    """Every dictionary that is compiled was simplified before."""
    names = [PP + 'simplify_tags', PP + 'drop_unsupported_parses', XML + 'parse_opencorpora_xml', C + 'compile_parsed_dict',
             P + 'opencorpora_dict.storage.save_compiled_dict', C + '_create_out_path']
    w = World(opaque=World.OPAQUE + names)
    f = C + 'convert_to_pymorphy2'
    name = 'tags are simplified before the dictionary is compiled'
    if not has(w, f, *names[:4]):
        rep.add(name, None, f, 'not found')
        return
    r = w.func(f, *[sym(x) for x in ('source', 'out', 'name', 'language', 'overwrite', 'options')])

    def calls(q):
        return [e for e in r.calls if e.payload[0] is mk('global', q)]
    comp, simp = calls(names[3]), calls(names[0])
    if not comp:
        rep.add(name, None, r.where, 'no call of compile_parsed_dict')
    for e in comp:
        d = first(e)
        good = FALSE
        for x in simp:
            if first(x) is d and d is not None and x.seqno < e.seqno and not x.binders:
                good = B.or_(good, x.gate)
        ok = B.implies(e.gate, good)
        rep.add(name, ok or (None if d is None or foreign(d) else False), where(e, r),
                'compile_parsed_dict(%s) is reached under %s, simplify_tags under %s' % (
                    pretty(d, 80) if d is not None else '?', show_gate(e.gate), show_gate(good)))


def first(e):
    args, kw = e.payload[1], dict(e.payload[2])
    x = args[0] if args else kw.get('parsed_dict')
    return as_term(x) if x is not None else None


# ------------------------------------------------------------------ A35
XML_SPEC = '''
def parse(events):
    links = []
    lexemes = {}
    grammemes = []
    for ev, elem in events:
        if elem.tag == 'grammeme':
            grammemes.append((elem.find('name').text, elem.get('parent'), elem.find('alias').text,
                              elem.find('description').text))
        elif elem.tag == 'lemma':
            lexemes[elem.get('id')] = forms(elem)
        elif elem.tag == 'link':
            links.append((elem.get('from'), elem.get('to'), elem.get('type')))
    return lexemes, links, grammemes

def tags(elem):
    return ",".join([g.get('v') for g in elem.iter('g')])

def forms(elem):
    if len(elem) == 0:
        return []
    base = tags(list(elem.iter('l'))[0])
    for f in elem.iter('f'):
        if not base + tags(f):
            return []
    return [(f.get('t').lower(), (base + ' ' + tags(f)).strip()) for f in elem.iter('f')]
'''
EVENTS = sym('events')


def xml_rw(t):
    """Other ways to read an element."""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].endswith('.iterparse') and t.args[1]:
        ev = dict(t.args[2]).get('events')
        ev = ev or (t.args[1][1] if len(t.args[1]) > 1 else None)
        if ev is None or ev.op == 'tuple' and ev.args == (const('end'),):
            return EVENTS
    if t.op == 'mcall' and t.args[1] in ('findall', 'iterfind', 'getiterator') and len(t.args[2]) == 1 and \
            t.args[2][0] in (const('f'), const('l'), const('g')):
        return mk('mcall', t.args[0], 'iter', t.args[2], t.args[3])
    if t.op == 'mcall' and t.args[1] == 'find' and t.args[2] in ((const('l'),), (const('f'),)):
        return idx(mk('mcall', t.args[0], 'iter', t.args[2], t.args[3]), const(0))
    if t.op == 'mcall' and t.args[1] == 'findtext' and len(t.args[2]) == 1:
        return attr(mk('mcall', t.args[0], 'find', t.args[2], ()), 'text')
    if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'attrib':
        return mcall(t.args[0].args[0], 'get', (t.args[1], NONE))
    if t.op == 'mcall' and t.args[1] == 'get' and t.args[0].op == 'attr' and t.args[0].args[1] == 'attrib':
        return mk('mcall', t.args[0].args[0], 'get', t.args[2] if len(t.args[2]) > 1 else t.args[2] + (NONE,), t.args[3])
    return None


def bytes_atom(a):
    """Attributes are text in Python 3."""
    if a.op == 'isinstance' and 'bytes' in repr(a.args[1]):
        return FALSE
    return None


def parsers():
    lxml, c = A('noimport', 'lxml.etree'), A('noimport', 'xml.etree.cElementTree')
    return [('lxml', B.not_(lxml)), ('ElementTree', B.and_(lxml, c))]


def is_tag(a):
    """elem.tag == constant -> the constant"""
    if a.op == 'cmp' and a.args[0] == '==':
        for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
            if x.op == 'attr' and x.args[1] == 'tag' and y.op == 'const':
                return y.args[0]
    return None


def case(kind, full, parts=(True, True)):
    """Events of elements of one kind, with or without children, all of whose forms have some grammeme."""
    def f(a):
        k = is_tag(a)
        if k is not None:
            return TRUE if k == kind else FALSE
        if a.op == 'truthy' and a.args[0].op == 'idx' and a.args[0].args[1] is const(1):
            return TRUE if full else FALSE
        if a.op == 'truthy' and a.args[0].op == 'add' and all(x.op == 'join' for x in a.args[0].args):
            return TRUE
        if a.op == 'truthy' and a.args[0].op == 'join' and a.args[0].args[0] is const(','):
            # (raw term)
            return TRUE if parts[0 if is_base(a.args[0]) else 1] else FALSE
        return bytes_atom(a)
    return f


CASES = [
    ('every lexeme is kept under its id with all of its forms', 'lexemes', 'lemma', True),
    ('forms without grammemes of their own are kept', 'lexemes', 'lemma', (True, False)),
    ('forms of lexemes without common grammemes are kept', 'lexemes', 'lemma', (False, True)),
    ('a lexeme without forms is kept as an empty list', 'lexemes', 'lemma', False),
    ('every link is kept with its ends and type, in order', 'links', 'link', False),
    ('every grammeme is kept with parent, aliases and order', 'grammemes', 'grammeme', True),
    ('links are not stored as lexemes', 'lexemes', 'link', False),
    ('lexemes are not stored as links', 'links', 'lemma', True),
    ('other elements are not stored', 'grammemes', 'restr', True),
]


def check_A35(rep):
    f = XML + 'parse_opencorpora_xml'
    for label, gate in parsers():
        w = World()
        rep.world = w
        if not has(w, f):
            rep.add('the source dictionary is read completely', None, f, 'not found')
            return
        g = B.and_(gate, B.not_(A('noimport', 'tqdm')))
        with w.under(g):
            r = w.func(f, sym('file'))
        spec = w.run_spec(XML_SPEC, 'parse', EVENTS).value.single()
        for name, field, kind, full in CASES:
            parts = full if isinstance(full, tuple) else (True, True)
            c = w.canon(rewrites=[xml_rw, tag_rw(*parts)])
            c.assume.append(lambda a: imports(a, g))
            c.assume.append(case(kind, bool(full), parts))
            i = ('lexemes', 'links', 'grammemes').index(field)
            x = c.gv(r.value.map(lambda t: field_of(w, t, field)).under(g))
            y = c.gv(gv(w.v.snap_if_fresh(spec.args[i])))
            cond = filtered(x)
            if cond is not None:
                rep.add('%s (%s)' % (name, label), False, r.where, 'stored depending on %s' % pretty(cond, 200))
            else:
                rep.equal('%s (%s)' % (name, label), r.where, x, y)
        starts(rep, w, r, label)


def starts(rep, w, r, label):
    """Elements are complete when they are read."""
    for e in r.calls:
        q = e.payload[0]
        if q.op != 'ext' or not q.args[0].endswith('.iterparse'):
            continue
        t = e.payload[3]
        t = t.single() if isinstance(t, GV) else t
        ev = dict(t.args[2]).get('events') if isinstance(t, T) and t.op == 'call' else None
        stored = [x for x in r.calls if x.payload[0].op == 'attr' and x.payload[0].args[1] in ('find', 'iter', 'findall') and
                  any(y is t for b in x.binders for y in subterms(b.args[1]))]
        if ev is not None and ev.op == 'tuple' and stored:
            rep.add('elements are read when they are complete (%s)' % label, const('end') in ev.args, where(e, r),
                    'children are read at the events %s' % pretty(ev, 100))


def is_base(t):
    return t.op == 'join' and any(x.op == 'mcall' and x.args[1] == 'iter' and x.args[2] == (const('l'),) for x in subterms(t))


def tag_rw(base, own):
    """Which of the two parts of a tag are empty; the parts contain no spaces at their ends."""
    def rw(t):
        if t.op == 'join' and t.args[0] is const(','):
            if not (base if is_base(t) else own):
                return const('')
        if t.op == 'join' and t.args[1].op in ('seq', 'tuple') and t.args[0].op == 'const':
            ps = plain(t.args[1])
            if ps is not None:
                r = None
                for p in ps:
                    r = p if r is None else ops.add(ops.add(r, t.args[0]), p)
                return strip_text(r) if r is not None else const('')
        if t.op == 'mcall' and t.args[1] == 'strip' and (not t.args[2] or t.args[2] == (const(' '),)):
            return strip_text(t.args[0])
        return None
    return rw


def plain(t):
    if t.op == 'tuple':
        return t.args
    if t.args[2] or t.args[3]:
        return None
    if all(not e.binders and e.gate in (TRUE, FALSE) and e.kind == 'item' for e in t.args[1]):
        return [e.value for e in t.args[1] if e.gate == TRUE]
    return None


def strip_text(t):
    parts = list(t.args) if t.op == 'add' else [t]
    if not all(p.op == 'join' or p.op == 'const' and isinstance(p.args[0], str) for p in parts):
        return None
    while parts and parts[0].op == 'const' and not parts[0].args[0].strip():
        parts = parts[1:]
    while parts and parts[-1].op == 'const' and not parts[-1].args[0].strip():
        parts = parts[:-1]
    r = const('')
    for n, p in enumerate(parts):
        r = p if n == 0 else ops.add(r, p)
    return r


def filtered(x):
    """Something is stored only if it is not among what was stored before."""
    for t in terms_of(x):
        for s in subterms(t):
            if s.op in ('in', 'cexists') and any(y.op == 'selfref' for y in subterms(s)):
                return s
    return None


def terms_of(x):
    out = []
    for g, t in x.alts:
        out.append(t)
        out += B.support_atoms(g)
    return out


def imports(a, g):
    if a.op != 'noimport':
        return None
    if B.implies(g, B.atom(a)):
        return TRUE
    return FALSE if B.implies(g, B.not_(B.atom(a))) else None


def field_of(w, t, field):
    if t.op == 'ntuple' and field in t.args[2]:
        return w.v.snap_if_fresh(t.args[1][t.args[2].index(field)])
    return mk('top', 'field ' + field)


PARTS = ('g', 'l', 'f', 'name', 'alias', 'description')


def check_A35_release(rep):
    """Elements are emptied after they were read, and never before the element they are part of is complete."""
    f = XML + 'parse_opencorpora_xml'
    for label, cond in parsers():
        w = World()
        v = w.v
        if not has(w, f):
            return
        g = B.and_(cond, B.not_(A('noimport', 'tqdm')))
        with w.under(g):
            r = w.func(f, sym('file'))
        name = 'elements are emptied after everything was read from them (%s)' % label
        name2 = 'parts of an element are not emptied before it is complete (%s)' % label
        clears = [e for e in r.effects if e.kind == 'mutate' and not local(v, e)]
        if not clears:
            rep.add(name, True, r.where, '')
            continue
        for e in clears:
            el = e.payload[0]
            if e.payload[1] in ('delitem', const('delitem')):
                continue
            b = element(el)
            if b is None or 'clear' not in repr(e.payload[1]):
                rep.add(name, None, where(e, r), 'change of %s' % pretty(el, 200))
                continue
            bad = [k for k in PARTS if kind_gate(e.gate, el, k) != FALSE]
            sure = [k for k in bad if B.implies(g, kind_gate(e.gate, el, k))]
            rep.add(name2, not bad or (False if sure else None), where(e, r),
                    'elements <%s> are emptied when they end' % '>, <'.join(bad))
            reads = [x for x in r.calls if x.payload[0].op == 'attr' and
                     x.payload[0].args[1] in ('get', 'find', 'findall', 'iter', 'findtext', 'items', 'keys', 'iterfind') and
                     root(x.payload[0].args[0]) is el and
                     any(B.and_(kind_gate(x.gate, el, k), kind_gate(e.gate, el, k)) != FALSE
                         for k in ('grammeme', 'lemma', 'link'))]
            late = [x for x in reads if x.seqno > e.seqno]
            if not reads:
                rep.add(name, None, where(e, r), 'emptied elsewhere than read')      # e.g. in a generator
                continue
            rep.add(name, not late, where(e, r), '%s is called afterwards' % (pretty(late[0].payload[0], 200) if late else ''))
        dels = [e for e in r.effects if e.kind in ('delitem', 'mutate') and e not in [x for x in clears if 'clear' in repr(x.payload[1])]
                and not local(v, e)]
        name = 'only elements that precede a finished one are removed from the tree (%s)' % label
        for e in dels:
            t = e.payload[0]
            if not (isinstance(t, T) and t.op == 'mcall' and t.args[1] == 'getparent'):
                rep.add(name, None, where(e, r), repr(e.payload[:2])[:200])
                continue
            prev = A('isnone', mk('mcall', t.args[0], 'getprevious', (), ()))
            rep.add(name, B.implies(e.gate, B.not_(prev)) and const(0) in [as_term(x) for x in flat(e.payload)] or None,
                    where(e, r), show_gate(e.gate))


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def element(t):
    """The element of a parser event -> its binder."""
    if t.op == 'idx' and t.args[1] is const(1) and t.args[0].op == 'elem':
        return t.args[0].args[0]
    return None


def root(t):
    while True:
        if element(t) is not None and 'iterparse' in repr(element(t).args[1])[:80]:
            return t
        if t.op == 'elem':
            t = t.args[0].args[1]
        elif t.op in ('idx', 'attr', 'mcall', 'copy', 'slice'):
            t = t.args[0]
        elif t.op == 'seq' and len(t.args[1]) == 1 and len(t.args[1][0].binders) == 1:
            t = t.args[1][0].binders[0].args[1]
        else:
            return t


def kind_gate(g, el, kind):
    return ops.subst_gate(g, {attr(el, 'tag'): const(kind)})
