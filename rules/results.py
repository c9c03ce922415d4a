"""A31, A32: enumeration of known words, the type of results."""
from .config import *
from .records import dictionary_reads

SPEC = '''
def entries(d, unit, prefix):
    for word, (para_id, idx) in d.words.iteritems(prefix):
        tag = d.build_tag_info(para_id, idx)
        normal_form = d.build_normal_form(para_id, idx, word)
        yield (word, tag, normal_form, 1.0, ((unit, word, para_id, idx),))
'''
PREFIX = sym('prefix')


def first_unit(w, m):
    _, us = units_run(w, m, 'parse')
    if us is None:
        return None
    ds = [u[0] for u in us if u[0].op == 'inst' and w.v.obj(u[0]).cls.qualname.endswith('.DictionaryAnalyzer')]
    return ds[0] if len(ds) == 1 else None


def unwrap(t):
    """(type, fields) of a wrapped result."""
    if t.op == 'call' and not t.args[2]:
        f = t.args[0]
        a = t.args[1]
        if len(a) == 1 and a[0].op == 'star':
            return f, a[0].args[0]
        return f, mk('tuple', *a)
    return None, t


def unwrapped(s):
    """Sequence of wrapped results -> (set of types, sequence of tuples)."""
    types = set()
    out = []
    for e in s.args[1]:
        f, x = unwrap(e.value)
        types.add(f)
        out.append(Emission(e.binders, e.gate, x, e.kind, e.loc))
    return types, mk('seq', s.args[0], tuple(out), s.args[2], s.args[3])


def bound_type(v, t):
    """(bases, attributes) of a type made for one analyzer."""
    if t is None:
        return None
    if t.op == 'call' and t.args[0] is mk('ext', 'builtins.type') and len(t.args[1]) == 3 and t.args[1][1].op == 'tuple':
        d = t.args[1][2]
        if d.op in ('obj', 'objref'):
            d = v.snapshot(v.objs[d.args[0]])
        if d.op == 'dict' and all(x.kind == 'item' and not x.binders and x.gate == TRUE and ops.isstr(x.value.args[0])
                                  for x in d.args[0]):
            return t.args[1][1].args, dict((ops.cval(x.value.args[0]), x.value.args[1]) for x in d.args[0])
    if t.op == 'cls':
        k = v.classes[t.args[0]]
        return tuple(k.bases), dict((n, x.single()) for n, x in k.attrs.items())
    return None


def check_A31(rep):
    dictionary_reads(rep, ('tag', 'normal'))
    enumeration(rep, LANGS)


def enumeration(rep, langs):
    for lang in langs:
        for rt in (NONE, RT, None):
            w = analyzer_world()
            v = w.v
            rep.world = w
            kw = {} if rt is None else {'result_type': rt}
            m, _ = construct(w, path=const('/x'), lang=const(lang), probability_estimator_cls=NONE, **kw)
            plain, _ = construct(w, path=const('/x'), lang=const(lang), probability_estimator_cls=NONE, result_type=NONE)
            unit = first_unit(w, plain)
            label = '%s, %s' % (lang, 'plain tuples' if rt is NONE else 'default result type' if rt is None else
                                'given result type')
            d = v.get_attr(m, 'dictionary', None).single()
            if rt is not NONE:
                _, us = units_run_wrapped(w, m)
                unit = us
            else:
                unit = first_unit(w, m)
            for given, arg in (('with a prefix', (PREFIX,)), ('without a prefix', ())):
                r = w.call(m, 'iter_known_word_parses', *arg)
                name = 'every dictionary record %s is a parse (%s)' % (given, label)
                s = r.value.single()
                c = w.canon()
                fix(c, ops.is_none(RT), FALSE)
                cs = c.gv(r.value.under(r.gate)).single()
                if unit is None or d is None or cs is None or cs.op != 'seq':
                    rep.add(name, None, r.where, 'not resolved: %s' % pretty(c.gv(r.value), 300))
                    continue
                spec = w.run_spec(SPEC, 'entries', d, unit, arg[0] if arg else const(''))
                ss = c.gv(spec.value).single()
                types, cu = unwrapped(cs)
                rep.equal(name, r.where, cu, ss)
                bad = [e for e in r.raises if c.gate(e.gate, e.binders) != FALSE]
                rep.add('enumerating %s raises nothing (%s)' % (given, label), not bad or None, r.where, repr(bad)[:300])


def units_run_wrapped(w, m):
    """(None, dictionary unit) of an analyzer with a result type."""
    v = w.v
    r = w.call(m, 'parse', WORD)
    s = v.as_seq(r.value)
    if s.op != 'seq':
        return None, None
    found = set()
    for e in s.args[1]:
        for b in e.binders:
            it = strip_copy(b.args[1])
            if it.op == 'mcall' and it.args[1] == 'parse' and it.args[0].op == 'inst' and \
                    v.obj(it.args[0]).cls.qualname.endswith('.DictionaryAnalyzer'):
                found.add(it.args[0])
    return None, found.pop() if len(found) == 1 else None


APIS = [('parse', lambda: (WORD,)), ('get_lexeme', lambda: (FORM,)), ('iter_known_word_parses', lambda: (PREFIX,))]


def check_A32(rep):
    for rt, label in ((RT, 'given result type'), (None, 'default result type')):
        w = analyzer_world()
        v = w.v
        rep.world = w
        base = RT if rt is RT else v.lookup(P + 'analyzer.Parse').single()
        kw = {} if rt is None else {'result_type': rt}
        ms = []
        e0 = v.epoch
        for n in (1, 2):
            m, r = construct(w, path=const('/x'), lang=const('ru'), probability_estimator_cls=NONE, **kw)
            ms.append(m)
            bad = [e for e in r.effects if e.kind in ('setattr', 'delattr') and (
                e.payload[0] is base or e.payload[0].op == 'cls' and
                e.payload[0].args[0] in (P + 'analyzer.Parse', P + 'analyzer._Parse'))]
            rep.add('creating an analyzer leaves the result class alone (%s, %d)' % (label, n), not bad, r.where,
                    '; '.join('%s is assigned at %s:%s' % (e.payload[1], e.loc[0], e.loc[1]) for e in bad[:2]))
        for n, m in enumerate(ms, 1):
            d = v.get_attr(m, 'dictionary', None).single()
            for meth, args in APIS:
                r = w.call(m, meth, *args())
                c = w.canon()
                fix(c, ops.is_none(RT), FALSE)
                val = c.gv(r.value.under(r.gate)).single()
                name = '%s() returns parses of the %s bound to the analyzer (analyzer %d)' % (meth, label, n)
                if val is None or val.op != 'seq':
                    plain = [t for g, t in c.gv(r.value.under(r.gate)).alts if t.op == 'mcall' and t.args[1] == meth]
                    rep.add(name, False if plain else None, r.where, ('returns what the unit returned: %s' if plain else
                            'not resolved: %s') % pretty(c.gv(r.value), 300))
                    continue
                types, _ = unwrapped(val)
                ok, det = True, ''
                if not types:
                    ok, det = None, 'nothing is returned'
                for t in types:
                    bt = bound_type(v, t)
                    if bt is None:
                        u = t is not None and unresolved(t)
                        ok = ok and (None if u or t is not None else False)
                        det = 'an item is %s' % ('not of the result type' if t is None else 'made by %s' % pretty(t, 200))
                        continue
                    bases, attrs = bt
                    if base not in bases and ok is not False:
                        ok, det = False if not any(map(unresolved, bases)) else None, 'the type is derived from %s' % (bases,)
                    for n2, want in (('_morph', m), ('_dict', d)):
                        got = attrs.get(n2)
                        if got is not c.term(want) and ok is not False:
                            ok = None if got is not None and unresolved(got) else False
                            det = '%s of the result type is %s' % (n2, 'not set' if got is None else pretty(got, 200))
                rep.add(name, ok, r.where, det)
    # plain tuples
    w = analyzer_world()
    v = w.v
    m, r = construct(w, path=const('/x'), lang=const('ru'), probability_estimator_cls=NONE, result_type=NONE)
    for meth, args in APIS:
        r = w.call(m, meth, *args())
        c = w.canon()
        name = '%s() returns plain tuples when no result type is wanted' % meth
        val = c.gv(r.value.under(r.gate)).single()
        if val is None:
            rep.add(name, None, r.where, pretty(c.gv(r.value), 200))
            continue
        if val.op == 'seq':
            types, _ = unwrapped(val)
            bad = [t for t in types if t is not None]
            rep.add(name, not bad or (None if any(map(unresolved, bad)) else False), r.where, 'made by %s' % show(bad[0])[:200]
                    if bad else '')
        else:
            rep.add(name, True if val.op == 'mcall' and val.args[1] == meth else None, r.where, pretty(val, 200))
    # the fields of the default type are the fields of the tuples
    p = v.lookup(P + 'analyzer.Parse').single()
    fields = None
    for k in v.mro(v.classes[p.args[0]]) if p is not None and p.op == 'cls' else ():
        for b in (k.leaf,) + tuple(k.bases):
            if b.op == 'ntcls':
                fields = b.args[1]
        if k.fields:
            fields = k.fields
    want = ('word', 'tag', 'normal_form', 'score', 'methods_stack')
    rep.add('the fields of Parse are word, tag, normal_form, score, methods_stack in this order',
            None if fields is None else tuple(fields) == want, P + 'analyzer.Parse', str(fields))
    # methods of Parse work with the analyzer of the parse
    methods(rep)


def methods(rep):
    w = World(opaque=World.OPAQUE + [MA + '._inflect', MA + '.get_lexeme', DICT + '.word_is_known'])
    v = w.v
    k = v.cls(P + 'analyzer.Parse')
    p = sym('parse')
    v.types[p] = k
    d = sym('bound_dictionary')
    v.symattrs[(p, '_morph')] = gv(w.morph)
    v.symattrs[(p, '_dict')] = gv(d)
    c = w.canon()
    where = w.where(k, 'normalized')
    # normal form is of the type of the parse
    v.new_epoch()
    v.gate = TRUE
    x = v.get_attr(p, 'normalized', None)
    x = c.gv(v.snap_gv(x)).single()
    name = 'normalized gives a parse of the same type'
    if x is None or x.op not in ('call', 'mcall'):
        rep.add(name, False if x is not None and x.op == 'ntuple' and x.args[0].op == 'cls' else None, where, show(x)[:300] if x is not None else '?')
    else:
        if x.op == 'mcall':
            f = attr(x.args[0], x.args[1])
        else:
            f = x.args[0]
        ok = f is attr(p, '__class__') or f.op == 'call' and f.args[0] is mk('ext', 'builtins.type') and f.args[1] == (p,)
        rep.add(name, ok or (None if f.op != 'cls' else False), where, 'made by %s' % show(f)[:200])
    x = c.gv(v.snap_gv(v.get_attr(p, 'lexeme', None))).single()
    rep.add('lexeme asks the analyzer of the parse', True if x is not None and x.op == 'mcall' and x.args[:3] == (
        w.morph, 'get_lexeme', (p,)) else None, where, show(x)[:200] if x is not None else '')
