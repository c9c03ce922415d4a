"""A05, A04, A28, A21, A01, A03: what the analyzer units emit."""
from .common import *
from pmlint.carried import STATE

SPEC = '''
from pymorphy2.units import DictionaryAnalyzer, KnownSuffixAnalyzer
from pymorphy2.dawg import PrefixMatcher

def dict_entries(d, unit, word, subs):
    for fixed, entries in d.words.similar_items(word, subs):
        for para, idx in entries:
            yield (fixed, d.build_tag_info(para, idx), d.build_normal_form(para, idx, fixed),
                   ((unit, fixed, para, idx),))

def p_DictionaryAnalyzer(d, unit, word, wl, anypos):
    for e in dict_entries(d, unit, wl, unit.morph.char_substitutes):
        yield e

def p_HyphenSeparatedParticleAnalyzer(d, unit, word, wl, anypos):
    for part in unit.particles_after_hyphen:
        if wl.endswith(part):
            for w, tag, nf, score, stack in unit.morph.parse(wl[:-len(part)]):
                yield (w + part, tag, nf + part, stack + ((unit, part),))

def p_HyphenAdverbAnalyzer(d, unit, word, wl, anypos):
    yield (wl, unit.morph.TagClass('ADVB'), wl, ((unit, word),))

def p_HyphenatedWordsAnalyzer(d, unit, word, wl, anypos):
    left = wl.split('-', 1)[0]
    right = wl.split('-', 1)[1]
    for w, tag, nf, score, stack in unit.morph.parse(right):
        yield (left + '-' + w, tag, left + '-' + nf, ((unit, left, stack),))
    for l in unit.morph.parse(left):
        for r in unit.morph.parse(right):
            yield (l[0] + '-' + r[0], l[1], l[2] + '-' + r[2], ((unit, l[4], r[4]),))

def prefixed(unit, prefix, parses):
    for w, tag, nf, score, stack in parses:
        yield (prefix + w, tag, prefix + nf, stack + ((unit, prefix),))

def p_KnownPrefixAnalyzer(d, unit, word, wl, anypos):
    for prefix in PrefixMatcher(unit.known_prefixes).prefixes(wl):
        for e in prefixed(unit, prefix, unit.morph.parse(wl[len(prefix):])):
            yield e

def p_UnknownPrefixAnalyzer(d, unit, word, wl, anypos):
    inner = DictionaryAnalyzer()
    inner.init(unit.morph)
    for i in anypos:
        for w, tag, nf, stack in dict_entries(d, inner, wl[i:], unit.morph.char_substitutes):
            yield (wl[:i] + w, tag, wl[:i] + nf, stack + ((unit, wl[:i]),))

def p_KnownSuffixAnalyzer(d, unit, word, wl, anypos):
    inner = KnownSuffixAnalyzer.FakeDictionary()
    inner.init(unit.morph)
    for pid, prefix in reversed(list(enumerate(d.paradigm_prefixes))):
        if wl.startswith(prefix):
            for i in anypos:
                for end, entries in d.prediction_suffixes_dawgs[pid].similar_items(wl[-i:], unit.morph.char_substitutes):
                    for cnt, para, idx in entries:
                        fixed = wl[:-i] + end
                        yield (fixed, d.build_tag_info(para, idx), d.build_normal_form(para, idx, fixed),
                               ((inner, fixed, para, idx), (unit, end)))

def p_UnknAnalyzer(d, unit, word, wl, anypos):
    yield (wl, unit.morph.TagClass('UNKN'), wl, ((unit, word),))
'''

ANYPOS = sym('anypos')
SHAPE = ['NumberAnalyzer', 'PunctuationAnalyzer', 'RomanNumberAnalyzer', 'LatinAnalyzer', 'AbbreviatedFirstNameAnalyzer',
         'AbbreviatedPatronymicAnalyzer']


def emitted(w, name, meth='parse'):
    u = w.unit(name)
    r = w.call(u, meth, WORD, WL, SEEN)
    return u, r, w.v.as_seq(r.value)


@both_modes
def check_A05(rep):
    w = World()
    v = w.v
    rep.world = w
    D = v.get_attr(w.morph, 'dictionary', None)
    for name, _ in UNITS:
        u, r, s = emitted(w, name)
        c = w.canon()
        c.assume.append(unseen)
        label = '%s.parse emits the documented word, tag, normal form and derivation' % name
        if name in SHAPE:
            x = its = items(c, proj_items(s, 0, 2, 4)) if s.op == 'seq' else None
            want = c.term(mk('tuple', WL, WL, mk('tuple', mk('tuple', u, WORD))))
            ok = None if x is None else all(same(e.value, want) for e in its)
            rep.add(label, ok, r.where, '' if ok else pretty(s, 300))
            continue
        spec = v.as_seq(w.run_spec(SPEC, 'p_' + name, D, u, WORD, WL, ANYPOS).value)
        included(rep, label, r.where, c, proj_items(s, 0, 1, 2, 4), spec,
                 {ANYPOS: positive})


# ------------------------------------------------------------------ A04
def as_parse(s):
    """Loops over tags of a delegate become loops over its parses (each delegate satisfies the property itself)."""
    def loop(it):
        it = strip_copy(it)
        if it.op == 'mcall' and it.args[1] == 'similar_item_values':
            return mk('mcall', it.args[0], 'similar_items', it.args[2], it.args[3]), const(1)
        if it.op == 'mcall' and it.args[1] == 'tag' and len(it.args[2]) in (1, 3):
            return mk('mcall', it.args[0], 'parse', it.args[2], it.args[3]), const(1)
        return None
    out = []
    for e in s.args[1]:
        m = {}
        bs = []
        for b in e.binders:
            nb = subst(b, m) if m else b
            r = loop(nb.args[1])
            if r is not None:
                nb2 = new_binder(r[0])
                if BINDER_STOP.get(b):
                    BINDER_STOP[nb2] = BINDER_STOP[b]
                m[b] = nb2
                m[elem(b)] = idx(elem(nb2), r[1])
                m[mk('index', b)] = mk('index', nb2)
                nb = nb2
            elif nb is not b:
                m[b], m[elem(b)], m[mk('index', b)] = nb, elem(nb), mk('index', nb)
                if BINDER_STOP.get(b):
                    BINDER_STOP[nb] = [ops.subst_gate(g, m) for g in BINDER_STOP[b]]
            bs.append(nb)
        if m:
            e = Emission(bs, ops.subst_gate(e.gate, m), subst(e.value, m), e.kind, e.loc)
        out.append(e)
    return seq(s.args[0], out, s.args[2], s.args[3])


def counted(v):
    """
    'the count of this key went over its initial value' = some item was counted; counts stored in the prediction data
    are positive (A33).
    """
    def f(a, env):
        if a.op != 'cmp' or a.args[0] not in ('<', '==') or len(a.args) != 3:
            return None
        x, y = a.args[1:]
        neg = False
        if a.args[0] == '==':
            if ops.isnum(y):
                x, y = y, x
            neg = True
        if not ops.isnum(x) or y.op != 'idx' or y.args[0].op not in ('cur', 'at'):
            return None
        ob = v.objs[y.args[0].args[0]]
        key = y.args[1]
        out = FALSE
        init = False
        for e in ob.events:
            if e.kind == 'item' or e.kind == 'setitem' and e.payload[1].single() is x:
                s = e.payload[-1 if e.kind == 'item' else 1].single()
                if s is not x:
                    return None
                init = True
                continue
            if e.kind != 'setitem' or len(e.binders) <= len(env):
                return None
            m = {}
            for p, q in zip(e.binders, env):
                if p is not q:
                    m[p], m[elem(p)], m[mk('index', p)] = q, elem(q), mk('index', q)
            k2 = e.payload[0].single()
            if k2 is None or subst(k2, m) is not key:
                return None
            for g, t in e.payload[1].alts:
                if t.op != 'add' or not any(z.op == 'idx' and z.args[0].op in ('cur', 'at') and
                                            z.args[0].args[0] == ob.oid for z in t.args):
                    return None
                g = B.and_(g, e.gate)
                bs = [subst(z, m) if m else z for z in e.binders[len(env):]]
                out = B.or_(out, ops.exists(bs, ops.subst_gate(g, m) if m else g))
        if ob.default is not None and ops.isnum(x) and ops.cval(x) == 0:
            init = True
        if not init:
            return None
        return B.not_(out) if neg else out
    return f


def tag_table(c, s):
    """{(loops, tag): (gate, stops)}"""
    out = {}
    for e in s.args[1]:
        x = c.emission(e, ())
        if x.gate == FALSE:
            continue
        k = (strip_stops(x.binders), x.value)
        stops = []
        for l, b in enumerate(x.binders):
            st = b.args[2].g
            for at in B.support_atoms(st):
                if deepest(at) <= l:
                    if B.implies(x.gate, B.atom(at)):
                        st = B.constrain(st, B.atom(at))
                    elif B.implies(x.gate, B.not_(B.atom(at))):
                        st = B.constrain(st, B.not_(B.atom(at)))
            stops.append(st)
        if k in out:
            g0, st0 = out[k]
            out[k] = (B.or_(g0, x.gate), [B.or_(p, q) for p, q in zip(st0, stops)])
        else:
            out[k] = (x.gate, stops)
    return out


def deepest(t):
    m = -1
    for x in subterms(t):
        if x.op in ('celem', 'cindex') and isinstance(x.args[0], int):
            m = max(m, x.args[0])
    return m


def compare_tags(rep, name, where, ta, tb):
    """tables of parse() and tag()"""
    if ta == tb:
        rep.add(name, True, where)
        return
    unk = []
    for t in (ta, tb):
        for (bs, val), (g, st) in t.items():
            unk += unresolved(mk('x', bs, val, Gate(g), tuple(Gate(x) for x in st)))
    firsts = [any(x.op in ('firstof', 'lastof') for (bs, val), (g, st) in t.items()
                  for x in subterms(mk('x', bs, val, Gate(g)))) for t in (ta, tb)]
    if firsts[0] != firsts[1]:
        # one asks for the first item, the other stops a loop after it: the two forms are not compared
        unk.append(None)
    msgs = []
    for k in sorted(set(ta) | set(tb), key=lambda k: (len(k[0]), k[1].uid)):
        if k not in tb:
            msgs.append('tag %s (loops %s) is produced by parse only' % (pretty(k[1], 160), pretty(k[0], 200)))
        elif k not in ta:
            msgs.append('tag %s (loops %s) is produced by tag only' % (pretty(k[1], 160), pretty(k[0], 200)))
        elif ta[k] != tb[k]:
            if ta[k][0] != tb[k][0]:
                msgs.append('tag %s: parse requires %s, tag requires %s' % (
                    pretty(k[1], 100), show_gate(ta[k][0])[:300], show_gate(tb[k][0])[:300]))
            else:
                msgs.append('loops stop differently: parse %s, tag %s' % (
                    [show_gate(x)[:300] for x in ta[k][1]], [show_gate(x)[:300] for x in tb[k][1]]))
    if unk and None not in unk and all(k in ta and k in tb and ta[k][0] == tb[k][0] for k in set(ta) | set(tb)):
        pairs = [p for k in ta for p in zip(ta[k][1], tb[k][1]) if p[0] != p[1]]
        if all(stops_by_count(*p) or stops_by_count(*p[::-1]) for p in pairs):
            unk = []
    rep.add(name, None if unk else False, where, '; '.join(msgs[:2]))


def stops_by_count(plain, st):
    """One loop stops as the other one does, but depending also on how many results were collected before."""
    def counts(a):
        return any(x.op == 'len' and x.args[0].op == 'curof' for x in subterms(a))
    if any(x.op in STATE for a in B.support_atoms(plain) for x in subterms(a)):
        return False
    later = sooner = st
    for v in B.support(st):
        if counts(B.atoms[v]):
            later = B.exists_var(later, v)
            sooner = B.not_(B.exists_var(B.not_(sooner), v))
    return plain in (later, sooner)


@both_modes
def check_A04_units(rep):
    unit_tags(rep, [n for n, _ in UNITS])


def unit_tags(rep, names):
    for backend in ('fast', 'slow'):
        w = World(backend=backend)
        v = w.v
        rep.world = w
        for name in names:
            u, r, s = emitted(w, name)
            u, r2, s2 = emitted(w, name, 'tag')
            c = w.canon(ordered=False)
            c.assume.append(unseen)
            c.assume_env.append(counted(v))
            label = '%s: tag() and parse() accept the same tags (%s dictionary backend)' % (name, backend)
            if s.op == 'tuple':
                s = seq('list', [Emission((), TRUE, x) for x in s.args])
            if s2.op == 'tuple':
                s2 = seq('list', [Emission((), TRUE, x) for x in s2.args])
            if s.op != 'seq' or s2.op != 'seq':
                rep.add(label, None, r2.where, 'not a list of results')
                continue
            compare_tags(rep, label, r2.where, tag_table(c, proj_items(s, 1)), tag_table(c, as_parse(s2)))


def unit_name(v, leaf):
    if leaf.op == 'inst':
        return v.obj(leaf).cls.name
    return pretty(leaf, 40)


def swap_method(g, frm, to):
    """Condition over results of frm() -> the same over results of to()."""
    def f(x):
        if x.op == 'mcall' and x.args[1] == frm:
            return mk('mcall', x.args[0], to, x.args[2], x.args[3])
        return None
    return ops._rwg(g, f, {})


def runs(rep, lang, kw):
    w = analyzer_world()
    rep.world = w
    m = make_analyzer(w, lang, **kw)
    return w, m


def configurations():
    for lang in LANGS:
        for label, rt in (('plain tuples', NONE), ('namedtuples', None)):
            kw = {'probability_estimator_cls': NONE}
            if rt is not None:
                kw['result_type'] = rt
            yield lang, label, kw


def check_A04_analyzer(rep):
    for lang, label, kw in configurations():
        w, m = runs(rep, lang, kw)
        rp, p = units_run(w, m, 'parse')
        rt, t = units_run(w, m, 'tag')
        name = 'MorphAnalyzer.tag consults the same analyzers as parse under the same conditions (%s, %s)' % (lang, label)
        if p is None or t is None:
            rep.add(name, None, rt.where, 'results are not a concatenation of analyzer results')
            continue
        c = w.canon()
        key = lambda x: (x[0], tuple(c.term(y) for y in x[1].args[2]))
        a = dict((key(x), ops.subst_gate(swap_method(x[2], 'parse', 'tag'), {})) for x in p)
        b = dict((key(x), x[2]) for x in t)
        a = dict((k, c.gate(g)) for k, g in a.items())
        b = dict((k, c.gate(g)) for k, g in b.items())
        ok = a == b
        d = ''
        if not ok:
            for k in list(a) + list(b):
                if a.get(k) != b.get(k):
                    d = '%s: parse %s, tag %s' % (unit_name(w.v, k[0]), k in a and show_gate(a[k])[:200],
                                                  k in b and show_gate(b[k])[:200])
                    break
        rep.add(name, ok, rt.where, d)


PERM = '''
def keep(word, word_lower, items):
    return [x for x in items]
'''


@both_modes
def check_A04_estimator(rep):
    estimator(rep, True, True)


def estimator(rep, tags, parses):
    w = World()
    v = w.v
    rep.world = w
    k = v.cls(P + 'analyzer.ProbabilityEstimator')
    e = v.instantiate(k.leaf, [gv(sym('path'))], {}, None).single()
    for meth in ['apply_to_tags'] * tags + ['apply_to_parses'] * parses:
        found = sym('found')
        r = w.call(e, meth, WORD, WL, found)
        spec = v.as_seq(w.run_spec(PERM, 'keep', WORD, WL, found).value)
        full = meth == 'apply_to_parses'
        c = w.canon(ordered=False)
        c.ignore_order = True
        label = 'ProbabilityEstimator.%s keeps every result%s' % (
            meth, ' with its word, tag, normal form and derivation' if full else '')
        if full:
            spec = proj_items(spec, 0, 1, 2, 4)
        some = truth_leaf(found)
        bad = None
        for g, t in v.snap_gv(r.value).alts:
            t = strip_copy(t)
            if t is found:
                continue
            s = v.as_seq(gv(t))
            if s.op != 'seq':
                bad = bad or (None, 'not a list: %s' % pretty(s, 200))
                continue
            if full:
                s = proj_items(s, 0, 1, 2, 4)
            s, sp = [seq('list', [Emission(x.binders, B.simplify(x.gate, g), x.value, x.kind, x.loc) for x in q.args[1]],
                         (), q.args[3]) for q in (s, spec)]
            if not s.args[1] and not s.args[3] and B.and_(g, some) == FALSE:
                continue
            a, b = c.term(s), c.term(sp)
            if a is not b:
                bad = (None if unresolved(a) else False, 'when %s the result is %s' % (show_gate(g)[:200], pretty(a, 400)))
        rep.add(label, True if bad is None else bad[0], r.where, bad[1] if bad else '')


# ------------------------------------------------------------------ A01
def check_A01_analyzer(rep):
    for lang, label, kw in configurations():
        w, m = runs(rep, lang, kw)
        v = w.v
        for meth in ('parse', 'tag'):
            r, p = units_run(w, m, meth)
            name = 'MorphAnalyzer.%s falls back to the unknown-word analyzer exactly when nothing else was found (%s, %s)' % (
                meth, lang, label)
            if not p:
                rep.add(name, None, r.where, 'results are not a concatenation of analyzer results')
                continue
            last = [x for x in p if x[0].op == 'inst' and v.obj(x[0]).cls is v.cls(P + 'units.UnknAnalyzer')]
            if not last:
                rep.add(name, False, 'pymorphy2/lang/%s' % lang, 'UnknAnalyzer is not among the default analyzers')
                continue
            u = last[0]
            total = FALSE
            others = FALSE
            for leaf, call, g, e in p:
                has = TRUE if leaf is u[0] else truth_leaf(call)
                total = B.or_(total, B.and_(g, has))
                if leaf is not u[0]:
                    others = B.or_(others, has)
            if total != TRUE:
                rep.add(name, False, r.where, 'no result when %s' % show_gate(B.not_(total))[:300])
            elif B.and_(u[2], others) != FALSE:
                rep.add(name, False, r.where, 'the unknown-word result is added although %s' %
                        show_gate(B.and_(u[2], others))[:300])
            else:
                rep.add(name, True, r.where)


def check_A01_estimator(rep):
    both_modes(lambda rp: estimator(rp, True, True))(rep)


@both_modes
def check_A01_units(rep):
    w = World()
    v = w.v
    rep.world = w
    for name, _ in UNITS:
        for meth in ('parse', 'tag'):
            u, r, s = emitted(w, name, meth)
            if name == 'UnknAnalyzer':
                c = w.canon()
                c.assume.append(lambda a: B.atom(a) if a.op == 'truthy' and a.args[0] is SEEN else None)
                its = items(c, s)
                ok = None if its is None or unresolved(c.term(s)) else (
                    len(its) == 1 and not its[0].binders and its[0].gate == B.not_(truth_leaf(SEEN)))
                rep.add('UnknAnalyzer.%s answers exactly when no analyzer found anything' % meth, ok, r.where,
                        pretty(s, 200))
            bookkeeping(rep, w, u, r, s, name, meth, False)


def check_A04_bookkeeping(rep):
    def go(rep):
        w = World()
        rep.world = w
        for name, _ in UNITS:
            for meth in ('parse', 'tag'):
                u, r, s = emitted(w, name, meth)
                bookkeeping(rep, w, u, r, s, name, meth, True)
    both_modes(go)(rep)


def bookkeeping(rep, w, u, r, s, name, meth, tags):
    """
    What a unit records as 'seen' (tags False: only recorded together with a result; tags True: records carry the tag
    of that result, and results are dropped only for an equal tag).
    """
    v = w.v
    label = '%s.%s %s' % (name, meth, 'drops a result only for an equal tag' if tags else
                          'records as seen only what it returns')
    if s.op == 'tuple':
        s = seq('list', [Emission((), TRUE, x) for x in s.args])
    if s.op != 'seq':
        rep.add(label, None, r.where, 'not a list')
        return
    c = w.canon()
    ems = []
    for e in s.args[1]:
        tag = e.value if meth == 'tag' else idx(e.value, const(1))
        x = c.emission(Emission(e.binders, e.gate, tag, e.kind, e.loc), ())
        ems.append((strip_stops(x.binders), x.gate, x.value))
    bad = None
    for ev in r.effects:
        if ev.kind != 'mutate' or ev.payload[0] is not SEEN:
            continue
        how, args = ev.payload[1], ev.payload[2]
        where = '%s:%s' % ev.loc[:2]
        if how in ('update', '__ior__') and len(args) == 1:
            a = args[0].single() if isinstance(args[0], GV) else args[0]
            if a is not None and strip_copy(a) is SEEN:
                continue
            bad = bad or (None, where, 'bulk update of the seen set')
            continue
        if how != 'add':
            bad = bad or (None, where, 'seen.%s' % how)
            continue
        key = args[0] if isinstance(args[0], GV) else gv(args[0])
        for g, t in key.alts:
            x = c.emission(Emission(ev.binders, B.and_(ev.gate, g), t, 'item', ev.loc), ())
            if x.gate == FALSE:
                continue
            bs = strip_stops(x.binders)
            ok = FALSE
            for b2, g2, tag in ems:
                if b2 != bs:
                    continue
                if not tags or tag is x.value or x.value.op == 'tuple' and any(y is tag for y in x.value.args):
                    ok = B.or_(ok, g2)
            if not B.implies(x.gate, ok):
                un = unresolved(mk('x', x.value, x.binders, Gate(x.gate)))
                bad = (None if un else False, where, '%s is recorded as seen when %s, but returned only when %s' % (
                    pretty(x.value, 150), show_gate(x.gate)[:200], show_gate(ok)[:200]))
                break
    if tags and bad is None:
        for e in s.args[1]:
            tag = e.value if meth == 'tag' else idx(e.value, const(1))
            for a in B.support_atoms(e.gate):
                if a.op == 'in' and a.args[1] is SEEN:
                    k = a.args[0]
                    if k is tag or k.op == 'tuple' and any(y is tag for y in k.args):
                        continue
                    bad = (False, '%s:%s' % e.loc[:2] if e.loc else r.where,
                           'a result with tag %s is dropped when %s was seen' % (pretty(tag, 100), pretty(k, 150)))
    if tags and bad is None:
        c = w.canon(ordered=False)
        c.assume_env.append(counted(v))
        for e in s.args[1]:
            for b in c.emission(e, ()).binders:
                if any(y is SEEN for a in B.support_atoms(b.args[2].g) for y in subterms(a)):
                    un = any(unresolved(a) or foreign(a) for a in B.support_atoms(b.args[2].g))
                    bad = (None if un else False, '%s:%s' % e.loc[:2] if e.loc else r.where,
                           'the search ends at a result only if it was not seen before: %s' % show_gate(b.args[2].g)[:300])
    if bad is None:
        rep.add(label, True, r.where)
    else:
        rep.add(label, bad[0], bad[1], bad[2])


# ------------------------------------------------------------------ A28
PRODUCTIVE = '''
def productive(tag):
    return not tag.grammemes & tag._NON_PRODUCTIVE_GRAMMEMES
'''
CLOSED = ['NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'Apro']


def without_state(g):
    """The condition without the questions about values kept from earlier items: they say nothing about this item."""
    for v in B.support(g):
        a = B.atoms[v]
        if a.op in ('truthy', 'isnone') and a.args[0].op in ('carried', 'ccarried'):
            g = B.exists_var(g, v)
    return g


@both_modes
def check_A28(rep):
    w = World()
    v = w.v
    rep.world = w
    T0 = sym('sometag')
    spec = w.run_spec(PRODUCTIVE, 'productive', T0).value
    want = v.truth(spec)
    r = w.call(T0, 'is_productive')
    c = w.canon()
    rep.add('a tag is productive exactly when it has no non-productive grammeme', c.gate(v.truth(r.value)) == c.gate(want)
            or (None if unresolved(c.term(r.value)) else False), r.where, show_gate(c.gate(v.truth(r.value))))
    consts = v.get_attr(v.cls(TAG).leaf, '_NON_PRODUCTIVE_GRAMMEMES', None)
    got = constant_set(v, consts)
    rep.add('the non-productive grammemes are the eight closed classes', None if got is None else got == set(CLOSED),
            'pymorphy2/tagset.py _NON_PRODUCTIVE_GRAMMEMES', str(got and sorted(got)))
    for name in ('KnownPrefixAnalyzer', 'UnknownPrefixAnalyzer', 'KnownSuffixAnalyzer'):
        for meth in ('parse', 'tag'):
            u, r, s = emitted(w, name, meth)
            label = '%s.%s emits productive tags only' % (name, meth)
            if s.op != 'seq' or s.args[3]:
                rep.add(label, None, r.where, 'not a list')
                continue
            c = w.canon()
            ok, d, loc = True, '', r.where
            for e in s.args[1]:
                if c.emission(e, ()).gate == FALSE:
                    continue
                tag = e.value if meth == 'tag' else idx(e.value, const(1))
                w2 = ops.subst_gate(want, {T0: tag})
                if not B.implies(e.gate, w2):
                    g = without_state(c.gate(e.gate, e.binders))
                    tag_ = c.emission(Emission(e.binders, TRUE, tag, e.kind, e.loc), ()).value
                    ok = None if unresolved(mk('x', tag_, Gate(g))) else False
                    d = 'tag %s is emitted when %s' % (pretty(tag, 200), show_gate(e.gate)[:400])
                    loc = '%s:%s' % e.loc[:2] if e.loc else r.where
                    break
            rep.add(label, ok, loc, d)


def constant_set(v, value):
    """Members of a constant set/list/tuple, None when not constant."""
    if isinstance(value, GV):
        value = v.snap_gv(value).single()
    if value is None:
        return None
    if value.op in ('obj', 'objref') and v.objs[value.args[0]].kind in ('list', 'set'):
        value = v.snapshot(v.objs[value.args[0]])
    value = strip_copy(value)
    if value.op == 'call' and len(value.args[1]) == 1:
        return constant_set(v, gv(value.args[1][0]))
    if value.op in ('setof', 'frozenset') and len(value.args) == 1:
        return constant_set(v, gv(value.args[0]))
    if value.op == 'tuple':
        xs = value.args
    elif value.op == 'seq' and not value.args[3]:
        xs = []
        for e in value.args[1]:
            if e.binders or e.gate != TRUE:
                return None
            xs.append(e.value)
    else:
        return None
    if any(x.op != 'const' for x in xs):
        return None
    return set(ops.cval(x) for x in xs)


# ------------------------------------------------------------------ A21
LOOKUPS = ('similar_items', 'similar_item_values', 'similar_keys')
AFFIX = ('startswith', 'endswith', 'prefixes', 'is_prefixed')
RAWMARK = sym('raw-word')


def raw_case(c, t, binders):
    """The term depends on the word in its original case."""
    return any(x is WORD for x in subterms(c.term(subst(t, {WL: RAWMARK}), tuple(binders))))


@both_modes
def check_A21_units(rep):
    for backend in ('fast', 'slow'):
        w = World(backend=backend)
        v = w.v
        rep.world = w
        for name, _ in UNITS:
            if name in SHAPE or name == 'UnknAnalyzer':
                continue
            for meth in ('parse', 'tag'):
                u, r, s = emitted(w, name, meth)
                c = w.canon()
                subs = c.term(attr(w.morph, 'char_substitutes'))
                label = '%s.%s looks words up lower-cased and with the letter substitutions (%s dictionary backend)' % (
                    name, meth, backend)
                ok, d, loc = True, '', r.where
                n = 0
                for ev in r.calls:
                    f, args, kw, res = ev.payload[:4]
                    if f.op != 'attr' and f.op != 'bound':
                        continue
                    m = f.args[1]
                    if m not in LOOKUPS and m not in AFFIX:
                        continue
                    n += 1
                    key = f.args[0] if m in ('startswith', 'endswith') else (args[0] if args else kw.get('key', kw.get('word')))
                    keys = key.alts if isinstance(key, GV) else [(TRUE, key)]
                    for g, k in keys:
                        if k is not None and raw_case(c, k, ev.binders):
                            ok, d = False, '%s is looked up without lower-casing' % pretty(k, 150)
                    if m in LOOKUPS:
                        x = args[1] if len(args) > 1 else kw.get('replaces')
                        xs = x.alts if isinstance(x, GV) else [(TRUE, x)]
                        for g, y in xs:
                            y = c.term(y) if y is not None else None
                            if y is not subs:
                                ok = None if y is not None and unresolved(y) and ok is not False else False
                                d = 'substitutions passed to %s: %s' % (m, pretty(y, 150))
                    elif m not in LOOKUPS:
                        pass
                    if ok is not True:
                        loc = '%s:%s' % ev.loc[:2]
                        break
                if ok:
                    # dictionary access that ignores substitutions altogether
                    for ev in r.calls:
                        f, args = ev.payload[:2]
                        if f.op in ('attr', 'bound') and is_dawg(f.args[0]) and f.args[1] in (
                                'get', 'items', 'keys', 'get_value', 'iteritems', 'iterkeys', '__getitem__'):
                            ok, d, loc = False, '%s ignores letter substitutions' % f.args[1], '%s:%s' % ev.loc[:2]
                rep.add(label, ok, loc, d)


def is_dawg(t):
    t = strip_copy(t)
    return t.op == 'attr' and t.args[1] == 'words' or \
        t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'prediction_suffixes_dawgs'


KNOWN = '''
def word_is_known(morph, word, strict):
    if strict or not morph.char_substitutes:
        return word.lower() in morph.dictionary.words
    return bool(morph.dictionary.words.similar_keys(word.lower(), morph.char_substitutes))

def form_is_known(form):
    if not form._morph.char_substitutes:
        return form.word in form._dict.words
    return bool(form._dict.words.similar_keys(form.word, form._morph.char_substitutes))

def keys_are_items(words, key, subs):
    return bool(words.similar_items(key, subs)), bool(words.similar_keys(key, subs))
'''


def known_words(a):
    '''Without substitutions, similar_keys finds the word itself; all similar_* methods find the same words.'''
    if a.op == 'truthy' and a.args[0].op == 'mcall' and a.args[0].args[1] in LOOKUPS:
        m = a.args[0]
        if m.args[2][1:2] == (NONE,):
            return A('in', m.args[2][0], m.args[0])
        if m.args[1] != 'similar_keys':
            return B.atom(mk('truthy', mk('mcall', m.args[0], 'similar_keys', m.args[2], m.args[3])))
    return None


def check_A21_known(rep):
    w = World()
    v = w.v
    rep.world = w
    for strict in (True, False):
        s = const(strict)
        r = w.call(w.morph, 'word_is_known', WORD, strict=s)
        sp = w.run_spec(KNOWN, 'word_is_known', w.morph, WORD, s)
        c = w.canon(atom_rw=[known_words])
        rep.equal('word_is_known(strict=%s) looks the lower-cased word up %s substitutions' % (
            strict, 'without' if strict else 'with the analyzer\'s'), r.where, c.gv(known_truth(v, r.value)),
            c.gv(known_truth(v, sp.value)))
    own_result_class(w)
    f = v.get_attr(FORM, 'is_known', None)
    sp = w.run_spec(KNOWN, 'form_is_known', FORM)
    c = w.canon(atom_rw=[known_words])
    rep.equal('Parse.is_known looks the form up with the substitutions of its own analyzer', 'pymorphy2/analyzer.py Parse.is_known',
              c.gv(known_truth(v, f)), c.gv(known_truth(v, sp.value)))


def own_result_class(w):
    '''A result object: its class carries the analyzer and dictionary it belongs to (A32).'''
    v = w.v
    k = v.cls(P + 'analyzer.Parse')
    v.types[FORM] = k
    for n, t, q in (('_dict', sym('own_dictionary'), DICT), ('_morph', sym('own_morph'), MA)):
        k.attrs[n] = gv(t)
        v.types[t] = v.cls(q)


def known_truth(v, x):
    return gv(boolt(v.truth(x)))


def check_A21_analyzer(rep):
    for lang, label, kw in configurations():
        w, m = runs(rep, lang, kw)
        v = w.v
        for meth in ('parse', 'tag'):
            r, p = units_run(w, m, meth)
            name = 'MorphAnalyzer.%s hands every analyzer the word, its lower-cased form and one shared seen set (%s, %s)' % (
                meth, lang, label)
            if not p:
                rep.add(name, None, r.where, 'results are not a concatenation of analyzer results')
                continue
            c = w.canon()
            sets = set(x[1].args[2][2:] for x in p)
            ok, d = True, ''
            for leaf, call, g, e in p:
                a = call.args[2]
                if len(a) != 3 or c.term(a[0]) is not WORD or c.term(a[1]) is not c.term(WL):
                    ok, d = False, '%s is called with %s' % (unit_name(v, leaf), pretty(mk('tuple', *a), 200))
            if ok and len(sets) != 1:
                ok, d = False, 'different seen sets are passed'
            rep.add(name, ok, r.where, d)
        # substitutions
        subs = sym('substitutes')
        for given in (NONE, subs):
            w = analyzer_world()
            m = make_analyzer(w, lang, char_substitutes=given, **kw)
            got = w.v.get_attr(m, 'char_substitutes', None)
            c = w.canon()
            c.assume.append(lambda a: TRUE if a.op == 'truthy' and a.args[0] is subs else
                            FALSE if a.op == 'cmp' and a.args[0] == 'is' and subs in a.args else None)
            want = 'compile_replaces(%s)' % ('{}' if given is NONE else 'the given substitutions')
            t = c.gv(got).single()
            ok = t is not None and t.op == 'mcall' and t.args[1] == 'compile_replaces' and len(t.args[2]) == 1 and (
                t.args[2][0] is subs if given is subs else empty_dict(t.args[2][0]))
            rep.add('char_substitutes=%s is compiled for lookups (%s, %s)' % (
                'None' if given is NONE else 'given', lang, label), ok or (None if t is None or unresolved(t) else False),
                'pymorphy2/analyzer.py MorphAnalyzer', '%s instead of %s' % (pretty(t, 200), want))


def empty_dict(t):
    return t.op == 'dict' and not t.args[0] or t.op == 'const' and ops.cval(t) == {}


# ------------------------------------------------------------------ A03
def check_A03(rep):
    both_modes(shorter_words)(rep)


def shorter_words(rep):
    for backend in ('fast', 'slow'):
        w = World(backend=backend)
        v = w.v
        rep.world = w
        for name, _ in UNITS:
            for meth in ('parse', 'tag'):
                u, r, s = emitted(w, name, meth)
                calls = []
                for ev in r.calls:
                    f, args, kw, res = ev.payload[:4]
                    if f.op in ('attr', 'bound') and f.args[1] in ('parse', 'tag') and f.args[0] is w.morph or \
                            f.op == 'bound' and f.args[1] is w.morph and last_name(v, f) in ('parse', 'tag'):
                        calls.append((ev, args[0] if args else kw.get('word')))
                if not calls:
                    continue
                c = w.canon()
                label = '%s.%s analyses only strictly shorter words (%s dictionary backend)' % (name, meth, backend)
                ok, d, loc = True, '', r.where
                for ev, arg in calls:
                    for g, t in (arg.alts if isinstance(arg, GV) else [(TRUE, arg)]):
                        gate = c.gate(B.and_(ev.gate, g), ev.binders)
                        if gate == FALSE:
                            continue
                        t1 = c.term(t, tuple(ev.binders))
                        bs = strip_stops(c.emission(Emission(ev.binders, TRUE, NONE), ()).binders)
                        q = shorter(t1, gate, bs)
                        if q is not True:
                            ok = None if isinstance(q, Maybe) or unresolved(mk('x', t1, Gate(gate), bs)) else False
                            d = 'analyses %s when %s%s' % (pretty(t1, 200), show_gate(gate)[:300], q and ': ' + q or '')
                            loc = '%s:%s' % ev.loc[:2]
                            break
                rep.add(label, ok, loc, d)


def last_name(v, f):
    g = f
    while g.op == 'bound':
        g = g.args[0]
    return v.funcs[g.args[0]].name if g.op == 'func' else None


class Maybe(str):
    """Reason that is not conclusive."""


def silent(gate, t, *but):
    """The condition says nothing about the term."""
    return not any(t in subterms(a) and a not in but for a in B.support_atoms(gate))


def shorter(t, gate, binders):
    """Canonical word term known to be strictly shorter than the word: -> True, a reason (str) or Maybe."""
    base = (WORD, mcall(WORD, 'lower', ()))
    t = strip_copy(t)
    if t in base:
        return 'the whole word'

    def within(x):
        x = strip_copy(x)
        if x in base:
            return True
        if x.op == 'slice' or x.op in ('before', 'after'):
            return within(x.args[0])
        if x.op == 'mcall' and x.args[1] in ('strip', 'lstrip', 'rstrip', 'lower') and not x.args[3]:
            return within(x.args[0])
        return False
    if t.op in ('before', 'after'):
        if not within(t.args[0]):
            return Maybe('not a part of the word')
        at = A('in', t.args[1], t.args[0])
        if t.args[1].op == 'const' and ops.cval(t.args[1]) and B.implies(gate, at):
            return True
        if strip_copy(t.args[0]) not in base:
            return shorter(t.args[0], gate, binders)
        return (str if silent(gate, t.args[1], at, A('in', t.args[1], WORD)) else Maybe)('the separator may be missing')
    if t.op == 'mcall' and t.args[1] in ('strip', 'lstrip', 'rstrip') and not t.args[3]:
        return shorter(t.args[0], gate, binders)
    if t.op == 'slice':
        x, lo, hi = t.args[:3]
        if not within(x):
            return Maybe('not a part of the word')
        if strip_copy(x) not in base and shorter(x, gate, binders) is True:
            return True
        for b in (lo, hi):
            if b is None or b is NONE:
                continue
            if b is hi and b.op == 'neg':
                b = b.args[0]
            elif b is hi and ops.isnum(b) and ops.cval(b) < 0:
                b = const(-ops.cval(b))
            elif b is hi:
                continue
            if ops.isnum(b) and ops.cval(b) >= 1:
                if matched(gate, None, x):
                    return True
                at = [a for a in B.support_atoms(gate) if a.op != 'in' and (WORD in subterms(a))]
                return (Maybe if at else str)('the word may be shorter than the removed part')
            if b.op == 'celem' and b.args[0] < len(binders):
                it = binders[b.args[0]].args[0]
                if positive(it):
                    return True
                if it.op == 'range' and silent(gate, b) and (len(it.args) == 1 or ops.isnum(it.args[0]) and
                                                             ops.cval(it.args[0]) == 0):
                    return 'the removed part may be empty'
            if b.op == 'len':
                a = b.args[0]
                if a.op == 'celem' and affix_source(binders[a.args[0]].args[0]):
                    if matched(gate, a, x, binders):
                        return True
                    if silent(gate, a):
                        return 'the word need not contain the removed part'
                if a.op == 'const' and ops.cval(a):
                    if matched(gate, a, x):
                        return True
                    if silent(gate, a):
                        return 'the word need not contain the removed part'
        return Maybe('nothing is removed for certain')
    return Maybe('not a part of the word')


def affix_source(t):
    """Affixes of the language tables (never empty: see A30)."""
    t = strip_copy(t)
    if t.op in ('sym', 'celem', 'named', 'attr'):
        return t.op == 'sym' and t.args[0] in ('prefixes', 'particles')
    if t.op == 'mcall' and t.args[1] == 'prefixes':
        return True
    if t.op in ('tupleof', 'listof', 'copy', 'setof'):
        return affix_source(t.args[0])
    if t.op == 'seq':
        return all(len(e.binders) == 1 and e.value.op == 'celem' and affix_source(e.binders[0].args[0]) for e in t.args[1])
    return False


def matched(gate, affix, word, binders=()):
    """The condition guarantees that the affix is a part of the word (so the word is not empty)."""
    for a in B.support_atoms(gate):
        if a.op == 'truthy' and a.args[0].op == 'mcall' and a.args[0].args[1] in ('startswith', 'endswith') and \
                B.implies(gate, B.atom(a)):
            x = a.args[0].args[2][0]
            if affix is None:
                if x.op == 'const' and ops.cval(x):
                    return True
            elif x is affix:
                return True
    if affix is not None and affix.op == 'celem':
        t = strip_copy(binders[affix.args[0]].args[0])
        return t.op == 'mcall' and t.args[1] == 'prefixes'
    return False


def check_A03_tables(rep):
    from . import tables
    tables.check_A03_tables(rep)


def check_A05_records(rep):
    from .records import dictionary_reads
    dictionary_reads(rep, ('tag', 'normal'))
