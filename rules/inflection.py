"""A06, A07: lexemes, normal forms and their derivations."""
from .common import *

SPEC = '''
def dict_form(d, unit, fw, para, idx, rest, score):
    return (fw, d.build_tag_info(para, idx), d.build_normal_form(para, idx, fw), score, ((unit, fw, para, idx),) + rest)

def first(unit, form):
    return unit.get_lexeme(form)[0]

def stem(d, para, idx, fw):
    p = d.paradigms[para]
    n = len(p) // 3
    pre = d.paradigm_prefixes[p[2 * n + idx]]
    suf = d.suffixes[p[idx]]
    if suf:
        return fw[len(pre):-len(suf)]
    return fw[len(pre):]

def dict_lexeme(d, unit, fw, tag, nf, para, idx, rest, score):
    p = d.paradigms[para]
    n = len(p) // 3
    st = stem(d, para, idx, fw)
    out = []
    for i in range(n):
        w = d.paradigm_prefixes[p[2 * n + i]] + st + d.suffixes[p[i]]
        out.append((w, d.gramtab[p[n + i]], nf, 1.0, ((unit, w, para, i),) + rest))
    return out

def prefix_lexeme(form):
    word, tag, nf, score, stack = form
    prefix = stack[-1][1]
    inner = (word[len(prefix):], tag, nf[len(prefix):], score, stack[:-1])
    return [(prefix + f[0], f[1], prefix + f[2], f[3], f[4] + (stack[-1],))
            for f in stack[-2][0].get_lexeme(inner)]

def prefix_normalized(form):
    word, tag, nf, score, stack = form
    prefix = stack[-1][1]
    inner = (word[len(prefix):], tag, nf[len(prefix):], score, stack[:-1])
    f = stack[-2][0].normalized(inner)
    return (prefix + f[0], f[1], prefix + f[2], f[3], f[4] + (stack[-1],))

def suffix_lexeme(form):
    word, tag, nf, score, stack = form
    particle = stack[-1][1]
    inner = (word[:-len(particle)], tag, nf[:-len(particle)], score, stack[:-1])
    return [(f[0] + particle, f[1], f[2] + particle, f[3], f[4] + (stack[-1],))
            for f in stack[-2][0].get_lexeme(inner)]

def suffix_normalized(form):
    word, tag, nf, score, stack = form
    particle = stack[-1][1]
    inner = (word[:-len(particle)], tag, nf[:-len(particle)], score, stack[:-1])
    f = stack[-2][0].normalized(inner)
    return (f[0] + particle, f[1], f[2] + particle, f[3], f[4] + (stack[-1],))

def plain_lexeme(form):
    word, tag, nf, score, stack = form
    return [(f[0], f[1], f[2], f[3], f[4] + (stack[-1],))
            for f in stack[-2][0].get_lexeme((word, tag, nf, score, stack[:-1]))]

def plain_normalized(form):
    word, tag, nf, score, stack = form
    f = stack[-2][0].normalized((word, tag, nf, score, stack[:-1]))
    return (f[0], f[1], f[2], f[3], f[4] + (stack[-1],))

def hyphen_fixed(unit, form):
    word, tag, nf, score, stack = form
    left, right = stack[0][1], stack[0][2]
    inner = (word[len(left) + 1:], tag, nf[len(left) + 1:], score, right)
    return [(left + '-' + f[0], f[1], left + '-' + f[2], f[3], ((stack[0][0], left, f[4]),))
            for f in right[-1][0].get_lexeme(inner)]

def features(tag, replaces):
    g = set(tag.grammemes)
    for gr, rep in replaces.items():
        if gr in g:
            g.remove(gr)
            g.add(rep)
    return g

def hyphen_both(unit, form):
    word, tag, nf, score, stack = form
    left, right = stack[0][1], stack[0][2]
    lform = (word.split('-', 1)[0], tag, nf.split('-', 1)[0], score, left)
    rform = (word.split('-', 1)[1], tag, nf.split('-', 1)[1], score, right)
    llex = left[-1][0].get_lexeme(lform)
    out = []
    for r in right[-1][0].get_lexeme(rform):
        gr_r = features(r[1], unit._CONSIDER_THE_SAME)
        best, dist = None, 1e6
        for l in llex:
            d = len(features(l[1], unit._CONSIDER_THE_SAME) ^ gr_r)
            if d < dist:
                dist = d
                best = l
        out.append((best[0] + '-' + r[0], best[1], best[2] + '-' + r[2], (best[3] + r[3]) / 2, ((unit, best[4], r[4]),)))
    return out

def analyzer_lexeme(form):
    return [p for p in form[4][-1][0].get_lexeme(form)]
'''

KINDS = {
    'KnownPrefixAnalyzer': 'prefix', 'UnknownPrefixAnalyzer': 'prefix',
    'HyphenSeparatedParticleAnalyzer': 'suffix', 'KnownSuffixAnalyzer': 'plain',
}
TRIVIAL = ['NumberAnalyzer', 'PunctuationAnalyzer', 'RomanNumberAnalyzer', 'LatinAnalyzer', 'HyphenAdverbAnalyzer',
           'UnknAnalyzer']
ABBREV = ['AbbreviatedFirstNameAnalyzer', 'AbbreviatedPatronymicAnalyzer']


def no_inner_score(t):
    """Scores handed to the delegate analyzers are irrelevant for words, tags and derivations."""
    if t.op == 'mcall' and t.args[1] in ('get_lexeme', 'normalized') and len(t.args[2]) == 1 \
            and t.args[2][0].op == 'tuple' and len(t.args[2][0].args) == 5:
        f = t.args[2][0].args
        if f[3] is not const('score'):
            return mk('mcall', t.args[0], t.args[1], (mk('tuple', f[0], f[1], f[2], const('score'), f[4]),), t.args[3])
    return None


def has_members(a):
    """A lexeme has at least one member."""
    return TRUE if a.op == 'truthy' and a.args[0].op == 'mcall' and a.args[0].args[1] == 'get_lexeme' else None


def norm_is_first(t):
    """Induction hypothesis: delegate.normalized(x) is delegate.get_lexeme(x)[0]."""
    if t.op == 'mcall' and t.args[1] == 'normalized' and len(t.args[2]) == 1:
        return idx(mk('mcall', t.args[0], 'get_lexeme', t.args[2], t.args[3]), const(0))
    return None


def spelled(t):
    """Dictionary contract (A18): a word starts with its paradigm prefix and ends with its paradigm suffix."""
    if t.op == 'add' and len(t.args) >= 2:
        a = list(t.args)
        for i in range(len(a) - 1):
            s = a[i + 1]
            if s.op != 'slice' or s.args[3] is not NONE:
                continue
            x, lo, hi = s.args[:3]
            if lo is ops.length(a[i]):
                if hi is NONE:
                    new = a[:i] + [x] + a[i + 2:]
                elif i + 2 < len(a) and hi is ops.neg(ops.length(a[i + 2])):
                    new = a[:i] + [x] + a[i + 3:]
                else:
                    continue
                return new[0] if len(new) == 1 else mk('add', *new)
    return None


def drop_empty(v):
    """Alternatives selected by 'not s' for a string s: s is the empty string there."""
    out = []
    for g, t in v.alts:
        m = {}
        for a in B.support_atoms(g):
            if a.op == 'truthy' and B.implies(g, B.not_(B.atom(a))):
                m[a.args[0]] = const('')
        if m:
            t = ops.rewrite(t, lambda x: empty_concat(x, m))
        out.append((g, t))
    return gv_join(out)


def empty_concat(x, m):
    if x.op == 'add':
        a = [y for y in x.args if y not in m]
        if len(a) < len(x.args):
            return const('') if not a else a[0] if len(a) == 1 else mk('add', *a)
    return None


def varies(w, form):
    """Condition: a hyphenated word was parsed with both parts inflected (derivations of both parts recorded)."""
    return ops.truth_leaf(w.run_spec(VARIES, 'varies', form).value.single())


VARIES = '''
def varies(form):
    return isinstance(form[4][0][1], tuple)
'''




@both_modes
def check_A07(rep):
    w = World()
    v = w.v
    rep.world = w
    D = v.get_attr(w.morph, 'dictionary', None)
    # dictionary words
    u = w.unit('DictionaryAnalyzer')
    for label, ix in (('first form', const(0)), ('other form', sym('idx'))):
        f = w.run_spec(SPEC, 'dict_form', D, u, sym('fw'), sym('para'), ix, sym('rest'), sym('score')).value
        r = w.call(u, 'normalized', f)
        a = r.value
        b = w.run_spec(SPEC, 'first', u, f).value
        c = w.canon(rewrites=[spelled])
        if ix.op == 'sym':
            fix(c, ops.compare('==', ix, const(0)), FALSE)
            fix(c, ops.truth_leaf(ix), TRUE)
        rep.equal('DictionaryAnalyzer.normalized is the first lexeme member (%s)' % label, r.where,
                  c.gv(drop_empty(c.gv(proj(a, 0, 1, 4)))), c.gv(drop_empty(c.gv(proj(b, 0, 1, 4)))))
    for n in [n for n, _ in UNITS if n != 'DictionaryAnalyzer']:
        u = w.unit(n)
        for case, g in ([(' (fixed left part)', B.not_(varies(w, FORM))), (' (both parts vary)', varies(w, FORM))]
                        if n == 'HyphenatedWordsAnalyzer' else [('', TRUE)]):
            with w.under(g):
                r = w.call(u, 'normalized', FORM)
                b = w.run_spec(SPEC, 'first', u, FORM).value
            c = w.canon(rewrites=[no_inner_score, norm_is_first])
            c.assume.append(has_members)
            if g != TRUE:
                fix(c, g, TRUE)
            rep.equal('%s.normalized is the first lexeme member%s' % (n, case), r.where,
                      c.gv(proj(r.value, 0, 1, 4)), c.gv(proj(b, 0, 1, 4)))
    # Parse objects use the same unit for both
    p = parse_obj(w)
    nv = v.attr_gv(gv(p), 'normalized', None)
    lx = v.attr_gv(gv(p), 'lexeme', None)
    for case, ga in (('result type set', FALSE), ('plain tuples', TRUE)):
        first = v.snap_gv(lx).map(lambda t: idx(t, const(0)))
        c = w.canon(rewrites=[norm_is_first, same_fields])
        c.assume.append(lambda at, ga=ga: ga if at.op == 'isnone' or (at.op == 'cmp' and NONE in at.args) else None)
        rep.equal('Parse.normalized uses the unit that computes the lexeme (%s)' % case,
                  'pymorphy2/analyzer.py Parse.normalized',
                  c.gv(proj(v.snap_gv(nv), 0, 1, 4)), c.gv(proj(first, 0, 1, 4)))


def hyphen_worlds(w):
    g = varies(w, FORM)
    return [('fixed left part', B.not_(g), 'hyphen_fixed'), ('both parts vary', g, 'hyphen_both')]


@both_modes
def check_A06(rep):
    w = World()
    rep.world = w
    v = w.v
    lexeme_of_record(rep, w)
    for n, kind in sorted(KINDS.items()):
        u = w.unit(n)
        for m, sp in (('get_lexeme', '_lexeme'), ('normalized', '_normalized')):
            r = w.call(u, m, FORM)
            s = w.run_spec(SPEC, kind + sp, FORM)
            c = w.canon(rewrites=[no_inner_score])
            if m == 'get_lexeme':
                a, b = drop_score(v.as_seq(r.value)), drop_score(v.as_seq(s.value))
            else:
                a, b = proj(r.value, 0, 1, 2, 4), proj(s.value, 0, 1, 2, 4)
            rep.equal('%s.%s removes and restores exactly its affix' % (n, m), r.where, c.gv(a), c.gv(b))
    for n in TRIVIAL:
        u = w.unit(n)
        r = w.call(u, 'get_lexeme', FORM)
        c = w.canon()
        rep.equal('%s.get_lexeme is the form itself' % n, r.where,
                  c.gv(drop_score(v.as_seq(r.value))),
                  c.gv(drop_score(seq('list', [Emission((), TRUE, FORM)]))))
    for n in ABBREV:
        u = w.unit(n)
        r = w.call(u, 'get_lexeme', FORM)
        s = v.as_seq(r.value)
        c = w.canon()
        ok = s.op == 'seq' and bool(s.args[1]) and all(
            same(c.term(idx(e.value, const(i)), (e.binders)), c.term(idx(FORM, const(i)))) for e in s.args[1]
            for i in (0, 2, 4))
        rep.add('%s.get_lexeme keeps word, normal form and derivation' % n, ok or (None if s.op != 'seq' else False),
                r.where, pretty(s, 200))
    u = w.unit('HyphenatedWordsAnalyzer')
    for label, g, sp in hyphen_worlds(w):
        with w.under(g):
            r = w.call(u, 'get_lexeme', FORM)
            s = w.run_spec(SPEC, sp, u, FORM)
        c = w.canon(rewrites=[no_inner_score])
        fix(c, g, TRUE)
        rep.equal('HyphenatedWordsAnalyzer.get_lexeme (%s)' % label, r.where,
                  c.gv(drop_score(v.as_seq(r.value))), c.gv(drop_score(v.as_seq(s.value))))
    # the analyzer delegates to the unit that produced the last step of the derivation
    p = sym('form')
    r = w.call(w.morph, 'get_lexeme', p)
    s = w.run_spec(SPEC, 'analyzer_lexeme', p)
    c = w.canon(rewrites=[same_fields])
    rep.equal('MorphAnalyzer.get_lexeme delegates to the last analyzer of the derivation', r.where,
              c.gv(v.as_seq(r.value)), c.gv(v.as_seq(s.value)))


def lexeme_of_record(rep, w):
    v = w.v
    D = v.get_attr(w.morph, 'dictionary', None)
    u = w.unit('DictionaryAnalyzer')
    fw, tag, nf, para, ix, rest, score = [sym(x) for x in 'fw tag nf para idx rest score'.split()]
    form = mk('tuple', fw, tag, nf, score, add(mk('tuple', mk('tuple', u, fw, para, ix)), rest))
    r = w.call(u, 'get_lexeme', form)
    s = w.run_spec(SPEC, 'dict_lexeme', D, u, fw, tag, nf, para, ix, rest, score)
    c = w.canon()
    rep.equal('DictionaryAnalyzer.get_lexeme re-spells the stem with every ending of the paradigm', r.where,
              c.gv(drop_score(v.as_seq(r.value))), c.gv(drop_score(v.as_seq(s.value))))


def drop_score(s):
    return proj_items(s, 0, 1, 2, 4) if s.op == 'seq' else s


def parse_obj(w):
    p = sym('parse')
    w.v.types[p] = w.v.cls(P + 'analyzer.Parse')
    w.v.symattrs[(p, '_morph')] = gv(w.morph)
    w.v.symattrs[(p, '_dict')] = w.v.attr_gv(gv(w.morph), 'dictionary', None)
    return p


# ---------------------------------------------------------------- A08
INFLECT = '''
def members(lexeme, req, fixed):
    found = [f for f in lexeme if req <= f[1].grammemes]
    if not found:
        found = [f for f in lexeme if fixed <= f[1].grammemes]
    return found

def nobody(lexeme, req, fixed):
    return not [f for f in lexeme if req <= f[1].grammemes] and not [f for f in lexeme if fixed <= f[1].grammemes]

def fix_rare_cases(cls, grammemes):
    return frozenset([cls.RARE_CASES.get(g, g) for g in grammemes])
'''

RARE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct', 'voct': 'nomn'}


def tested(g, p):
    """The condition asks about the grammemes of the parse, or cannot be interpreted."""
    about = (attr(p, 'tag'), idx(p, const(1)), attr(idx(p, const(1)), 'grammemes'))
    for a in B.support_atoms(g):
        ops_ = {x.op for x in subterms(a)}
        if 'sortkey' in ops_:
            continue            # about what was chosen from a list by its rank
        if unresolved(a) or a.op in ('in', 'truthy', 'cmp', 'exists') and not ops_ & {'seq', 'max', 'nlargest'} and any(
                x in about for x in subterms(a)):
            return True
    return False


def check_A08(rep):
    from .tables import const_dict
    w = World(opaque=World.OPAQUE + [MA + '.get_lexeme', TAG + '.fix_rare_cases'])
    v = w.v
    rep.world = w
    p, req = sym('p'), sym('required')
    v.types[p] = v.cls(P + 'analyzer.Parse')
    v.symattrs[(p, '_morph')] = gv(w.morph)
    v.symattrs[(p, '_dict')] = gv(attr(w.morph, 'dictionary'))
    r = w.call(p, 'inflect', req)
    c = w.canon(atom_rw=[subset_rw(lambda t: t.op == 'idx' and t.args[1] is const(1))])
    lex = w.call(w.morph, 'get_lexeme', p).value.single()
    fixed = w.call(attr(attr(w.morph, 'dictionary'), 'Tag'), 'fix_rare_cases', req).value.single()
    sp = w.run_spec(INFLECT, 'members', lex, req, fixed)
    want = w.v.as_seq(sp.value)
    none = FALSE
    sources = []
    odd = []
    for g, t in r.value.alts:
        if t is NONE:
            none = B.or_(none, g)
            continue
        s = drawn_from(strip_copy(t))
        if s is None or s.op != 'seq':
            odd.append(t)
        else:
            sources.append((g, s))
    name = 'inflect returns a lexeme member that has every requested grammeme'
    if odd:
        rep.add(name, False if any(not tested(g, p) for g, t in r.value.alts if t is p) else None, r.where, 'the result is not chosen from a list: %s' % pretty(odd[0], 200))
        return
    pool = [Emission(e.binders, B.and_(g, e.gate), e.value, e.kind, e.loc) for g, x in sources for e in x.args[1]]
    bad = [x for g, x in sources if x.args[3]]
    if bad or not pool:
        rep.add(name, None, r.where, 'the list of candidates is not resolved')
        return
    included(rep, name, r.where, c, flat(w, pool), w.v.as_seq(sp.value))
    # None exactly when there is no such member
    empty = ops.truth(w.run_spec(INFLECT, 'nobody', lex, req, fixed).value)
    c2 = w.canon(atom_rw=[subset_rw(lambda t: t.op == 'idx' and t.args[1] is const(1))])
    c2.assume_env.append(lambda a, env: truth_leaf(unsorted_(chosen(a.args[0]))) if a.op == 'truthy' and
                         (chosen(a.args[0]) is not a.args[0] or a.args[0].op == 'seq') else None)
    ga, gb = c2.gate(none), c2.gate(empty)
    rep.add('inflect returns None exactly when no member has them', True if ga == gb else
            None if unresolved(ga) or unresolved(gb) else False, r.where,
            'None is returned when %s' % show_gate(ga)[:400])
    # unknown grammemes
    free = TRUE
    opaque = []
    for e in r.raises:
        if len(e.binders) != 1:
            continue
        it = e.binders[0].args[1]
        known = [a for a in B.support_atoms(e.gate) if about_known(a, elem(e.binders[0]))]
        if strip_set(it) not in (req, fixed) or len(known) != 1:
            continue
        a = B.atom(known[0])
        if B.constrain(e.gate, a) != FALSE:
            continue
        free = B.and_(free, B.not_(c.gate(B.constrain(e.gate, B.not_(a)), ())))
    for e in r.calls:
        f, args, kw = e.payload[:3]
        n = f.args[1] if f.op == 'attr' else show(f)
        if n in ('get_lexeme', 'fix_rare_cases', 'grammeme_is_known') or f.op == 'ext':
            continue
        opaque.append(show(f)[:60])
    if free == FALSE:
        rep.add('an unknown grammeme is an error whether or not a member has it', True, r.where)
    else:
        rep.add('an unknown grammeme is an error whether or not a member has it', None if opaque or unresolved(free) or any(
            about_any(e, req) for e in r.raises) else False, r.where, 'no grammeme is checked when %s %s' % (
                show_gate(free)[:300], opaque[:3]))
    # rare cases
    w2 = World()
    v2 = w2.v
    cls = v2.cls(TAG).leaf
    r2 = w2.call(cls, 'fix_rare_cases', req)
    sp2 = w2.run_spec(INFLECT, 'fix_rare_cases', cls, req)
    c3 = w2.canon()
    rep.equal('fix_rare_cases replaces every rare case by its common case and keeps everything else', r2.where,
              c3.term(as_set(r2.value.single())), c3.term(as_set(sp2.value.single())))
    d = const_dict(v2, v2.get_attr(cls, 'RARE_CASES', None))
    rep.add('the common case of every rare case', None if d is None else dict(d) == RARE, 'pymorphy2/tagset.py RARE_CASES',
            str(d))


def flat(w, pool):
    """Items taken from lists that were filled earlier: expressed by the loops that filled the lists."""
    out = []
    for e in pool:
        if e.binders and e.value is elem(e.binders[-1]):
            s = strip_copy(chosen(e.binders[-1].args[1]))
            if s.op == 'seq' and not s.args[3]:
                for b, g, val in w.v.sources(s):
                    out.append(Emission(tuple(e.binders[:-1]) + tuple(b), B.and_(e.gate, g), val, e.kind, e.loc))
                continue
        out.append(e)
    return seq('list', out)


def unsorted_(t):
    return seq('set', t.args[1], (), t.args[3]) if t.op == 'seq' else t


def as_set(t):
    if t is None:
        return mk('top', 'several values')
    return unsorted_(strip_set(t))


def about_known(a, x):
    return x in subterms(a) and ('grammeme_is_known' in show(a) or 'KNOWN_GRAMMEMES' in show(a))


def about_any(e, req):
    """The raise may be about unknown grammemes although its form is not recognised."""
    return any(('KNOWN_GRAMMEMES' in show(a) or 'grammeme_is_known' in show(a) or 'known' in show(a)) and
               len(e.binders) == 0 for a in B.support_atoms(e.gate))
