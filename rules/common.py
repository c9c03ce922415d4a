"""Shared helpers for the rules."""
from pmlint import ops
from pmlint.canon import unresolved, diff, pretty
from pmlint.model import AnalysisError
from pmlint.ops import seq, mcall, boolt, idx, truth_leaf, subst, slice_, add, attr, strip_copy
from pmlint.terms import (T, mk, const, is_const, NONE, TRUE_T, FALSE_T, B, TRUE, FALSE, A, GV, gv, gv_join, Gate,
                          Emission, show, show_gate, subterms, lift, BINDER_STOP, new_binder, elem)
from pmlint.world import (World, Report, sym, same, P, MA, DICT, TAG, UNITS, PROVED, REFUTED, UNKNOWN, both_modes, foreign)

WORD = sym('word')
WL = mcall(WORD, 'lower', ())
SEEN = sym('seen')
FORM = sym('form')


def proj(v, *ixs):
    """Tuple of some components of every alternative."""
    def f(t):
        return mk('tuple', *[idx(t, const(i)) for i in ixs])
    return v.map(f)


def proj_items(s, *ixs):
    """Same for every item of a sequence term; one index -> the bare component."""
    def f(t):
        if len(ixs) == 1:
            return idx(t, const(ixs[0]))
        return mk('tuple', *[idx(t, const(i)) for i in ixs])
    return seq(s.args[0], [Emission(e.binders, e.gate, f(e.value), e.kind, e.loc) for e in s.args[1]],
               s.args[2], s.args[3])


def unseen(a):
    """Deduplication against earlier results: assume the item was not seen."""
    if a.op == 'in' and a.args[1] is SEEN:
        return FALSE
    return None


def items(c, s):
    """Canonical emissions of a sequence term."""
    if s.op == 'tuple':
        s = seq('list', [Emission((), TRUE, x) for x in s.args])
    if s.op != 'seq':
        return None
    return [c.emission(e, ()) for e in s.args[1]]


def included(rep, name, where, c, impl, spec, wild=None):
    """
    Every item the code emits is an item the specification allows: same loops, same value, condition at least as
    strong.  impl/spec: raw sequence terms.  wild: {symbol: predicate} - a loop of the specification over the symbol
    matches any loop of the code whose iterable satisfies the predicate.
    """
    ia, ib = items(c, impl), items(c, spec)
    if ia is None or ib is None:
        rep.add(name, None, where, 'not a list of items: %s' % pretty(impl, 120))
        return
    ia = [e for e in ia if e.gate != FALSE]
    wild = dict((c.term(k), f) for k, f in (wild or {}).items())
    if not ia:
        rep.add(name, None, where, 'no items')
        return

    def match(bs, cs):
        if len(bs) != len(cs):
            return False
        for b, x in zip(strip_stops(bs), strip_stops(cs)):
            if x.args[0] in wild:
                if not wild[x.args[0]](b.args[0]):
                    return False
            elif b is not x:
                return False
        return True

    def shape(bs):
        return [(b.args[0].op,) + tuple(a for a in b.args[0].args if isinstance(a, str)) if b.args[0] not in wild
                else None for b in bs]

    def like(bs, cs):
        x, y = shape(bs), shape(cs)
        return len(x) == len(y) and all(q is None or p == q for p, q in zip(x, y))

    for e in ia:
        g = FALSE
        for f in ib:
            if f.value is e.value and match(e.binders, f.binders):
                g = B.or_(g, f.gate)
        if B.implies(e.gate, g):
            continue
        u = unresolved(mk('x', e.value, e.binders, Gate(e.gate)))
        u = u or foreign(mk('x', e.value, e.binders, Gate(e.gate))) - foreign(mk('x', tuple(ib)))
        loc = '%s:%s' % e.loc[:2] if e.loc else ''
        if g != FALSE:
            d = 'the item %s is produced under the condition %s, which does not imply %s' % (
                pretty(e.value, 200), show_gate(e.gate), show_gate(g))
        else:
            near = [f for f in ib if match(e.binders, f.binders)]
            near = near or [f for f in ib if like(e.binders, f.binders)]
            if not near:
                rep.add(name, None, '%s (%s)' % (where, loc), 'loops not recognised: %s' % pretty(e.binders, 400))
                return
            dd = []
            for b, x in zip(strip_stops(e.binders), strip_stops(near[0].binders)):
                if x.args[0] not in wild:
                    dd += diff(b, x)
            dd += diff(e.value, near[0].value)
            vals = mk('x', e.value, strip_stops(e.binders))
            parts = set(t for _, x, y in dd for t in (x, y) if isinstance(t, T))
            eqs = [a for a in B.support_atoms(e.gate) if a.op == 'cmp' and a.args[0] == '==' and parts & set(a.args)]
            eqs = [a for a in eqs if made_equal(a, e.value, [f.value for f in near])]
            u = unresolved(vals) or foreign(vals) - foreign(mk('x', tuple(ib))) or not dd or eqs
            d = 'the item %s is not derived as required: %s' % (pretty(e.value, 200), '; '.join(
                '%s instead of %s' % (pretty(x, 160), pretty(y, 160)) for _, x, y in dd[:2]))
        rep.add(name, None if u else False, '%s (%s)' % (where, loc), d)
        return
    rep.add(name, True, where)


def made_equal(eq, value, wanted):
    """Knowing that two terms are equal might turn the value into a wanted one."""
    x, y = eq.args[1:3]
    if any(t.op not in ('idx', 'celem', 'slice', 'before', 'after') for t in (x, y)):
        return True
    return any(subst(value, {old: new}) is subst(f, {old: new}) for f in wanted for old, new in ((x, y), (y, x)))


def positive(t):
    """Iterable of integers that are all at least 1."""
    if t.op == 'seq':
        return all(e.value.op == 'celem' and len(e.binders) == 1 and positive(e.binders[0].args[0]) or
                   ops.isnum(e.value) and ops.cval(e.value) >= 1 for e in t.args[1])
    if t.op == 'tuple':
        return all(ops.isnum(x) and ops.cval(x) >= 1 for x in t.args)
    return t.op == 'range' and len(t.args) == 2 and ops.isnum(t.args[0]) and ops.cval(t.args[0]) >= 1


def strip_stops(bs):
    return tuple(mk('cbinder', b.args[0], None, Gate(FALSE)) for b in bs)


def fix(c, gate, val):
    """Assume the (single-atom) condition has a fixed value."""
    at = B.support_atoms(gate)
    if len(at) != 1:
        return
    a0 = at[0]
    if gate != B.atom(a0):
        val = B.not_(val)
    c.assume.append(lambda a: val if a is a0 else None)


LANGS = ['ru', 'uk']


def analyzer_world(resolve=True, extra=()):
    """World in which a MorphAnalyzer can be created and run over opaque units."""
    old = World.RESOLVE
    World.RESOLVE = resolve
    try:
        w = World(opaque=[P + 'dawg.WordsDawg', DICT + '.__init__', P + 'units.base.BaseAnalyzerUnit.init'])
    finally:
        World.RESOLVE = old
    v = w.v
    for q, k in v.classes.items():
        if q.startswith(P + 'units.'):
            for m in ('parse', 'tag', 'init'):
                v.opaque.add(q + '.' + m)
    v.opaque |= set(extra)
    return w


def make_analyzer(w, lang='ru', **kw):
    a = dict((k, x if isinstance(x, GV) else gv(x)) for k, x in kw.items())
    a.setdefault('lang', lang if isinstance(lang, GV) else gv(const(lang)))
    a.setdefault('path', gv(const('/dictionary/path')))
    w.v.new_epoch()
    w.v.gate = TRUE
    r = w.v.instantiate(w.v.cls(MA).leaf, [], a, None).single()
    w.v.new_epoch()
    if r is None or r.op != 'inst':
        raise AnalysisError('MorphAnalyzer cannot be instantiated')
    return r


def units_run(w, morph, meth):
    """[(unit, args, condition, emission)] of the per-unit results a call of parse()/tag() returns; None if not of this
    form."""
    r = w.call(morph, meth, WORD)
    s = w.v.as_seq(r.value)
    if s.op != 'seq' or s.args[3]:
        return r, None
    out = []
    for e in s.args[1]:
        if len(e.binders) != 1 or e.gate == FALSE:
            if e.gate == FALSE:
                continue
            return r, None
        it = strip_copy(e.binders[0].args[1])
        if it.op != 'mcall' or it.args[1] != meth or BINDER_STOP.get(e.binders[0]):
            return r, None
        out.append((it.args[0], it, e.gate, e))
    return r, out


def same_fields(t):
    """Wrapping a result keeps its fields."""
    if t.op in ('call', 'mcall') and len(t.args[-2]) == 1 and t.args[-2][0].op == 'star' and not t.args[-1]:
        return t.args[-2][0].args[0]
    return None


# ---- sets
def strip_set(t):
    """A set made of the items of a collection -> the collection."""
    while True:
        if t.op in ('copy', 'setof', 'frozensetof', 'listof', 'tupleof') and len(t.args) == 1:
            t = t.args[0]
        elif t.op == 'seq' and len(t.args[1]) == 1 and not t.args[2] and not t.args[3]:
            e = t.args[1][0]
            if len(e.binders) == 1 and e.gate == TRUE and e.value.op == 'celem' and e.binders[0].args[2].g == FALSE:
                t = e.binders[0].args[0]
            else:
                return t
        else:
            return t


def subset(a, b):
    return A('cmp', '<=', strip_set(a), strip_set(b))


def subset_rw(tags=None):
    """
    Canonical atoms: every way to ask whether all items of one collection are in another becomes one atom.
    tags: predicate for terms that are tags ('x in tag' asks for the grammemes of the tag).
    """
    def rw(a):
        if a.op == 'cmp' and a.args[0] == '<=':
            return subset(a.args[1], a.args[2])
        if a.op == 'in' and tags is not None and tags(a.args[1]):
            return subset(a.args[0], attr(a.args[1], 'grammemes'))
        if a.op == 'truthy' and a.args[0].op == 'mcall' and len(a.args[0].args[2]) == 1 and not a.args[0].args[3]:
            b, n, (x,) = a.args[0].args[:3]
            if n == 'issuperset':
                return subset(x, b)
            if n == 'issubset':
                return subset(b, x)
            if n == 'difference':
                return B.not_(subset(b, x))
        if a.op == 'truthy' and a.args[0].op == 'bin' and a.args[0].args[0] == '-':
            return B.not_(subset(a.args[0].args[1], a.args[0].args[2]))
        if a.op == 'cmp' and a.args[0] == '==':
            for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                if x.op == 'bin' and x.args[0] == '&' and y in x.args[1:]:
                    z = x.args[2] if x.args[1] is y else x.args[1]
                    return subset(y, z)
        if a.op == 'cexists' and len(a.args[0]) == 1 and a.args[0][0].args[2].g == FALSE:
            at = B.support_atoms(a.args[1].g)
            if len(at) == 1 and at[0].op == 'in' and at[0].args[0].op == 'celem' and \
                    at[0].args[0] not in subterms(at[0].args[1]) and a.args[1].g == B.not_(B.atom(at[0])):
                return B.not_(subset(a.args[0][0].args[0], at[0].args[1]))
        return None
    return rw


def drawn_from(t):
    """The sequence the term is an item of, for choices that always return an item; None when unknown."""
    if t.op == 'idx' and ops.isnum(t.args[1]):
        return strip_copy(chosen(t.args[0]))
    if t.op in ('max', 'min') and len(t.args) == 2:
        return strip_copy(chosen(t.args[0]))
    if t.op in ('firstof', 'lastof') and len(t.args) == 1 and isinstance(t.args[0], tuple):
        return seq('list', t.args[0])
    return None


def chosen(t):
    while True:
        if t.op in ('copy', 'sorted', 'listof', 'tupleof', 'reversed') or t.op == 'slice':
            t = t.args[0]
        else:
            return t
