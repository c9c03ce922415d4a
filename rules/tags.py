"""A13-A15, A26: the tag class."""
import ast

from .common import *

T1, T2, OTHER, KNOWN_S, STR = sym('t'), sym('u'), sym('g'), sym('KNOWN_GRAMMEMES'), sym('s')

CATEGORIES = {
    'POS': 'NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ',
    'animacy': 'anim inan',
    'aspect': 'perf impf',
    'case': 'nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2',
    'gender': 'masc femn neut',
    'involvement': 'incl excl',
    'mood': 'indc impr',
    'number': 'sing plur',
    'person': '1per 2per 3per',
    'tense': 'pres past futr',
    'transitivity': 'tran intr',
    'voice': 'actv pssv',
}


class Tags(object):
    def __init__(self):
        self.w = w = World()
        self.v = v = w.v
        self.cls = v.cls(TAG)
        # grammeme tables are filled by dictionaries
        for n in ('KNOWN_GRAMMEMES', '_LAT2CYR', '_CYR2LAT', '_GRAMMEME_INCOMPATIBLE', '_GRAMMEME_INDICES'):
            if n in self.cls.attrs:
                self.cls.attrs[n] = gv(sym(n))
        for t in (T1, T2):
            v.types[t] = self.cls
        v.new_epoch()
        v.gate = TRUE
        self.inst = v.instantiate(self.cls.leaf, [gv(STR)], {}, None).single()
        self.made = v.gate
        self.raised = list(v.raises)
        v.gate = TRUE
        self.lazy = self.lazy_attrs()
        self.sets = self.set_attrs()

    def set_attrs(self):
        """Attributes that are created as the set of the items of another one."""
        out = {}
        c = self.w.canon()
        vals = {}
        for n, x in self.fields().items():
            t = x.single()
            if t is not None and n not in self.lazy:
                t = self.v.snap_gv(gv(t)).single()
                vals[n] = strip_copy(c.term(t)) if t is not None else None
        for n, t in vals.items():
            if t is None or not (t.op == 'seq' and t.args[0] in ('set', 'frozenset') or t.op in ('setof', 'frozensetof')):
                continue
            for k, u in vals.items():
                if u is None or k == n:
                    continue
                if u.op == t.op == 'seq' and u.args[0] in ('tuple', 'list') and u.args[1:] == t.args[1:] or \
                        t.op != 'seq' and strip_set(t) is strip_set(u) and u.op in ('tupleof', 'listof'):
                    out[n] = k
        return out

    def fields(self):
        return self.v.obj(self.inst).attrs

    def lazy_attrs(self):
        """Attributes that start as None and are assigned later."""
        out = set()
        for n, x in self.fields().items():
            if all(t is NONE for g, t in x.alts):
                out.add(n)
        return out

    def canon(self, cached=False, **kw):
        c = self.w.canon(**kw)

        def first_use(a):
            if a.op == 'isnone' and a.args[0].op == 'attr' and a.args[0].args[0] in (T1, T2) and a.args[0].args[1] in self.lazy:
                return TRUE
            if a.op == 'isnone' and a.args[0].op == 'attr' and a.args[0].args[0] in (T1, T2):
                x = self.fields().get(a.args[0].args[1])
                if x is not None and all(t.op in ('seq', 'obj', 'tuple', 'tupleof', 'frozensetof', 'setof') for g, t in x.alts):
                    return FALSE
            return None
        c.assume.append(first_use)

        def set_field(t):
            if t.op == 'attr' and t.args[0] in (T1, T2) and t.args[1] in self.sets:
                return mk('setof', attr(t.args[0], self.sets[t.args[1]]))
            return None
        c.rewrites.append(set_field)

        def class_state(t):
            if t.op == 'attr' and t.args[0] in (mk('attr', T1, '__class__'), T1, mk('attr', T2, '__class__')):
                k = self.cls.attrs.get(t.args[1])
                k = k.single() if k is not None else None
                if k is not None and k.op == 'sym':
                    return k
            return None
        c.rewrites.append(class_state)
        return c

    def methods(self):
        for n, x in sorted(self.cls.attrs.items()):
            t = x.single()
            if t is not None and t.op == 'func':
                yield n, self.v.funcs[t.args[0]]

    def where(self, m):
        f = self.v.find_method(self.cls, m)
        return self.w.where_func(f) if f is not None else 'pymorphy2/tagset.py OpencorporaTag'


def key_of(c, r):
    """E when the comparison result is E(t) == E(u)."""
    g = c.gate(ops.truth(r.value))
    at = B.support_atoms(g)
    if len(at) != 1 or at[0].op != 'cmp' or at[0].args[0] != '==' or g != B.atom(at[0]):
        return None
    a, b = at[0].args[1:3]
    for x, y in ((a, b), (b, a)):
        if T1 in subterms(x) and T2 not in subterms(x) and subst(x, {T1: T2}) is y:
            return x
    return None


def check_A13(rep):
    tg = Tags()
    w, v = tg.w, tg.v
    rep.world = w
    c = tg.canon()
    eq = w.call(T1, '__eq__', T2)
    key = key_of(c, eq)
    if key is None:
        u = unresolved(c.gv(eq.value)) or foreign(c.gv(eq.value))
        rep.add('equality compares one value of both tags', None, eq.where, pretty(c.gv(eq.value), 300))
        return
    rep.add('equality compares one value of both tags', True, eq.where, '')
    other = subst(key, {T1: T2})
    asked = dict((('==' if m == '__eq__' else '<', x, y), c.gate(ops.truth(w.call(x, m, y).value)))
                 for m in ('__eq__', '__lt__') for x, y in ((T1, T2), (T2, T1)) if v.find_method(tg.cls, m) is not None)
    c = tg.canon()
    c.assume.append(lambda a: asked.get(a.args) if a.op == 'cmp' else None)      # operators call the methods
    want = {'__ne__': boolt(B.not_(ops.compare('==', key, other))), '__lt__': boolt(ops.compare('<', key, other)),
            '__gt__': boolt(ops.compare('<', other, key)), '__le__': boolt(ops.compare('<=', key, other)),
            '__ge__': boolt(ops.compare('<=', other, key))}
    for m in sorted(want):
        if v.find_method(tg.cls, m) is None:
            if m in ('__ne__', '__lt__', '__gt__'):
                rep.add('%s agrees with equality' % m, None if m == '__ne__' else False, tg.where(m), 'not defined')
            continue
        r = w.call(T1, m, T2)
        rep.equal('%s agrees with equality' % m, r.where, c.gv(r.value), gv(c.term(want[m])))
    r = w.call(T1, '__len__')
    rep.equal('the length counts what equality compares', r.where, c.gv(r.value), gv(c.term(ops.length(key))))
    # hash: depends on nothing but the compared value
    r = w.call(T1, '__hash__')
    h = c.gv(r.value).single()
    if h is None:
        rep.add('equal tags have equal hashes', None, r.where, 'several values')
    else:
        rest = subst(h, {key: sym('key')})
        ok = T1 not in subterms(rest)
        pure = h.op == 'call' and h.args[0] is mk('ext', 'builtins.hash')
        bad = [x for x in subterms(rest) if x.op == 'attr' and x.args[0] is T1]
        rep.add('equal tags have equal hashes', True if ok and pure else False if bad and not unresolved(h) and not derived(
            tg, bad, key) else None, r.where, 'the hash is %s, equality compares %s' % (pretty(h, 200), pretty(key, 100)))
    # the compared value is fixed at creation
    kattrs = set(x.args[1] for x in subterms(key) if x.op == 'attr' and x.args[0] is T1)
    for a in sorted(kattrs):
        x = tg.fields().get(a)
        if x is None:
            rep.add('the compared value is immutable', None, tg.where('__init__'), a)
            continue
        ts = [t for g, t in x.alts]
        kinds = set('frozen' if t.op in ('tupleof', 'frozensetof', 'const', 'tuple') or isstr_like(t) or
                    t.op == 'seq' and t.args[0] in ('tuple', 'frozenset')
                    else 'list' if t.op == 'obj' else '?' for t in ts)
        rep.add('the compared value is immutable', True if kinds == set(['frozen']) else False if 'list' in kinds else None,
                tg.where('__init__'), '%s is %s' % (a, pretty(ts[0], 100)))
    fixed = sorted(set(n for n in tg.fields() if n not in tg.lazy))
    dead = set()        # methods whose assignments to fixed attributes never happen
    bad = set()
    # lazily computed attributes
    for n, fn in tg.methods():
        if n in ('__init__', '__new__') or fn.kind in ('class', 'static'):
            continue
        v.new_epoch()
        v.gate = TRUE
        args = [gv(T1)] + [gv(OTHER)] * max(0, len(fn.node.args.args) - 1)
        res = v.snap_gv(v.call_func(fn, args, {}, None))
        for e in v.effects:
            if e.kind != 'setattr' or e.payload[0] is not T1:
                continue
            a, val = e.payload[1:3]
            loc = '%s:%s %s' % e.loc[:3] if e.loc else n
            cc = tg.canon()
            value = cc.gv(v.snap_gv(val) if isinstance(val, GV) else gv(val))
            if a not in tg.lazy:
                made = tg.fields().get(a)
                if made is not None and all(t is not NONE and t.op != 'top' for g, t in made.alts) and B.constrain(
                        e.gate, B.not_(A('isnone', attr(T1, a)))) == FALSE:
                    dead.add((e.loc[2].split('.')[-1] if e.loc else n, a))        # only when it is None, which it never is
                    continue
                bad.add((n, a))
                rep.add('attributes set at creation are never assigned again', False, loc, '%s = %s' % (a, pretty(value, 200)))
                continue
            vs = value.single()
            foreign_args = vs is None or any(x is OTHER or x is T2 for x in subterms(vs))
            if foreign_args:
                rep.add('lazily computed attribute %s depends on the tag only' % a, None if vs is None else False, loc,
                        pretty(value, 200))
            else:
                rep.add('lazily computed attribute %s depends on the tag only' % a, True, loc)
    stores(rep, w, tg, fixed, dead - bad)
    for a, base in (('grammemes', None), ('grammemes_cyr', None)):
        v.new_epoch()
        v.gate = TRUE
        r = v.snap_gv(v.attr_gv(gv(T1), a, None))
        raw = [t for g, t in r.alts if c.gate(g) != FALSE]
        kinds = set(frozen_kind(t, tg.lazy) for t in raw)
        rep.add('%s cannot be modified' % a, True if kinds == set(['frozen']) else False if 'open' in kinds else None,
                tg.where(a), pretty(raw[0], 200) if raw else 'no value')
    v.new_epoch()
    v.gate = TRUE
    r = c.gv(v.snap_gv(v.attr_gv(gv(T1), 'grammemes', None)))
    sp = mk('setof', key)
    t = r.single()
    rep.add('grammemes are exactly the compared grammemes', None if t is None else True if strip_set(t) is key else
            None if unresolved(t) or foreign(t) or derived(tg, [x for x in subterms(t) if x.op == 'attr' and x.args[0] is T1], key)
            else False, tg.where('grammemes'), pretty(r, 300))
    # pickling
    r = w.call(tg.inst, '__reduce__')
    t = w.canon().gv(r.value).single()
    good = None
    d = pretty(r.value, 300)
    if t is not None and t.op == 'tuple' and len(t.args) >= 2 and t.args[1].op == 'tuple':
        a = t.args[1].args
        good = len(a) == 1 and a[0] is STR and t.args[0] is w.canon().term(tg.cls.leaf)
        if not good and (len(a) != 1 or unresolved(t) or foreign(t) or any(x.op == 'join' for x in subterms(t))):
            good = None if len(a) == 1 and not (a[0].op == 'join' and a[0].args[1].op == 'seq' and a[0].args[1].args[2]) \
                else False
        rest = [x for x in t.args[2:] if x is not NONE]
        if good and rest:
            good = None
    rep.add('a pickled tag is created again from its own text', good, r.where, d)
    s = tg.fields().get('_str')
    r = w.call(tg.inst, '__str__')
    rep.equal('the text of a tag is the text it was created from', r.where, w.canon().gv(r.value), gv(STR))


def isstr_like(t):
    return t is STR or t.op == 'call' and t.args[0] is mk('ext', 'builtins.str')


def frozen_kind(t, lazy=()):
    if t.op == 'copy':
        return frozen_kind(t.args[0], lazy)
    if t.op in ('frozensetof', 'tupleof', 'tuple', 'const') or t.op == 'seq' and t.args[0] in ('frozenset', 'tuple'):
        return 'frozen'
    if t.op in ('setof', 'listof', 'obj', 'objref') or t.op == 'seq' and t.args[0] in ('set', 'list'):
        return 'open'
    if t.op == 'attr' and t.args[0] is T1 and t.args[1] in lazy:
        return 'frozen'       # the cached value itself (its assignments are checked)
    return '?'


def derived(tg, attrs, key):
    """Attributes other than the compared one that are computed from it may be equal whenever it is."""
    ks = set(x.args[1] for x in subterms(key) if x.op == 'attr')
    for x in attrs:
        if x.args[1] in ks:
            continue
        f = tg.fields().get(x.args[1])
        if x.args[1] == '_str' or f is not None and any(t is STR for g, t in f.alts):
            return False
    return True


def stores(rep, w, tg, fixed, dead):
    """Assignments to attributes set at creation, anywhere in the package."""
    inits = set(['__init__', '__new__', '__setstate__'])
    writers = []
    callers = {}
    for name, mod in sorted(w.v.program.modules.items()):
        if name.startswith('pmspec'):
            continue
        for fn in ast.walk(mod.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                continue
            fname = getattr(fn, 'name', '<lambda>')
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in fixed and x.attr.startswith('_'):
                    writers.append((mod, fname, x))
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)
                    callers.setdefault(n, set()).add(fname)

    def only_init(n, seen=()):
        if n in inits:
            return True
        if n in seen or not n.startswith('_') or not callers.get(n):
            return False
        return all(only_init(m, seen + (n,)) for m in callers[n])
    bad = [(m, f, x) for m, f, x in writers if m.name.endswith('tagset') and not only_init(f) and (f, x.attr) not in dead]
    for m, f, x in bad:
        rep.add('attributes set at creation are never assigned again', False, '%s:%s %s' % (m.relpath, x.lineno, f),
                'assigns %s' % x.attr)
    if not bad:
        rep.add('attributes set at creation are never assigned again', True, 'pymorphy2/tagset.py', '')


# ---------------------------------------------------------------- A14
def check_A14(rep):
    tg = Tags()
    w, v = tg.w, tg.v
    rep.world = w
    rw = [subset_rw()]
    # creation
    f = tg.where('__init__')
    c = tg.canon(atom_rw=rw)
    r = v.snap_gv(v.attr_gv(gv(tg.inst), 'grammemes', None))
    gs = [t for g, t in r.alts if c.gate(B.and_(g, tg.made)) != FALSE]
    name = 'a tag with an unknown grammeme cannot be created'
    if len(set(strip_set(c.term(t)) for t in gs)) != 1 or KNOWN_S not in set(
            x for g in [c.gate(tg.made)] for a in B.support_atoms(g) for x in subterms(a)):
        rep.add(name, None if len(set(gs)) != 1 else False if not calls_unknown(tg) else None, f,
                'created when %s' % show_gate(c.gate(tg.made))[:300])
    else:
        need = subset(strip_set(c.term(gs[0])), KNOWN_S)
        made = c.gate(tg.made)
        rep.add(name, True if B.implies(made, need) else None if unresolved(made) or foreign(made) else False, f,
                'created when %s' % show_gate(made)[:400])
    # membership
    for kind in ('str', 'set', 'frozenset'):
        r = w.call(T1, '__contains__', OTHER)
        c = tg.canon(atom_rw=rw)
        c.assume.append(lambda a: kind_of(a, kind))
        ret = c.gate(r.gate)
        pos = c.gate(ops.truth(r.value))
        gr = v.snap_gv(v.attr_gv(gv(T1), 'grammemes', None))
        v.gate = TRUE
        base = set(strip_set(c.term(t)) for g, t in gr.alts if c.gate(g) != FALSE)
        if len(base) != 1:
            rep.add('membership of a %s' % kind, None, r.where, 'grammemes not resolved')
            continue
        base = base.pop()
        if kind == 'str':
            inside, known = ops.member(OTHER, base), ops.member(OTHER, KNOWN_S)
        else:
            inside, known = subset(OTHER, base), subset(OTHER, KNOWN_S)
        odd = unresolved(ret) or unresolved(pos) or foreign(ret) - foreign(known) or [
            a for a in B.support_atoms(B.or_(ret, pos)) if a.op == 'truthy' and a.args[0].op in ('call', 'mcall', 'bin')]
        d = 'answers yes when %s, returns when %s' % (show_gate(pos)[:300], show_gate(ret)[:300])
        rep.add('a %s is in a tag only if all of it is among the grammemes' % kind,
                True if B.implies(B.and_(ret, pos), inside) else None if odd else False, r.where, d)
        rep.add('a %s of grammemes of the tag is in the tag' % kind,
                True if B.implies(B.and_(ret, inside), pos) else None if odd else False, r.where, d)
        odd = [x for x in odd if not (x.op == 'truthy' and x.args[0].op == 'bin' and x.args[0].args[0] == '&' and
                                      OTHER in x.args[0].args[1:] and base in map(strip_set, x.args[0].args[1:]))]
        rep.add('a negative answer for a %s is given only for known grammemes' % kind,
                True if B.implies(B.and_(ret, B.not_(pos)), known) else None if odd else False, r.where, d)
    # category attributes
    S = sym('S')
    dcls = v.lookup(P + 'tagset._select_grammeme_from').single()
    if dcls is None or dcls.op != 'cls':
        raise AnalysisError('_select_grammeme_from')
    v.new_epoch()
    v.gate = TRUE
    D = v.instantiate(dcls, [gv(S)], {}, None).single()
    gr = v.snap_gv(v.attr_gv(gv(T1), 'grammemes', None))
    for typed in (True, False):
        c = tg.canon()
        tg.cls.attrs['typed_grammemes'] = gv(const(typed))
        r = w.call(D, '__get__', T1, tg.cls.leaf)
        base = set(strip_set(c.term(t)) for g, t in gr.alts if c.gate(g) != FALSE).pop()
        both = ops.truth_leaf(c.term(ops.binop('&', S, mk('setof', base))))
        none = FALSE
        vals = []
        for g, t in r.value.alts:
            if c.gate(g) == FALSE:
                continue
            if t is NONE:
                none = B.or_(none, c.gate(g))
            else:
                vals.append((g, t))
        label = 'typed' if typed else 'plain'
        at = [a for a in B.support_atoms(none)]
        okn = len(at) == 1 and common_of(at[0], S, base) is True and none == B.not_(B.atom(at[0]))
        rep.add('a category attribute (%s) is None exactly when the tag has no grammeme of the category' % label,
                True if okn else None if unresolved(none) or foreign(none) or any(common_of(a, S, base) is None for a in at)
                else False, r.where, 'None when %s' % show_gate(none)[:300])
        ok = bool(vals)
        d = ''
        for g, t in vals:
            args = [t]
            if t.op == 'inst':
                ca = v.obj(t).attrs.get('__ctor_args__')
                args = [y for gg, x in ca.alts if c.gate(gg) != FALSE for y in (x.args if x.op == 'tuple' else (x,))] \
                    if ca is not None else []
            srcs = [item_source(c.term(x)) for x in args]
            st = [None if x is None else intersection(x, S, base) for x in srcs]
            if not st or None in st:
                ok = None if ok is not False else ok
            elif not all(st):
                ok = False
            d = pretty(srcs[0], 200) if srcs and srcs[0] is not None else pretty(t, 200)
        rep.add('a category attribute (%s) is a grammeme of the tag and of the category' % label, ok, r.where, d)
        if typed:
            for g, t in vals:
                if t.op != 'inst':
                    rep.add('comparing a category attribute with a grammeme of another category is an error', False, r.where,
                            'the value is an ordinary string')
                    continue
                for m in ('__eq__', '__ne__'):
                    q = w.call(t, m, OTHER)
                    cc = tg.canon()
                    ret = cc.gate(q.gate)
                    allowed = B.or_(ops.member(OTHER, S), ops.is_none(OTHER))
                    rep.add('%s of a category attribute returns only for grammemes of the category' % m,
                            True if B.implies(ret, allowed) else None if unresolved(ret) or foreign(ret) else False, q.where,
                            'returns when %s' % show_gate(ret)[:300])
                    truth_ = cc.gate(ops.truth(q.value))
                    pos = truth_ if m == '__eq__' else B.and_(ret, B.not_(truth_))
                    nn = B.constrain(pos, ops.is_none(OTHER)) if pos > 1 else pos
                    rep.add('%s of a category attribute and None' % m, nn == FALSE or (None if unresolved(pos) else False),
                            q.where, show_gate(pos)[:200])
                q = w.call(t, '__hash__')
                cc = tg.canon()
                x = cc.gv(q.value).single()
                rep.add('a category attribute hashes like its grammeme', True if x is not None and '__hash__' in show(x) or
                        x is not None and 'builtins.hash' in show(x) else None, q.where, pretty(q.value, 200))
    # the table of categories
    from .tables import const_list
    for a in sorted(CATEGORIES):
        x = tg.cls.attrs.get(a)
        d = x.single() if x is not None else None
        vals = None
        if d is not None and d.op == 'inst':
            for n, val in v.obj(d).attrs.items():
                vals = vals or const_list(v, val)
        rep.add('category %s contains its own grammemes and no others' % a,
                None if vals is None else set(vals) == set(CATEGORIES[a].split()), 'pymorphy2/tagset.py %s' % a,
                'has %s' % sorted(vals or ()))


def calls_unknown(tg):
    return any(e.payload for e in tg.raised)


def kind_of(a, kind):
    if a.op == 'isinstance' and a.args[0] is OTHER:
        n = show(a.args[1])
        return TRUE if n.endswith('.' + kind) else FALSE
    return None


def common_of(a, S, base):
    """The atom says that S and the grammemes have a common item: True, False, None (not understood)."""
    if a.op == 'truthy' and a.args[0].op == 'bin' and a.args[0].args[0] == '&':
        return set(strip_set(x) for x in a.args[0].args[1:]) == set((S, base))
    if a.op == 'cexists' and len(a.args[0]) == 1:
        at = B.support_atoms(a.args[1].g)
        if len(at) == 1 and at[0].op == 'in' and at[0].args[0].op == 'celem' and a.args[1].g == B.atom(at[0]):
            return set((strip_set(a.args[0][0].args[0]), strip_set(at[0].args[1]))) == set((S, base))
    return None


def item_source(t):
    while t.op == 'copy':
        t = t.args[0]
    if t.op == 'call' and t.args[0] is mk('ext', 'builtins.next') and len(t.args[1]) == 1:
        return t.args[1][0]
    if t.op == 'idx' and ops.isnum(t.args[1]):
        return chosen(t.args[0])
    if t.op in ('max', 'min'):
        return t.args[0]
    if t.op == 'mcall' and t.args[1] == 'pop':
        return t.args[0]
    if t.op in ('firstof', 'lastof'):
        return seq('list', t.args[0])
    return None


def intersection(t, S, base):
    t = strip_set(t)
    if t.op == 'bin' and t.args[0] == '&':
        return set(strip_set(x) for x in t.args[1:]) == set((S, base))
    if t.op == 'seq' and len(t.args[1]) == 1 and not t.args[3]:
        e = t.args[1][0]
        at = B.support_atoms(e.gate)
        if len(e.binders) == 1 and e.value.op == 'celem' and len(at) == 1 and at[0].op == 'in' and at[0].args[0] is e.value \
                and e.gate == B.atom(at[0]):
            return set((strip_set(e.binders[0].args[0]), strip_set(at[0].args[1]))) == set((S, base))
        if len(e.binders) == 1 and e.gate == TRUE and e.value.op == 'celem' and strip_set(e.binders[0].args[0]) in (S, base):
            return False
        return None
    if t in (S, base):
        return False
    return None


# ---------------------------------------------------------------- A15
STANDARD = set(' '.join(CATEGORIES.values()).split()) | set(['Sgtm', 'Fixd', 'Abbr', 'Pltm', 'Apro', 'Geox', 'Orgn', 'Surn',
                                                             'Name', 'Patr', 'GNdr', 'Ms-f'])
REGISTER = '''
def known(rows):
    return set([name for name, parent, alias, description in rows])

def lat2cyr(rows):
    return dict([(name, alias) for name, parent, alias, description in rows])

def cyr2lat(rows):
    return dict([(alias, name) for name, parent, alias, description in rows])

def translate(tag, mapping):
    return ' '.join([','.join([mapping.get(g, g) for g in part.split(',')]) for part in tag.split()])
'''


def check_A15_tables(rep):
    tg = Tags()
    w, v = tg.w, tg.v
    rep.world = w
    lat, cyr, ov = sym('lat'), sym('cyr'), sym('overwrite')
    r = w.call(tg.cls.leaf, 'add_grammemes_to_known', lat, cyr, ov)
    c = tg.canon()
    writes = {}
    odd = []
    kept = []
    for e in r.effects:
        if e.kind == 'mutate' and e.payload[0] is KNOWN_S and e.payload[1] in ('add', 'update'):
            writes.setdefault('known', []).append((e, [x for x in e.payload[2]]))
        elif e.kind == 'setitem' and e.payload[0] in (sym('_LAT2CYR'), sym('_CYR2LAT')):
            writes.setdefault(e.payload[0].args[0], []).append((e, list(e.payload[1:3])))
        elif e.kind == 'mutate' and e.payload[0] in (sym('_LAT2CYR'), sym('_CYR2LAT')) and e.payload[1] == 'setdefault':
            kept.append(e)
            writes.setdefault(e.payload[0].args[0], []).append((e, list(e.payload[2])))
        elif e.kind == 'mutate' or e.kind in ('setattr', 'setitem'):
            odd.append(e)
    want = {'known': [lat], '_LAT2CYR': [lat, cyr], '_CYR2LAT': [cyr, lat]}
    gates = {}
    for n in sorted(want):
        g = FALSE
        ok = True
        d = 'no write under any condition'
        for e, args in writes.get(n, ()):
            vals = [c.term(x.single() if isinstance(x, GV) and x.single() is not None else x) for x in args]
            vals = [gv(x) if isinstance(x, T) else x for x in vals]
            if not all(same(x, gv(y)) for x, y in zip(vals, want[n])):
                ok = None if any(unresolved(x) for x in vals) else False
                d = 'writes %s' % ', '.join(pretty(x, 80) for x in vals)
            g = B.or_(g, c.gate(e.gate))
        gates[n] = g
        if not writes.get(n):
            ok = None if odd or tg.cls.attrs.get('KNOWN_GRAMMEMES') is None else False
        rep.add('add_grammemes_to_known writes the right pair into %s' % n, ok, r.where, d)
    if all(gates.values()):
        u = [x for g in gates.values() for x in unresolved(g)]
        rep.add('a grammeme becomes known together with both translations', True if len(set(gates.values())) == 1 else
                None if u else False, r.where, '; '.join('%s when %s' % (k, show_gate(g)) for k, g in sorted(gates.items())))
        g = gates['known']
        must = B.or_(truth_leaf(ov), B.not_(ops.member(lat, KNOWN_S)))
        rep.add('registration happens unless the grammeme is known and must be kept', True if g == must else None if u or foreign(g)
                else False, r.where, 'when %s' % show_gate(g))
    # dictionary grammemes
    rows = sym('rows')
    r = w.call(tg.cls.leaf, '_init_grammemes', rows)
    for n, f in (('KNOWN_GRAMMEMES', 'known'), ('_LAT2CYR', 'lat2cyr'), ('_CYR2LAT', 'cyr2lat')):
        got = None
        for e in r.effects:
            if e.kind == 'setattr' and e.payload[0] is tg.cls.leaf and e.payload[1] == n:
                got = e
        if got is None:
            rep.add('loading a dictionary defines %s from all of its grammemes' % n, None, r.where, 'not assigned')
            continue
        cc = w.canon(rewrites=[unpacked])
        sp = w.run_spec(REGISTER, f, rows)
        x = cc.gv(v.snap_gv(got.payload[2] if isinstance(got.payload[2], GV) else gv(got.payload[2])))
        y = cc.gv(sp.value)
        rep.equal('loading a dictionary defines %s from all of its grammemes' % n, r.where, as_plain(x), as_plain(y))
        rep.add('loading a dictionary always replaces %s' % n, True if cc.gate(got.gate) == TRUE else None if unresolved(cc.gate(got.gate))
                else False, r.where, 'only when %s' % show_gate(cc.gate(got.gate))[:200])
    # translation
    tg2 = Tags()
    w, v = tg2.w, tg2.v
    v.types.pop(T1, None)
    v.types.pop(T2, None)
    text = sym('text')
    for m, n in (('lat2cyr', '_LAT2CYR'), ('cyr2lat', '_CYR2LAT')):
        r = w.call(tg2.cls.leaf, m, text)
        c = w.canon()
        c.assume.append(lambda a: FALSE if a.op == 'isinstance' and a.args[0] is text else None)
        sp = w.run_spec(REGISTER, 'translate', text, sym(n))
        rep.equal('%s replaces every grammeme by its translation and keeps the separators' % m, r.where, c.gv(r.value), c.gv(sp.value))
        r = w.call(w.morph, m, text)
        ok = [e for e in r.calls if e.payload[0].op == 'attr' and e.payload[0].args[1] == m]
        if ok:
            t = c.gv(r.value).single()
            rep.add('MorphAnalyzer.%s translates with the tables of the dictionary' % m,
                    True if t is c.term(mcall(attr(attr(w.morph, 'dictionary'), 'Tag'), m, (text,))) else None, r.where, pretty(r.value, 200))
    v.types[T1] = tg2.cls
    c = tg2.canon()
    tagtext = None
    v.new_epoch()
    v.gate = TRUE
    r = v.snap_gv(v.attr_gv(gv(T1), 'cyr_repr', None))
    s = v.snap_gv(v.call_gv(v.attr_gv(gv(T1), '__str__', None), [], {}, None))
    sp = w.run_spec(REGISTER, 'translate', s, sym('_LAT2CYR'))
    rep.equal('cyr_repr is the translation of the text of the tag', tg2.where('cyr_repr'), c.gv(r), c.gv(sp.value))


def unpacked(t):
    return None


def as_plain(v):
    t = v.single()
    if t is not None and t.op == 'seq' and t.args[0] == 'set':
        return gv(strip_order(t))
    return v


def strip_order(t):
    return seq('set', t.args[1], (), t.args[3])


def texts(v, x):
    if isinstance(x, GV):
        x = v.snap_gv(x).single()
    if x is not None and x.op == 'const' and isinstance(ops.cval(x), str):
        return ops.cval(x)
    return None


def register_calls(w, name, args):
    """Grammeme registrations and tags created by a unit, in order."""
    v = w.v
    k = v.cls(P + 'units.' + name)
    v.new_epoch()
    v.gate = TRUE
    leaf = v.instantiate(k.leaf, [], dict((a, gv(sym(s))) for a, s in args.items()), None).single()
    r = w.call(leaf, 'init', w.morph)
    events = [('call', e) for e in r.calls]
    w2 = []
    for kind, e in events:
        f, a, kw = e.payload[:3]
        n = f.args[1] if f.op == 'attr' else None
        if n == 'add_grammemes_to_known':
            a = list(a) + [kw[x] for x in ('lat', 'cyr')[len(a):] if x in kw]
            over = kw.get('overwrite') if 'overwrite' in kw else a[2] if len(a) > 2 else None
            w2.append(('add', e, texts(v, a[0]), texts(v, a[1]) if len(a) > 1 else None, over))
        elif n in ('Tag', 'TagClass') and (a or kw):
            w2.append(('tag', e, texts(v, a[0] if a else list(kw.values())[0]), None, None))
    return leaf, r, w2


def check_A15_units(rep):
    pairs = {}
    for name, args in UNITS:
        World.RESOLVE = True
        try:
            w = World()
        finally:
            World.RESOLVE = False
        rep.world = w
        leaf, r, evs = register_calls(w, name, args)
        reg = set()
        for kind, e, lat, cyr, over in evs:
            if kind == 'add':
                if lat is not None and e.gate == TRUE and not e.binders:
                    reg.add(lat)
                if lat is None or cyr is None:
                    rep.add('%s registers named grammemes' % name, None, r.where, 'not constant')
                else:
                    pairs.setdefault((lat, cyr), set()).add(name)
            else:
                if lat is None:
                    rep.add('%s creates tags of registered grammemes' % name, None, r.where, 'tag text not constant: %s' %
                            pretty(e.payload[1], 200))
                    continue
                gr = lat.replace(' ', ',', 1).split(',')
                base = STANDARD - set(['Name', 'Patr'])
                miss = [g for g in gr if g not in base and g not in reg]
                dynamic = any(k == 'add' and (x is None or ev.gate != TRUE or ev.binders) for k, ev, x, y, z in evs)
                rep.add('%s creates tag %s of grammemes registered before' % (name, lat), True if not miss else
                        None if dynamic else False, '%s:%s %s' % e.loc[:3], 'not registered: %s' % miss)
    lats, cyrs = {}, {}
    for lat, cyr in pairs:
        lats.setdefault(lat, set()).add(cyr)
        cyrs.setdefault(cyr, set()).add(lat)
    for d, label in ((lats, 'Cyrillic names'), (cyrs, 'Latin names')):
        bad = sorted((k, sorted(x)) for k, x in d.items() if len(x) > 1)
        rep.add('additional grammemes have one-to-one names: different %s' % label, not bad, 'pymorphy2/units', str(bad))
    bad = sorted(lat for lat in lats if not lat.isascii()) + sorted(c for c in cyrs if c.isascii())
    rep.add('additional grammemes have a Latin and a Cyrillic name', not bad, 'pymorphy2/units', str(bad))


# ---------------------------------------------------------------- A26
AGREE = '''
def agree(tag, cls):
    if tag.POS not in ('NOUN', 'ADJF', 'PRTF'):
        return set()
    if tag.POS == 'NOUN' and tag.case not in ('nomn', 'accs'):
        if cls == 0:
            return set(['sing', tag.case])
        return set(['plur', tag.case])
    if cls == 0:
        if tag.case == 'nomn':
            return set(['sing', 'nomn'])
        return set(['sing', 'accs'])
    if tag.POS == 'NOUN' and cls == 1:
        return set(['sing', 'gent'])
    if tag.POS in ('ADJF', 'PRTF') and tag.gender == 'femn' and cls == 1:
        return set(['plur', 'nomn'])
    return set(['plur', 'gent'])
'''
POSES = ['NOUN', 'ADJF', 'PRTF', 'VERB', 'ADJS', None]
CASES = ['nomn', 'accs', 'gent', 'loc2', None]
GENDERS = ['masc', 'femn', 'neut', None]


def numeral_class(n):
    if n % 10 == 1 and n % 100 != 11:
        return 0
    if n % 10 in (2, 3, 4) and n % 100 not in (12, 13, 14):
        return 1
    return 2


def check_A26(rep):
    tg = Tags()
    w, v = tg.w, tg.v
    rep.world = w
    n = sym('num')
    name = 'numeral_agreement_grammemes'
    r = w.call(T1, name, n)
    c = tg.canon()
    # dependence on the number only through residues of divisors of 100
    bad = []
    terms = [c.gv(r.value)]
    found = set()
    for g, t in terms[0].alts:
        for x in list(subterms(t)) + [y for a in B.support_atoms(g) for y in subterms(a)]:
            if isinstance(x, T) and n in [y for y in x.args if isinstance(y, T)]:
                if x.op == 'bin' and x.args[0] == '%' and x.args[1] is n and ops.isnum(x.args[2]) and \
                        ops.cval(x.args[2]) and 100 % ops.cval(x.args[2]) == 0:
                    found.add(x)
                else:
                    bad.append(x)
    rep.add('the grammemes depend on the number modulo 100 only', True if not bad else None, r.where,
            'uses %s' % ', '.join(sorted(set(pretty(x, 80) for x in bad))[:4]))
    spec = [w.run_spec(AGREE, 'agree', T1, const(k)).value for k in (0, 1, 2)]
    scen = [(p, k, g) for p in POSES for k in CASES for g in GENDERS]

    def under(value, s):
        cc = tg.canon()

        def cat(a):
            for i, nm in enumerate(('POS', 'case', 'gender')):
                f = attr(T1, nm)
                if a.op == 'isnone' and a.args[0] is f:
                    return TRUE if s[i] is None else FALSE
                if a.op == 'truthy' and a.args[0] is f:
                    return FALSE if s[i] is None else TRUE
                if a.op == 'cmp' and a.args[0] == '==' and f in a.args[1:]:
                    o = a.args[2] if a.args[1] is f else a.args[1]
                    if o.op == 'const':
                        return TRUE if ops.cval(o) == s[i] else FALSE
                if a.op == 'in' and a.args[0] is f:
                    xs = ops.plain_items(a.args[1])
                    if xs is not None and all(x.op == 'const' for x in xs):
                        return TRUE if s[i] in [ops.cval(x) for x in xs] else FALSE
            return None
        cc.assume.append(cat)
        x = cc.gv(value).single()
        return flatset(cc, x)
    specs = [[under(sv, s) for s in scen] for sv in spec]
    wrong = []
    odd = []
    nums = list(range(0, 100)) + [100, 101, 102, 105, 111, 112, 113, 121, 122, 1011, 1001, 1002]
    memo = {}
    for k in nums:
        q = w.call(T1, name, const(k)).value
        key = c.gv(q)
        if key not in memo:
            memo[key] = [under(q, s) for s in scen]
        want = specs[numeral_class(k)]
        for s, x, y in zip(scen, memo[key], want):
            if x != y:
                (odd if x is None or y is None else wrong).append((k, s, x, y))
    d = ''
    if wrong:
        k, s, x, y = wrong[0]
        d = 'for %s and POS=%s case=%s gender=%s: %s instead of %s (%d such cases)' % (k, s[0], s[1], s[2], sorted(x), sorted(y),
                                                                                   len(wrong))
    rep.add('agreement for every residue modulo 100 and every kind of word', False if wrong else None if odd else True, r.where,
            d or str(odd[:1]))
    # the public entry point
    p = sym('p')
    v.types[p] = v.cls(P + 'analyzer.Parse')
    v.opaque.add(P + 'analyzer.Parse.inflect')
    v.attr_types[(P + 'analyzer.Parse', 'tag')] = TAG
    v.opaque.add(TAG + '.' + name)
    r = w.call(p, 'make_agree_with_number', n)
    cc = w.canon()
    t = cc.gv(r.value).single()
    ok = None
    if t is not None and t.op == 'mcall' and t.args[1] == 'inflect' and t.args[0] is p and len(t.args[2]) == 1:
        a = t.args[2][0]
        ok = True if a.op == 'mcall' and a.args[1] == name and a.args[2] == (n,) and a.args[0] in (attr(p, 'tag'), idx(p, const(1))) \
            else None if unresolved(a) or foreign(a) else False
    rep.add('make_agree_with_number inflects to the agreement grammemes of its own tag', ok, r.where, pretty(r.value, 300))


def flatset(c, t):
    """Constant items of a canonical set (None when not constant)."""
    if t is None:
        return None
    t = strip_set(t)
    if t.op == 'tuple':
        xs = t.args
    elif t.op == 'seq' and not t.args[3]:
        xs = []
        for e in t.args[1]:
            if e.gate == FALSE:
                continue
            if e.gate != TRUE:
                return None
            if not e.binders:
                xs.append(e.value)
            elif len(e.binders) == 1 and e.value.op == 'celem':
                sub = flatset(c, e.binders[0].args[0])
                if sub is None:
                    return None
                xs.extend(sub)
            else:
                return None
    else:
        return None
    out = set()
    for x in xs:
        if isinstance(x, str):
            out.add(x)
        elif x.op == 'const':
            out.add(ops.cval(x))
        elif x.op == 'attr' and x.args[0] is T1:
            out.add('own ' + x.args[1])
        else:
            return None
    return frozenset(out)
