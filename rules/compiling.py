"""A17, A18, A33: from lexemes to paradigms, words and prediction tables."""
import itertools

from .common import *

C = P + 'opencorpora_dict.compile.'
U = P + 'utils.'
LEXEME, PREFIXES, PARSED, OPTIONS = [sym(x) for x in ('lexeme', 'prefixes', 'parsed', 'options')]


def has(w, *names):
    for n in names:
        try:
            f = w.v.lookup(n)
        except AnalysisError:
            return False
        t = f.single() if isinstance(f, GV) else f
        if t is None or t.op not in ('func', 'class'):
            return False
    return True


# ------------------------------------------------------------------ lexeme -> (stem, paradigm)
class Cases(object):
    """The ways _to_paradigm splits the forms of a lexeme: [(condition, stem, emission of (suffix, tag, prefix))]."""

    def __init__(self):
        self.w = w = World(opaque=World.OPAQUE + [U + 'longest_common_substring'])
        self.ok = has(w, C + '_to_paradigm')
        self.cases = []
        self.where = C + '_to_paradigm'
        if not self.ok:
            return
        r = w.func(C + '_to_paradigm', LEXEME, PREFIXES)
        self.where = r.where
        self.components = None
        for g, t in r.value.alts:
            if t.op != 'tuple' or len(t.args) != 2:
                self.cases.append((g, None, None, t))
                continue
            s = strip_copy(w.v.snap_under(t.args[1], g))
            e = s.args[1][0] if s.op == 'seq' and len(s.args[1]) == 1 and not s.args[2] and not s.args[3] else None
            if e is not None and (len(e.binders) != 1 or strip_copy(e.binders[0].args[1]) is not LEXEME or
                                  e.value.op != 'tuple' or len(e.value.args) != 3 or
                                  not B.implies(g, e.gate) or e.binders[0].args[2]):
                e = None
            self.cases.append((g, t.args[0], e, t))
        for g, stem, e, t in self.cases:
            if e is None:
                continue
            form = idx(elem(e.binders[0]), const(0))
            tags = [i for i, x in enumerate(e.value.args) if x is idx(elem(e.binders[0]), const(1))]
            if len(tags) != 1:
                continue
            for s in range(3):
                for p in range(3):
                    if len(set([s, p, tags[0]])) == 3 and self.spells(g, stem, e, s, p):
                        c = {'suffix': s, 'tag': tags[0], 'prefix': p}
                        if self.components is None:
                            self.components = c
        if self.components is None:
            self.components = {'suffix': 0, 'tag': 1, 'prefix': 2}

    def spells(self, g, stem, e, s, p):
        """prefix + stem + suffix is the form"""
        b = e.binders[0]
        form = idx(elem(b), const(0))
        pre, suf = e.value.args[p], e.value.args[s]
        if B.implies(g, A('cmp', '==', mk('len', LEXEME), const(1))):
            m = {elem(b): idx(LEXEME, const(0)), mk('index', b): const(0)}
            pre, suf, form, stem = [subst(x, m) for x in (pre, suf, form, stem)]
        pre, suf = strip_copy(pre), strip_copy(suf)
        if pre is const(''):
            k = stem
            if stem is const(''):
                if suf is form:
                    return True
            elif not (stem is form or common_prefix(stem)):
                return False
            return suf is slice_(form, ops.length(k), NONE) or suf is const('') and k is form
        if pre.op == 'before' and pre.args[0] is form and pre.args[1] is stem and within(stem):
            if suf is mk('after', form, stem):
                return True
            sums = [ops.add(ops.length(pre), ops.length(stem)), ops.add(ops.length(stem), ops.length(pre)),
                    ops.length(ops.add(pre, stem))]
            return any(suf is slice_(form, x, NONE) for x in sums)
        return False


def within(stem):
    """A text that occurs in every form."""
    return stem.op == 'call' and len(stem.args[1]) == 1 and not stem.args[2] and forms_of(stem.args[1][0]) and (
        stem.args[0] is mk('global', U + 'longest_common_substring') or stem.args[0] in (mk('ext', 'os.path.commonprefix'), mk('ext', 'posixpath.commonprefix')))


def common_prefix(stem):
    return within(stem) and stem.args[0].op == 'ext'


def forms_of(t):
    t = strip_copy(t)
    if t.op == 'seq' and len(t.args[1]) == 1 and not t.args[3]:
        e = t.args[1][0]
        return len(e.binders) == 1 and e.gate == TRUE and strip_copy(e.binders[0].args[1]) is LEXEME and \
            e.value is idx(elem(e.binders[0]), const(0))
    return False


SPEC = '''
from pymorphy2.utils import longest_common_substring

def to_paradigm(lexeme, prefixes):
    forms = [x[0] for x in lexeme]
    if len(lexeme) == 1:
        return forms[0], [('', t, '') for f, t in lexeme]
    stem = longest_common_substring(forms)
    pre = [f[:f.index(stem)] for f in forms]
    if any(p not in prefixes for p in pre):
        return '', [(f, t, '') for f, t in lexeme]
    return stem, [(f[len(f[:f.index(stem)]) + len(stem):], t, f[:f.index(stem)]) for f, t in lexeme]

def productive(popularity, threshold):
    return [k for k, n in popularity.items() if n >= threshold]
'''


def check_A18(rep):
    cs = Cases()
    w = cs.w
    rep.world = w
    if not cs.ok:
        rep.add('every lexeme is split into a stem and a paradigm', None, cs.where, 'not found')
    else:
        c = w.canon()
        spec = w.run_spec(SPEC, 'to_paradigm', LEXEME, PREFIXES).value
        total = FALSE
        for n, (g, stem, e, t) in enumerate(cs.cases):
            total = B.or_(total, g)
            label = case_label(g)
            name = 'prefix, stem and suffix spell the form (%s)' % label
            k = cs.components
            if e is None:
                rep.add(name, None, cs.where, 'not recognised: %s' % pretty(c.term(t), 400))
                continue
            b = e.binders[0]
            if cs.spells(g, stem, e, k['suffix'], k['prefix']):
                rep.add(name, True, cs.where)
            else:
                x = c.term(mk('tuple', stem, e.value, b))
                u = unresolved(x) or foreign(x)
                parts = [e.value.args[k['prefix']], stem, e.value.args[k['suffix']]]
                rep.add(name, None if u or not plain_text(parts, b) else False, cs.where,
                        'a form is split into %s' % ' + '.join(pretty(p, 120) for p in parts))
            tag = e.value.args[k['tag']]
            want = idx(elem(b), const(1))
            rep.add('every form keeps its own tag (%s)' % label, True if tag is want else None if unresolved(tag) or foreign(tag)
                    else False, cs.where, 'the tag recorded is %s' % pretty(tag, 200))
            pre = e.value.args[k['prefix']]
            ok = pre is const('')
            if not ok:
                ok = allowed(g, pre, b)
            rep.add('only listed prefixes are used (%s)' % label, ok or (False if ok is False and pre.op == 'before' else None),
                    cs.where, 'the prefix %s is used under the condition %s' % (pretty(pre, 120), show_gate(g)[:300]))
        rep.add('every lexeme has a paradigm', total == TRUE or None, cs.where, show_gate(total)[:200])
    common_substring(rep)
    join(rep)
    dropped(rep)
    words(rep)


def case_label(g):
    one = A('cmp', '==', mk('len', LEXEME), const(1))
    if B.implies(g, one):
        return 'a single form'
    for at in B.support_atoms(g):
        if at.op == 'exists':
            if B.implies(g, B.atom(at)):
                return 'no listed prefixes'
            if B.implies(g, B.not_(B.atom(at))):
                return 'common stem'
    return 'any lexeme'


def plain_text(parts, b):
    """Made of the form, the stem and slices only, so that the comparison is exact."""
    return True


def allowed(g, pre, b):
    """The condition excludes every form whose prefix is not listed."""
    for at in B.support_atoms(g):
        if at.op == 'exists' and len(at.args[0]) == 1 and B.implies(g, B.not_(B.atom(at))):
            x = at.args[0][0]
            q = subst(pre, {elem(b): elem(x)})
            inner = at.args[1].g
            bad = B.not_(A('in', q, PREFIXES))
            if strip_copy(x.args[1]) is LEXEME and B.implies(bad, inner):
                return True
    return False


def common_substring(rep):
    w = World()
    name = 'the common part of all forms is contained in each of them'
    if not has(w, U + 'longest_common_substring'):
        rep.add(name, None, U + 'longest_common_substring', 'not found')
        return
    data = sym('data')
    r = w.func(U + 'longest_common_substring', data)
    c = w.canon()
    verdict, why = True, ''

    def check(t, gate):
        """every text the fold can return is in all items"""
        t0 = t
        if t.op == 'fold':
            out = True
            for x in t.args:
                if isinstance(x, T):
                    out = worst(out, check(x, gate))
                elif isinstance(x, tuple):
                    for e in x:
                        out = worst(out, check(e.value, e.gate))
            return out
        if t.op in ('ccarried', 'carried') or t is const(''):
            return True
        if t is idx(data, const(0)) and B.implies(gate, A('cmp', '==', mk('len', data), const(1))):
            return True
        for at in B.support_atoms(gate):
            if at.op == 'cexists' and len(at.args[0]) == 1 and B.implies(gate, B.not_(B.atom(at))) and \
                    at.args[0][0].args[0] is data and at.args[0][0].args[2].g == FALSE:
                ins = [a for a in B.support_atoms(at.args[1].g) if a.op == 'in' and a.args[0] is t and a.args[1].op == 'celem']
                if ins and B.implies(B.not_(B.atom(ins[0])), at.args[1].g):
                    return True
        ats = [a for a in B.support_atoms(gate) if not any(x.op in ('ccarried', 'carried') for x in subterms(a))]
        if unresolved(mk('x', t, tuple(ats))) or foreign(mk('x', t, tuple(ats))):
            return None
        return (t0, gate)

    for g, t in r.value.alts:
        x = c.term(t)
        res = check(x, c.gate(g, ()))
        if isinstance(res, tuple):
            verdict, why = False, '%s is returned under the condition %s' % (pretty(res[0], 120), show_gate(res[1])[:300])
        elif res is None and verdict is True:
            verdict, why = None, pretty(x, 300)
    rep.add(name, verdict, r.where, why)


def worst(a, b):
    if isinstance(a, tuple):
        return a
    if isinstance(b, tuple):
        return b
    return None if a is None or b is None else True


# ------------------------------------------------------------------ linked lexemes
def join(rep):
    w = World()
    v = w.v
    if not has(w, C + '_join_lexemes'):
        rep.add('joined lexemes lose no form', None, C + '_join_lexemes', 'not found')
        return
    lex, links = sym('lexemes'), sym('links')
    r = w.func(C + '_join_lexemes', lex, links)
    c = w.canon()
    muts = [e for e in r.effects]
    adds = [e for e in muts if e.kind == 'mutate' and name_of(e.payload[1]) == 'extend']
    clears = [e for e in muts if e not in adds]
    name = 'forms of a linked lexeme are added to its target before they are removed'
    if not clears:
        rep.add(name, None, r.where, 'no lexeme is emptied')
    for e in clears:
        victim = None
        if e.kind == 'mutate' and name_of(e.payload[1]) in ('clear', 'pop', 'popitem', 'remove'):
            victim = e.payload[0]
        elif e.kind in ('delitem',) or e.kind == 'mutate' and name_of(e.payload[1]) == 'pop':
            victim = idx(e.payload[0], as_term(e.payload[1]))
        if victim is None:
            rep.add(name, None, '%s (%s)' % (r.where, e.loc and '%s:%s' % e.loc[:2]), 'effect %s' % e.kind)
            continue
        mine = [a for a in adds if a.binders == e.binders and [as_term(x) for x in a.payload[2]] == [victim]]
        early = [a for a in mine if a.seqno < e.seqno]
        g = FALSE
        for a in early:
            g = B.or_(g, a.gate)
        clear = not unresolved(victim) and all(a.payload[2] and not unresolved(as_term(a.payload[2][0])) for a in adds) and \
            all(m.kind == 'mutate' for m in muts)
        ok = B.implies(e.gate, g)
        why = 'the forms of %s are removed if %s; added are %s' % (show(victim)[:120], show_gate(e.gate)[:200], '; '.join(
            '%s to %s if %s%s' % (show(as_term(a.payload[2][0]))[:80] if a.payload[2] else '?', show(a.payload[0])[:100],
                                  show_gate(a.gate)[:200], '' if a.seqno < e.seqno else ' afterwards') for a in adds) or 'none')
        if not ok:
            ok = False if clear and (mine or not adds) else None
        else:
            for a in early:
                d = distinct(e.gate, a.payload[0], victim)
                if d is None:
                    ok = False if not related(e.gate, a.payload[0], victim) else None
                    why = 'nothing keeps %s and %s apart: a lexeme linked to itself is emptied' % (show(a.payload[0])[:120], show(victim)[:120])
        rep.add(name, ok, '%s (%s)' % (r.where, e.loc and '%s:%s' % e.loc[:2]), why)
    for a in adds:
        src = [as_term(x) for x in a.payload[2]]
        ok = any(e.binders == a.binders and [x for x in (e.payload[0],)] == src and B.implies(a.gate, e.gate) for e in clears)
        rep.add('forms added to another lexeme are removed from their own', ok or None, r.where, show(src[0])[:100] if src else '')
    for g, t in r.value.alts:
        s = w.v.as_seq(gv(w.v.snap_under(t, g)))
        its = items(c, s)
        name = 'every lexeme that has forms is kept'
        if not its or len(its) != 1 or len(its[0].binders) != 1:
            rep.add(name, None, r.where, pretty(c.term(s), 300))
            continue
        e = its[0]
        it = e.binders[0].args[0]
        keys = it is lex or it.op == 'mcall' and it.args[0] is lex and it.args[1] == 'keys'
        vals = it.op == 'mcall' and it.args[0] is lex and it.args[1] in ('items', 'values', 'itervalues', 'iteritems')
        el = mk('celem', 0)
        want = idx(lex, el) if keys else el if it.op == 'mcall' and 'values' in it.args[1] else idx(el, const(1)) if vals else None
        x = mk('x', e.value, Gate(e.gate), e.binders)
        ok = want is not None and e.value is want and B.implies(A('truthy', want), e.gate) and e.binders[0].args[2].g == FALSE
        rep.add(name, ok or (None if want is None or unresolved(x) or foreign(x) else False), r.where,
                'lexemes kept: %s' % pretty(c.term(s), 300))


def related(gate, a, b):
    """Some part of the condition is about both lexemes."""
    def parts(t):
        out = set([t])
        if t.op == 'idx':
            k = t.args[1]
            out |= set([k, k.args[0]] if k.op == 'str' else [k])
        return out
    pa, pb = parts(a), parts(b)
    for at in B.support_atoms(gate):
        sub = set(subterms(at))
        if sub & pa and sub & pb:
            return True
    return False


def name_of(x):
    if isinstance(x, str):
        return x
    x = as_term(x)
    return ops.cval(x) if x is not None and x.op == 'const' else None


def as_term(x):
    if isinstance(x, GV):
        return x.single()
    return x


def distinct(gate, a, b):
    """Target and source are different lexemes under the condition."""
    if a.op == b.op == 'idx' and a.args[0] is b.args[0]:
        ka, kb = [x.args[0] if x.op == 'str' else x for x in (a.args[1], b.args[1])]
        for p, q in ((ka, kb), (kb, ka), (a.args[1], b.args[1]), (b.args[1], a.args[1])):
            if B.implies(gate, B.not_(boolg(ops.compare('==', p, q)))):
                return True
    return None


def boolg(t):
    if isinstance(t, int):
        return t
    return ops.truth(t) if not isinstance(t, GV) else t


def dropped(rep):
    """drop_unsupported_parses keeps every form without the unsupported grammeme."""
    w = World()
    v = w.v
    f = P + 'opencorpora_dict.preprocess.drop_unsupported_parses'
    name = 'only forms with the unsupported grammeme are left out'
    if not has(w, f):
        rep.add(name, None, f, 'not found')
        return
    r = w.func(f, PARSED)
    c = w.canon()
    lex = attr(PARSED, 'lexemes')
    sets = [e for e in r.effects if e.kind == 'setitem']
    rep.add('lexemes are changed only by filtering their forms', len(sets) == len(r.effects) or None, r.where,
            ', '.join(sorted(set(e.kind for e in r.effects))))
    if len(sets) != 1:
        rep.add(name, None, r.where, '%d assignments' % len(sets))
        return
    e = sets[0]
    base, key, val = e.payload[0], as_term(e.payload[1]), e.payload[2]
    s = v.as_seq(val if isinstance(val, GV) else gv(val))
    own = strip_copy(base) is lex and len(e.binders) == 1
    src = idx(lex, key) if key is not None else None
    if not own or s.op != 'seq' or len(s.args[1]) != 1 or len(s.args[1][0].binders) != 1 or src is None:
        rep.add(name, None, r.where, pretty(s, 300))
        return
    x = s.args[1][0]
    b = x.binders[0]
    it = strip_copy(b.args[1])
    items_of = idx(elem(e.binders[0]), const(1)) if len(e.binders) == 1 else None
    if it is not src and it is not items_of:
        rep.add(name, None if unresolved(it) or foreign(it) else False, r.where, 'forms are taken from %s' % pretty(it, 200))
        return
    word_tag = x.value is elem(b) or x.value is mk('tuple', idx(elem(b), const(0)), idx(elem(b), const(1)))
    keep = B.not_(A('in', const('Init'), idx(elem(b), const(1))))
    ok = word_tag and B.implies(B.and_(keep, e.gate), x.gate) and not BINDER_STOP.get(b) and e.gate == TRUE
    u = unresolved(mk('x', x.value, Gate(x.gate))) or foreign(mk('x', x.value, Gate(x.gate)))
    rep.add(name, ok or (None if u else False), r.where, 'kept is %s under the condition %s' % (pretty(x.value, 100), show_gate(x.gate)[:300]))
    rep.add('forms with the unsupported grammeme are left out', B.and_(x.gate, B.not_(keep)) == FALSE or None, r.where,
            show_gate(x.gate)[:200])


# ------------------------------------------------------------------ compilation
class Table(object):
    """A dictionary that numbers things: kind, what is numbered."""

    def __init__(self, kind, source, key=None, binders=None, gate=None, item=None, dict_oid=None):
        self.kind, self.source, self.key, self.binders, self.gate, self.item = kind, source, key, binders, gate, item
        self.oid = dict_oid


class Compiled(object):
    OPAQUE = [C + x for x in ('_join_lexemes', '_to_paradigm', '_suffixes_prediction_data')] + [
        P + 'dawg.WordsDawg.__init__', P + 'dawg.PredictionSuffixesDAWG.__init__']

    def __init__(self):
        self.cases = Cases()
        World.KEEP_SETS = True
        try:
            self.w = w = World(opaque=World.OPAQUE + self.OPAQUE)
        finally:
            World.KEEP_SETS = False
        self.v = v = w.v
        self.ok = has(w, C + 'compile_parsed_dict') and has(w, *self.OPAQUE[:3])
        self.where = C + 'compile_parsed_dict'
        if not self.ok:
            return
        self.comp = self.cases.components if self.cases.ok else {'suffix': 0, 'tag': 1, 'prefix': 2}
        with w.under(B.not_(A('noimport', 'dawg'))):
            self.r = w.func(C + 'compile_parsed_dict', PARSED, OPTIONS)
        self.gate = self.r.gate
        self.where = self.r.where
        self.c = w.canon()
        self.fields = {}
        t = self.r.value.single()
        if t is None:
            ts = [x for g, x in self.r.value.alts]
            t = ts[0] if len(ts) == 1 else None
        if t is not None and t.op == 'ntuple':
            self.fields = dict(zip(t.args[2], t.args[1]))
        else:
            self.ok = False
        self.calls = {}
        for e in self.r.calls:
            f = e.payload[0]
            n = None
            if f.op == 'global':
                n = f.args[0]
            elif f.op == 'attr' and f.args[0].op == 'inst':
                n = v.obj(f.args[0]).cls.qualname + '.' + f.args[1] if hasattr(v.obj(f.args[0]).cls, 'qualname') else None
            self.calls.setdefault(n, []).append(e)
        self.tables = {}
        for oid, o in list(v.objs.items()):
            if o.kind == 'dict' and len(o.events) == 1 and o.events[0].kind == 'setitem':
                t = self.table(oid, o)
                if t is not None:
                    self.tables[oid] = t

    def one(self, x):
        return x.single() if isinstance(x, GV) else x

    def table(self, oid, o):
        e = o.events[0]
        key, val = self.one(e.payload[0]), self.one(e.payload[1])
        if key is None or val is None or not e.binders:
            return None
        b = e.binders[-1]
        if val is mk('index', b) and key is elem(b) and len(e.binders) == 1 and B.implies(self.gate, e.gate):
            nb = new_binder(b.args[1])
            t = Table('static', seq('list', [Emission((nb,), TRUE, elem(nb))], b.args[2] or ()), dict_oid=oid)
            t.iterable = b.args[1]
            return t
        if val.op == 'len' and val.args[0].op == 'cur':
            if any(a.op == 'in' and a.args[0] is key and a.args[1].op == 'cur' and a.args[1].args[0] == oid and
                   B.implies(e.gate, B.not_(B.atom(a))) for a in B.support_atoms(e.gate)):
                lo = val.args[0].args[0]
                if lo == oid:
                    return Table('intern', None, key, e.binders, e.gate, key, oid)
                l = self.v.objs.get(lo)
                if l is not None and l.kind == 'list' and len(l.events) == 1 and l.events[0].kind == 'item' and \
                        l.events[0].binders == e.binders and l.events[0].gate == e.gate and not l.events[0].locks:
                    item = self.one(l.events[0].payload[0])
                    before = l.events[0].seqno < e.seqno
                    if not before:
                        return Table('intern', mk('objref', lo), key, e.binders, e.gate, item, oid)
        return None

    def numbered(self, t):
        """idx(table, key) -> (Table, key)"""
        if t.op != 'idx' or t.args[0].op not in ('objref', 'cur', 'obj'):
            return None, None
        return self.tables.get(t.args[0].args[0]), t.args[1]

    def content(self, t):
        """Canonical content of a container."""
        v = self.v
        if t.op == 'objref':
            t = v.snapshot(v.objs[t.args[0]])
        return self.c.term(v.as_seq(gv(t))) if t.op in ('obj', 'seq', 'copy') else self.c.term(t)

    def paradigm_of(self, t):
        """The paradigm of which lexeme: call of _to_paradigm, None when it is something else."""
        if t.op == 'idx' and t.args[1] is const(1) and is_call(t.args[0], self.v, C + '_to_paradigm'):
            return t.args[0]
        return None


def is_call(t, v, name):
    return t.op == 'call' and t.args[0] is mk('global', name)


def args_of(v, f, e):
    """{parameter: value} of a call."""
    fn = v.lookup(f.args[0])
    fn = v.funcs[(fn.single() if isinstance(fn, GV) else fn).args[0]]
    a = fn.node.args
    names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
    out = {}
    for n, x in zip(names, e.payload[1]):
        out[n] = x
    for k, x in dict(e.payload[2]).items():
        out[k] = x
    return dict((k, x.single() if isinstance(x, GV) else x) for k, x in out.items())


def layout(rep):
    """Compiled paradigms, words and prediction data agree."""
    k = Compiled()
    rep.world = k.w
    if not k.ok:
        rep.add('compiled paradigms are laid out in thirds', None, k.where, 'compilation not recognised')
        return None
    v, w, c = k.v, k.w, k.c
    want = [('suffix', 'suffixes'), ('tag', 'gramtab'), ('prefix', None)]

    # the paradigm array
    name = 'a compiled paradigm holds suffix ids, then tag ids, then prefix ids'
    s = v.as_seq(gv(k.fields['paradigms']))
    arr = None
    if s.op == 'seq' and len(s.args[1]) == 1:
        arr = s.args[1][0]
    para_ok = False
    if arr is None or arr.value.op != 'call' or arr.value.args[0] is not mk('ext', 'array.array') or len(arr.value.args[1]) != 2:
        rep.add(name, None, k.where, pretty(c.term(s), 300))
    else:
        rep.add('paradigms are arrays of 16-bit numbers', arr.value.args[1][0] is const('H') or
                (False if arr.value.args[1][0].op == 'const' else None), k.where, show(arr.value.args[1][0]))
        data = strip_copy(arr.value.args[1][1])
        data = strip_copy(v.snap_if_fresh(data)) if data.op == 'obj' else data
        ems = data.args[1] if data.op == 'seq' and not data.args[2] and not data.args[3] else ()
        found = []
        for e in ems:
            t, key = k.numbered(e.value) if len(e.binders) == 1 and B.implies(B.and_(arr.gate, k.gate), e.gate) else (None, None)
            if t is None or key.op != 'idx' or key.args[0] is not elem(e.binders[0]) or not ops.isnum(key.args[1]):
                found = None
                break
            found.append((t, ops.cval(key.args[1]), e))
        if not found:
            rep.add(name, None, k.where, pretty(c.term(arr.value), 400))
        else:
            roles = dict((n, r) for r, n in k.comp.items())
            got = [roles.get(i, '?') for t, i, e in found]
            rep.add(name, got == [x for x, _ in want], k.where, 'the array holds %s' % ', '.join('%s ids' % x for x in got))
            calls = set(k.paradigm_of(strip_copy(e.binders[0].args[1])) for t, i, e in found)
            rep.add('the three parts describe the same paradigm', (len(calls) == 1 and None not in calls) or
                    (None if None in calls else False), k.where, ', '.join(pretty(e.binders[0].args[1], 100) for t, i, e in found))
            para_ok = len(calls) == 1 and None not in calls
            for (t, i, e) in found:
                role = roles.get(i)
                fld = dict(want).get(role)
                nm = '%s ids are positions in the stored %s' % (role, fld or 'paradigm_prefixes')
                if fld is not None:
                    a = k.content(t.source) if t.source is not None else None
                    b = k.content(k.fields[fld])
                    if t.kind == 'intern':
                        ok = t.key is t.item
                        ok = ok and a is not None and same_items(a, b)
                    else:
                        ok = a is not None and same_items(a, b)
                    u = a is None or open_parts(a, b)
                    rep.add(nm, ok or (None if u else False), k.where, '%s are numbered, %s are stored' % (
                        pretty(a, 200) if a is not None else '?', pretty(b, 200)))
                else:
                    src = strip_copy(t.iterable) if t.kind == 'static' else None
                    ok = t.kind == 'static' and not t.source.args[2] and is_option(k, src, 'paradigm_prefixes')
                    bad = t.kind == 'static' and is_option(k, src, 'paradigm_prefixes')
                    rep.add(nm, ok or (False if bad else None), k.where, 'numbered in another order are %s' % (pretty(src, 200) if src is not None else '?'))
                    # the loader takes the prefixes from the compile options
    return k


def same_items(a, b):
    """Same items in the same order."""
    if a is b:
        return True
    if a.op == b.op == 'seq' and a.args[1:] == b.args[1:]:
        return True
    return a.op == 'seq' and len(a.args[1]) == 1 and strip_copy(a) is strip_copy(b)


def open_parts(a, b):
    return set(unresolved(a)) ^ set(unresolved(b)) or foreign(a) ^ foreign(b)


def is_option(k, t, name):
    if t is None or t.op != 'idx' or t.args[1] is not const(name):
        return False
    o = t.args[0]
    f = k.fields.get('compile_options')
    return o is OPTIONS or f is not None and o.op in ('objref', 'obj', 'cur') and f.op in ('obj', 'objref') and o.args[0] == f.args[0]


def words(rep, k=None):
    """Every form of every lexeme is stored with its own paradigm and position."""
    k = k or Compiled()
    if not k.ok:
        rep.add('every form is stored', None, k.where, 'compilation not recognised')
        return
    v, c = k.v, k.c
    stored = []
    for n, es in k.calls.items():
        if n == P + 'dawg.WordsDawg.__init__':
            stored += es
    inst = k.fields.get('words_dawg')
    stored = [e for e in stored if inst is not None and e.payload[0].args[0] is inst]
    name = 'every form of every lexeme is stored'
    if len(stored) != 1 or len(stored[0].payload[1]) != 1:
        rep.add(name, None, k.where, 'the word graph is not recognised: %s' % (show(inst)[:200] if inst is not None else ''))
        return
    s = v.as_seq(stored[0].payload[1][0])
    if s.op != 'seq' or len(s.args[1]) != 1 or s.args[3]:
        rep.add(name, None, k.where, pretty(c.term(s), 300))
        return
    e = s.args[1][0]
    u = unresolved(mk('x', c.emission(e, ()))) if False else None
    if len(e.binders) == 1:
        src = strip_copy(e.binders[0].args[1])
        o = src.args[0] if src.op == 'mcall' and src.args[1] == 'items' and src.args[0].op == 'obj' else None
        d = v.snapshot(v.obj(o)) if o is not None and v.obj(o).kind == 'dict' else None
        ems = d.args[0] if d is not None and d.op == 'dict' and isinstance(d.args[0], tuple) else ()
        if len(ems) == 1 and isinstance(ems[0], Emission) and len(ems[0].binders) == 2 and ems[0].value.op == 'tuple':
            fb = ems[0].binders[1]
            key, val = ems[0].value.args
            if k.paradigm_of(strip_copy(fb.args[1])) is not None and not any(x is mk('index', fb) for x in subterms(key)) and \
                    any(x is mk('index', fb) for x in subterms(val)):
                return rep.add(name, False, k.where, 'one record is kept for every %s' % pretty(key, 200))
    if len(e.binders) != 2:
        rep.add(name, None, k.where, pretty(c.term(s), 300))
        return
    lb, fb = e.binders
    part = strip_copy(fb.args[1])
    if part.op == 'slice' and k.paradigm_of(strip_copy(part.args[0])) is not None:
        rep.add(name, False, k.where, 'only %s is stored' % pretty(part, 200))
        return
    call = k.paradigm_of(part)
    joined = strip_copy(lb.args[1])
    all_lex = is_call(joined, v, C + '_join_lexemes') and joined.args[1] == (attr(PARSED, 'lexemes'), attr(PARSED, 'links'))
    rep.add(name, (all_lex and call is not None and call.args[1][0] is elem(lb) and B.implies(k.gate, e.gate) and
                   not BINDER_STOP.get(lb) and not BINDER_STOP.get(fb)) or
            (False if all_lex and call is not None and not B.implies(k.gate, e.gate) and
             not unresolved(mk('x', Gate(e.gate))) and not foreign(mk('x', Gate(e.gate))) else None),
            k.where, 'stored under the condition %s: %s' % (show_gate(e.gate)[:300], pretty(c.term(s), 300)))
    name = 'a stored word is prefix + stem + suffix of its own position'
    val = e.value
    if call is None or val.op != 'tuple' or len(val.args) != 2 or val.args[1].op != 'tuple' or len(val.args[1].args) != 2:
        rep.add(name, None, k.where, pretty(val, 300))
        return
    el = elem(fb)
    part = dict((r, idx(el, const(n))) for r, n in k.comp.items())
    want = ops.add(ops.add(part['prefix'], idx(call, const(0))), part['suffix'])
    x = val.args[0]
    rep.add(name, x is want or (None if unresolved(x) or foreign(x) else False), k.where, pretty(x, 300))
    pid, ix = val.args[1].args
    name = 'a stored record is (paradigm, position)'
    t, key = k.numbered(pid)
    t2, key2 = k.numbered(ix)
    paradigm = strip_copy(fb.args[1])
    if t is not None and key is not None and strip_copy(key) is paradigm:
        rep.add(name, ix is mk('index', fb) or (None if unresolved(ix) or foreign(ix) else False), k.where, show(val.args[1])[:300])
    elif t2 is not None and pid is mk('index', fb):
        rep.add(name, False, k.where, 'the record is (position, paradigm)')
        return
    elif t is not None and key is not None and merging(v, key, paradigm):
        rep.add(name, False, k.where, 'different paradigms get the same number: they are told apart by %s' % pretty(key, 200))
        return
    else:
        rep.add(name, None, k.where, show(val.args[1])[:300])
        return
    # the number of a paradigm is its position among the stored ones
    name = 'a paradigm number is the position of the paradigm among the stored ones'
    s = v.as_seq(gv(k.fields['paradigms']))
    arr = s.args[1][0] if s.op == 'seq' and len(s.args[1]) == 1 else None
    if t.kind != 'intern' or arr is None or len(arr.binders) != len(t.binders) or s.args[2] or s.args[3]:
        rep.add(name, None, k.where, pretty(c.term(s), 300))
        return
    m = {}
    for a, b in zip(t.binders, arr.binders):
        m[elem(a)] = elem(b)
        m[mk('index', a)] = mk('index', b)
        m[a] = b
    ok = all(subst(a.args[1], m) is b.args[1] for a, b in zip(t.binders, arr.binders)) and \
        ops.subst_gate(t.gate, m) == arr.gate
    if not ok:
        ok = all(subst(a.args[1], m) is b.args[1] for a, b in zip(t.binders, arr.binders)) and \
            B.and_(k.gate, ops.subst_gate(t.gate, m)) == B.and_(k.gate, arr.gate)
    own = any(k.paradigm_of(x) is not None and subst(t.key, m) is x for x in subterms(arr.value))
    rep.add(name, (ok and own) or None, k.where, 'numbered if %s, stored if %s' % (show_gate(t.gate)[:200], show_gate(arr.gate)[:200]))


READ_UNITS = ('DictionaryAnalyzer', 'KnownSuffixAnalyzer')


@both_modes
def reads(rep):
    from . import parsing
    w = World()
    v = w.v
    D = v.get_attr(w.morph, 'dictionary', None)
    for name in READ_UNITS:
        u, r, s = parsing.emitted(w, name)
        c = w.canon()
        c.assume.append(unseen)
        spec = v.as_seq(w.run_spec(parsing.SPEC, 'p_' + name, D, u, WORD, WL, parsing.ANYPOS).value)
        included(rep, '%s.parse reads records in their field order' % name, r.where, c, proj_items(s, 1, 2), proj_items(spec, 1, 2),
                 {parsing.ANYPOS: positive})


def check_A17(rep):
    from .records import dictionary_reads
    from . import inflection
    dictionary_reads(rep)
    reads(rep)
    w = World()
    rep.world = w
    inflection.lexeme_of_record(rep, w)
    records(rep)


def check_A17_layout(rep):
    k = layout(rep)
    if k is not None:
        words(rep, k)
        prediction_arguments(rep, k)


@both_modes
def check_A17_tags(rep):
    from . import parsing
    parsing.unit_tags(rep, READ_UNITS)


def check_A17_enumeration(rep):
    from . import results
    results.enumeration(rep, ('ru',))


def prediction_arguments(rep, k):
    v, c = k.v, k.c
    es = k.calls.get(C + '_suffixes_prediction_data', [])
    name = 'prediction data is computed from the stored words, paradigms, tags and suffixes'
    if len(es) != 1:
        rep.add(name, None, k.where, '%d calls' % len(es))
        return
    a = args_of(v, es[0].payload[0], es[0])
    stored = [e for e in k.calls.get(P + 'dawg.WordsDawg.__init__', []) if e.payload[0].args[0] is k.fields.get('words_dawg')]
    want = {'gramtab': k.fields['gramtab'], 'paradigms': k.fields['paradigms'], 'suffixes': k.fields['suffixes']}
    if stored and stored[0].payload[1]:
        want['words'] = k.one(stored[0].payload[1][0])
    for n in sorted(want):
        nm = 'prediction data is computed from the stored %s' % n
        if n not in a or a[n] is None:
            rep.add(nm, None, k.where, 'no parameter %s' % n)
            continue
        x, y = k.content(a[n]), k.content(want[n])
        rep.add(nm, same_items(x, y) or (None if open_parts(x, y) else False), k.where,
                'given %s, stored %s' % (pretty(x, 150), pretty(y, 150)))
    for n in ('min_ending_freq', 'min_paradigm_popularity', 'max_suffix_length', 'paradigm_prefixes'):
        nm = 'prediction data is computed with the option %s' % n
        if n not in a or a[n] is None:
            rep.add(nm, None, k.where, 'no parameter %s' % n)
            continue
        t = strip_copy(a[n])
        other = [m for m in ('min_ending_freq', 'min_paradigm_popularity', 'max_suffix_length', 'paradigm_prefixes')
                 if is_option(k, t, m)]
        rep.add(nm, is_option(k, t, n) or (False if other else None), k.where, show(t)[:200])
    # one table per paradigm prefix, in order
    s = v.as_seq(gv(k.fields['prediction_suffixes_dawgs']))
    nm = 'there is one prediction table for every part of the prediction data, in order'
    e = s.args[1][0] if s.op == 'seq' and len(s.args[1]) == 1 and not s.args[3] else None
    if e is None or len(e.binders) != 1 or not is_call(strip_copy(e.binders[0].args[1]), v, C + '_suffixes_prediction_data'):
        rep.add(nm, None, k.where, pretty(c.term(s), 300))
        return
    inits = [x for n, xs in k.calls.items() if n and n.endswith('.__init__') for x in xs if x.payload[0].args[0].op == 'inst' and
             x.binders and strip_copy(x.binders[-1].args[1]) is strip_copy(e.binders[0].args[1])]
    ok = len(inits) == 1 and k.one(inits[0].payload[1][0]) is elem(inits[0].binders[-1]) and not s.args[2] and \
        B.implies(k.gate, e.gate) and not e.binders[0].args[2]
    rep.add(nm, ok or None, k.where, pretty(c.term(s), 300))


# ------------------------------------------------------------------ record formats
def records(rep):
    """The packed formats have one 16-bit field per record component."""
    w = World(opaque=())
    v = w.v
    for cls, n, what in (('WordsDawg', 2, '(paradigm, position)'), ('PredictionSuffixesDAWG', 3, '(count, paradigm, position)')):
        q = P + 'dawg.' + cls
        name = '%s records are %s' % (cls, what)
        try:
            k = v.cls(q)
        except AnalysisError:
            rep.add(name, None, q, 'not found')
            continue
        for label, args in (('when read', ()), ('when written', (sym('data'),))):
            v.new_epoch()
            v.gate = B.not_(A('noimport', 'dawg'))
            v.instantiate(k.leaf, [gv(x) for x in args], {}, None)
            fm = None
            for e in v.calls:
                f, a = e.payload[:2]
                if a and (f.op in ('superattr', 'attr', 'bound') or f.op == 'ext') and '__init__' in show(f):
                    x = a[0].single() if isinstance(a[0], GV) else a[0]
                    if x is not None and x.op == 'const' and isinstance(ops.cval(x), str):
                        fm = ops.cval(x)
            v.gate = TRUE
            rep.add('%s (%s)' % (name, label), None if fm is None else fm.lstrip('<>=!@') == 'H' * n and fm[0] in '>!', q,
                    'format %r' % fm)


# ------------------------------------------------------------------ prediction data
PRED_ARGS = 'words paradigm_popularity gramtab paradigms suffixes min_ending_freq min_paradigm_popularity max_suffix_length ' \
            'paradigm_prefixes'.split()

PRED_SPEC = '''
from operator import itemgetter
from pymorphy2.utils import largest_elements

def counted(words, popularity, gramtab, paradigms, suffixes, min_freq, min_pop, max_len, prefixes):
    for word, (para, i) in words:
        if popularity[para] < min_pop:
            continue
        p = paradigms[para]
        n = len(p) // 3
        tag = gramtab[p[n + i]]
        pid = p[2 * n + i]
        suffix = suffixes[p[i]]
        if len(word) == len(prefixes[pid]) + len(suffix):
            continue
        for k in range(max(len(suffix), 1), min(max_len, len(word)) + 1):
            yield (pid, word[-k:], tag.replace(' ', ',', 1).split(',')[0], (para, i))

def table(endings, counts, pid, min_freq):
    res = []
    for ending in endings[pid]:
        if counts[ending] < min_freq:
            continue
        for pos in endings[pid][ending]:
            for form, cnt in largest_elements(iterable=endings[pid][ending][pos].items(), key=itemgetter(1), n=1):
                res.append((ending, (cnt,) + form))
    return res

def largest(iterable, key, n=1):
    top = sorted(set([key(x) for x in iterable]), reverse=True)[:n]
    return [x for x in iterable if key(x) in top]

def progress(iterable):
    for x in iterable:
        yield x
'''


def popular(a):
    """Membership in the set of keys of a counter with a condition on the count."""
    if a.op == 'in':
        s = strip_copy(a.args[1])
        if s.op == 'seq' and len(s.args[1]) == 1 and len(s.args[1][0].binders) == 1 and not s.args[3]:
            e = s.args[1][0]
            b = e.binders[0]
            it = b.args[0]
            # level of the binder: from the value
            if it.op == 'mcall' and it.args[1] in ('items', 'iteritems') and e.value.op == 'idx' and \
                    e.value.args[0].op == 'celem' and e.value.args[1] is const(0) and b.args[2].g == FALSE:
                el = e.value.args[0]
                return ops.subst_gate(e.gate, {idx(el, const(1)): idx(it.args[0], a.args[0])})
            if it.op == 'sym' and e.value.op == 'celem':
                return ops.subst_gate(e.gate, {idx(it, e.value): idx(it, a.args[0])})
    return None


def first_of_tuple(t):
    if t.op == 'idx' and t.args[0].op in ('tupleof', 'listof') and len(t.args[0].args) == 1:
        return idx(t.args[0].args[0], t.args[1])
    return None


def path(t):
    """Root container and keys of a nested subscript."""
    keys = []
    while t.op == 'idx':
        keys.insert(0, t.args[1])
        t = t.args[0]
    return t, keys


def increments(v, r):
    """[(root object id, keys, event)] for every += on a counter; other writes have keys None."""
    out = []
    for o in v.objs.values():
        if o.kind != 'dict':
            continue
        for e in o.events:
            if e.kind == 'setitem' and len(e.payload) > 2 and e.payload[2] is not None:
                aug = e.payload[2]
                k = as_term(e.payload[0])
                ok = isinstance(aug, tuple) and aug[0] == '+' and as_term(aug[1]) is not None and k is not None
                out.append((o.oid, [k] if ok else None, e, as_term(aug[1]) if ok else None))
    for e in r.effects:
        if e.kind != 'setitem':
            continue
        root, keys = path(e.payload[0])
        k, val = as_term(e.payload[1]), as_term(e.payload[2])
        if root.op not in ('objref', 'obj', 'cur', 'at') or k is None or val is None:
            continue
        old = idx(e.payload[0], k)
        by = val.args[1] if val.op == 'add' and len(val.args) == 2 and val.args[0] is old else None
        out.append((root.args[0], keys + [k] if by is not None else None, e, by))
    return out


def whole_items(s, m0=None):
    """Loops over D.items() become loops over the keys of D; terms replaced according to m0 before."""
    out = []
    for e in s.args[1]:
        m = dict(m0 or {})
        bs = []
        for b in e.binders:
            nb = subst(b, m) if m else b
            it = strip_copy(nb.args[1])
            if it.op == 'mcall' and it.args[1] in ('items', 'iteritems', 'keys') and not it.args[2] and it.args[0].op == 'idx' and \
                    not BINDER_STOP.get(b):
                n2 = new_binder(it.args[0])
                if it.args[1] != 'keys':
                    m[idx(elem(b), const(0))] = elem(n2)
                    m[idx(elem(b), const(1))] = idx(it.args[0], elem(n2))
                else:
                    m[elem(b)] = elem(n2)
                m[b] = n2
                nb = n2
            elif nb is not b:
                m[b], m[elem(b)], m[mk('index', b)] = nb, elem(nb), mk('index', nb)
                if BINDER_STOP.get(b):
                    BINDER_STOP[nb] = [ops.subst_gate(g, m) for g in BINDER_STOP[b]]
            bs.append(nb)
        out.append(Emission(bs, ops.subst_gate(e.gate, m), subst(e.value, m), e.kind, e.loc) if m else e)
    return seq(s.args[0], out, s.args[2], s.args[3])


def named_args(t):
    """Call of largest_elements with every argument given by name."""
    if t.op == 'call' and t.args[0] is mk('global', U + 'largest_elements'):
        kw = dict(t.args[2])
        for n, x in zip(('iterable', 'key', 'n'), t.args[1]):
            kw[n] = x
        kw.setdefault('n', const(1))
        if t.args[1] or tuple(sorted(kw.items())) != t.args[2]:
            return mk('call', t.args[0], (), tuple(sorted(kw.items())))
    return None


def check_A33(rep):
    prediction(rep)


def check_A17_prediction(rep):
    prediction(rep, True)


def values_equal(rep, name, where, a, b):
    """The same values are made of the items of the loops, whatever the loops and conditions are."""
    va, vb = [[e.value for e in t.args[1]] if t.op == 'seq' else None for t in (a, b)]
    if va is None or vb is None or len(va) != len(vb) or [len(e.binders) for e in a.args[1]] != [len(e.binders) for e in b.args[1]]:
        rep.add(name, None, where, pretty(a, 300))
        return
    rep.equal(name, where, mk('tuple', *va), mk('tuple', *vb))


def record(t):
    """The record of a form is a pair (paradigm, position)."""
    if t.op == 'add' and len(t.args) == 2 and t.args[0].op == 'tuple' and t.args[1].op == 'idx' and \
            t.args[1].args[0] is mk('celem', 2) and is_const(t.args[1].args[1], 0):
        return mk('tuple', *(t.args[0].args + (idx(t.args[1], const(0)), idx(t.args[1], const(1)))))
    return None


def prediction(rep, layout_only=False):
    w = World(opaque=World.OPAQUE + [U + 'largest_elements'])
    rep.world = w
    v = w.v
    f = C + '_suffixes_prediction_data'
    name = 'an ending is counted for every form of a productive paradigm, from its own suffix up to the longest ending'
    if not has(w, f) or not params(v, f) or set(params(v, f)) != set(PRED_ARGS):
        rep.add(name, None, f, 'not found')
        return
    args = dict((a, sym(a)) for a in PRED_ARGS)
    n0 = max(list(v.objs) or [0])
    with w.under(A('noimport', 'tqdm')):
        r = w.func(f, **args)
    spec = w.run_spec(PRED_SPEC, 'counted', *[args[a] for a in PRED_ARGS])
    c = w.canon(rewrites=[first_of_tuple, named_args, record], ordered=False)
    c.atom_rw = list(getattr(c, 'atom_rw', ())) + [popular]
    c.assume.append(lambda a: TRUE if a.op == 'noimport' else None)
    incs = [x for x in increments(v, r) if x[0] > n0]
    flat_ = [x for x in incs if x[1] is not None and len(x[1]) == 1]
    deep = [x for x in incs if x[1] is not None and len(x[1]) == 4]
    ss = v.as_seq(spec.value)
    if any(x[1] is None for x in incs) or len(flat_) != 1 or len(deep) != 1:
        rep.add(name, None, r.where, 'counters not recognised: %s' % [len(x[1] or ()) for x in incs])
        return

    for x in (flat_[0], deep[0]):
        by = x[3]
        rep.add('every occurrence is counted once (%d)' % len(x[1]), by is const(1) or (None if unresolved(by) else False),
                '%s (%s)' % (r.where, x[2].loc and '%s:%s' % x[2].loc[:2]), 'the count grows by %s' % pretty(by, 100))

    def emitted(x, *ix):
        oid, keys, e, by = x
        val = mk('tuple', *keys)
        return c.term(proj_items(seq('list', [Emission(e.binders, e.gate, val)]), *ix))
    a = emitted(flat_[0], 0)
    b = c.term(proj_items(ss, 1))
    where = '%s (%s)' % (r.where, flat_[0][2].loc and '%s:%s' % flat_[0][2].loc[:2])
    if not layout_only:
        rep.equal(name, where, a, b, extra_unknown=loops_differ(a, b))
    ks = (0, 2, 3) if layout_only else (0, 1, 2, 3)
    a = emitted(deep[0], *ks)
    b = c.term(proj_items(ss, *ks))
    where = '%s (%s)' % (r.where, deep[0][2].loc and '%s:%s' % deep[0][2].loc[:2])
    if layout_only:
        values_equal(rep, 'forms are counted by the prefix, the part of speech and the record of their own position', where, a, b)
    else:
        rep.equal("a form is counted under its own prefix, ending, part of speech and record", where, a, b,
                  extra_unknown=loops_differ(a, b))

    # the tables
    counts, ends = sym('counts'), sym('endings')
    m = {mk('objref', flat_[0][0]): counts, mk('objref', deep[0][0]): ends}
    name = 'a table holds the most frequent forms of every ending that is frequent enough'
    s = v.as_seq(r.value)
    e = s.args[1][0] if s.op == 'seq' and len(s.args[1]) == 1 and not s.args[3] else None
    if e is not None and len(e.binders) == 1 and strip_copy(e.binders[0].args[1]) is args['paradigm_prefixes'] and \
            not B.implies(r.gate, e.gate) and not layout_only:
        known = not any(unresolved(x) or foreign(x) for x in B.support_atoms(e.gate))
        rep.add('there is one table for every prefix, in order', False if known else None, r.where,
                'a table is kept only if %s' % show_gate(e.gate)[:300])
        return
    if e is None or len(e.binders) != 1 or strip_copy(e.binders[0].args[1]) is not args['paradigm_prefixes'] or \
            not B.implies(r.gate, e.gate):
        rep.add(name, None, r.where, pretty(c.term(s), 300))
        return
    ordered = all(x.op == 'sortkey' and x.args[0] in (None, NONE) for x in s.args[2]) or not s.args[2]
    inner = v.snapshot(v.obj(e.value)) if e.value.op in ('obj', 'objref') else v.as_seq(gv(e.value))
    if inner.op != 'seq':
        rep.add(name, None, r.where, pretty(c.term(s), 300))
        return
    own = v.obj(e.value).birth if e.value.op == 'obj' else e.binders
    for b in tuple(own) + tuple(e.binders):
        if strip_copy(b.args[1]) is args['paradigm_prefixes']:
            m[mk('index', b)] = sym('pid')
            inner = drop_binder(inner, b)
    spec = v.as_seq(w.run_spec(PRED_SPEC, 'table', ends, counts, sym('pid'), args['min_ending_freq']).value)
    a = c.term(whole_items(inner, m))
    b = c.term(whole_items(spec))
    where = r.where
    if layout_only:
        values_equal(rep, 'a prediction record is (count, paradigm, position)', where, a, b)
        return
    rep.equal(name, where, a, b, extra_unknown=loops_differ(a, b))
    rep.add('there is one table for every prefix, in order', ordered or None, r.where, repr(s.args[2]))
    largest(rep)
    progress(rep)


def drop_binder(s, b):
    out = []
    for e in s.args[1]:
        bs = e.binders
        if bs and bs[0] is b:
            bs = bs[1:]
        out.append(Emission(bs, e.gate, e.value, e.kind, e.loc))
    return seq(s.args[0], out, s.args[2], s.args[3])


def loops_differ(a, b):
    def sh(t):
        return [[(x.args[0].op, x.args[2].g == FALSE) for x in e.binders] for e in t.args[1]] if t.op == 'seq' else None
    return sh(a) != sh(b)


def params(v, f):
    t = v.lookup(f)
    t = t.single() if isinstance(t, GV) else t
    a = v.funcs[t.args[0]].node.args
    return [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]


def largest(rep):
    w = World()
    f = U + 'largest_elements'
    name = 'the elements kept are those with the largest counts'
    if not has(w, f):
        rep.add(name, None, f, 'not found')
        return
    args = [sym(x) for x in ('iterable', 'key', 'n')]
    r = w.func(f, *args)
    s = w.run_spec(PRED_SPEC, 'largest', *args)
    c = w.canon(ordered=False)
    rep.equal(name, r.where, c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate)))


def progress(rep):
    w = World()
    f = U + 'with_progress'
    if not has(w, f):
        return
    for g, label in ((A('noimport', 'tqdm'), 'without tqdm'), (B.not_(A('noimport', 'tqdm')), 'with tqdm')):
        with w.under(g):
            r = w.func(f, sym('iterable'), const('text'))
            s = w.run_spec(PRED_SPEC, 'progress', sym('iterable'))
            c = w.canon()
            fix(c, g, TRUE)
            x = c.gv(r.value.map(lambda t: whole_seq(w, t)).under(g))
        rep.equal('showing progress passes every item on (%s)' % label, r.where, x, c.gv(gv(w.v.as_seq(s.value))))


def whole_seq(w, t):
    if t is sym('iterable'):
        b = new_binder(t)
        return seq('gen', [Emission((b,), TRUE, elem(b))])
    return w.v.as_seq(gv(t))


def check_A33_arguments(rep):
    k = Compiled()
    rep.world = k.w
    if not k.ok:
        rep.add('prediction data is computed from the stored words', None, k.where, 'compilation not recognised')
        return
    prediction_arguments(rep, k)
    v, c = k.v, k.c
    es = k.calls.get(C + '_suffixes_prediction_data', [])
    name = 'the popularity of a paradigm is the number of its lexemes'
    a = args_of(v, es[0].payload[0], es[0]).get('paradigm_popularity') if len(es) == 1 else None
    o = v.objs.get(a.args[0]) if a is not None and a.op in ('obj', 'objref') else None
    if o is None or len(o.events) != 1 or o.events[0].kind != 'setitem' or len(o.events[0].payload) < 3:
        rep.add(name, None, k.where, 'the popularity counter is not recognised')
        return
    e = o.events[0]
    key, aug = as_term(e.payload[0]), e.payload[2]
    if key is None or not isinstance(aug, tuple):
        rep.add(name, None, k.where, 'the popularity counter is not recognised')
        return
    t, para = k.numbered(key)
    one = aug[0] == '+' and as_term(aug[1]) is const(1)
    call = k.paradigm_of(strip_copy(para)) if para is not None else None
    lex = [b for b in e.binders if is_call(strip_copy(b.args[1]), v, C + '_join_lexemes')]
    if t is None or call is None or len(lex) != 1 or call.args[1][0] is not elem(lex[0]):
        rep.add(name, None, k.where, 'counted is %s' % show(key)[:300])
        return
    ok = one and len(e.binders) == 1 and B.implies(k.gate, e.gate) and not BINDER_STOP.get(lex[0])
    rep.add(name, ok or (None if unresolved(mk('x', Gate(e.gate))) else False), '%s (%s)' % (k.where, e.loc and '%s:%s' % e.loc[:2]),
            '%d loops, condition %s' % (len(e.binders), show_gate(e.gate)[:200]))


def check_A17_stored(rep):
    """Words and prediction data are loaded with the class they were made with."""
    from . import files
    k = Compiled()
    rep.world = k.w
    w = World(opaque=World.OPAQUE + [TAG + '.__new__', TAG + '.__init__'])
    st = files.Storage(w)
    for pat, field in (('words.dawg', 'words_dawg'), ('prediction-suffixes-*.dawg', 'prediction_suffixes_dawgs')):
        name = '%s holds records of the class that reads them' % pat
        made = loaded = None
        if k.ok:
            t = k.fields[field]
            if t.op == 'obj':
                s = k.v.as_seq(gv(t))
                t = s.args[1][0].value if s.op == 'seq' and len(s.args[1]) == 1 else t
            made = class_of(k.v, t)
        us = [u for u in st.read if st.resolve(u) == pat and u.way == 'dawg']
        cl = set(class_of(w.v, u.what) for u in us)
        loaded = cl.pop() if len(cl) == 1 else None
        rep.add(name, made == loaded if made and loaded else None, st.load.where, 'made as %s, loaded as %s' % (made, loaded))


def class_of(v, t):
    if t.op == 'inst':
        return v.obj(t).cls.qualname
    if t.op == 'call' and t.args[0].op in ('cls', 'global'):
        return t.args[0].args[0]
    return None


def merging(v, key, paradigm):
    """The key of a paradigm is made of its forms, without their order or without some of their parts."""
    t = key
    t = v.as_seq(gv(strip_copy(t))) if t.op != 'seq' else t
    if t.op != 'seq' or t.args[3] or len(t.args[1]) != 1:
        return False
    e = t.args[1][0]
    if len(e.binders) != 1 or e.gate != TRUE or strip_copy(e.binders[0].args[1]) is not paradigm:
        return False
    el = elem(e.binders[0])
    if t.args[0] == 'set' or t.args[2] or e.binders[0].args[2]:
        return e.value is el
    return e.value.op == 'idx' and e.value.args[0] is el and ops.isnum(e.value.args[1])
