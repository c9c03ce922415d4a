"""A02: every operation that can fail on the way of an analysis is guarded or handled."""
from . import text
from .common import *
from .text import NotKnown, value_of, atom_holds, is_text, memo_of

EST = P + 'analyzer.ProbabilityEstimator'

TEXTS = ['', ' ', '-', '--', '\n', '\x00', 'а', 'я-', '-я', 'а-б', 'а-б-в', 'по-', 'по-а', 'по-русски', 'кто-то', '-то', 'то-',
         'ка-ка', '1', '12', '1.5', '1,5', '.', ',', '+', '-1', '½', '²', '٣', 'Ⅳ', '①', '_', 'x', 'xy', 'X', 'IV', 'i', 'ß', 'İ',
         'ŉ', 'ª', '一', '☃', '\u2028', '\u00a0', '\u0301', '\U0001f600', '\U0001d400', '\ue000', '\U000e0001', '\u0378', 'é',
         'Иванов', 'ИВАНОВ', 'иванов', 'супер-', 'псевдо', 'Ж.', 'Ж', 'aж', 'жa', 'а' * 40, 'мама-папа', 'e10', 'nan', 'inf',
         '0x1', '1_000', '1e5', '..', '!?', 'a b', 'а б', '\t', '\ufeff', '\U00017000', 'a\x00', 'а\x00', "об'єкт", 'ґ', 'Ё', 'ё']


class Case(object):
    """A text and the elements of the loops over it."""

    def __init__(self, v, word):
        self.v, self.word = v, word
        self.env = {}

    def value(self, t):
        return value_of(self.resolve(t), self.word, ())

    def resolve(self, t):
        """The loops over text and the alternatives that depend on the text filled in."""
        env = dict(self.env)
        for s in subterms(t):
            if s.op == 'phi':
                for g, x in s.args[0]:
                    r = self.gate(g.g)
                    if r is None:
                        raise NotKnown(show(s))
                    if r:
                        env[s] = self.resolve(x)
                        break
        return subst(t, env) if env else t

    def atom(self, a):
        """Truth of a condition; None when it depends on the dictionary, the options or what was seen before."""
        if a.op not in ('exists', 'raises') and (self.env or any(s.op == 'phi' for s in subterms(a))):
            a2 = self.resolve(a)
            if not (isinstance(a2, T) and a2.op == a.op):
                if isinstance(a2, T) and a2.op == 'const':
                    return bool(a2.args[0])
                raise NotKnown(show(a))
            a = a2
        r = is_text(a)
        if r is not None:
            return r == TRUE
        if memo_of(self.v, a):
            return a.op == 'isnone'
        if a.op == 'raises':
            return self.fails(a.args[1])
        if a.op == 'exists':
            return self.exists(a)
        try:
            return bool(atom_holds(a, self.word, ()))
        except NotKnown:
            if free(a):
                return None
            raise

    def exists(self, a):
        bs, g = a.args[0], a.args[1]
        g = g.g if isinstance(g, Gate) else g
        bs = list(bs)
        if len(bs) != 1:
            if free(a):
                return None
            raise NotKnown(show(a))
        try:
            chars = self.value(strip_copy(bs[0].args[1]))
        except NotKnown:
            if free(a):
                return None
            raise
        res = False
        for ch in chars:
            old = self.env
            self.env = dict(old)
            self.env[elem(bs[0])] = const(ch)
            try:
                r = self.gate(g)
            finally:
                self.env = old
            if r:
                return True
            if r is None:
                res = None
        return res

    def gate(self, g):
        """True / False, None when both are possible."""
        if g <= 1:
            return bool(g)
        var, lo, hi = B.nodes[g]
        r = self.atom(B.atoms[var])
        if r is not None:
            return self.gate(hi if r else lo)
        x, y = self.gate(hi), self.gate(lo)
        return x if x == y else None

    def fails(self, t, covered=()):
        """The operation raises something that is not covered."""
        if t.op == 'phi':
            for g, x in t.args[0]:
                r = self.gate(g.g)
                if r is None:
                    raise NotKnown(show(t))
                if r:
                    return self.fails(x, covered)
        try:
            if t.op == 'call' and t.args[0].op == 'ext':
                name = t.args[0].args[0]
                xs = [self.number(x) for x in t.args[1]]
                fn = {'builtins.int': int, 'builtins.float': float}.get(name)
                if fn is None and name.startswith('unicodedata.'):
                    import unicodedata
                    fn = getattr(unicodedata, name.split('.')[1])
                if fn is None:
                    raise NotKnown(show(t))
                fn(*xs)
                return False
            if t.op == 'mcall' and t.args[1] == 'encode':
                self.value(t.args[0]).encode(*[self.value(x) for x in t.args[2]])
                return False
            if t.op == 'idx':
                self.value(t.args[0])[self.value(t.args[1])]
                return False
        except (ValueError, IndexError, KeyError, UnicodeError, OverflowError) as e:
            return type(e).__name__ not in covered
        except (TypeError, AttributeError):
            raise NotKnown(show(t))
        raise NotKnown(show(t))

    def number(self, t):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.float' and len(t.args[1]) == 1:
            return float(self.value(t.args[1][0]))
        return self.value(t)


def free(a):
    """The condition depends on something other than the text."""
    for s in subterms(a):
        if s.op == 'sym' and s not in (WORD,) or s.op in ('inst', 'noimport'):
            return True
        for x in s.args:
            for e in x if isinstance(x, tuple) else (x,):
                if isinstance(e, Emission) and any(free(y) for y in [e.value] + [b.args[1] for b in e.binders]):
                    return True
                if isinstance(e, Gate) and any(free(y) for y in B.support_atoms(e.g)):
                    return True
    return False


def loops_of(case, binders):
    """Every way of choosing one character per loop over text; other loops are free."""
    if not binders:
        yield True
        return
    b = binders[0]
    try:
        chars = case.value(strip_copy(b.args[1]))
        if not isinstance(chars, (str, tuple, list)):
            raise NotKnown('')
    except NotKnown:
        if not free(b.args[1]):
            raise
        for x in loops_of(case, binders[1:]):
            yield x
        return
    for ch in list(chars)[:4]:
        old = case.env
        case.env = dict(old)
        case.env[elem(b)] = const(ch)
        for x in loops_of(case, binders[1:]):
            yield x
        case.env = old


def witness(v, e, fail):
    """A text for which the operation is reached and fails."""
    for word in TEXTS:
        case = Case(v, word)
        try:
            for _ in loops_of(case, tuple(e.binders)):
                try:
                    if fail(case) and case.gate(e.gate) is not False:
                        return word
                except NotKnown:
                    pass
        except NotKnown:
            pass
    return None


def from_dictionary(t):
    """Part of the dictionary (tables and the records found in them)."""
    while True:
        t = strip_copy(t)
        if t.op == 'idx':
            t = t.args[0]
        elif t.op == 'attr':
            if t.args[1] in ('dictionary', 'dict', 'paradigms', 'gramtab', 'suffixes', 'paradigm_prefixes', 'prediction_suffixes_dawgs',
                             'prediction_suffixes', 'words', 'meta'):
                return True
            t = t.args[0]
        elif t.op == 'elem':
            t = t.args[0].args[1]
        elif t.op in ('mcall',) and t.args[1] in ('similar_items', 'similar_item_values', 'items', 'iteritems', 'enumerate'):
            t = t.args[0]
        elif t.op == 'enumerate':
            t = t.args[0]
        else:
            return False


def text_key(t):
    """The index is taken from the text itself."""
    return any(s in (WORD, WL) for s in flat(t))


def flat(t):
    """Subterms, results of dictionary lookups left out."""
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op == 'elem' or x.op == 'mcall' and from_dictionary(x.args[0]):
            continue
        for a in x.args:
            todo.extend(y for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T))
    return out


def result_field(base, k):
    """Field of a result (word, tag, normal form, score, methods) or the first / last method of it."""
    b = strip_copy(base)
    n = ops.cval(k) if ops.isnum(k) else None
    if n is None:
        return False
    if b.op == 'elem' and strip_copy(b.args[0].args[1]).op == 'mcall' and strip_copy(b.args[0].args[1]).args[1] == 'parse':
        return -5 <= n <= 4
    if b.op == 'idx' and result_field(b.args[0], b.args[1]) and ops.isnum(b.args[1]) and ops.cval(b.args[1]) in (4, -1):
        return n in (0, -1)
    if b.op == 'idx' and ops.isnum(b.args[1]) and ops.cval(b.args[1]) in (0, -1) and b.args[0].op == 'idx' and \
            result_field(b.args[0], b.args[1]):
        return 0 <= n <= 2
    return False


def amount_positive(v, t, oid=None):
    """A number that cannot be zero or less (counts in dictionary records are at least 1)."""
    t = strip_copy(t)
    if ops.isnum(t):
        return ops.cval(t) > 0
    if t.op in ('mul', 'div', 'truediv') or t.op == 'bin' and t.args[0] in ('*', '/'):
        xs = t.args[1:] if t.op == 'bin' else t.args
        return all(amount_positive(v, x) for x in xs)
    if t.op == 'add':
        return all(old(x, oid) or amount_positive(v, x) for x in t.args)
    if t.op == 'idx':
        b = strip_copy(t.args[0])
        if b.op == 'elem' and result_field(b, t.args[1]) and ops.cval(t.args[1]) in (3, -2):
            return True
        if b.op in ('at', 'cur', 'objref', 'obj'):
            return counter_positive(v, b.args[0])
        if from_dictionary(b):
            return True
    return False


def old(t, oid):
    return oid is not None and t.op == 'idx' and t.args[0].op in ('cur', 'at', 'objref', 'obj') and t.args[0].args[0] == oid


def counter_positive(v, oid):
    o = v.objs.get(oid)
    if o is None or o.kind not in ('list', 'dict') or not o.events:
        return False
    for e in o.events:
        vals = [e.payload[0]] if e.kind == 'item' else [e.payload[1]] if e.kind == 'setitem' else None
        if vals is None:
            return False
        for x in vals:
            for _, t in (x.alts if isinstance(x, GV) else [(TRUE, x)]):
                if not amount_positive(v, t, oid):
                    return False
    return True


def is_handled(p):
    """Some handler takes the exception that text can provoke."""
    if not p['caught']:
        return False
    excs = [x for x in p['excs'] if not (x == 'TypeError' and len(p['excs']) > 1)]
    if p['kind'] == 'index' and len(p['operands']) == 2:
        base, k = p['operands']
        if base.op in ('cur', 'objref', 'obj', 'at'):
            return bool(p['covered'])
        if ops.isnum(k):
            excs = [x for x in excs if x == 'IndexError'] or excs
    return all(x in p['covered'] for x in excs)


def judge(v, e):
    """(verdict, explanation) of one operation that may fail."""
    p = e.payload
    if is_handled(p):
        return True, ''
    fail = p['fail']
    g = B.and_(e.gate, fail)
    for a in B.support_atoms(g):
        if is_bytes(a):
            g = B.and_(g, B.not_(B.atom(a)))
    if g == FALSE:
        return True, ''
    kind, term, opd = p['kind'], p['term'], p['operands']
    if kind == 'import' or kind in ('key', 'index') and len(opd) == 2 and just_stored(v, e, opd[0], opd[1]):
        return True, ''
    said = '%s of %s may fail' % (kind, pretty(term, 120))
    test = lambda case: case.gate(fail)
    if 'OverflowError' in p['excs']:
        test = lambda case: case.fails(term, p['covered'])
    if kind == 'index' and len(opd) == 2:
        base, k = opd
        if from_dictionary(base) and not text_key(k):
            return True, ''
        if base.op == 'call' and base.args[0].op == 'ext' and base.args[0].args[0] in ('unicodedata.category',) and \
                ops.isnum(k) and ops.cval(k) in (0, 1, -1, -2):
            return True, ''
        if base.op == 'keyvar' or result_field(base, k):
            return True, ''
        m = part_of_method(base, k)
        if m is not None:
            n = ops.cval(k)
            n = n + 1 if n >= 0 else -n
            if long_enough(g, base, n):
                return True, ''
            return False, '%s fails: methods of the units other than the dictionary have two fields' % pretty(term, 120)
        if base.op == 'add' and ops.isnum(k) and ops.cval(k) in (0, -1) and any(x.op == 'tuple' and x.args for x in base.args):
            return True, ''
        test = lambda case: case.fails(mk('idx', base, k))
    elif kind == 'unpack':
        if strip_copy(term).op == 'idx' and from_dictionary(term):
            return True, ''
        n = ops.cval(opd[0]) if opd else None
        if term.op == 'mcall' and term.args[1] in ('split', 'rsplit') and n == 2 and len(term.args[2]) == 2 and \
                ops.isnum(term.args[2][1]) and ops.cval(term.args[2][1]) == 1:
            if B.implies(e.gate, B.atom(mk('in', term.args[2][0], term.args[0]))):
                return True, ''
        if term.op == 'mcall' and term.args[1] in ('split', 'rsplit') and n is not None and len(term.args[2]) in (1, 2) and \
                (len(term.args[2]) == 1 or ops.isnum(term.args[2][1]) and ops.cval(term.args[2][1]) >= n - 1) and \
                counted(e.gate, term.args[0], term.args[2][0], n - 1):
            return True, ''
        if term.op == 'idx' and any(s.op == 'mcall' and s.args[1] in ('parse', 'tag') for s in flat(term)) or \
                term.op in ('elem',) or wrapped(term):
            return True, ''
        if n is not None:
            test = lambda case: len(case.value(term)) != n
    elif kind == 'div':
        if total_of_scores(term):
            ok = any(a.op in ('exists', 'truthy') and B.implies(e.gate, B.atom(a)) and
                     any(s.op == 'mcall' and s.args[1] == 'parse' for s in subterms(a)) for a in B.support_atoms(e.gate))
            return True if ok else None, 'the sum of the scores of no results'
        if amount_positive(v, term) or named_constant(v, term):
            return True, ''
        if any(s.op == 'mcall' and s.args[1] in ('get', 'prob') for s in inner(term)) and term.op in ('sum', 'mcall', 'call', 'div', 'bin'):
            return False, 'division by %s, which is zero for words of unknown probability' % pretty(term, 120)
    elif kind == 'missing':
        if not any(unresolved(a) or foreign(a) or any(x.op in ('cur', 'at', 'obj', 'carried') and x is not opd[0] for x in subterms(a))
                   for a in B.support_atoms(fail)):
            return False, '%s may be removed although it is not there: %s' % (pretty(opd[1], 100), show_gate(g)[:200])
    try:
        w = witness(v, e, test)
    except RecursionError:
        w = None
    if w is not None:
        return False, '%s for the text %r' % (said.replace('may fail', 'fails'), w)
    return None, '%s under the condition %s' % (said, show_gate(e.gate)[:200])


def just_stored(v, e, base, key):
    """The key was in the table or has just been put there; nothing takes keys out of the table."""
    if base.op not in ('cur', 'objref', 'obj', 'at'):
        return False
    o = v.objs.get(base.args[0])
    if o is None or o.kind != 'dict' or any(x.kind != 'setitem' for x in o.events):
        return False
    rest = e.gate
    for x in o.events:
        k = x.payload[0].single() if isinstance(x.payload[0], GV) else x.payload[0]
        if k is key and x.seqno < e.seqno:
            rest = B.and_(rest, B.not_(x.gate))
            for a in B.support_atoms(x.gate):
                if a.op == 'in' and a.args[0] is key and getattr(a.args[1], 'op', '') in ('cur', 'objref', 'obj', 'at') and \
                        a.args[1].args[0] == base.args[0]:
                    rest = B.and_(rest, B.not_(B.atom(a)))
    return rest == FALSE


def counted(g, base, sep, n):
    """The condition says that the separator occurs n times."""
    for x in [base] + [a.args[k] for a in B.support_atoms(g) if a.op == 'cmp' and a.args[0] == '==' and
                       B.implies(g, B.atom(a)) for k in (1, 2) if a.args[3 - k] is base]:
        for a in B.support_atoms(g):
            if a.op == 'cmp' and a.args[0] == '==' and B.implies(g, B.atom(a)) and const(n) in a.args[1:] and any(
                    y.op == 'mcall' and y.args[0] is x and y.args[1] == 'count' and y.args[2] == (sep,) for y in a.args[1:] if isinstance(y, T)):
                return True
    return False


def part_of_method(base, k):
    """Third or later field of a method of a result (methods have at least two)."""
    if not (ops.isnum(k) and (ops.cval(k) >= 2 or ops.cval(k) < -2)):
        return None
    if base.op != 'idx' or not (ops.isnum(base.args[1]) and ops.cval(base.args[1]) in (0, -1)):
        return None
    b = base.args[0]
    xs = b.args if b.op == 'add' else (b,)
    if all(x.op == 'tuple' and x.args or x.op == 'idx' and result_field(x.args[0], x.args[1]) and ops.cval(x.args[1]) in (4, -1)
           for x in xs):
        return base
    return None


def long_enough(g, base, n):
    """The condition excludes that the tuple has fewer than n fields."""
    for a in B.support_atoms(g):
        if a.op != 'cmp' or a.args[0] not in ('<', '==', '<=', '>', '>='):
            continue
        xs = list(a.args[1:])
        if mk('len', base) not in xs:
            continue
        k = [x for x in xs if ops.isnum(x)]
        if len(k) != 1:
            continue
        k, first = ops.cval(k[0]), xs[0] is mk('len', base)
        val = {'<': lambda x: x < k if first else k < x, '<=': lambda x: x <= k if first else k <= x,
               '>': lambda x: x > k if first else k > x, '>=': lambda x: x >= k if first else k >= x,
               '==': lambda x: x == k}[a.args[0]]
        for b in (True, False):
            if B.implies(g, B.atom(a) if b else B.not_(B.atom(a))) and not any(val(x) == b for x in range(n)):
                return True
    return False


def is_bytes(a):
    """Question whether the text (or a character of it) is a byte string."""
    if a.op != 'isinstance' or not (isinstance(a.args[1], T) and show(a.args[1]).endswith('bytes')):
        return False
    t = strip_copy(a.args[0])
    while t.op == 'elem':
        t = strip_copy(t.args[0].args[1])
    return t in (WORD, WL)


def wrapped(t):
    """Field of an element of a sequence of results."""
    return t.op == 'idx' and t.args[0].op == 'elem'


def inner(t):
    out = set(subterms(t))
    for s in list(out):
        if s.op in ('seq', 'sum'):
            for a in s.args:
                for e in a if isinstance(a, tuple) else (a,):
                    if isinstance(e, Emission):
                        out |= inner(e.value)
                    elif isinstance(e, T):
                        out |= set(subterms(e))
    return out


def total_of_scores(t):
    """Sum of the scores of results (positive, and there is at least one result)."""
    if t.op != 'sum':
        return False
    es = []
    for a in t.args:
        for x in a if isinstance(a, tuple) else (a,):
            if isinstance(x, T) and x.op == 'seq':
                es += list(x.args[1])
            elif isinstance(x, Emission):
                es.append(x)
            else:
                return False
    return bool(es) and all(
        isinstance(e, Emission) and (e.value.op == 'idx' and ops.isnum(e.value.args[1]) and ops.cval(e.value.args[1]) in (3, -2) or
                                     e.value.op == 'attr' and e.value.args[1] == 'score') for e in es)


def named_constant(v, t):
    """Class constant that is never assigned elsewhere."""
    if t.op != 'attr' or not t.args[1].isupper():
        return False
    vals = [x for k in v.classes.values() for n, x in constants(k) if n == t.args[1]]
    return bool(vals) and all(isinstance(x, (int, float)) and x > 0 for x in vals)


def constants(k):
    import ast
    for s in k.node.body if hasattr(k, 'node') else ():
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                yield s.targets[0].id, ast.literal_eval(s.value)
            except ValueError:
                yield s.targets[0].id, None


def judge_all(rep, w, name, r):
    v = w.v
    n = 0
    bad, open_ = [], []
    for e in r.partials:
        n += 1
        ok, why = judge(v, e)
        at = e.loc and '%s:%s: ' % e.loc[:2] or ''
        if ok is False:
            bad.append(at + why)
        elif ok is None:
            open_.append(at + why)
    for e in r.raises:
        n += 1
        at = e.loc and '%s:%s: ' % e.loc[:2] or ''
        g = witness(v, e, lambda case: True)
        if e.gate == FALSE:
            continue
        if g is not None:
            bad.append('%s%s is raised for the text %r' % (at, e.payload[0], g))
        else:
            open_.append('%s%s is raised if %s' % (at, e.payload[0], show_gate(e.gate)[:200]))
    for e in r.calls:
        f = e.payload[0]
        if f.op == 'attr' and f.args[1] in ('group', 'groups', 'start', 'end', 'span', 'groupdict') and \
                f.args[0].op == 'mcall' and f.args[0].args[1] in ('match', 'search', 'fullmatch'):
            n += 1
            m = f.args[0]
            if B.implies(e.gate, B.not_(A('isnone', m))) or B.implies(e.gate, A('truthy', m)):
                continue
            g = witness(v, e, lambda case: case.value(m) is None)
            at = e.loc and '%s:%s: ' % e.loc[:2] or ''
            (bad if g is not None else open_).append('%s%s of a match that may be None%s' % (
                at, f.args[1], ' (text %r)' % g if g is not None else ''))
    rep.add(name, False if bad else None if open_ else True, r.where, '; '.join((bad or open_)[:3]) or '%d operations' % n)
    return n


def holds_units(t):
    """The value contains analyzer units that differ between results (units cannot be compared with each other)."""
    t = strip_copy(t)
    if t.op == 'tuple' or t.op == 'add':
        return any(holds_units(x) for x in t.args if isinstance(x, T))
    if t.op == 'idx':
        return (result_field(t.args[0], t.args[1]) or wrapped(t.args[0])) and ops.isnum(t.args[1]) and ops.cval(t.args[1]) in (4, -1)
    return False


def order_sorted(rep, w):
    """No sort compares units."""
    v = w.v
    n = 0
    bad = []
    for o in list(v.objs.values()):
        if o.kind != 'list':
            continue
        for k, e in enumerate(o.events):
            if e.kind != 'order' or e.payload[0].op != 'sortkey':
                continue
            n += 1
            key = e.payload[0].args[0]
            if not (key is NONE or key.op == 'keyvar' or holds_units(key)):
                continue
            for f in o.events[:k]:
                if f.kind == 'item' and isinstance(f.payload[0], GV) and any(
                        g != FALSE and holds_units(t) for g, t in f.payload[0].alts):
                    bad.append('%s:%s: tuples that contain units are compared' % e.loc[:2])
    rep.add('results that contain units are sorted by a key', not bad, '%d sorts' % n, '; '.join(sorted(set(bad))))


GRAMMEMES = set('''1per 2per 3per ADJF ADJS ADVB ANim ASpc Abbr Adjx Af-p Anph Anum Apro Arch CAse COMP CONJ Cmp2 Coll Coun Dist
Dmns Erro Fimp Fixd GNdr GRND Geox INFN INTJ INvl Impe Impx Infr Init Inmx Litr MOod Ms-f Mult NMbr NOUN NPRO NUMR Name Orgn
PErs POST PRCL PRED PREP PRTF PRTS Patr Pltm Poss Prdx Prnt Qual Ques Refl Sgtm Slng Subx Supr Surn TEns TRns Trad Uimp V-be
V-bi V-ej V-en V-ey V-ie V-oy V-sh VERB VOic Vpre ablt acc1 acc2 accs actv anim datv excl femn futr gen1 gen2 gent impf impr inan
incl indc intr loc1 loc2 loct masc ms-f neut nomn past perf plur pres pssv sing tran voct UNKN LATN PNCT NUMB ROMN SYMB intg real
Hypo Prdx CLASS'''.split())


def tag_like(t):
    """A tag of a result."""
    if t.op == 'elem':
        s = strip_copy(t.args[0].args[1])
        return s.op == 'mcall' and s.args[1] == 'tag'
    return t.op == 'idx' and (result_field(t.args[0], t.args[1]) or wrapped(t.args[0])) and ops.isnum(t.args[1]) and \
        ops.cval(t.args[1]) in (1, -4)


def asked(rep, first):
    """Asking a tag for a grammeme nobody has registered raises."""
    n, bad = 0, []
    for a in B.atoms[first:]:
        if a.op != 'in' or not isinstance(a.args[1], T) or not tag_like(a.args[1]):
            continue
        k = strip_copy(a.args[0])
        xs = [k] if k.op == 'const' else list(k.args) if k.op == 'tuple' else \
            [e.value for e in k.args[1]] if k.op == 'seq' and k.args[0] in ('set', 'frozenset') else []
        for x in xs:
            if x.op == 'const' and isinstance(x.args[0], str):
                n += 1
                if x.args[0] not in GRAMMEMES:
                    bad.append('%s in a tag: no such grammeme' % show(x))
    rep.add('tags are asked for grammemes that exist', not bad, '%d grammemes' % n, '; '.join(sorted(set(bad))))


def check_A02(rep):
    w = World()
    first = len(B.atoms)
    rep.world = w
    n = 0
    for unit, _ in UNITS:
        u = w.unit(unit)
        for meth in ('parse', 'tag'):
            r = w.call(u, meth, WORD, WL, SEEN)
            n += judge_all(rep, w, '%s.%s cannot fail' % (unit, meth), r)
    order_sorted(rep, w)
    w = World(opaque=[P + 'dawg.WordsDawg', DICT + '.__init__'])
    v = w.v
    v.attr_types[(MA, 'prob_estimator')] = EST
    for meth in ('parse', 'tag'):
        r = w.call(w.morph, meth, WORD)
        n += judge_all(rep, w, 'MorphAnalyzer.%s cannot fail' % meth, r)
    order_sorted(rep, w)
    asked(rep, first)
    rep.notes.append('%d operations that may fail' % n)


def check_A02_scores(rep):
    """Scores are positive, so that they can be normalised."""
    from . import parsing
    w = World()
    rep.world = w
    v = w.v
    for unit, _ in UNITS:
        u, r, s = parsing.emitted(w, unit)
        name = '%s gives positive scores' % unit
        if s is None or s.op != 'seq':
            rep.add(name, None, r.where, 'results are not recognised')
            continue
        bad, open_ = [], []
        for e in s.args[1]:
            val = e.value
            if val.op != 'tuple' or len(val.args) != 5:
                open_.append(pretty(val, 100))
                continue
            x = val.args[3]
            if amount_positive(v, x):
                continue
            (bad if ops.isnum(x) or any(isinstance(y, T) and ops.isnum(y) and ops.cval(y) <= 0 for y in x.args) and (x.op == 'mul' or x.args[0] == '*') else
             open_).append(pretty(x, 100))
        rep.add(name, False if bad else None if open_ else True, r.where, '; '.join((bad or open_)[:3]))
