"""Value-graph domain: hash-consed terms, gates (ROBDDs over atomic
conditions) and guarded values.

A *term* is an immutable node (op, args).  A *gate* is a reduced ordered BDD
over atoms; an atom is a boolean-valued term.  A *guarded value* (GV) is a
gated phi: a tuple of (gate, term) alternatives with pairwise disjoint gates.
Nothing here searches for models: gates are a canonical representation of the
branch conditions under which a definition reaches a use.
"""
import sys

sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', '_key', 'uid', '__weakref__')
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


def mk(op, *args):
    k = (op,) + tuple((a.__class__.__name__, a) if not isinstance(a, T) else a for a in args)
    try:
        t = T._table.get(k)
    except TypeError:
        raise TypeError('unhashable term arg: %r' % (k,))
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._key = None
        T._n += 1
        t.uid = T._n
        T._table[k] = t
    return t


def const(v):
    return mk('const', v)


def is_const(t, v=None):
    if t.op != 'const':
        return False
    return True if v is None else (t.args[0] == v and type(t.args[0]) is type(v))


NONE = const(None)
TRUE_T = const(True)
FALSE_T = const(False)
EMPTY_STR = const('')


def top(reason):
    return mk('top', reason)


# --------------------------------------------------------------- gates (BDD)
class BDD(object):
    """Reduced ordered BDD; nodes are ints; 0=False 1=True."""

    def __init__(self):
        self.var_of = {}      # atom term -> index
        self.atoms = []       # index -> atom term
        self.nodes = [None, None]   # (var, lo, hi)
        self.unique = {}
        self.cache = {}

    def atom(self, t):
        i = self.var_of.get(t)
        if i is None:
            i = self.var_of[t] = len(self.atoms)
            self.atoms.append(t)
        return self._node(i, 0, 1)

    def _node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.unique[k] = n
        return n

    def top_var(self, f):
        return self.nodes[f][0] if f > 1 else 1 << 60

    def _cof(self, f, v, val):
        if f <= 1 or self.nodes[f][0] != v:
            return f
        return self.nodes[f][2 if val else 1]

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.top_var(f), self.top_var(g), self.top_var(h))
        lo = self.ite(self._cof(f, v, 0), self._cof(g, v, 0), self._cof(h, v, 0))
        hi = self.ite(self._cof(f, v, 1), self._cof(g, v, 1), self._cof(h, v, 1))
        r = self._node(v, lo, hi)
        self.cache[k] = r
        return r

    def and_(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
            if r == 0:
                return 0
        return r

    def or_(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
            if r == 1:
                return 1
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def implies(self, f, g):
        return self.ite(f, g, 1) == 1

    def constrain(self, f, c):
        """Generalised cofactor: f simplified assuming c."""
        if c == 1 or f <= 1:
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = ('c', f, c)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.top_var(f), self.top_var(c))
        c0, c1 = self._cof(c, v, 0), self._cof(c, v, 1)
        f0, f1 = self._cof(f, v, 0), self._cof(f, v, 1)
        if c0 == 0:
            r = self.constrain(f1, c1)
        elif c1 == 0:
            r = self.constrain(f0, c0)
        else:
            r = self._node(v, self.constrain(f0, c0), self.constrain(f1, c1))
        self.cache[k] = r
        return r

    def simplify(self, f, c):
        """constrain, but never enlarging the support of f."""
        r = self.constrain(f, c)
        if r <= 1:
            return r
        if self.support(r) <= self.support(f):
            return r
        # quantify the irrelevant variables out of the care set first
        extra = self.support(c) - self.support(f)
        cc = c
        for v in extra:
            cc = self.exists_var(cc, v)
        return self.constrain(f, cc)

    def exists_var(self, f, v):
        if f <= 1:
            return f
        k = ('e', f, v)
        r = self.cache.get(k)
        if r is not None:
            return r
        fv, lo, hi = self.nodes[f]
        if fv > v:
            r = f
        elif fv == v:
            r = self.or_(lo, hi)
        else:
            r = self._node2(fv, self.exists_var(lo, v), self.exists_var(hi, v))
        self.cache[k] = r
        return r

    def _node2(self, v, lo, hi):
        return self.ite(self._node(v, 0, 1), hi, lo)

    def support(self, f):
        if f <= 1:
            return frozenset()
        k = ('s', f)
        r = self.cache.get(k)
        if r is None:
            v, lo, hi = self.nodes[f]
            r = frozenset([v]) | self.support(lo) | self.support(hi)
            self.cache[k] = r
        return r

    def support_atoms(self, f):
        return [self.atoms[i] for i in sorted(self.support(f))]

    def assign(self, f, v, val):
        """Cofactor on variable index v."""
        if f <= 1:
            return f
        k = ('a', f, v, val)
        r = self.cache.get(k)
        if r is not None:
            return r
        fv, lo, hi = self.nodes[f]
        if fv > v:
            r = f
        elif fv == v:
            r = hi if val else lo
        else:
            r = self._node(fv, self.assign(lo, v, val), self.assign(hi, v, val))
        self.cache[k] = r
        return r

    def map_atoms(self, f, fn):
        """Rebuild f with every atom a replaced by gate fn(a)."""
        memo = {}

        def go(n):
            if n <= 1:
                return n
            r = memo.get(n)
            if r is None:
                v, lo, hi = self.nodes[n]
                r = self.ite(fn(self.atoms[v]), go(hi), go(lo))
                memo[n] = r
            return r
        return go(f)

    def cubes(self, f, limit=64):
        """A list of cubes (dict atom->bool) covering f (disjoint)."""
        out = []

        def go(n, cur):
            if len(out) > limit:
                return
            if n == 0:
                return
            if n == 1:
                out.append(dict(cur))
                return
            v, lo, hi = self.nodes[n]
            cur[self.atoms[v]] = True
            go(hi, cur)
            cur[self.atoms[v]] = False
            go(lo, cur)
            del cur[self.atoms[v]]
        go(f, {})
        return out


B = BDD()
TRUE, FALSE = 1, 0


def A(*args):
    """atom gate"""
    return B.atom(mk(*args))


# ------------------------------------------------------------ guarded values
class GV(object):
    """Gated value: alternatives (gate, term), pairwise disjoint gates."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        if len(self.alts) == 1 and self.alts[0][0] == TRUE:
            return show(self.alts[0][1])
        return 'GV{%s}' % '; '.join('%s => %s' % (show_gate(g), show(t)) for g, t in self.alts)

    def single(self):
        """The only alternative's term, else None."""
        if len(self.alts) == 1:
            return self.alts[0][1]
        return None

    def under(self, gate):
        """Alternatives reachable under gate, with gates simplified."""
        if gate == TRUE or (len(self.alts) == 1 and self.alts[0][0] == TRUE):
            return self
        out = []
        for g, t in self.alts:
            if B.and_(g, gate) != FALSE:
                out.append((B.constrain(g, gate), t))
        if len(out) == 1:
            out = [(TRUE, out[0][1])] if B.implies(gate, self._gate_of(out[0][1])) else out
        return GV(tuple(out))

    def _gate_of(self, t):
        r = FALSE
        for g, x in self.alts:
            if x is t:
                r = B.or_(r, g)
        return r

    def domain(self):
        r = FALSE
        for g, _ in self.alts:
            r = B.or_(r, g)
        return r

    def map(self, fn):
        return gv_join((g, fn(t)) for g, t in self.alts)


MAX_ALTS = 48


def gv(t):
    return GV(((TRUE, t),))


def gv_join(alts):
    """Merge alternatives with equal terms; flatten GVs."""
    order = []
    gates = {}
    for g, t in alts:
        if g == FALSE:
            continue
        if isinstance(t, GV):
            for g2, t2 in t.alts:
                gg = B.and_(g, g2)
                if gg == FALSE:
                    continue
                if t2 not in gates:
                    gates[t2] = gg
                    order.append(t2)
                else:
                    gates[t2] = B.or_(gates[t2], gg)
            continue
        if t not in gates:
            gates[t] = g
            order.append(t)
        else:
            gates[t] = B.or_(gates[t], g)
    if len(order) > MAX_ALTS:
        return gv(top('too many alternatives'))
    return GV(tuple((gates[t], t) for t in order))


def gv_ite(gate, a, b):
    if gate == TRUE:
        return a
    if gate == FALSE:
        return b
    na = B.not_(gate)
    return gv_join([(gate, a), (na, b)])


def lift(fn, *gvs):
    """Apply fn(leaf...) -> leaf or GV over all combinations."""
    if all(len(v.alts) == 1 and v.alts[0][0] == TRUE for v in gvs):
        r = fn(*[v.alts[0][1] for v in gvs])
        return r if isinstance(r, GV) else gv(r)
    combos = [(TRUE, ())]
    for v in gvs:
        nxt = []
        for g, ts in combos:
            for g2, t in v.alts:
                gg = B.and_(g, g2)
                if gg != FALSE:
                    nxt.append((gg, ts + (t,)))
        combos = nxt
        if len(combos) > 4 * MAX_ALTS:
            return gv(top('too many alternatives'))
    return gv_join((g, fn(*ts)) for g, ts in combos)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """All terms inside t (including gates of seq/bool nodes)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, GV):
            for g, y in x.alts:
                stack.append(Gate(g))
                stack.append(y)
            continue
        if isinstance(x, Gate):
            for a in B.support_atoms(x.g):
                stack.append(a)
            continue
        if isinstance(x, Emission):
            stack.extend(x.binders)
            stack.append(Gate(x.gate))
            stack.append(x.value)
            continue
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T):
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, (T, GV, Gate, tuple, Emission)):
                stack.append(a)
        if x.op == 'binder':
            st = BINDER_STOP.get(x)
            if st:
                for g in st:
                    stack.append(Gate(g))


class Gate(object):
    """Hashable wrapper for a gate stored inside a term."""
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        return isinstance(o, Gate) and o.g == self.g

    def __hash__(self):
        return hash(('gate', self.g))

    def __repr__(self):
        return 'Gate(%s)' % show_gate(self.g)


class Emission(object):
    """One syntactic source of elements of a sequence.

    binders: loop binders (outermost first) the emission ranges over;
    gate:    condition under which it emits;
    value:   emitted term.
    """
    __slots__ = ('binders', 'gate', 'value', 'kind', 'loc')

    def __init__(self, binders, gate, value, kind='item', loc=None):
        self.binders = tuple(binders)
        self.gate = gate
        self.value = value
        self.kind = kind
        self.loc = loc

    def _k(self):
        return (self.binders, self.gate, self.value, self.kind)

    def __eq__(self, o):
        return isinstance(o, Emission) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())

    def __repr__(self):
        if any(x.op != 'binder' for x in self.binders):
            return '<%s %s%s>' % (show(self.value), ' '.join(show(x) for x in self.binders),
                                  ' if ' + show_gate(self.gate) if self.gate != TRUE else '')
        b = ' '.join('for %s in %s%s' % (show_elem(x), show(x.args[1]),
                     (' until ' + '|'.join(show_gate(g) for g in BINDER_STOP[x])) if BINDER_STOP.get(x) else '')
                     for x in self.binders)
        return '<%s%s%s>' % (show(self.value), ' ' + b if b else '',
                             ' if ' + show_gate(self.gate) if self.gate != TRUE else '')


BINDER_STOP = {}     # binder -> list of gates ending the loop
_binder_n = [0]


def new_binder(iterable, order=None):
    _binder_n[0] += 1
    return mk('binder', _binder_n[0], iterable, order)


def elem(b):
    return mk('elem', b)


def binders_in(t):
    """Binders whose elem/index occurs in t."""
    return set(x for x in subterms(t) if x.op == 'binder')


def elems_in(t):
    out = set()
    for x in subterms(t):
        if x.op in ('elem', 'index', 'carried'):
            if isinstance(x.args[0], T) and x.args[0].op == 'binder':
                out.add(x.args[0])
    return out


def gate_elems(g):
    out = set()
    for a in B.support_atoms(g):
        out |= elems_in(a)
    return out


# ------------------------------------------------------------------ printing
def show_elem(b):
    if b.op != 'binder':
        return '$'
    return '$%d' % b.args[0]


def show(t, depth=0):
    if isinstance(t, GV):
        return repr(t)
    if isinstance(t, Gate):
        return show_gate(t.g)
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if isinstance(t, Emission):
        return repr(t)
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else show(x)
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return a[0]
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'elem':
        return show_elem(a[0])
    if o == 'index':
        return '#%d' % a[0].args[0]
    if o == 'celem':
        return '$%d' % a[0]
    if o == 'cindex':
        return '#%d' % a[0]
    if o == 'named':
        return '<%s>' % a[0]
    if o == 'instof':
        return '<%s>' % a[0].rpartition('.')[2]
    if o == 'cbinder':
        return 'for each in %s%s%s' % (s(a[0]), '' if a[1] is None else ' ordered by ' + show(a[1]),
                                       '' if a[2].g == FALSE else ' until ' + show_gate(a[2].g))
    if o == 'binder':
        return '$%d in %s' % (a[0], s(a[1]))
    if o == 'call':
        return '%s(%s)' % (s(a[0]), _args(a[1], a[2]))
    if o == 'mcall':
        return '%s.%s(%s)' % (s(a[0]), a[1], _args(a[2], a[3]))
    if o == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return '%s[%s:%s%s]' % (s(a[0]), '' if a[1] is NONE else s(a[1]),
                                '' if a[2] is NONE else s(a[2]),
                                '' if a[3] is NONE else ':' + s(a[3]))
    if o == 'add':
        return '(' + ' + '.join(s(x) for x in a) + ')'
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ',)'
    if o == 'bool':
        return '[%s]' % show_gate(a[0].g)
    if o in ('global', 'ext'):
        return a[0]
    if o == 'cmp':
        return '%s %s %s' % (s(a[1]), a[0], s(a[2]))
    if o == 'truthy':
        return 'bool(%s)' % s(a[0])
    if o == 'seq':
        return '%s<%s>' % (a[0], '; '.join(show(x) for x in a[1]))
    if o == 'top':
        return 'TOP(%s)' % a[0]
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def _args(pos, kw):
    return ', '.join([show(x) for x in pos] + ['%s=%s' % (k, show(v)) for k, v in kw])


def show_gate(g, limit=6):
    if g == TRUE:
        return 'true'
    if g == FALSE:
        return 'false'
    cs = B.cubes(g, limit)
    parts = []
    for c in cs[:limit]:
        parts.append(' & '.join(('' if v else '!') + show(a) for a, v in c.items()) or 'true')
    return ' | '.join('(%s)' % p if len(cs) > 1 else p for p in parts) + (' | ...' if len(cs) > limit else '')
