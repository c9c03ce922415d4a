"""Canonical forms: value-graph terms up to renaming of loop variables, splitting of emissions and list/generator
representation.  Two program fragments with equal canonical forms compute the same value."""
from .ops import boolt, seq, idx, subst, truth_leaf, plain_items, rebuild, rebuild_atom
from .terms import (T, subterms, elems_in, mk, const, NONE, TRUE_T, FALSE_T, top, B, TRUE, FALSE, A, GV, gv, gv_join, Gate, Emission,
                    BINDER_STOP, show, show_gate)


class Canon(object):
    """
    rewrites: list of fn(term) -> term or None applied to canonical terms bottom-up
    atom_rw:  list of fn(atom term) -> gate or None applied to canonical atoms
    """

    def __init__(self, vfg, rewrites=(), atom_rw=(), ordered=True):
        self.v = vfg
        self.rewrites = list(rewrites)
        self.atom_rw = list(atom_rw)
        self.memo = {}
        self.gmemo = {}
        self.busy = []
        self.ordered = ordered
        self.carried = {}
        self.names = {}
        self.assume = []      # fn(atom) -> gate or None, applied to raw atoms
        self.drop_gates = False
        self.marks = []
        self.assume_env = []  # the same with the loops the atom is in

    # -- terms
    def term(self, t, env=()):
        if isinstance(t, GV):
            return self.gv(t, env)
        if isinstance(t, tuple):
            return tuple(self.term(x, env) for x in t)
        if isinstance(t, Gate):
            return Gate(self.gate(t.g, env))
        if isinstance(t, Emission):
            return self.emission(t, env)
        if not isinstance(t, T):
            return t
        k = (t, env, tuple(self.busy)) if self.busy else (t, env)
        r = self.memo.get(k)
        if r is None:
            r = self._term(t, env)
            for rw in self.rewrites:
                x = rw(r)
                if x is not None:
                    r = x
            self.memo[k] = r
        return r

    def gv(self, v, env=()):
        if isinstance(v, T):
            return gv(self.term(v, env))
        return gv_join((B.and_(self.gate(g, env), h), x) for g, t in v.alts for h, x in lookups(self.term(t, env)))

    def level(self, b, env):
        for i in range(len(env) - 1, -1, -1):
            if env[i] is b:
                return i
        return None

    def _term(self, t, env):
        o = t.op
        if o in ('elem', 'index'):
            l = self.level(t.args[0], env)
            if l is None:
                return mk('free' + o, self.term(t.args[0].args[1], env))
            if o == 'index' and t.args[0].args[1].op == 'range' and len(t.args[0].args[1].args) == 1:
                o = 'elem'
            if o == 'elem':
                view = of_items(t.args[0])
                if view is not None:
                    d = self.term(view[0], env[:l])
                    x = mk('celem', l)
                    return x if view[1] == 'keys' else idx(d, x) if view[1] == 'values' else mk('tuple', x, idx(d, x))
            return mk('c' + o, l)
        if o == 'carried':
            l = self.level(t.args[0], env)
            names = self.carried.setdefault(t.args[0], [])
            if t.args[1] not in names:
                names.append(t.args[1])
            return mk('ccarried', l if l is not None else -1, names.index(t.args[1]))
        if o == 'seq':
            return self.seq(t, env)
        if o == 'dict':
            if env and not any(x.op in ('obj', 'objref', 'at', 'cur') for x in subterms(t)):
                # the same wherever it is mentioned
                used = elems_in(t)
                env = env[:max([i + 1 for i, b in enumerate(env) if b in used] or [0])]
            ems = [self.emission(e, env) for e in t.args[0]]
            return mk('dict', tuple(self.merge(ems, False)))
        if o == 'inst' or o in ('obj', 'objref') and t.args[0] in self.v.objs and self.v.objs[t.args[0]].kind == 'inst':
            return self.inst(t, env)
        if o in ('obj', 'objref'):
            ob = self.v.objs.get(t.args[0])
            if ob is None or ob.kind not in ('list', 'set', 'gen', 'dict') or ob.default is not None:
                return mk('objref', t.args[0])
            return self.content(ob, None, env)
        if o == 'at':
            return self.content(self.v.objs[t.args[0]], t.args[1], env, t.args[2])
        if o == 'cur':
            return mk('curof', self.content(self.v.objs[t.args[0]], None, env, t.args[2]), t.args[1])
        if o == 'copy':
            return self.term(t.args[0], env)
        if o in ('tupleof', 'listof'):
            return self.term(t.args[0], env)
        if o == 'bool':
            return boolt(self.gate(t.args[0].g, env))
        if o in ('lastof', 'firstof', 'sum', 'fold'):
            return mk(o, *[self.term(a, env) if isinstance(a, (T, tuple, Emission)) else a for a in t.args
                           if not (o == 'fold' and isinstance(a, str))])
        if o == 'phi':
            alts = gv_join((self.gate(g.g, env), self.term(x, env)) for g, x in t.args[0])
            if len(alts.alts) == 1:
                return alts.alts[0][1]
            return mk('phi', tuple(sorted(((Gate(g), x) for g, x in alts.alts), key=lambda p: p[1].uid)))
        if o == 'binder':
            return self.binder(t, env)
        args = tuple(self.term(a, env) if isinstance(a, (T, GV, tuple, Gate, Emission)) else a for a in t.args)
        r = rebuild(o, args)
        if isinstance(r, GV):
            s = r.single()
            r = s if s is not None else mk('phi', tuple((Gate(g), x) for g, x in r.alts))
        return r

    def inst(self, t, env):
        n = self.names.get(t)
        if n is not None:
            return mk('named', n)
        ob = self.v.objs[t.args[0]]
        if ob.oid in self.busy:
            return mk('backref', ob.cls.qualname)
        self.busy.append(ob.oid)
        try:
            attrs = []
            for k in sorted(ob.attrs):
                x = self.gv(ob.attrs[k], env)
                s = x.single()
                attrs.append(mk('pair', const(k), s if s is not None else
                                mk('phi', tuple((Gate(g), y) for g, y in x.alts))))
            return mk('instof', ob.cls.qualname, tuple(attrs))
        finally:
            self.busy.pop()

    def content(self, ob, upto, env, birth=None):
        """Content of a container; a reference from inside its own content is written relative to the nesting."""
        if ob.oid in self.busy:
            return mk('selfref', len(self.busy) - self.busy.index(ob.oid))
        snap, n = self.snap(ob, upto, env, birth)
        self.busy.append(ob.oid)
        try:
            return self.term(snap, env[:n])
        finally:
            self.busy.pop()

    def snap(self, ob, upto, env, birth):
        snap = self.v.snapshot(ob, upto)
        if birth is None:
            birth = ob.birth
        m = {}
        for a, b in zip(ob.birth, birth):
            if a is not b:
                m[a] = b
                for o in ('elem', 'index'):
                    m[mk(o, a)] = mk(o, b)
        if m:
            snap = subst(snap, m)
        n = 0
        for i, b in enumerate(env):
            if b in birth:
                n = i + 1
        return snap, n

    def binder(self, b, env):
        """canonical binder entered at level len(env)"""
        view = of_items(b)
        it = self.term(view[0] if view is not None else b.args[1], env)
        order = self.term(b.args[2], env) if b.args[2] is not None else None
        stops = BINDER_STOP.get(b)
        sg = FALSE
        if stops:
            for g in stops:
                sg = B.or_(sg, self.gate(g, env + (b,)))
        return mk('cbinder', it, order, Gate(sg))

    def emission(self, e, env):
        cbs = []
        ev = env
        for b in e.binders:
            cbs.append(self.binder(b, ev))
            ev = ev + (b,)
        return Emission(cbs, TRUE if self.drop_gates else self.gate(e.gate, ev), self.term(e.value, ev), e.kind, e.loc)

    def merge(self, ems, ordered):
        """Join emissions of equal value and binder chain."""
        out = []
        for e in ems:
            if e.gate == FALSE:
                continue
            done = False
            for i in range(len(out) - 1, -1, -1):
                x = out[i]
                if x.binders == e.binders and x.value is e.value and x.kind == e.kind:
                    if not ordered or B.and_(x.gate, e.gate) == FALSE:
                        out[i] = Emission(x.binders, B.or_(x.gate, e.gate), x.value, x.kind, x.loc)
                        done = True
                    break
                if ordered and (x.binders != e.binders or B.and_(x.gate, e.gate) != FALSE):
                    break
            if not done:
                out.append(e)
        if not ordered:
            out.sort(key=self.ekey)
            return out
        # runs of mutually exclusive emissions of one loop body may be listed in any order
        res = []
        run = []
        for e in out:
            if run and all(r.binders == e.binders and B.and_(r.gate, e.gate) == FALSE for r in run):
                run.append(e)
            else:
                res.extend(sorted(run, key=self.ekey))
                run = [e]
        res.extend(sorted(run, key=self.ekey))
        return res

    def ekey(self, e):
        return (tuple(b.uid for b in e.binders), e.value.uid if isinstance(e.value, T) else 0, e.kind)

    def seq(self, t, env):
        kind, ems, order, note = t.args
        kind = {'gen': 'list', 'tuple': 'list', 'frozenset': 'set'}.get(kind, kind)
        ordered = kind == 'list' and self.ordered
        ems = [self.emission(e, env) for e in ems]
        ems = self.merge([Emission(e.binders, B.and_(e.gate, h), x, e.kind, e.loc)
                          for e in ems for h, x in lookups(e.value)], ordered)
        if kind == 'list' and not order and not note and all(not e.binders and e.gate == TRUE and e.kind == 'item'
                                                             for e in ems):
            return mk('tuple', *[e.value for e in ems])
        r = seq(kind, ems, tuple(self.term(x, env) for x in order), note)
        # full copy of another sequence
        if len(ems) == 1 and not order and not note:
            e = ems[0]
            if len(e.binders) == 1 and e.gate == TRUE and e.value is mk('celem', len(env)) and e.kind == 'item':
                it, bo, st = e.binders[0].args
                if bo is None and st.g == FALSE and kind == 'list':
                    return it
        return r

    # -- gates
    def gate(self, g, env=()):
        if g <= 1:
            return g
        k = (g, env, tuple(self.busy))
        r = self.gmemo.get(k)
        if r is None:
            r = B.map_atoms(g, lambda a: self.atom(a, env))
            self.gmemo[k] = r
        return r

    def atom(self, a, env):
        k = ('atom', a, env, tuple(self.busy))
        r = self.gmemo.get(k)
        if r is not None:
            return r
        for fn in self.assume:
            x = fn(a)
            if x is not None:
                self.gmemo[k] = x
                return x
        for fn in self.assume_env:
            x = fn(a, env)
            if x is not None:
                x = self.gate(x, env)
                self.gmemo[k] = x
                return x
        if a.op == 'in' and a.args[1].op == 'cur':
            for oid, mark in self.marks:
                if oid == a.args[1].args[0]:
                    return mark
            x = self.duplicate(a, env)
            if x is not None:
                self.gmemo[k] = x
                return x
        if a.op == 'exists':
            ev = env
            cbs = []
            for b in a.args[0]:
                cbs.append(self.binder(b, ev))
                ev = ev + (b,)
            g = self.gate(a.args[1].g, ev)
            r = self.cexists(cbs, g, len(env))
        else:
            args = tuple(self.term(x, env) if isinstance(x, (T, GV, tuple, Gate, Emission)) else x for x in a.args)
            r = rebuild_atom(a.op, args)
        for rw in self.atom_rw:
            out = FALSE
            if r > 1:
                r = B.map_atoms(r, lambda x: self._rwatom(rw, x))
        self.gmemo[k] = r
        return r

    def duplicate(self, a, env):
        """
        Membership in a container filled by the running loop itself with the values it tests (each value is added
        under the tested condition, or always): 'an earlier iteration had an equal value'.
        """
        x, c = a.args
        ob = self.v.objs[c.args[0]]
        if c.args[1] != 0 or ob.kind not in ('set', 'list', 'dict') or ob.default is not None or ob.oid in self.busy:
            return None
        snap, n = self.snap(ob, None, env, c.args[2])
        if snap.op == 'dict':
            ems = [Emission(e.binders, e.gate, idx(e.value, const(0)), e.kind, e.loc) for e in snap.args[0]]
        elif snap.op == 'seq' and not snap.args[3] and not snap.args[2]:
            ems = snap.args[1]
        else:
            return None
        cb = []
        for i in range(len(env)):
            cb.append(self.binder(env[i], env[:i]))
        out = []
        mark = A('dupmark', c.args[0])
        self.busy.append(ob.oid)
        self.marks.append((ob.oid, mark))
        try:
            want = self.term(x, env)
            for e in ems:
                ev = env[:n]
                ebs = []
                for b in e.binders:
                    ebs.append(self.binder(b, ev))
                    ev = ev + (b,)
                if len(ev) > len(env) or [b.args[0] for b in ebs] != [b.args[0] for b in cb[n:len(ev)]]:
                    return None
                val = self.term(e.value, ev)
                g = self.gate(e.gate, ev)
                at = [y for y in B.support_atoms(g) if y.op == 'dupmark']
                for y in at:
                    g1 = B.constrain(g, B.not_(B.atom(y)))
                    if B.constrain(g, B.atom(y)) not in (FALSE, g1):
                        return None
                    g = g1
                out.append((val, g))
        finally:
            self.busy.pop()
            self.marks.pop()
        if not any(v is want for v, g in out) or len(set(len(e.binders) for e in ems)) != 1 \
                or any(uses_level(B.atom(A0(want)), l) for l in range(n + len(ems[0].binders), len(env))):
            return None
        return A('dup', want, tuple(sorted(((v, Gate(g)) for v, g in out), key=lambda p: (p[0].uid, p[1].g))))

    @staticmethod
    def _rwatom(rw, x):
        y = rw(x)
        return B.atom(x) if y is None else y

    def cexists(self, cbs, g, depth):
        if g == FALSE:
            return FALSE
        cbs = list(cbs)
        while cbs:
            b = cbs[-1]
            l = depth + len(cbs) - 1
            if b.args[2].g != FALSE or uses_level(g, l):
                break
            cbs.pop()
            g = B.and_(g, truth_leaf(b.args[0]))
        if not cbs:
            return g
        # flatten nested single-binder existentials into one chain
        at = B.support_atoms(g)
        if len(at) == 1 and at[0].op == 'cexists' and g == B.atom(at[0]):
            return A('cexists', tuple(cbs) + at[0].args[0], at[0].args[1])
        return A('cexists', tuple(cbs), Gate(g))


def lookups(t):
    """d.get(k, default), alone or as an item of a tuple, is d[k] when k is in d."""
    if t.op == 'mcall' and t.args[1] == 'get' and len(t.args[2]) == 2 and not t.args[3]:
        d, (k, default) = t.args[0], t.args[2]
        g = rebuild_atom('in', (k, d))
        return [(B.and_(g, h), x) for h, x in lookups(idx(d, k))] + [(B.and_(B.not_(g), h), x) for h, x in lookups(default)]
    if t.op == 'tuple' and any(x.op in ('mcall', 'tuple') for x in t.args):
        out = [(TRUE, ())]
        for x in t.args:
            out = [(B.and_(g, h), xs + (y,)) for g, xs in out for h, y in lookups(x) if B.and_(g, h) != FALSE]
        return [(g, mk('tuple', *xs)) for g, xs in out]
    return [(TRUE, t)]


def A0(t):
    return mk('x', t)


VIEWS = {'items': 'items', 'iteritems': 'items', 'keys': 'keys', 'iterkeys': 'keys', 'values': 'values', 'itervalues': 'values'}


def of_items(b):
    """A loop over d.items(), d.keys() or d.values() goes through the keys of d: (d, view)."""
    it = b.args[1]
    if isinstance(it, T) and it.op == 'mcall' and it.args[1] in VIEWS and not it.args[2] and not it.args[3] and b.args[2] is None:
        return it.args[0], VIEWS[it.args[1]]
    return None


def uses_level(g, l):
    from .terms import subterms
    for a in B.support_atoms(g):
        for x in subterms(a):
            if x.op in ('celem', 'cindex', 'ccarried') and x.args[0] == l:
                return True
    return False


UNRESOLVED = ('cur', 'curof', 'selfref', 'curattr', 'dupmark', 'top', 'fold', 'while', 'loopout', 'ccarried', 'carried', 'fmtcall', 'popped', 'sent', 'bottom', 'position')


MEMOS = set()       # names of attributes used as memos by foreign objects: values looked up in them are not resolved


def unresolved(x):
    """Parts of a canonical value the analysis could not interpret."""
    from .terms import subterms
    out = []
    todo = []
    if isinstance(x, GV):
        for g, t in x.alts:
            todo.append(t)
            todo.extend(B.support_atoms(g))
    elif isinstance(x, int):
        todo.extend(B.support_atoms(x))
    else:
        todo.append(x)
    seen = set()
    for t in todo:
        for s in subterms(t, seen):
            if s.op in UNRESOLVED:
                out.append(s)
            elif MEMOS and s.op == 'idx' and s.args[0].op == 'attr' and s.args[0].args[1] in MEMOS:
                out.append(s)
            elif s.op == 'seq' and s.args[3]:
                out.append(s)
            elif s.op == 'dict' and any(e.kind != 'item' for e in s.args[0]):
                out.append(s)
    return out


def diff(a, b, path='', limit=4):
    """Human-readable places where two canonical values differ."""
    out = []

    def go(x, y, p):
        if len(out) >= limit:
            return
        if isinstance(x, GV) or isinstance(y, GV):
            xa = x.alts if isinstance(x, GV) else ((TRUE, x),)
            ya = y.alts if isinstance(y, GV) else ((TRUE, y),)
            if set(xa) == set(ya):
                return
            if len(xa) == len(ya) == 1:
                go(xa[0][1], ya[0][1], p)
                return
            only = [k for k in xa if k not in ya], [k for k in ya if k not in xa]
            if len(only[0]) == 1 and len(only[1]) == 1 and only[0][0][0] == only[1][0][0]:
                go(only[0][0][1], only[1][0][1], p)
                return
            out.append((p, GV(tuple(only[0])) if only[0] else 'nothing', GV(tuple(only[1])) if only[1] else 'nothing'))
            return
        if x is y or (not isinstance(x, T) and x == y):
            return
        if isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.args) == len(y.args):
            if x.op == 'seq' and len(x.args[1]) == len(y.args[1]):
                for i, (e, f) in enumerate(zip(x.args[1], y.args[1])):
                    if e != f:
                        for j, (bb, cc) in enumerate(zip(e.binders, f.binders)):
                            go(bb, cc, p + '/loop%d' % j)
                        if len(e.binders) != len(f.binders):
                            out.append((p + '/loops', e.binders, f.binders))
                        if e.gate != f.gate:
                            out.append((p + '/condition', Gate(e.gate), Gate(f.gate)))
                        go(e.value, f.value, p + '/item%d' % i)
                if x.args[2:] != y.args[2:]:
                    out.append((p + '/order', x.args[2], y.args[2]))
                return
            if x.op in ('tuple', 'add', 'idx', 'slice', 'mcall', 'attr', 'call', 'cbinder', 'ntuple', 'dict'):
                n0 = len(out)
                for i, (c, d) in enumerate(zip(x.args, y.args)):
                    if isinstance(c, tuple) and isinstance(d, tuple) and len(c) == len(d):
                        for cc, dd in zip(c, d):
                            go(cc, dd, p + '[%d]' % i)
                    else:
                        go(c, d, p + '[%d]' % i)
                if len(out) > n0:
                    return
        out.append((p, x, y))
    go(a, b, path)
    return out


def pretty(x, n=400):
    s = x if isinstance(x, str) else show(x) if isinstance(x, (T, GV, tuple)) else repr(x)
    return s if len(s) <= n else s[:n] + '...'
