"""A34: no returned sequence is ordered by iteration over an unordered collection."""
from .common import *
from .effects import Run, runs, where_of
from .config import construct
from pmlint.vfg import KEYVAR

SETS = ('set', 'frozenset')
SETATTRS = ('grammemes', 'grammemes_cyr', '_grammemes_cache', '_cyr_grammemes_cache')
RANDOM = ('random', 'secrets', 'uuid', 'time', 'os.urandom', 'os.getpid', 'threading')
IDENTITY = ('builtins.id', 'builtins.hash')


def unordered(v, t, depth=0):
    """Is the iteration order of the value arbitrary?"""
    if depth > 8 or not isinstance(t, T):
        return False
    o = t.op
    if o in ('copy', 'listof', 'tupleof', 'reversed', 'enumerate'):
        return unordered(v, t.args[0], depth + 1)
    if o == 'seq':
        if t.args[0] in SETS:
            return len(t.args[1]) > 1 or any(e.binders for e in t.args[1])
        return False
    if o in ('setof', 'frozensetof'):
        return True
    if o in ('obj', 'objref', 'cur'):
        x = v.objs.get(t.args[0])
        return x is not None and x.kind in SETS
    if o == 'attr':
        return t.args[1] in SETATTRS
    if o == 'bin' and t.args[0] in ('&', '|', '-', '^'):
        return any(unordered(v, x, depth + 1) for x in t.args[1:])
    if o == 'mcall':
        if t.args[1] in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
            return unordered(v, t.args[0], depth + 1)
    if o == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.set', 'builtins.frozenset'):
        return True
    return False


def numeric(key):
    """A number computed from the item."""
    if key.op == 'bin' and key.args[0] in ('-', '*', '/', '//', '%', '+'):
        return KEYVAR not in key.args
    if key.op == 'len':
        return key.args[0] is not KEYVAR
    if key.op == 'phi':
        return all(numeric(t) for t in subparts(key))
    return key.op == 'sum'


def subparts(t):
    todo = list(t.args)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T):
            yield x


def coarse(key):
    """Does the key look only at parts of the item, so that different items can have equal keys?"""
    if key.op == 'const':
        return True
    if numeric(key):
        return True
    if key is KEYVAR or any(t.op == 'top' or t.op == 'len' and KEYVAR in t.args for t in subterms(key)):
        return False
    todo, n = [key], 0
    while todo:
        t = todo.pop()
        if t is KEYVAR:
            return False
        if not isinstance(t, T) or t.op in ('idx', 'attr') and t.args[0] is KEYVAR:
            n += 1
            continue
        if t.op == 'call' and KEYVAR in t.args[1]:
            return False
        if t.op == 'mcall' and KEYVAR in t.args[2]:
            if t.args[1] not in ('prob', 'get', 'count', 'find', 'index'):
                return False
            n += 1
            continue
        todo.extend(x for x in subterms(t) if x is not t and x in t.args)
        todo.extend(x for a in t.args if isinstance(a, tuple) for x in a if isinstance(x, T))
    return n > 0


def total(order, source):
    """Does the ordering leave nothing to the order of the input?  None: not known."""
    st = False
    for k in order or ():
        if k.op == 'rev':
            continue
        if k.op == 'cond':
            return None
        if k.op == 'sortkey':
            key = k.args[0]
            if key is NONE or key is KEYVAR or key.op == 'tuple' and KEYVAR in key.args:
                st = True
            else:
                st = st or (False if coarse(key) else None)
        else:
            return None
    return st


class Walk(object):
    def __init__(self, run, rep):
        self.run, self.v, self.rep = run, run.w.v, rep
        self.bad = []
        self.seen = set()
        self.n = 0

    def flag(self, st, text):
        self.bad.append((st, text))

    def gv(self, x):
        for _, t in x.alts:
            self.val(t)

    def binder(self, b, what):
        it = b.args[1]
        if unordered(self.v, it):
            st = total(b.args[2], it)
            if st is not True:
                self.flag(st, '%s follows the iteration order of %s' % (what, show(it)[:160]))
                return
        if not total(b.args[2], it):
            self.val(it)

    def val(self, t):
        """The value is part of a result: its order matters."""
        if not isinstance(t, T) or t in self.seen:
            return
        self.seen.add(t)
        self.n += 1
        o = t.op
        if o == 'seq':
            sets = t.args[0] in SETS
            st = True if sets else total(t.args[2], t)
            for e in t.args[1]:
                if st is not True:
                    for b in e.binders:
                        self.one_binder(b, st, 'the order of a returned sequence')
                self.val(e.value)
        elif o == 'tuple':
            for x in t.args:
                self.val(x)
        elif o == 'ntuple':
            for x in t.args[1]:
                self.val(x)
        elif o == 'dict':
            for e in t.args[0]:
                for b in e.binders:
                    self.one_binder(b, False, 'the order of a returned mapping')
                self.val(e.value)
        elif o in ('listof', 'tupleof', 'reversed', 'enumerate', 'copy'):
            if o != 'copy' and unordered(self.v, t.args[0]):
                self.flag(False, 'a returned sequence lists %s in its iteration order' % show(t.args[0])[:160])
            else:
                self.val(t.args[0])
        elif o in ('firstof', 'lastof', 'fold'):
            for x in t.args:
                for e in x if isinstance(x, tuple) else ():
                    if isinstance(e, Emission):
                        for b in e.binders:
                            self.one_binder(b, None if o == 'fold' else False, 'a returned item')
                        self.val(e.value)
        elif o == 'idx':
            if unordered(self.v, t.args[0]) and ops.isnum(t.args[1]):
                self.flag(False, 'an item is picked by its place in %s' % show(t.args[0])[:160])
            elif ops.isnum(t.args[1]) and t.args[0].op in (
                    'seq', 'listof', 'tupleof', 'copy', 'call', 'mcall', 'tuple', 'firstof', 'lastof'):
                self.val(t.args[0])
        elif o == 'slice':
            self.val(t.args[0])
        elif o in ('max', 'min'):
            if unordered(self.v, t.args[0]) and t.args[1] not in (NONE, KEYVAR):
                self.flag(False if coarse(t.args[1]) else None, 'ties of a maximum are decided by the iteration order of %s'
                          % show(t.args[0])[:160])
            else:
                self.val(t.args[0])
        elif o == 'popped':
            x = t.args[0]
            if x.op == 'obj' and self.v.objs[x.args[0]].kind in SETS:
                self.flag(False, 'an arbitrary item is removed from a set')
        elif o == 'call':
            f = t.args[0]
            name = f.args[0] if f.op == 'ext' else ''
            if any(name == r or name.startswith(r + '.') for r in RANDOM):
                self.flag(False, 'a returned value comes from %s' % name)
            if name in IDENTITY and '__hash__' not in self.run.label:
                self.flag(False, 'a returned value comes from %s()' % name.split('.')[1])
            if name in ('builtins.next', 'builtins.iter', 'builtins.list', 'builtins.tuple', 'builtins.enumerate',
                        'heapq.nlargest', 'heapq.nsmallest', 'itertools.chain', 'itertools.islice'):
                for x in t.args[1]:
                    if isinstance(x, T):
                        if unordered(self.v, x):
                            self.flag(None if 'heapq' in name else False, '%s takes items of %s in iteration order' % (
                                name.split('.')[1], show(x)[:160]))
                        else:
                            self.val(x)
            for x in t.args[1]:
                if isinstance(x, T) and x.op in ('star', 'tuple', 'call'):
                    self.val(x.args[0] if x.op == 'star' else x)
        elif o == 'mcall':
            if t.args[1] == 'join':
                for x in t.args[2]:
                    if unordered(self.v, x):
                        self.flag(False, 'text is joined in the iteration order of %s' % show(x)[:160])
                    else:
                        self.val(x)
            if t.args[0].op == 'ext' and any(t.args[0].args[0].split('.')[0] == r for r in RANDOM):
                self.flag(False, 'a returned value comes from %s' % show(t)[:80])
        elif o == 'add':
            for x in t.args:
                self.val(x)

    def one_binder(self, b, st, text):
        it = b.args[1]
        if unordered(self.v, it):
            s2 = total(b.args[2], it)
            if s2 is not True:
                self.flag(False if s2 is False and st is False else None, '%s follows the iteration order of %s' % (
                    text, show(it)[:160]))
        elif total(b.args[2], it) is not True:
            self.val(it)


def keys_of(order):
    for k in order or ():
        for s in subterms(k):
            yield s


def real_units():
    """Every unit of every language configuration, bound to an analyzer."""
    for lang in LANGS:
        World.RESOLVE = True
        try:
            w = World()
        finally:
            World.RESOLVE = False
        v = w.v
        m, _ = construct(w, path=const('/x'), lang=const(lang), probability_estimator_cls=NONE)
        base = v.cls(P + 'units.base.BaseAnalyzerUnit')
        units = [mk('inst', o.oid) for o in list(v.objs.values()) if o.kind == 'inst' and o.cls is not None and
                 v.subclass_of(o.cls, base) and isinstance(o.attrs.get('morph'), GV) and o.attrs['morph'].single() is m]
        for u in units:
            for meth in ('parse', 'tag'):
                f = v.find_method(v.obj(u).cls, meth)
                if f is None:
                    continue
                r = w.call(u, meth, WORD, WL, SEEN)
                yield Run('%s.%s (%s)' % (v.obj(u).cls.name, meth, lang), w, r, v.epoch)


def unit_order(rep):
    """The units are consulted in the order in which they are configured."""
    bad = []
    for lang in LANGS:
        w = World()
        v = w.v
        m, r = construct(w, path=const('/x'), lang=const(lang), probability_estimator_cls=NONE)
        x = v.snap_gv(v.get_attr(m, '_units', None))
        for g, t in x.alts:
            for y in all_subterms(v, t):
                if y.op == 'sortkey' and by_identity(y):
                    bad.append('the units (%s) are sorted by %s' % (lang, show(y)[:100]))
    rep.add('the units are not ordered by identity', not bad, P + 'analyzer', '; '.join(bad))


def all_subterms(v, t, seen=None):
    seen = set() if seen is None else seen
    for s in subterms(t):
        yield s
        if s.op in ('obj', 'objref', 'cur', 'at') and s.args[0] not in seen and s.args[0] in v.objs and \
                v.objs[s.args[0]].kind in ('list', 'set', 'dict'):
            seen.add(s.args[0])
            for y in all_subterms(v, v.snapshot(v.objs[s.args[0]]), seen):
                yield y


def by_identity(t):
    for s in subterms(t):
        if s.op == 'ext' and (s.args[0] in IDENTITY or any(s.args[0].startswith(r + '.') for r in RANDOM)):
            return True
    return False


SKIP = ('Tag.', 'is_', 'Dictionary.word_is_known', 'utils.', 'largest', 'combinations', 'longest', 'MorphAnalyzer.__reduce__')


def check_A34(rep):
    World.KEEP_SETS = True
    bad = []
    n = k = 0
    try:
        for src in (runs(()), real_units()):
            for run in src:
                if run.label.startswith(SKIP):
                    continue
                n += 1
                wk = Walk(run, rep)
                wk.gv(run.r.value)
                for t in subterms(run.r.value):
                    if t.op == 'sortkey':
                        for s in subterms(t):
                            if s.op == 'call' and s.args[0].op == 'ext' and (s.args[0].args[0] in IDENTITY or any(
                                    s.args[0].args[0].startswith(r + '.') for r in RANDOM)):
                                wk.flag(False, 'results are sorted by %s' % show(s)[:120])
                k += wk.n
                for st, text in wk.bad:
                    bad.append((st, run.label, run.r.where, text))
        unit_order(rep)
    finally:
        World.KEEP_SETS = False
    name = 'the order of results does not come from an unordered collection'
    for st, label, where, text in sorted(set(bad), key=lambda x: (x[0] is not False, str(x))):
        rep.add(name, st, where, '%s: %s' % (label, text))
    if not bad:
        rep.add(name, True, '%d calls, %d parts of their results' % (n, k))
