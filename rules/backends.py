"""A27: the compiled and the pure-Python DAWG library give the same answers."""
from .common import *
from .effects import Run, runs
from .order import Walk, real_units, total
from pmlint.vfg import KEYVAR

D = P + 'dawg.'

# methods both libraries offer to readers of dictionaries (DAWG 0.7/0.8 and DAWG-Python 0.7)
COMMON = set('''load prefixes similar_keys similar_items similar_item_values items iteritems keys iterkeys get b_get_value
compile_replaces prob is_prefixed'''.split())
ONLY_COMPILED = set('''has_key b_has_key b_prefixes iterprefixes has_keys_with_prefix get_value frombytes tobytes read write save
_size _file_size _total_size _raw_key _transitions'''.split())
ONLY_PYTHON = set('''_has_value _similar_keys _similar_items _similar_item_values _follow_key _value_for_index'''.split())

MATCHERS = '''
class Required(object):
    def __init__(self, prefixes):
        self.listed = tuple(prefixes)
    def prefixes(self, word):
        if not word.startswith(self.listed):
            return []
        return [p for p in self.listed if word.startswith(p)]
    def is_prefixed(self, word):
        return word.startswith(self.listed)
'''

# any order of the listed prefixes is possible
ANY_ORDER = '''
class PrefixMatcher(object):
    def __init__(self, prefixes):
        self.listed = prefixes
    def prefixes(self, word):
        return list(set(p for p in self.listed if word.startswith(p)))
    def is_prefixed(self, word):
        return word.startswith(tuple(self.listed))
'''


def matcher(w, name, what='prefixes'):
    v = w.v
    leaf = v.instantiate(v.lookup(name).single(), [gv(sym(what))], {}, None).single()
    v.new_epoch()
    return leaf


def check_A27_matchers(rep):
    w = World()
    rep.world = w
    v = w.v
    spec = w.spec(MATCHERS)
    req = matcher(w, spec + '.Required')

    # the pure-Python matcher
    leaf = matcher(w, D + 'PythonPrefixMatcher')
    for meth in ('prefixes', 'is_prefixed'):
        r = w.call(leaf, meth, WORD)
        s = w.call(req, meth, WORD)
        cls = v.obj(leaf).cls
        where = w.where(cls, meth)

        c = w.canon(ordered=False)
        ANY = B.atom(mk('truthy', sym('some prefix matches')))
        c.assume.append(lambda a: ANY if any_prefix(v, a) else None)
        name = 'PythonPrefixMatcher.%s finds exactly the listed prefixes the word starts with' % meth
        if meth == 'prefixes':
            listing(rep, name, where, w, r, s)
        else:
            a, b = truth(v, r.value), truth(v, s.value)
            ca, cb = c.gate(a), c.gate(b)
            rep.equal(name, where, boolt(ca), boolt(cb))
            bad = [y for g, t in r.value.alts for y in subterms(mk('x', t, tuple(B.support_atoms(a)))) if
                   y.op == 'mcall' and y.args[1] == 'startswith' and y.args[2] and listed(v, y.args[2][0])]
            rep.add('startswith gets a tuple (PythonPrefixMatcher.%s)' % meth, not bad, where,
                    'startswith accepts text or a tuple of texts')
        nr = [e for e in r.raises]
        rep.add('PythonPrefixMatcher.%s does not raise' % meth, None if nr else True, where, str(nr)[:200])

    # the compiled matcher: the library does the listing
    fast = v.lookup(D + 'DawgPrefixMatcher').single()
    k = v.classes[fast.args[0]] if fast is not None and fast.op == 'cls' else None
    if k is None:
        rep.add('the compiled matcher lists prefixes as the library does', None, 'pymorphy2/dawg.py', 'no class')
        return
    where = w.where(k, 'is_prefixed')
    leaf = matcher(w, D + 'DawgPrefixMatcher')
    own = v.find_method(k, 'prefixes')
    r = w.call(leaf, 'prefixes', WORD)
    t = r.value.single()
    lib = t is not None and t.op == 'mcall' and t.args[0] is leaf and t.args[1] == 'prefixes' and t.args[2] == (WORD,)
    rep.add('the compiled matcher lists prefixes as the library does', True if own is None and lib else None,
            w.where(k, 'prefixes'), 'overridden' if own is not None else '')
    r = w.call(leaf, 'is_prefixed', WORD)
    g = truth(v, r.value)
    want = truth_leaf(mcall(leaf, 'prefixes', (WORD,)))
    c = w.canon()
    rep.equal('DawgPrefixMatcher.is_prefixed says whether any listed prefix matches', where, boolt(c.gate(g)), boolt(c.gate(want)))


def any_prefix(v, a):
    """Is the condition 'the word starts with some of the prefixes'?"""
    if a.op == 'truthy' and a.args[0].op == 'mcall':
        t = a.args[0]
        return t.args[1] == 'startswith' and t.args[0] is WORD and len(t.args[2]) == 1 and t.args[2][0].op != 'elem' and \
            contents(v, t.args[2][0]) is sym('prefixes')
    if a.op == 'exists' and len(a.args[0]) == 1:
        b = a.args[0][0]
        return contents(v, b.args[1]) is sym('prefixes') and a.args[1].g == truth_leaf(mcall(WORD, 'startswith', (elem(b),)))
    return False


def contents(v, t):
    """What a collection was made of, copies looked through."""
    for _ in range(6):
        if t.op in ('obj', 'objref', 'cur', 'inst'):
            o = v.objs.get(t.args[0])
            s = v.snapshot(o) if o is not None and o.kind == 'list' and not o.touched else None
            if s is None:
                return t
            t = s
        if t.op == 'seq' and len(t.args[1]) == 1:
            e = t.args[1][0]
            if len(e.binders) == 1 and e.gate == TRUE and e.value is elem(e.binders[0]):
                t = e.binders[0].args[1]
                continue
            return t
        if t.op in ('tupleof', 'listof', 'copy', 'setof', 'frozensetof'):
            t = t.args[0]
            continue
        return t
    return t


def listed(v, t):
    """A list or set object."""
    if t.op in ('seq',):
        return t.args[0] in ('list', 'set', 'frozenset')
    if t.op in ('listof', 'setof', 'frozensetof'):
        return True
    if t.op in ('obj', 'objref', 'cur'):
        o = v.objs.get(t.args[0])
        return o is not None and o.kind in ('list', 'set', 'dict', 'frozenset')
    return False


def truth(v, x):
    out = FALSE
    for g, t in x.alts:
        out = B.or_(out, B.and_(g, truth_leaf(t)))
    return out


def listing(rep, name, where, w, r, s):
    """The items of the returned list; the fail-fast path adds nothing."""
    v = w.v
    kinds = set()
    for g, t in r.value.alts:
        t = v.snap_if_fresh(t)
        if t.op == 'seq':
            kinds.add(t.args[0])
        elif t.op == 'listof':
            kinds.add('list')
        elif t.op in ('tuple', 'tupleof'):
            kinds.add('tuple')
        else:
            kinds.add(t.op)
    rep.add(name + ' (as a list in every case)', True if kinds == set(['list']) else False if kinds & set(
        ['tuple', 'set', 'frozenset', 'const', 'gen']) else None, where, 'returns %s' % ', '.join(sorted(map(str, kinds))))
    a, b = v.as_seq(r.value), v.as_seq(s.value)
    c = w.canon(ordered=False)
    # a word that starts with one of the prefixes passes the test of all of them
    def summary(atom):
        if any_prefix(v, atom):
            return TRUE
        return None
    c.assume.append(summary)
    if a is None or a.op != 'seq' or a.args[0] != 'list':
        rep.add(name, None, where, 'not a list of items')
        return
    ia, ib = items(c, a), items(c, b)
    ia = [e for e in ia or () if e.gate != FALSE]
    ok = len(ia) == len(ib) and all(x.value is y.value and x.gate == y.gate and strip_stops(x.binders) == strip_stops(
        y.binders) and len(x.binders) == len(y.binders) for x, y in zip(ia, ib))
    if ok:
        rep.add(name, True, where)
        return
    if ia and len(ia) == len(ib):
        x, y = ia[0], ib[0]
        rep.equal(name, where, mk('x', x.value, Gate(x.gate), tuple(strip_stops(x.binders))),
                  mk('x', y.value, Gate(y.gate), tuple(strip_stops(y.binders))))
    else:
        rep.add(name, None, where, pretty(c.term(a), 300))


def check_A27_selection(rep):
    w = World()
    rep.world = w
    v = w.v
    x = v.lookup(D + 'PrefixMatcher')
    missing = A('noimport', 'dawg')
    st, text = True, ''
    for g, t in x.alts:
        n = t.args[0] if t.op == 'cls' else None
        if n == D + 'DawgPrefixMatcher':
            if not B.implies(g, B.not_(missing)):
                st, text = False, 'the compiled matcher is chosen without the compiled library (its constructor needs it)'
        elif n == D + 'PythonPrefixMatcher':
            if not B.implies(g, missing) and st:
                st = True      # slower but correct in every environment
        elif st:
            st, text = None, 'another matcher: %s' % show(t)[:100]
    rep.add('a matcher is chosen that works with the installed library', st, 'pymorphy2/dawg.py PrefixMatcher', text)

    # the same base classes whichever library is there
    for n in ('WordsDawg', 'PredictionSuffixesDAWG', 'ConditionalProbDistDAWG'):
        k = v.cls(D + n)
        bad = [m for m in sorted(COMMON | set(['__contains__', '__getitem__'])) if m not in ('prob', 'is_prefixed') and
               v.find_method(k, m) is not None]
        rep.add('%s reads through the library' % n, None if bad else True, D + n, 'overrides %s' % ', '.join(bad))


class anyorder(object):
    """Analyses the package with the matcher replaced by one that lists prefixes in any order."""

    def __enter__(self):
        World.KEEP_SETS = True
        World.PATCH = {D[:-1]: ANY_ORDER}

    def __exit__(self, *a):
        World.KEEP_SETS = False
        World.PATCH = {}


def matched(v, t):
    """Is it a listing of matching prefixes?"""
    t = strip_copy(t)
    while t.op in ('listof', 'tupleof', 'reversed', 'setof'):
        t = t.args[0]
    return t.op == 'seq' and any(y.op == 'mcall' and y.args[1] == 'startswith' for e in t.args[1]
                                 for a in B.support_atoms(e.gate) for y in subterms(a))


LEN = mk('len', KEYVAR)


class PrefixWalk(Walk):
    """Orders of prefixes of one word: the length or the text decides completely."""

    def settled(self, b):
        st = False
        for k in b.args[2] or ():
            if k.op == 'sortkey':
                key = k.args[0]
                if key is NONE or key is KEYVAR or KEYVAR in subterms_of(key) and total_on_prefixes(key):
                    return True
                if not any(t is KEYVAR for t in subterms(key)):
                    continue
                st = None
            elif k.op != 'rev':
                st = None
        return st

    def flag(self, st, text):
        self.bad.append((st, text))

    def binder(self, b, what):
        if not self.settled_listing(b):
            Walk.binder(self, b, what)

    def one_binder(self, b, st, text):
        if not self.settled_listing(b):
            Walk.one_binder(self, b, st, text)

    def settled_listing(self, b):
        return bool(b.args[2]) and self.settled(b) is True


def subterms_of(t):
    return set(subterms(t))


def total_on_prefixes(key):
    """Different prefixes of one word have different keys."""
    if key is LEN or key is KEYVAR:
        return True
    if key.op == 'tuple':
        return any(total_on_prefixes(x) for x in key.args)
    if key.op in ('neg', 'usub'):
        return total_on_prefixes(key.args[0])
    if key.op == 'bin' and key.args[0] in ('-', '+', '*'):
        a, b = key.args[1:]
        return (total_on_prefixes(a) and b.op == 'const') or (total_on_prefixes(b) and a.op == 'const' and (
            key.args[0] != '*' or a.args[0] != 0))
    return False


def check_A27_order(rep):
    bad = []
    n = k = 0
    with anyorder():
        for src in (runs(()), real_units()):
            for run in src:
                if not run.label.endswith(('.parse', '.tag', '(ru)', '(uk)')):
                    continue
                n += 1
                wk = PrefixWalk(run, rep)
                wk.gv(run.r.value)
                k += wk.n
                for st, text in wk.bad:
                    if 'startswith' in text:
                        bad.append((st, run.r.where, '%s: %s' % (run.label, text)))
                for t in atoms_of(run.r.value):
                    if t.op == 'noimport' and 'dawg' in repr(t.args):
                        bad.append((None, run.r.where, '%s: the result depends on the library that is installed' % run.label))
                        break
    name = 'results do not depend on the order in which a library lists prefixes'
    for st, where, text in sorted(set(bad), key=lambda x: (x[0] is not False, str(x))):
        rep.add(name, st, where, text)
    if not bad:
        rep.add(name, True, '%d calls, %d parts of their results' % (n, k))


def atoms_of(x):
    todo = [x]
    seen = set()
    for g, t in x.alts:
        for a in B.support_atoms(g):
            yield a
        for s in subterms(t):
            for a in s.args if isinstance(s, T) else ():
                if isinstance(a, tuple):
                    for e in a:
                        if isinstance(e, Emission):
                            for y in B.support_atoms(e.gate):
                                if y not in seen:
                                    seen.add(y)
                                    yield y
                        elif isinstance(e, Gate):
                            for y in B.support_atoms(e.g):
                                yield y


ROOTS = ('words', 'prediction_suffixes_dawgs', 'p_t_given_w', 'get_prefixes', '_has_skip_prefix')


def dawg_object(t):
    """Is the value a DAWG object (of a loaded dictionary or of a loaded probability table)?"""
    if t.op == 'attr' and t.args[1] in ('words', 'p_t_given_w'):
        return True
    if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'prediction_suffixes_dawgs':
        return True
    if t.op == 'elem' and t.args[0].args[1].op == 'attr' and t.args[0].args[1].args[1] == 'prediction_suffixes_dawgs':
        return True
    return False


def check_A27_api(rep):
    """Only what both libraries offer is used on loaded dictionaries."""
    bad = []
    used = {}
    for run in runs(()):
        for e in run.r.calls:
            f = e.payload[0]
            ts = [f] if isinstance(f, T) else []
            for t in ts:
                if t.op == 'attr' and dawg_object(t.args[0]):
                    used.setdefault(t.args[1], run.r.where)
        for t in subterms(run.r.value):
            if t.op == 'mcall' and dawg_object(t.args[0]):
                used.setdefault(t.args[1], run.r.where)
    name = 'dictionaries are read with operations both libraries offer'
    for m in sorted(used):
        if m in ONLY_COMPILED | ONLY_PYTHON:
            rep.add(name, False, used[m], 'only one of the libraries has %s()' % m)
        elif m not in COMMON and not m.startswith('__'):
            rep.add(name, None, used[m], 'unknown operation %s()' % m)
    rep.add(name, True if used else None, ', '.join('%s()' % m for m in sorted(used)))
