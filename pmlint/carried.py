"""State carried between the items of a loop: an item may depend on earlier items only through a complete key."""
from .ops import *
from .terms import *


STATE = ('carried', 'ccarried', 'curof', 'dupmark')


def parts(k):
    """Components of a key."""
    return [p for x in k.args for p in parts(x)] if k.op == 'tuple' else [k]


def paths(t, known=()):
    """Projections of the loop's element a term depends on (as tuples of indices), other than through known terms."""
    out = set()

    def go(x):
        if x in known:
            return
        p = path(x)
        if p is not None:
            out.add(p)
            return
        for a in x.args:
            each(a)

    def each(a):
        if isinstance(a, T):
            go(a)
        elif isinstance(a, tuple):
            for e in a:
                each(e)
        elif isinstance(a, Gate):
            for s in B.support_atoms(a.g):
                go(s)
        elif isinstance(a, Emission):
            go(a.value)
            for s in B.support_atoms(a.gate):
                go(s)
    each(t)
    return out


def path(x):
    p = []
    while x.op == 'idx' and x.args[1].op == 'const':
        p.append(x.args[1].args)
        x = x.args[0]
    return tuple(reversed(p)) if x.op == 'celem' else None


def covered(p, keys):
    return any(p[:len(k)] == k or k[:len(p)] == p for k in keys)


def has_carried(t):
    return any(x.op in STATE for x in subterms(t))


def lookups(gate):
    """(key, state) of the questions a condition asks about carried state."""
    out = []
    for a in B.support_atoms(gate):
        if a.op == 'dup':
            out.append(a.args[0])
        elif a.op == 'in' and has_carried(a.args[1]) and not has_carried(a.args[0]):
            out.append(a.args[0])
        elif a.op == 'cmp' and a.args[0] in ('==', 'is'):
            x, y = a.args[1:3]
            if has_carried(y) and not has_carried(x):
                out.append(x)
            elif has_carried(x) and not has_carried(y):
                out.append(y)
    return out


def flat(s):
    if isinstance(s, GV):
        s = s.single()
    if s is None or s.op != 'seq' or s.args[2] or not s.args[1]:
        return None
    b = s.args[1][0].binders
    if len(b) != 1 or any(e.binders != b or e.kind != 'item' for e in s.args[1]):
        return None
    return s.args[1]


def conflict(a, b):
    """Why the items of a, which use carried state, cannot be the items of b, which do not; None if it is not known."""
    xs, ys = flat(a), flat(b)
    if xs is None or ys is None or xs[0].binders != ys[0].binders:
        return None
    if any(has_carried(y.value) or any(has_carried(s) for s in B.support_atoms(y.gate)) for y in ys):
        return None
    total = FALSE
    for x in xs:
        total = B.or_(total, x.gate)
    want = FALSE
    for y in ys:
        want = B.or_(want, y.gate)
    # items left out
    for k in lookups(total):
        need = set()
        for y in ys:
            need |= paths(y.value, parts(k))
            for s in B.support_atoms(y.gate):
                need |= paths(s, parts(k))
        if missing(k, need) and total != want:
            return 'items are left out when %s was met before' % show(k)[:200]
    # values of earlier items
    n = ys[0].value
    if n.op != 'tuple' or any(e.value.op != 'tuple' or len(e.value.args) != len(n.args) for e in tuple(xs) + tuple(ys)):
        return None
    for i in range(len(n.args)):
        for x in xs:
            ks = lookups(x.gate)
            if not has_carried(x.value.args[i]) or len(ks) != 1:
                continue
            known = parts(ks[0])
            need = set()
            differ = len(set(z.value.args[i] for z in ys)) > 1
            for y in ys:
                need |= paths(y.value.args[i], known)
                if differ:
                    for s in B.support_atoms(y.gate):
                        need |= paths(s, known)
            if missing(ks[0], need):
                return 'a value of an earlier item is used when %s was met before' % show(ks[0])[:200]
    return None


def missing(key, need):
    """The key depends on the item, but does not tell everything that is needed."""
    have = [path(x) for x in parts(key)]
    have = set(p for p in have if p is not None)
    return bool(paths(key)) and any(not covered(p, have) for p in need)
