"""Normalising constructors for value terms."""
import re
import string

from .terms import (gate_elems, T, mk, const, is_const, NONE, TRUE_T, FALSE_T, top, B, TRUE, FALSE, A,
                    GV, gv, gv_join, gv_ite, lift, Gate, Emission, elem, new_binder,
                    BINDER_STOP, show, subterms, elems_in)

NUM = (int, float)


def boolt(g):
    if g == TRUE:
        return TRUE_T
    if g == FALSE:
        return FALSE_T
    return mk('bool', Gate(g))


def cval(t):
    return t.args[0]


def isnum(t):
    return t.op == 'const' and isinstance(t.args[0], NUM) and not isinstance(t.args[0], bool)


def isstr(t):
    return t.op == 'const' and isinstance(t.args[0], str)


def strish(t):
    """Term known to be a text string."""
    if t.op == 'const':
        return isinstance(t.args[0], str)
    if t.op in ('str', 'before', 'after', 'rbefore', 'rafter', 'fmt', 'join', 'repr'):
        return True
    if t.op == 'add':
        return any(strish(x) for x in t.args)
    if t.op == 'mcall' and t.args[1] in ('lower', 'upper', 'strip', 'title', 'replace', 'rstrip', 'lstrip', 'join'):
        return True
    return False


def intish(t):
    if t.op == 'const':
        return isinstance(t.args[0], int) and not isinstance(t.args[0], bool)
    if t.op in ('len', 'index', 'indexof'):
        return True
    if t.op == 'mcall' and t.args[1] in ('count', 'find', 'rfind'):
        return True
    if t.op == 'neg':
        return intish(t.args[0])
    if t.op in ('add',):
        return all(intish(x) for x in t.args)
    if t.op == 'bin' and t.args[0] in ('//', '%', '*', '-'):
        return intish(t.args[1]) and intish(t.args[2])
    return False


# ---------------------------------------------------------------- sequences
def seq(kind, emissions, order=(), note=()):
    """kind: list | tuple | set | frozenset | gen"""
    return mk('seq', kind, tuple(emissions), tuple(order), tuple(note))


def seq_parts(t):
    return t.args


def plain_items(t):
    """Items of a sequence with unconditional, binder-free emissions."""
    if t.op == 'tuple':
        return list(t.args)
    if t.op == 'ntuple':
        return list(t.args[1])
    if t.op == 'seq' and not t.args[3]:
        if t.args[2]:
            return None
        out = []
        for e in t.args[1]:
            if e.binders or e.gate != TRUE or e.kind != 'item':
                return None
            out.append(e.value)
        return out
    return None


def copy_of(t):
    if t.op in ('tuple', 'seq', 'const', 'copy'):
        return t
    return mk('copy', t)


def strip_copy(t):
    while t.op == 'copy':
        t = t.args[0]
    return t


def single_map(t):
    """seq with exactly one unconditional single-binder emission -> (binder, value)."""
    if t.op == 'seq' and not t.args[2] and not t.args[3] and len(t.args[1]) == 1:
        e = t.args[1][0]
        if len(e.binders) == 1 and e.gate == TRUE and e.kind == 'item' \
                and not BINDER_STOP.get(e.binders[0]) and e.binders[0].args[2] is None:
            return e.binders[0], e.value
    return None


def outer_split(t):
    """Sequence whose conditions do not depend on its own loop variables -> [(condition, unconditional sequence)]."""
    if t.op != 'seq' or t.args[3] or not t.args[1]:
        return None
    gates = []
    for e in t.args[1]:
        if e.kind != 'item':
            return None
        if e.gate not in gates:
            gates.append(e.gate)
        if e.gate > 1 and gate_elems(e.gate) & set(e.binders):
            return None
    if gates == [TRUE]:
        return [(TRUE, t)]
    out = []
    rest = TRUE
    for i, g in enumerate(gates):
        for h in gates[i + 1:]:
            if B.and_(g, h) != FALSE:
                return None
        out.append((g, seq(t.args[0], [Emission(e.binders, TRUE, e.value, e.kind, e.loc)
                                       for e in t.args[1] if e.gate == g], t.args[2])))
        rest = B.and_(rest, B.not_(g))
    if rest != FALSE:
        out.append((rest, seq(t.args[0], [], t.args[2])))
    return out


def first_item(t):
    """First item of a sequence term (a term), assuming it has one."""
    sm = single_map(t)
    if sm is not None:
        b, v = sm
        return subst_binder(v, b, idx(b.args[1], const(0)), const(0))
    if t.op == 'seq' and t.args[1] and not t.args[2] and not t.args[3]:
        e = t.args[1][0]
        if not e.binders and e.gate == TRUE and e.kind == 'item':
            return e.value
        if all(e.kind == 'item' for e in t.args[1]):
            return mk('firstof', tuple(Emission(e.binders, e.gate, e.value) for e in t.args[1]))
    return None


# ----------------------------------------------------------------- rewriting
def rewrite(t, fn, memo=None):
    """Rebuild t bottom-up; fn(term) may return a replacement (or None)."""
    if memo is None:
        memo = {}
    return _rw(t, fn, memo)


def _rw(t, fn, memo):
    if isinstance(t, GV):
        return gv_join((_rwg(g, fn, memo), _rw(x, fn, memo)) for g, x in t.alts)
    if isinstance(t, tuple):
        return tuple(_rw(x, fn, memo) for x in t)
    if isinstance(t, Gate):
        return Gate(_rwg(t.g, fn, memo))
    if isinstance(t, Emission):
        return Emission([_rw(b, fn, memo) for b in t.binders], _rwg(t.gate, fn, memo),
                        _rw(t.value, fn, memo), t.kind, t.loc)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = fn(t)
    if r is None:
        args = tuple(_rw(a, fn, memo) if isinstance(a, (T, GV, tuple, Gate, Emission)) else a for a in t.args)
        if args == t.args and all(x is y or not isinstance(x, T) for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t.op, args)
            if isinstance(r, GV):
                s = r.single()
                r = s if s is not None else top('phi in rewrite')
            if t.op == 'binder' and r is not t and t in BINDER_STOP and r not in BINDER_STOP:
                memo[t] = r
                BINDER_STOP[r] = [_rwg(g, fn, memo) for g in BINDER_STOP[t]]
    memo[t] = r
    return r


def _rwg(g, fn, memo):
    if g <= 1:
        return g

    def atom(a):
        r = fn(a)
        if r is not None:
            return r if isinstance(r, int) else truth_leaf(r)
        args = tuple(_rw(x, fn, memo) if isinstance(x, (T, GV, tuple, Gate, Emission)) else x for x in a.args)
        if args == a.args:
            return B.atom(a)
        return rebuild_atom(a.op, args)
    return B.map_atoms(g, atom)


def rebuild(op, args):
    if op == 'unzip':
        return unzip(*args)
    if op == 'idx':
        return idx(*args)
    if op == 'slice':
        return slice_(*args)
    if op == 'add':
        r = args[0]
        for x in args[1:]:
            r = add(r, x)
        return r
    if op == 'attr':
        return attr(*args)
    if op == 'len':
        return length(args[0])
    if op == 'bool':
        return boolt(args[0].g)
    if op == 'bin':
        return binop(*args)
    if op == 'mcall':
        return mcall(*args)
    if op == 'str':
        return to_str(args[0])
    return mk(op, *args)


def rebuild_atom(op, args):
    if op == 'cmp':
        return compare(args[0], args[1], args[2])
    if op == 'in':
        return member(args[0], args[1])
    if op == 'truthy':
        return truth_leaf(args[0])
    if op == 'exists':
        return exists(args[0], args[1].g)
    if op == 'isnone':
        return is_none(args[0])
    return B.atom(mk(op, *args))


def subst(t, mapping):
    return rewrite(t, lambda x: mapping.get(x))


def subst_gate(g, mapping):
    return _rwg(g, lambda x: mapping.get(x), {})


def subst_binder(t, b, elem_t, index_t=None):
    e, i = elem(b), mk('index', b)
    m = {e: elem_t}
    m[i] = index_t if index_t is not None else mk('noindex')
    return subst(t, m)


# ---------------------------------------------------------------- accessors
def attr(base, name):
    if base.op == 'ntuple':
        fields = base.args[2]
        if name in fields:
            return base.args[1][fields.index(name)]
    return mk('attr', base, name)


def unzip(rows):
    """Columns of a sequence of tuples."""
    while rows.op == 'copy':
        rows = rows.args[0]
    w = None
    if rows.op in ('tuple', 'seq'):
        vals = list(rows.args) if rows.op == 'tuple' else [e.value for e in rows.args[1]] if not rows.args[3] else []
        widths = set(len(x.args) if x.op == 'tuple' else None for x in vals)
        if len(widths) == 1:
            w = widths.pop()
    if w is not None:
        return mk('tuple', *[column(rows, const(i)) for i in range(w)])
    return mk('unzip', rows)


def column(rows, i):
    if rows.op == 'tuple':
        return mk('tuple', *[idx(x, i) for x in rows.args])
    if rows.op == 'seq' and not rows.args[3]:
        return seq('tuple', [Emission(e.binders, e.gate, idx(e.value, i), e.kind, e.loc) for e in rows.args[1]], rows.args[2])
    b = new_binder(rows)
    return seq('tuple', [Emission((b,), TRUE, idx(elem(b), i))])


def idx(base, i):
    if base.op == 'copy':
        base = base.args[0]
    if base.op == 'unzip' and isnum(i):
        return column(base.args[0], i)
    if base.op == 'tuple' and isnum(i):
        n = cval(i)
        if isinstance(n, int) and -len(base.args) <= n < len(base.args):
            return base.args[n]
        return mk('bottom', 'IndexError')
    if base.op == 'ntuple' and isnum(i):
        n = cval(i)
        if -len(base.args[1]) <= n < len(base.args[1]):
            return base.args[1][n]
    if isstr(base) and isnum(i):
        n = cval(i)
        s = cval(base)
        if -len(s) <= n < len(s):
            return const(s[n])
    if base.op == 'seq' and base.args[0] in ('list', 'tuple'):
        items = plain_items(base)
        if items is not None and isnum(i):
            n = cval(i)
            if -len(items) <= n < len(items):
                return items[n]
        if isnum(i) and cval(i) == 0 and not base.args[2] and not base.args[3] and base.args[1]:
            e = base.args[1][0]
            if not e.binders and e.gate == TRUE and e.kind == 'item':
                return e.value
        sm = single_map(base)
        if sm is not None:
            b, v = sm
            if i.op == 'index' and strip_copy(i.args[0].args[1]) is strip_copy(b.args[1]):
                return subst_binder(v, b, elem(i.args[0]), i)
            inner = idx(b.args[1], i)
            return subst_binder(v, b, inner, i)
        if isnum(i) and cval(i) == 0:
            r = first_item(base)
            if r is not None:
                return r
    if base.op == 'range' and isnum(i) and cval(i) >= 0 and len(base.args) <= 2:
        return i if len(base.args) == 1 else add(base.args[0], i)
    if base.op == 'dict' and i.op == 'const':
        r = dict_lookup(base, i)
        if r is not None:
            return r
    if base.op == 'mcall' and isnum(i):
        recv, name, pos, kw = base.args
        n = cval(i)
        if name in ('split', 'rsplit') and len(pos) == 2 and is_const(pos[1], 1) and not kw:
            if n in (0,):
                return before(recv, pos[0]) if name == 'split' else mk('rbefore', recv, pos[0])
            if n in (1, -1):
                return after(recv, pos[0]) if name == 'split' else mk('rafter', recv, pos[0])
        if name == 'partition' and len(pos) == 1:
            if n == 0:
                return before(recv, pos[0])
            if n == 2:
                return after(recv, pos[0])
            if n == 1:
                return pos[0]
        if name == 'split' and len(pos) == 1 and n == 0 and not kw:
            return before(recv, pos[0])
    if base.op == 'slice' and isnum(i) and base.args[3] is NONE:
        f, lo, hi = base.args[:3]
        n = cval(i)
        if lo is NONE and isnum(hi) and 0 <= n < cval(hi):
            return idx(f, i)
        if isnum(lo) and cval(lo) >= 0 and hi is NONE and n >= 0:
            return idx(f, const(cval(lo) + n))
        if isnum(lo) and cval(lo) < 0 and hi is NONE and 0 <= n < -cval(lo):
            return idx(f, const(cval(lo) + n))
    if base.op == 'add' and isnum(i):
        n = cval(i)
        if n >= 0 and base.args[0].op == 'tuple' and n < len(base.args[0].args):
            return base.args[0].args[n]
        if n < 0 and base.args[-1].op == 'tuple' and -n <= len(base.args[-1].args):
            return base.args[-1].args[n]
        if n >= 0 and len(base.args) == 2 and base.args[0].op == 'tuple' and base.args[1].op == 'slice':
            # (a, b) + x[2:]
            return idx(base.args[1], const(n - len(base.args[0].args)))
    if i.op == 'index' and strip_copy(i.args[0].args[1]) is strip_copy(base):
        return elem(i.args[0])
    return mk('idx', base, i)


def before(x, s):
    if isstr(x) and isstr(s):
        return const(cval(x).split(cval(s), 1)[0])
    return mk('before', x, s)


def after(x, s):
    return mk('after', x, s)


def length(t):
    if t.op == 'copy':
        return length(t.args[0])
    if isstr(t):
        return const(len(cval(t)))
    if t.op == 'tuple':
        return const(len(t.args))
    if t.op == 'ntuple':
        return const(len(t.args[1]))
    if t.op == 'seq':
        it = plain_items(t)
        if it is not None and t.args[0] in ('list', 'tuple'):
            return const(len(it))
        sm = single_map(t)
        if sm is not None and t.args[0] in ('list', 'tuple'):
            return length(sm[0].args[1])
    if t.op == 'add' and any(strish(x) for x in t.args):
        r = const(0)
        for x in t.args:
            r = add(r, length(x))
        return r
    return mk('len', t)


def neg(t):
    if isnum(t):
        return const(-cval(t))
    if t.op == 'neg':
        return t.args[0]
    return mk('neg', t)


def _fold_adjacent(parts):
    """Fold word[:i] + word[i:], before + sep + after."""
    changed = True
    parts = list(parts)
    while changed:
        changed = False
        for k in range(len(parts) - 1):
            a, b = parts[k], parts[k + 1]
            if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0] \
                    and a.args[2] is b.args[1] and a.args[2] is not NONE \
                    and a.args[3] is NONE and b.args[3] is NONE:
                parts[k:k + 2] = [slice_(a.args[0], a.args[1], b.args[2], NONE)
                                  if not (a.args[1] is NONE and b.args[2] is NONE) else a.args[0]]
                changed = True
                break
            if k + 2 < len(parts):
                c = parts[k + 2]
                if a.op in ('before', 'rbefore') and c.op == a.op.replace('before', 'after') \
                        and a.args[0] is c.args[0] and a.args[1] is b and c.args[1] is b:
                    parts[k:k + 3] = [a.args[0]]
                    changed = True
                    break
    return parts


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            return const(cval(a) + cval(b))
        except TypeError:
            return mk('bottom', 'TypeError')
    # records: form[:4] + (x,)
    if b.op == 'tuple' and a.op == 'slice' and a.args[1] is NONE and a.args[3] is NONE and isnum(a.args[2]) \
            and 0 < cval(a.args[2]) <= 8:
        a = mk('tuple', *[idx(a.args[0], const(k)) for k in range(cval(a.args[2]))])
    if a.op == 'tuple' and b.op == 'tuple':
        return mk('tuple', *(a.args + b.args))
    if a.op == 'seq' and b.op == 'seq' and a.args[0] == b.args[0]:
        if not a.args[2] and not b.args[2] and not a.args[3] and not b.args[3]:
            return seq(a.args[0], a.args[1] + b.args[1])
        return top('concatenation of ordered sequences')
    if a.op == 'seq' or b.op == 'seq':
        return mk('add', a, b)
    parts = []
    for x in (a, b):
        if x.op == 'add':
            parts.extend(x.args)
        else:
            parts.append(x)
    if any(isnum(x) or intish(x) for x in parts) and not any(strish(x) for x in parts):
        # integer sum: canonical order, constants folded
        c = 0
        rest = []
        for x in parts:
            if isnum(x):
                c += cval(x)
            else:
                rest.append(x)
        for x in list(rest):
            n = neg(x)
            if x in rest and n in rest:
                rest.remove(x)
                rest.remove(n)
        rest.sort(key=show)
        if c != 0 or not rest:
            rest.append(const(c))
        return rest[0] if len(rest) == 1 else mk('add', *rest)
    # concatenation
    out = []
    for x in parts:
        if isstr(x) and cval(x) == '':
            continue
        if out and isstr(x) and isstr(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(x))
        elif out and x.op == 'tuple' and out[-1].op == 'tuple':
            out[-1] = mk('tuple', *(out[-1].args + x.args))
        elif x.op == 'tuple' and not x.args:
            continue
        else:
            out.append(x)
    if not out:
        return parts[0]
    out = _fold_adjacent(out)
    return out[0] if len(out) == 1 else mk('add', *out)


def concat(parts):
    r = const('')
    for p in parts:
        r = add(r, p)
    return r


def slice_(base, lo, hi, step=NONE):
    if base.op == 'copy':
        base = base.args[0]
    if lo.op == 'const' and lo is not NONE and cval(lo) == 0 and isinstance(cval(lo), int):
        lo = NONE
    if step is not NONE:
        if base.op == 'tuple' and is_const(step, -1) and lo is NONE and hi is NONE:
            return mk('tuple', *reversed(base.args))
        return mk('slice', base, lo, hi, step)
    if lo is NONE and hi is NONE:
        return copy_of(base)
    if all(x is NONE or isnum(x) for x in (lo, hi)):
        l = None if lo is NONE else cval(lo)
        h = None if hi is NONE else cval(hi)
        if base.op == 'tuple':
            return mk('tuple', *base.args[l:h])
        if isstr(base):
            return const(cval(base)[l:h])
        if base.op == 'seq' and base.args[0] in ('list', 'tuple'):
            its = plain_items(base)
            if its is not None:
                return seq(base.args[0], [Emission((), TRUE, x) for x in its[l:h]])
        if base.op == 'add' and base.args[0].op == 'tuple' and l is None and h is not None \
                and 0 <= h <= len(base.args[0].args):
            return mk('tuple', *base.args[0].args[:h])
        if base.op == 'add' and base.args[-1].op == 'tuple' and l is None and h is not None and h < 0:
            n = len(base.args[-1].args)
            if -h <= n:
                head = base.args[:-1] + ((mk('tuple', *base.args[-1].args[:n + h]),) if n + h else ())
                r = head[0]
                for x in head[1:]:
                    r = add(r, x)
                return r
        if base.op == 'add' and base.args[0].op == 'tuple' and h is None and l is not None \
                and 0 < l <= len(base.args[0].args):
            n = len(base.args[0].args)
            tail = ((mk('tuple', *base.args[0].args[l:]),) if l < n else ()) + base.args[1:]
            r = tail[0]
            for x in tail[1:]:
                r = add(r, x)
            return r
    if base.op == 'add' and hi is NONE and lo is not NONE:
        parts = base.args
        acc = const(0)
        for k in range(1, len(parts)):
            acc = add(acc, length(parts[k - 1]))
            if acc is lo:
                return concat(parts[k:])
    if base.op == 'add' and lo is NONE and hi is not NONE:
        parts = base.args
        acc = const(0)
        for k in range(len(parts) - 1, 0, -1):
            acc = add(acc, length(parts[k]))
            if neg_len(acc) is hi or add(length(base), neg_len(acc)) is hi:
                return concat(parts[:k])
        acc = const(0)
        for k in range(1, len(parts)):
            acc = add(acc, length(parts[k - 1]))
            if acc is hi:
                return concat(parts[:k])
    if lo is NONE and hi.op == 'indexof' and hi.args[0] is base:
        return before(base, hi.args[1])
    if hi is NONE and lo.op == 'add' and len(lo.args) == 2:
        io = [x for x in lo.args if x.op == 'indexof']
        other = [x for x in lo.args if x.op != 'indexof']
        if len(io) == 1 and io[0].args[0] is base and length(io[0].args[1]) is other[0]:
            return after(base, io[0].args[1])
    # x[a:][:-b]  ->  x[a:-b]
    if base.op == 'slice' and base.args[2] is NONE and base.args[3] is NONE and lo is NONE and is_negative(hi):
        return mk('slice', base.args[0], base.args[1], hi, NONE)
    # x[:-b][a:]  ->  x[a:-b]
    if base.op == 'slice' and base.args[1] is NONE and base.args[3] is NONE and hi is NONE and is_negative(base.args[2]) \
            and not is_negative(lo):
        return mk('slice', base.args[0], lo, base.args[2], NONE)
    return mk('slice', base, lo, hi, step)


def never_empty(t):
    """Affixes that analyzers remove: particles of the language table (never empty: A03, A30) and the affix recorded
    as the last step of a parse.  Suffixes of a dictionary may be empty."""
    if t.op == 'elem':
        table = t.args[0].args[1]
        return 'particle' in (table.args[1] if table.op == 'attr' else table.args[0] if table.op == 'sym' else '')
    return t.op == 'idx' and is_const(t.args[1], 1) and t.args[0].op == 'idx' and is_const(t.args[0].args[1], -1)


def neg_len(t):
    """-(sum)"""
    if t.op == 'add':
        r = const(0)
        for x in t.args:
            r = add(r, neg(x))
        return r
    return neg(t)


def is_negative(t):
    return t.op == 'neg' or (isnum(t) and cval(t) < 0) or \
        (t.op == 'add' and all(is_negative(x) for x in t.args))


def to_str(t):
    if t.op == 'const':
        if isinstance(cval(t), (str, int)) and not isinstance(cval(t), bool):
            return const(str(cval(t)))
    if t.op in ('str', 'fmt', 'join'):
        return t
    return mk('str', t)


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if a.op == 'const' and b.op == 'const' and isnum(a) and isnum(b):
        x, y = cval(a), cval(b)
        try:
            if op == '-':
                return const(x - y)
            if op == '*':
                return const(x * y)
            if op == '//':
                return const(x // y)
            if op == '%':
                return const(x % y)
            if op == '/':
                return const(x / y)
            if op == '**' and abs(y) < 64:
                return const(x ** y)
        except ZeroDivisionError:
            return mk('bottom', 'ZeroDivisionError')
    if op == '-' and (intish(a) or isnum(a)) and (intish(b) or isnum(b)):
        return add(a, neg_len(b))
    if op == '*':
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if a.op == 'tuple' and isnum(b) and 0 <= cval(b) < 50:
            return mk('tuple', *(a.args * cval(b)))
        if a.op == 'seq' and not isnum(b):
            return mk('bin', op, a, b)
        if isnum(b) and cval(b) == 1:
            return a
        if not a.op == 'seq' and not (a.op == 'const' and isinstance(cval(a), str)):
            if show(a) > show(b) and b.op != 'const':
                a, b = b, a
    if op == '/' and isnum(b) and cval(b) == 1:
        return a
    if op in ('&', '|', '^') and show(a) > show(b):
        a, b = b, a
    return mk('bin', op, a, b)


def dict_lookup(d, k):
    """d: ('dict', entries); each entry an Emission with value tuple(k,v)."""
    hit = None
    for e in d.args[0]:
        if e.kind != 'item' or e.binders or e.gate != TRUE:
            return None
        kk, vv = e.value.args
        if kk.op != 'const':
            return None
        if kk is k:
            hit = vv
    return hit


# ---------------------------------------------------------------- predicates
def truth_leaf(t):
    """Gate under which t is truthy."""
    o = t.op
    if o == 'const':
        return TRUE if t.args[0] else FALSE
    if o == 'bool':
        return t.args[0].g
    if o == 'tuple':
        return TRUE if t.args else FALSE
    if o in ('ntuple', 'func', 'cls', 'inst', 'bound', 'ext', 'itemgetter', 'mod'):
        return TRUE
    if o == 'copy':
        return truth_leaf(t.args[0])
    if o == 'len':
        return truth_leaf(t.args[0])
    if o == 'seq':
        r = FALSE
        if t.args[3]:
            return A('truthy', t)
        for e in t.args[1]:
            if e.kind != 'item':
                return A('truthy', t)
            r = B.or_(r, exists(e.binders, e.gate))
        return r
    if o == 'dict':
        r = FALSE
        for e in t.args[0]:
            if e.kind != 'item':
                return A('truthy', t)
            r = B.or_(r, exists(e.binders, e.gate))
        return r
    if o == 'sorted' or o == 'setof':
        return truth_leaf(t.args[0])
    if o == 'add':
        if any(x.op == 'const' and isinstance(x.args[0], str) and x.args[0] for x in t.args):
            return TRUE
        if any(x.op == 'tuple' and x.args for x in t.args):
            return TRUE
    if o in ('sum', 'neg') or o == 'bin' and t.args[0] == '/':
        return B.not_(compare('==', t, const(0)))
    return A('truthy', t)


def truth(v):
    if isinstance(v, T):
        return truth_leaf(v)
    r = FALSE
    for g, t in v.alts:
        r = B.or_(r, B.and_(g, truth_leaf(t)))
    return r


def exists(binders, gate):
    """Gate: some assignment of the binders satisfies gate."""
    binders = list(binders)
    if gate == FALSE:
        return FALSE
    while binders:
        b = binders[-1]
        ops = set()
        from .terms import gate_elems
        used = gate_elems(gate)
        if b in used or BINDER_STOP.get(b):
            break
        # binder unused by the gate: non-emptiness of its iterable
        binders.pop()
        gate = B.and_(gate, truth_leaf(b.args[1]))
    if not binders:
        return gate
    # split off conjuncts independent of the innermost binders
    from .terms import gate_elems
    bs = set(binders)
    dep = FALSE
    sup = B.support(gate)
    indep = [v for v in sup if not (elems_in(B.atoms[v]) & bs)]
    # gate == AND of (independent part) & rest ?
    free = gate
    for v in sup:
        if v not in indep:
            free = B.exists_var(free, v)
    rest = B.constrain(gate, free)
    if free != TRUE and not (set(indep) & B.support(rest)):
        return B.and_(free, exists(binders, rest))
    return A('exists', tuple(binders), Gate(gate))


SETLIKE = re.compile('gramm|GRAMM|gr_|required|unknown', re.I)


def setlike(t):
    if t.op == 'seq' and t.args[0] in ('set', 'frozenset'):
        return True
    if t.op == 'setof':
        return True
    if t.op == 'attr' and SETLIKE.search(t.args[1]):
        return True
    if t.op == 'sym' and SETLIKE.search(t.args[0]):
        return True
    if t.op == 'bin' and t.args[0] in ('&', '|', '^'):
        return True
    if t.op in ('objref', 'cur'):
        return True
    if t.op == 'call' and show(t.args[0]) in ('set', 'frozenset'):
        return True
    return False


def _cmp_key(t):
    return (t.op == 'const', show(t))


def is_none(t):
    if t is NONE:
        return TRUE
    if t.op in ('const', 'tuple', 'seq', 'dict', 'add', 'bool', 'inst', 'func', 'cls', 'bound', 'str', 'fmt',
                'ntuple', 'len', 'slice', 'mod', 'ext', 'sentinel', 'before', 'after', 'copy', 'objref', 'cur', 'setof', 'obj', 'newtype'):
        return FALSE
    if t.op == 'call' and isinstance(t.args[0], T) and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.type':
        return FALSE        # a new class
    if t.op == 'firstof' and all(is_none(e.value) == FALSE for e in t.args[0]):
        return FALSE
    return A('isnone', t)


def compare(op, a, b):
    """-> gate"""
    if op == '!=':
        return B.not_(compare('==', a, b))
    if op == '>':
        return compare('<', b, a)
    if op == '>=':
        return compare('<=', b, a)
    if op == 'is not':
        return B.not_(compare('is', a, b))
    if op == 'is':
        if a is NONE:
            return is_none(b)
        if b is NONE:
            return is_none(a)
        if a is b and a.op not in ('top',):
            return TRUE
        static = ('const', 'inst', 'cls', 'func', 'obj', 'objref', 'mod', 'sentinel', 'tuple')
        if a.op in static and b.op in static and not (a.op == 'const' and b.op == 'const' and cval(a) == cval(b)):
            return FALSE
        if set((a.op, b.op)) in (set(['ext', 'func']), set(['ext', 'cls'])):
            return FALSE
        if show(a) > show(b):
            a, b = b, a
        return A('cmp', 'is', a, b)
    if op == '==':
        if a is NONE:
            return is_none(b)
        if b is NONE:
            return is_none(a)
        if a is b and a.op != 'top':
            return TRUE
        if a.op == 'const' and b.op == 'const':
            return TRUE if cval(a) == cval(b) else FALSE
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return B.and_(*[compare('==', x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'bool' and b.op == 'const' or b.op == 'bool' and a.op == 'const':
            bb, cc = (a, b) if a.op == 'bool' else (b, a)
            if cval(cc) is True or cval(cc) == 1:
                return bb.args[0].g
            if cval(cc) is False or cval(cc) == 0:
                return B.not_(bb.args[0].g)
        x, y = (a, b) if _cmp_key(a) <= _cmp_key(b) else (b, a)
        if isstr(y) and cval(y) == '':
            return B.not_(truth_leaf(x))
        if x.op == 'len' and isnum(y) and cval(y) == 0:
            return B.not_(truth_leaf(x))
        if x.op == 'mcall' and x.args[1] in ('find',) and isnum(y) and cval(y) == -1 and len(x.args[2]) == 1:
            return B.not_(member(x.args[2][0], x.args[0]))
        # prefix / suffix tests written as slices
        for s, o in ((x, y), (y, x)):
            if s.op == 'slice' and s.args[3] is NONE:
                if s.args[1] is NONE and s.args[2] is length(o):
                    return startswith(s.args[0], o)
                if s.args[2] is NONE and s.args[1] is neg_len(length(o)) and s.args[1] is not const(0):
                    return A('truthy', mcall_raw(s.args[0], 'endswith', (o,)))
        return A('cmp', '==', x, y)
    if op in ('<', '<='):
        if a.op == 'const' and b.op == 'const' and isnum(a) and isnum(b):
            r = cval(a) < cval(b) if op == '<' else cval(a) <= cval(b)
            return TRUE if r else FALSE
        if a is b:
            return FALSE if op == '<' else TRUE
        if setlike(a) or setlike(b):
            return A('cmp', op, a, b)
        # integers with a constant:  t < c
        if intish(a) and isnum(b) and isinstance(cval(b), int):
            c = cval(b) if op == '<' else cval(b) + 1
            a, c = _shift(a, c)
            if a.op == 'len' and c <= 0:
                return FALSE
            if a.op == 'len' and c == 1:
                return B.not_(truth_leaf(a))
            if a.op == 'mcall' and a.args[1] == 'find' and c == 0 and len(a.args[2]) == 1:
                return B.not_(member(a.args[2][0], a.args[0]))
            return A('cmp', '<', a, const(c))
        if intish(b) and isnum(a) and isinstance(cval(a), int):
            # c < t   <=>  not (t < c+1);   c <= t <=> not (t < c)
            c = cval(a) + 1 if op == '<' else cval(a)
            return B.not_(compare('<', b, const(c)))
        if op == '<=':
            return B.not_(compare('<', b, a))
        return A('cmp', '<', a, b)
    raise ValueError(op)


def _shift(t, c):
    if t.op == 'add':
        k = [x for x in t.args if isnum(x)]
        if k:
            rest = [x for x in t.args if not isnum(x)]
            c -= sum(cval(x) for x in k)
            t = rest[0] if len(rest) == 1 else mk('add', *rest)
    return t, c


def startswith(x, p):
    if isstr(x) and isstr(p):
        return TRUE if cval(x).startswith(cval(p)) else FALSE
    return A('truthy', mcall_raw(x, 'startswith', (p,)))


def mcall_raw(recv, name, pos, kw=()):
    return mk('mcall', recv, name, tuple(pos), tuple(kw))


def mcall(recv, name, pos, kw=()):
    """Method call on an opaque receiver (pure view)."""
    if name == 'index' and len(pos) == 1 and not kw:
        return mk('indexof', recv, pos[0])
    if name == 'issubset' and len(pos) == 1:
        return boolt(compare('<=', recv, pos[0]))
    if name == 'issuperset' and len(pos) == 1:
        return boolt(compare('<=', pos[0], recv))
    if name == 'isdisjoint' and len(pos) == 1:
        return boolt(B.not_(truth_leaf(binop('&', recv, pos[0]))))
    if name == '__contains__' and len(pos) == 1:
        return boolt(member(pos[0], recv))
    if name in ('intersection', 'union', 'difference', 'symmetric_difference') and len(pos) == 1:
        return binop({'intersection': '&', 'union': '|', 'difference': '-',
                      'symmetric_difference': '^'}[name], recv, pos[0])
    if name == 'copy' and not pos and not kw:
        return copy_of(recv)
    if name == '__len__' and not pos:
        return length(recv)
    if isstr(recv) and all(x.op == 'const' for x in pos) and not kw and name in (
            'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'replace', 'startswith', 'endswith', 'isspace',
            'isalpha', 'islower', 'isupper', 'istitle', 'count', 'find', 'isdigit'):
        try:
            r = getattr(cval(recv), name)(*[cval(x) for x in pos])
            return const(r)
        except Exception:
            return mk('bottom', 'error')
    if isstr(recv) and name in ('split', 'splitlines') and all(x.op == 'const' for x in pos) and not kw:
        try:
            r = getattr(cval(recv), name)(*[cval(x) for x in pos])
        except Exception:
            return mk('bottom', 'error')
        return seq('list', [Emission((), TRUE, const(x)) for x in r])
    if name in ('startswith', 'endswith') and len(pos) == 1 and pos[0].op == 'tuple' and not kw:
        g = FALSE
        for p in pos[0].args:
            g = B.or_(g, truth_leaf(mcall(recv, name, (p,))))
        return boolt(g)
    if name in ('startswith', 'endswith') and len(pos) == 1 and isstr(pos[0]) and cval(pos[0]) == '':
        return TRUE_T
    if name == 'startswith' and len(pos) == 1 and recv.op == 'add' and recv.args[0] is pos[0]:
        return TRUE_T
    if name == 'endswith' and len(pos) == 1 and recv.op == 'add' and recv.args[-1] is pos[0]:
        return TRUE_T
    if name == 'lower' and not pos and recv.op == 'mcall' and recv.args[1] == 'lower':
        return recv
    if name == 'get' and len(pos) == 1 and not kw:
        pos = (pos[0], NONE)
    if name in ('startswith',) and len(pos) == 1:
        return boolt(startswith(recv, pos[0]))
    if name in ('endswith', 'isspace', 'isalpha', 'islower', 'isupper', 'istitle', 'is_productive', '_is_unknown',
                'isdigit'):
        return boolt(A('truthy', mcall_raw(recv, name, pos, kw)))
    return mk('mcall', recv, name, tuple(pos), tuple(kw))


def member(x, c):
    """gate of `x in c`"""
    c = strip_copy(c)
    if c.op == 'setof':
        return member(x, c.args[0])
    if isstr(c) and isstr(x):
        return TRUE if cval(x) in cval(c) else FALSE
    items = plain_items(c)
    if items is None and c.op == 'seq' and not c.args[3]:
        ok = all(not e.binders and e.kind == 'item' for e in c.args[1])
        if ok and len(c.args[1]) <= 40:
            r = FALSE
            for e in c.args[1]:
                r = B.or_(r, B.and_(e.gate, compare('==', x, e.value)))
            return r
        if c.args[1] and len(c.args[1]) == 1:
            e = c.args[1][0]
            if len(e.binders) == 1 and e.gate == TRUE and e.value is elem(e.binders[0]) and e.kind == 'item' \
                    and not BINDER_STOP.get(e.binders[0]):
                return member(x, e.binders[0].args[1])
    if items is not None:
        if x.op == 'const' and all(i.op == 'const' for i in items):
            return TRUE if any(i is x for i in items) else FALSE
        if len(items) <= 40:
            r = FALSE
            for i in items:
                r = B.or_(r, compare('==', x, i))
            return r
    if c.op == 'dict':
        r = FALSE
        ok = True
        for e in c.args[0]:
            if e.kind != 'item' or e.binders:
                ok = False
                break
            r = B.or_(r, B.and_(e.gate, compare('==', x, e.value.args[0])))
        if ok and len(c.args[0]) <= 40:
            return r
    if c.op == 'mcall' and c.args[1] in ('keys', 'iterkeys') and not c.args[2]:
        return member(x, c.args[0])
    return A('in', x, c)


# ------------------------------------------------------------ string formats
_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<spec>[-+ #0]*\d*(?:\.\d+)?)(?P<conv>[srdifgxq%])')


def percent_format(fmt, arg):
    """const fmt % arg -> concat term, or None."""
    s = cval(fmt)
    pos = 0
    parts = []
    n = 0
    items = list(arg.args) if arg.op == 'tuple' else [arg]
    keyed = False
    for m in _PCT.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group('conv') == '%':
            parts.append(const('%'))
            continue
        if m.group('key') is not None:
            keyed = True
            if arg.op != 'dict':
                v = idx(arg, const(m.group('key')))
            else:
                v = dict_lookup(arg, const(m.group('key')))
                if v is None:
                    return None
        else:
            if n >= len(items):
                return mk('bottom', 'TypeError')
            v = items[n]
            n += 1
        parts.append(fmt_part(v, m.group('spec'), m.group('conv')))
    parts.append(const(s[pos:]))
    if not keyed and n != len(items) and not (arg.op != 'tuple'):
        return mk('bottom', 'TypeError')
    if any(p is None for p in parts):
        return None
    return concat(parts)


def fmt_part(v, spec, conv):
    if isinstance(v, GV):
        return None
    if conv == 's' and not spec:
        return to_str(v)
    if conv == 'r' and not spec:
        return mk('repr', v)
    if conv in ('d', 'i') and not spec:
        return to_str(v)
    spec = spec.lstrip('0') if conv == 'f' and spec.startswith('0.') else spec
    return mk('fmt', spec + conv, v)


def brace_format(fmt, pos_args, kw):
    s = cval(fmt)
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = pos_args[auto]
                auto += 1
            elif field.isdigit():
                v = pos_args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                m = re.match(r'^(\w*)((?:\.\w+|\[\w+\])+)$', field)
                if not m:
                    return None
                h = m.group(1)
                v = pos_args[auto] if h == '' else pos_args[int(h)] if h.isdigit() else kw[h]
                if h == '':
                    auto += 1
                for x in re.findall(r'\.(\w+)|\[(\w+)\]', m.group(2)):
                    if x[0]:
                        v = attr(v, x[0])
                    else:
                        v = idx(v, const(int(x[1])) if x[1].isdigit() else const(x[1]))
            p = brace_part(v, spec, conv)
            if p is None:
                return None
            parts.append(p)
    except (IndexError, KeyError, ValueError):
        return None
    return concat(parts)


def brace_part(v, spec, conv):
    if spec and '{' in spec:
        return None
    if conv == 'r':
        return mk('repr', v)
    if not spec:
        return to_str(v)
    m = re.match(r'^0?(\.\d+)f$', spec)
    if m:
        return mk('fmt', m.group(1) + 'f', v)
    return mk('fmt', spec, v)
