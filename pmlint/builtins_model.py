"""Transfer functions of library callables used by the package."""
from . import ops
from .ops import (boolt, seq, plain_items, truth_leaf, exists, idx, slice_, length, isstr, isnum, cval, to_str, is_none)
from .terms import (T, mk, const, is_const, NONE, TRUE_T, FALSE_T, top, B, TRUE, FALSE, A, GV, gv, gv_join, gv_ite,
                    lift, Gate, Emission, show, elems_in)

IDENTITY = set(['sys.intern', 'builtins.intern', 'builtins.iter'])


def call_ext(it, dotted, args, kw, node):
    h = TABLE.get(dotted)
    if h is not None:
        r = h(it, args, kw, node)
        if r is not None:
            return r
    if dotted in IDENTITY and args:
        return args[0]
    return it.opaque_call(mk('ext', dotted), args, kw, node)


def _force(it, v):
    from .vfg import LazyCall
    if isinstance(v, LazyCall):
        return v.force()
    return v if isinstance(v, GV) else gv(v)


def snap(it, v):
    return v.map(it.snap_if_fresh)


def b_len(it, args, kw, node):
    def f(t):
        if t.op == 'inst' or it.type_of(t) is not None:
            c = it.obj(t).cls if t.op == 'inst' else it.type_of(t)
            m = it.find_method(c, '__len__')
            if m is not None and m.qualname not in it.opaque:
                return it.call_func(m, [gv(t)], {}, node)
        return length(it.snap_if_fresh(t))
    return lift(f, args[0])


def b_str(it, args, kw, node):
    if not args:
        return gv(const(''))

    def f(t):
        if t.op == 'inst' or it.type_of(t) is not None:
            c = it.obj(t).cls if t.op == 'inst' else it.type_of(t)
            m = it.find_method(c, '__str__')
            if m is not None and m.qualname not in it.opaque:
                return it.call_func(m, [gv(t)], {}, node)
        return to_str(it.snap_if_fresh(t))
    return lift(f, args[0])


def b_repr(it, args, kw, node):
    return snap(it, args[0]).map(lambda t: mk('repr', t))


def conv(name):
    def h(it, args, kw, node):
        if not args:
            return gv(const(0 if name == 'int' else 0.0))

        def f(*ts):
            t = ts[0]
            if len(ts) == 1 and isnum(t):
                return const(int(cval(t)) if name == 'int' else float(cval(t)))
            if len(ts) == 1 and name == 'int' and ops.intish(t):
                return t
            ts = tuple(it.snap_if_fresh(x) for x in ts)
            r = mk('call', mk('ext', 'builtins.' + name), ts, ())
            if len(ts) == 1 and name == 'float' and (ops.intish(t) or t.op in ('sum',)):
                return r
            excs = ('ValueError', 'TypeError')
            if name == 'int' and ts[0].op == 'call' and ts[0].args[0] is mk('ext', 'builtins.float'):
                excs += ('OverflowError',)      # the whole part of an infinite number
            it.partial(name, r, excs, node, operands=ts)
            return r
        return lift(f, *args)
    return h


def b_bool(it, args, kw, node):
    if not args:
        return gv(FALSE_T)
    return gv(boolt(it.truth(args[0])))


def container(kind):
    def h(it, args, kw, node):
        o = it.new_obj(kind, node)
        leaf = it.leaf_of(o)
        if args:
            it.mutate(leaf, 'extend', [args[0]], {}, node)
        return gv(leaf)
    return h


def b_tuple(it, args, kw, node):
    if not args:
        return gv(mk('tuple'))

    def f(t):
        t = it.snap_if_fresh(t)
        while t.op == 'copy':
            t = t.args[0]
        if t.op == 'tuple':
            return t
        r = container('list')(it, [gv(t)], {}, node).single()
        s = it.snap_if_fresh(r)
        items = plain_items(s)
        if items is not None:
            return mk('tuple', *items)
        if s.op == 'seq':
            return mk('seq', 'tuple', *s.args[1:])
        if s.op == 'copy':
            return mk('tupleof', s.args[0])
        return mk('tupleof', s)
    return lift(f, args[0])


def b_frozenset(it, args, kw, node):
    if not args:
        return gv(seq('frozenset', []))

    def f(t):
        r = container('set')(it, [gv(t)], {}, node).single()
        s = it.snap_if_fresh(r)
        if s.op == 'seq':
            return mk('seq', 'frozenset', *s.args[1:])
        return mk('frozensetof', s)
    return lift(f, args[0])


def b_dict(it, args, kw, node):
    o = it.new_obj('dict', node)
    leaf = it.leaf_of(o)
    for a in args:
        for g, t in a.alts:
            with it.under(g):
                s = it.snap_if_fresh(t)
                if s.op == 'dict' or s.op in ('objref', 'cur') and it.objs[s.args[0]].kind == 'dict' or s.op in ('sym', 'attr'):
                    it.mutate(leaf, 'update', [gv(t)], {}, node)
                    continue

                def bind(v):
                    it._dictpair = v

                def body():
                    v = it._dictpair
                    it.mutate(leaf, 'setitem', [lift(lambda x: idx(x, const(0)), v),
                                                lift(lambda x: idx(x, const(1)), v)], {}, node)
                it.run_loop(gv(t), bind, None, node, (), [], body_fn=body)
    for k, v in kw.items():
        if k == '**':
            it.mutate(leaf, 'update', [v], {}, node)
        else:
            it.mutate(leaf, 'setitem', [gv(const(k)), v], {}, node)
    return gv(leaf)


def b_fromkeys(it, args, kw, node):
    leaf = it.leaf_of(it.new_obj('dict', node))
    val = args[1] if len(args) > 1 else gv(NONE)

    def bind(v):
        it._dictkey = v

    def body():
        it.mutate(leaf, 'setitem', [it._dictkey, val], {}, node)
    it.run_loop(args[0], bind, None, node, (), [], body_fn=body)
    return gv(leaf)


def b_defaultdict(it, args, kw, node):
    v = b_dict(it, args[1:], kw, node)
    o = it.obj(v.single())
    if args and args[0].single() is not NONE:
        o.default = args[0]
    return v


def b_counter(it, args, kw, node):
    o = it.new_obj('dict', node)
    o.default = gv(mk('ext', 'builtins.int'))
    leaf = it.leaf_of(o)
    if args:
        o.events.append(_ev(it, 'count', args[0], node))
    return gv(leaf)


def _ev(it, kind, v, node):
    from .vfg import Event
    return Event(kind, it.gate, it.binders, (v,), it.here(node), it.locks, it.tick())


def b_sorted(it, args, kw, node):
    t = it.snap_if_fresh(args[0].single()) if args and args[0].single() is not None else None
    xs = plain_items(t) if t is not None else None
    if xs is not None and all(is_const(x) for x in xs) and set(kw) <= set(['reverse']):
        rev = kw['reverse'].single() if kw else FALSE_T
        try:
            xs = sorted(xs, key=cval, reverse={FALSE_T: False, TRUE_T: True}[rev])
        except (TypeError, KeyError):
            xs = None
        if xs is not None:
            o = it.new_obj('list', node)
            for x in xs:
                it.mutate(it.leaf_of(o), 'append', [gv(x)], {}, node)
            return gv(it.leaf_of(o))
    r = container('list')(it, args[:1], {}, node)
    it.mutate(r.single(), 'sort', [], kw, node)
    return r


def b_reversed(it, args, kw, node):
    return args[0].map(lambda t: mk('reversed', it.snap_if_fresh(t)))


def b_enumerate(it, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get('start', gv(const(0)))
    return lift(lambda t, s: mk('enumerate', it.snap_if_fresh(t), s), args[0], start)


def b_same(it, args, kw, node):
    return args[0] if args else kw.get('iterable')


def b_tee(it, args, kw, node):
    n = args[1].single() if len(args) > 1 else const(2)
    if n is None or not isnum(n) or not 0 < cval(n) < 5:
        return None
    return args[0].map(lambda t: mk('tuple', *[it.snap_if_fresh(t)] * cval(n)))


def b_zip(it, args, kw, node):
    t = args[0].single() if len(args) == 1 else None
    if t is not None and t.op == 'star':
        return gv(ops.unzip(t.args[0]))
    combos = [(TRUE, ())]
    for x in args:
        combos = [(B.and_(g, h), ts + (t,)) for g, ts in combos for h, t in x.alts if B.and_(g, h) != FALSE]
    # what every container holds when these alternatives are the actual ones
    return gv_join([(g, it.zip_of(ts, B.and_(g, it.gate))) for g, ts in combos])


def b_map(it, args, kw, node):
    if len(args) < 2 or kw or any(t.op in ('coro', 'star') for a in args for _, t in a.alts):
        return None
    o = it.new_obj('gen', node)
    leaf = it.leaf_of(o)
    cell = []

    def bind(v):
        cell.append(_force(it, v))

    def body():
        v = cell.pop()
        xs = [v] if len(args) == 2 else [v.map(lambda t, i=i: ops.idx(t, const(i))) for i in range(len(args) - 1)]
        r = it.call_gv(args[0], xs, {}, node)
        if it.gate != FALSE:
            it.mutate(leaf, 'append', [r], {}, node)
    g0 = it.gate
    it.run_loop(args[1] if len(args) == 2 else b_zip(it, args[1:], {}, node), bind, None, node, (), [], body_fn=body)
    it.gate = g0
    return gv(leaf)


def b_filter(it, args, kw, node):
    o = it.new_obj('gen', node)
    leaf = it.leaf_of(o)
    cell = []

    def bind(v):
        cell.append(_force(it, v))

    def body():
        v = cell.pop()
        c = v if args[0].single() is NONE else it.call_gv(args[0], [v], {}, node)
        it.gate = B.and_(it.gate, it.truth(c))
        if it.gate != FALSE:
            it.mutate(leaf, 'append', [v], {}, node)
    g0 = it.gate
    it.run_loop(args[1], bind, None, node, (), [], body_fn=body)
    it.gate = g0
    return gv(leaf)


def _quant(it, v, node, neg):
    """gate: exists element with truth (xor neg)."""
    r = FALSE
    for g, t in v.alts:
        for bs, sg, val in it.sources(t, node):
            saved = (it.gate, it.binders)
            it.gate = B.and_(it.gate, g, sg)
            it.binders = list(it.binders) + list(bs)
            vv = _force(it, val)
            c = it.truth(vv)
            it.gate, it.binders = saved
            if neg:
                c = B.not_(c)
            r = B.or_(r, B.and_(g, exists(bs, B.and_(sg, c))))
    return r


def b_any(it, args, kw, node):
    return gv(boolt(_quant(it, args[0], node, False)))


def b_all(it, args, kw, node):
    return gv(boolt(B.not_(_quant(it, args[0], node, True))))


def b_sum(it, args, kw, node):
    def f(t):
        acc = const(0)
        for bs, g, v in it.sources(t, node):
            v = _force(it, v)
            if len(v.alts) != 1:
                v = gv(it.as_leaf(v))
            v = v.single()
            if not bs and g == TRUE:
                acc = ops.add(acc, v)
            else:
                acc = ops.add(acc, mk('sum', Emission(bs, g, v)))
        return acc
    return lift(f, args[0])


def minmax(name):
    def h(it, args, kw, node):
        key = None
        if kw.get('key') is not None:
            from .vfg import KEYVAR
            key = it.as_leaf(it.call_gv(kw['key'], [gv(KEYVAR)], {}, node))
        if len(args) == 1:
            t = snap(it, args[0])
            dflt = kw.get('default')
            if dflt is None:
                ng = B.not_(it.truth(args[0]))
                if ng != FALSE:
                    it.partial(name, it.as_leaf(t), ('ValueError',), node, fail=ng)
                return t.map(lambda x: mk(name, x, key if key is not None else NONE))
            return lift(lambda x, d: mk(name, x, key if key is not None else NONE, d), t, dflt)

        def f(*ts):
            if all(isnum(x) for x in ts) and key is None:
                return const((min if name == 'min' else max)(cval(x) for x in ts))
            return mk(name, mk('tuple', *sorted(ts, key=show)), key if key is not None else NONE)
        return lift(f, *args)
    return h


def b_range(it, args, kw, node):
    def f(*ts):
        if len(ts) == 2 and is_const(ts[0], 0):
            ts = ts[1:]
        return mk('range', *ts)
    return lift(f, *args)


def b_isinstance(it, args, kw, node):
    def f(t, c):
        names = plain_items(c)
        if names is not None:
            r = FALSE
            for n in names:
                r = B.or_(r, one(t, n))
            return boolt(r)
        return boolt(one(t, c))

    def one(t, c):
        if t.op == 'inst' and c.op == 'cls':
            ok = it.subclass_of(it.obj(t).cls, it.classes[c.args[0]])
            return TRUE if ok else FALSE
        ty = it.type_of(t)
        if ty is not None and c.op == 'cls':
            if it.subclass_of(ty, it.classes[c.args[0]]):
                return TRUE
        if c.op == 'ext':
            n = c.args[0].split('.')[-1]
            if t.op == 'const':
                tn = type(t.args[0]).__name__
                return TRUE if tn == n or (tn, n) in (('bool', 'int'), ('str', 'unicode'), ('str', 'basestring')) else FALSE
            if t.op == 'tuple' and n in ('tuple', 'str', 'list', 'dict'):
                return TRUE if n == 'tuple' else FALSE
            if ops.strish(t) and n in ('str', 'unicode', 'basestring'):
                return TRUE
            if t.op == 'obj':
                k = it.obj(t).kind
                if n in ('str', 'tuple', 'list', 'set', 'dict', 'frozenset', 'int', 'bytes'):
                    return TRUE if k == n else FALSE
        if t.op in ('const', 'tuple', 'obj') and c.op == 'cls':
            return FALSE
        if t.op == 'inst' and c.op == 'ext' and not it.has_ext_base(it.obj(t).cls):
            return TRUE if c.args[0] == 'builtins.object' else FALSE
        if t.op == 'cls' and c is mk('ext', 'builtins.type'):
            return TRUE
        if t.op == 'inst' and c is mk('ext', 'builtins.type'):
            return FALSE
        return A('isinstance', it.snap_if_fresh(t), c)
    return lift(f, *args[:2])


def each_name(fn):
    """Apply a model that needs one attribute name to every alternative name."""
    def g(it, args, kw, node):
        if len(args) < 2 or len(args[1].alts) < 2:
            return fn(it, args, kw, node)
        out = []
        for c, n in args[1].alts:
            with it.under(c):
                if it.gate == FALSE:
                    continue
                x = [gv(n) if i == 1 else a.under(it.gate) for i, a in enumerate(args)]
                r = fn(it, x, kw, node)
                if r is None:
                    q = mk('ext', 'builtins.' + fn.__name__[2:])
                    t = [a.single() for a in x]
                    if None in t:
                        return None
                    r = gv(mk('call', q, tuple(t), ()))
                out.append((c, r))
        return gv_join(out)
    return g


# parts of the standard library that every supported interpreter has
PRESENT = set([('collections', 'OrderedDict')])


@each_name
def b_hasattr(it, args, kw, node):
    n = args[1].single()
    if n is None or not isstr(n):
        return None

    def f(t):
        if t.op in ('inst', 'cls', 'mod'):
            c = it.obj(t).cls if t.op == 'inst' else None
            v = it.get_attr(t, cval(n), node)
            if v is None:
                return FALSE_T
            if t.op == 'inst' and it.has_ext_base(c) and v.single() is not None and v.single().op == 'attr':
                return boolt(A('hasattr', t, n))
            return TRUE_T
        if t.op == 'const':
            return boolt(TRUE if hasattr(cval(t), cval(n)) else FALSE)
        if t.op == 'ext' and (t.args[0], cval(n)) in PRESENT:
            return TRUE_T
        return boolt(A('hasattr', t, n))
    return lift(f, args[0])


@each_name
def b_getattr(it, args, kw, node):
    n = args[1].single()
    if n is None or not isstr(n):
        return None
    if len(args) == 2:
        return it.attr_gv(args[0], cval(n), node)
    c = b_hasattr(it, args[:2], {}, node)
    g = truth_of(c)
    if g == FALSE:
        return args[2]
    return gv_ite(g, it.attr_gv(args[0], cval(n), node), args[2])


def truth_of(v):
    return ops.truth(v)


def b_setattr(it, args, kw, node):
    n = args[1].single()
    if n is None or not isstr(n):
        return None
    it.set_attr(args[0], cval(n), args[2], node)
    return gv(NONE)


def b_type(it, args, kw, node):
    if len(args) != 1:
        return None

    def f(t):
        if t.op == 'inst':
            return it.obj(t).cls.leaf
        if t.op == 'const':
            return mk('ext', 'builtins.' + type(t.args[0]).__name__)
        if t.op == 'obj':
            return mk('ext', 'builtins.' + it.obj(t).kind)
        return mk('attr', t, '__class__')
    return lift(f, args[0])


def b_next(it, args, kw, node):
    def f(t):
        srcs = it.sources(t, node)
        if t.op == 'unzip':
            return TRUE, ops.idx(t, const(0))
        if t.op not in ('obj', 'seq', 'tuple', 'objref', 'cur'):
            return None
        alts = []
        ems = []
        total = FALSE
        for bs, g, v in srcs:
            v = _force(it, v)
            for a, x in v.alts:
                gg = B.and_(g, a)
                ems.append(Emission(bs, gg, x))
                total = B.or_(total, exists(bs, gg))
        bset = set(b for e in ems for b in e.binders)
        if ems and all(e.value is ems[0].value for e in ems) and not (elems_in(ems[0].value) & bset):
            leaf = ems[0].value
        else:
            q = seq('list', ems)
            parts = ops.outer_split(q)
            if parts is not None:
                leaf = gv_join((g, ops.first_item(x) or mk('firstof', tuple(ems))) for g, x in parts if x.args[1])
            else:
                leaf = ops.first_item(q) or mk('firstof', tuple(ems))
        return total, leaf
    alts = []
    for g, t in args[0].alts:
        if t.op == 'coro':
            with it.under(g):
                alts.append((g, it.coro_step(t, '__next__', [], node)))
            continue
        r = f(t)
        if r is None:
            x = mk('call', mk('ext', 'builtins.next'), (t,), ())
            if len(args) > 1:
                alts.append((g, it.as_leaf(lift(lambda d: mk('call', mk('ext', 'builtins.next'), (t, d), ()), args[1]))))
            else:
                it.partial('next', x, ('StopIteration',), node)
                alts.append((g, x))
            continue
        total, leaf = r
        if len(args) > 1:
            alts.append((g, gv_ite(total, gv(leaf), args[1])))
        else:
            if total != TRUE:
                it.partial('next', leaf, ('StopIteration',), node, fail=B.and_(g, B.not_(total)))
            alts.append((g, leaf))
    return gv_join(alts)


def b_namedtuple(it, args, kw, node):
    n = args[0].single()
    fs = it.snap_if_fresh(args[1].single())
    if isstr(fs):
        fields = tuple(cval(fs).replace(',', ' ').split())
    else:
        items = plain_items(fs)
        if items is None or not all(isstr(x) for x in items):
            return None
        fields = tuple(cval(x) for x in items)
    return gv(mk('ntcls', cval(n), fields))


def b_itemgetter(it, args, kw, node):
    return lift(lambda *ts: mk('itemgetter', *ts), *args)


def b_attrgetter(it, args, kw, node):
    if len(args) != 1 or not isstr(args[0].single() or NONE):
        return None
    return gv(mk('attrgetter', cval(args[0].single())))


def b_partial(it, args, kw, node):
    keys = sorted(kw)
    return lift(lambda f, *ts: mk('partial', f, tuple(ts[:len(args) - 1]),
                                  tuple(zip(keys, ts[len(args) - 1:]))), *(list(args) + [kw[k] for k in keys]))


def b_nlargest(rev):
    def h(it, args, kw, node):
        k2 = dict(kw)
        if len(args) > 2:
            k2['key'] = args[2]
        k2['reverse'] = gv(TRUE_T if rev else FALSE_T)
        r = b_sorted(it, [args[1]], k2, node)
        return lift(lambda t, n: slice_(it.snap_if_fresh(t), NONE, n), r, args[0])
    return h


def b_chain(it, args, kw, node):
    o = it.new_obj('gen', node)
    leaf = it.leaf_of(o)
    for a in args:
        it.mutate(leaf, 'extend', [a], {}, node)
    return gv(leaf)


def b_chain_iter(it, args, kw, node):
    o = it.new_obj('gen', node)
    leaf = it.leaf_of(o)
    cell = []

    def body():
        it.mutate(leaf, 'extend', [cell.pop()], {}, node)
    it.run_loop(args[0], lambda v: cell.append(_force(it, v)), None, node, (), [], body_fn=body)
    return gv(leaf)


def b_islice(it, args, kw, node):
    if len(args) == 2:
        return lift(lambda t, n: slice_(it.snap_if_fresh(t), NONE, n), args[0], args[1])
    return lift(lambda t, a, b: slice_(it.snap_if_fresh(t), a, b), args[0], args[1], args[2])


def b_abs(it, args, kw, node):
    return args[0].map(lambda t: const(abs(cval(t))) if isnum(t) else mk('abs', t))


def op_bin(op):
    def h(it, args, kw, node):
        return it.binop_gv(op, args[0], args[1], node)
    return h


def op_cmp(op):
    def h(it, args, kw, node):
        return gv(boolt(it.compare_gv(op, args[0], args[1], node)))
    return h


def b_none(it, args, kw, node):
    return gv(NONE)


def b_object(it, args, kw, node):
    return gv(mk('sentinel', it.here(node)[:2]))


def b_opjoin(it, args, kw, node):
    return None


def b_open(it, args, kw, node):
    keys = sorted(kw)
    r = lift(lambda *ts: mk('file', ts[0], tuple(ts[1:len(args)]), tuple(zip(keys, ts[len(args):])), it.tick()),
             *(list(args) + [kw[k] for k in keys]))
    from .vfg import Event
    it.calls.append(Event('call', it.gate, it.binders, (mk('ext', 'open'), tuple(args), dict(kw), r), it.here(node),
                          it.locks, it.tick()))
    return r


def b_callable(it, args, kw, node):
    def f(t):
        if t.op in ('cls', 'func', 'bound', 'ext', 'partial'):
            return TRUE_T
        if t.op == 'inst':
            return TRUE_T if it.find_method(it.obj(t).cls, '__call__') else FALSE_T
        if t.op in ('const', 'tuple'):
            return FALSE_T
        return boolt(A('callable', t))
    return lift(f, args[0])


def b_issubclass(it, args, kw, node):
    def f(a, c):
        if a.op == 'cls' and c.op == 'cls':
            return boolt(TRUE if it.subclass_of(it.classes[a.args[0]], it.classes[c.args[0]]) else FALSE)
        return boolt(A('issubclass', a, c))
    return lift(f, *args)


def arg_names(it, v):
    """Parameter names of a known callable -> (names, number of defaults, vararg, kwarg)."""
    t = v.single()
    skip = 0
    if t is not None and t.op == 'bound':
        t, skip = t.args[0], 1
    if t is not None and t.op == 'cls':
        t, skip = it.find_method(it.classes[t.args[0]], '__init__'), 1
        t = t.leaf if t is not None else None
    if t is None or t.op != 'func':
        return None
    a = it.funcs[t.args[0]].node.args
    return ([x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args],
            a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None, it.funcs[t.args[0]].defaults, skip)


def b_getargspec(n):
    def h(it, args, kw, node):
        r = arg_names(it, args[0])
        if r is None:
            return None
        names, var, kws, defaults, _ = r
        ns = seq('list', [Emission((), TRUE, const(x)) for x in names])
        d = gv(NONE) if not defaults else lift(lambda *ts: mk('tuple', *ts), *defaults)
        cls = mk('ntcls', 'ArgSpec', ('args', 'varargs', 'keywords' if n == 4 else 'varkw', 'defaults') +
                 (() if n == 4 else ('kwonlyargs', 'kwonlydefaults', 'annotations')))
        c = lambda x: NONE if x is None else const(x)
        rest = () if n == 4 else (seq('list', []), NONE, mk('dict', ()))
        return d.map(lambda x: mk('ntuple', cls, (ns, c(var), c(kws), x) + rest, cls.args[1]))
    return h


def b_signature(it, args, kw, node):
    r = arg_names(it, args[0])
    return gv(mk('signature', tuple(r[0][r[4]:]))) if r is not None else None


def b_lock(it, args, kw, node):
    return gv(mk('lock', it.tick(), it.epoch))


TABLE = {
    'threading.RLock': b_lock, 'threading.Lock': b_lock, '_thread.allocate_lock': b_lock, '_thread.RLock': b_lock,
    'inspect.getargspec': b_getargspec(4), 'inspect.getfullargspec': b_getargspec(7), 'inspect.signature': b_signature,
    'builtins.len': b_len, 'builtins.str': b_str, 'builtins.unicode': b_str, 'builtins.repr': b_repr,
    'builtins.int': conv('int'), 'builtins.float': conv('float'), 'builtins.bool': b_bool,
    'builtins.list': container('list'), 'builtins.set': container('set'), 'builtins.tuple': b_tuple,
    'builtins.frozenset': b_frozenset, 'builtins.dict': b_dict, 'collections.OrderedDict': b_dict,
    'builtins.dict.fromkeys': b_fromkeys, 'collections.OrderedDict.fromkeys': b_fromkeys,
    'collections.defaultdict': b_defaultdict, 'collections.Counter': b_counter,
    'builtins.sorted': b_sorted, 'builtins.reversed': b_reversed, 'builtins.enumerate': b_enumerate,
    'builtins.zip': b_zip, 'itertools.izip': b_zip, 'builtins.map': b_map, 'itertools.imap': b_map,
    'builtins.filter': b_filter, 'builtins.any': b_any, 'builtins.all': b_all, 'builtins.sum': b_sum,
    'builtins.min': minmax('min'), 'builtins.max': minmax('max'), 'builtins.range': b_range,
    'builtins.xrange': b_range, 'builtins.isinstance': b_isinstance, 'builtins.hasattr': b_hasattr,
    'builtins.getattr': b_getattr, 'builtins.setattr': b_setattr, 'builtins.type': b_type,
    'builtins.next': b_next, 'collections.namedtuple': b_namedtuple, 'operator.itemgetter': b_itemgetter,
    'operator.attrgetter': b_attrgetter, 'functools.partial': b_partial,
    'heapq.nlargest': b_nlargest(True), 'heapq.nsmallest': b_nlargest(False),
    'itertools.chain': b_chain, 'itertools.chain.from_iterable': b_chain_iter, 'itertools.islice': b_islice,
    'builtins.abs': b_abs, 'operator.add': op_bin('+'), 'operator.sub': op_bin('-'), 'operator.mod': op_bin('%'),
    'operator.eq': op_cmp('=='), 'operator.ne': op_cmp('!='), 'operator.contains': lambda it, a, k, n: gv(
        boolt(it.compare_gv('in', a[1], a[0], n))),
    'builtins.object': b_object, 'builtins.open': b_open, 'codecs.open': b_open, 'io.open': b_open,
    'itertools.tee': b_tee, 'tqdm.tqdm': b_same, 'tqdm.std.tqdm': b_same, 'builtins.callable': b_callable, 'builtins.issubclass': b_issubclass,
}
