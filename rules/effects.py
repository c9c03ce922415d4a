"""A09, A10, A34: state left behind, state shared between analyzers, order of results."""
from .common import *
from .config import construct, calls_to

T1 = sym('tag')
PARSE = sym('parse')


class Run(object):
    """One call of the public interface."""

    def __init__(self, label, w, r, e0, prop=False):
        self.label, self.w, self.r, self.e0 = label, w, r, e0


def tag_symbol(v, t=T1):
    v.types[t] = v.cls(TAG)
    return t


def havoc(w, names):
    """
    State that calls change has an unknown value at the start of a call.  names: (class or module, attribute, replaced) -
    replaced: the attribute is assigned, not just the container it holds changed.
    """
    v = w.v
    if not hasattr(w, 'symattrs0'):
        w.symattrs0 = dict(v.symattrs)
    v.symattrs.clear()
    v.symattrs.update(w.symattrs0)
    for owner, name, replaced in names:
        places = [(o.attrs, mk('inst', o.oid)) for o in list(v.objs.values())
                  if o.kind == 'inst' and o.cls is not None and o.cls.qualname == owner]
        if owner in v.classes:
            places.append((v.classes[owner].attrs, v.classes[owner].leaf))
        if owner in v.mod_ns:
            places.append((v.mod_ns[owner], mk('mod', owner)))
        for attrs, leaf in places:
            x = attrs.get(name)
            if isinstance(x, GV):
                for _, t in x.alts:
                    if t.op == 'obj':
                        o = v.objs[t.args[0]]
                        o.touched = True
                        o.default = None
                        del o.events[:]
            if replaced and (leaf.op == 'inst' or isinstance(x, GV)):
                attrs[name] = gv(attr(leaf, name))


def changed_names(run):
    """Names of the state the call changes, for havoc."""
    v = run.w.v
    out = set()
    for e in run.r.effects:
        base, name = e.payload[0], e.payload[1]
        if e.gate == FALSE:
            continue
        if e.kind in ('setattr', 'global') and isinstance(name, str):
            if base.op in ('cls', 'mod'):
                out.add((base.args[0], name, True))
            elif base.op == 'inst' and epoch_of(v, base) < run.e0:
                out.add((v.objs[base.args[0]].cls.qualname, name, True))
            continue
        b = root(base)
        if b.op not in ('obj', 'objref', 'cur') or epoch_of(v, b) is None or epoch_of(v, b) >= run.e0:
            continue
        leaf = mk('obj', b.args[0])
        for q, k in v.classes.items():
            for n, x in k.attrs.items():
                if isinstance(x, GV) and any(a is leaf for _, a in x.alts):
                    out.add((q, n, False))
        for q, ns in v.mod_ns.items():
            for n, x in ns.items():
                if isinstance(x, GV) and any(a is leaf for _, a in x.alts):
                    out.add((q, n, False))
        for o in v.objs.values():
            if o.kind == 'inst' and o.cls is not None:
                for n, x in o.attrs.items():
                    if isinstance(x, GV) and any(a is leaf for _, a in x.alts):
                        out.add((o.cls.qualname, n, False))
    return out


def settled(judge_run, fresh, calls=None):
    """
    Judge every call of the public interface from an unknown state of everything such calls change.  judge_run(run, acc)
    is repeated with fresh accumulators until no further changed state turns up.
    """
    names = set()
    for _ in range(4):
        acc = fresh()
        new = set()
        for run in (calls or runs)(names):
            new |= changed_names(run)
            judge_run(run, acc)
        if new <= names:
            break
        names |= new
    return acc


def runs(names=()):
    """Calls of everything users call while analysing, with symbolic arguments."""
    if True:
        World.RESOLVE = True
        try:
            w = World()
        finally:
            World.RESOLVE = False
        v = w.v
        for name, _ in UNITS:
            u = w.unit(name)
            for meth, args in (('parse', (WORD, WL, SEEN)), ('tag', (WORD, WL, SEEN)), ('normalized', (FORM,)),
                               ('get_lexeme', (FORM,))):
                f = v.find_method(v.obj(u).cls, meth)
                if f is None:
                    continue
                havoc(w, names)
                r = w.call(u, meth, *args)
                yield Run('%s.%s' % (name, meth), w, r, v.epoch)
    for lang in LANGS:
        w = analyzer_world()
        v = w.v
        m = make_analyzer(w, lang, probability_estimator_cls=NONE)
        for meth, args in (('parse', (WORD,)), ('tag', (WORD,)), ('normal_forms', (WORD,)), ('get_lexeme', (FORM,)),
                           ('_inflect', (FORM, sym('required'))), ('iter_known_word_parses', (sym('prefix'),)),
                           ('word_is_known', (WORD, sym('strict'))), ('cyr2lat', (sym('text'),)), ('lat2cyr', (sym('text'),)),
                           ('__reduce__', ())):
            if v.find_method(v.obj(m).cls, meth) is None:
                continue
            havoc(w, names)
            r = w.call(m, meth, *args)
            yield Run('MorphAnalyzer.%s (%s)' % (meth, lang), w, r, v.epoch)
    w = World()
    v = w.v
    est = v.instantiate(v.cls(P + 'analyzer.ProbabilityEstimator').leaf, [gv(sym('dict_path'))], {}, None).single()
    for meth in ('apply_to_parses', 'apply_to_tags'):
        havoc(w, names)
        r = w.call(est, meth, WORD, WL, sym('items'))
        yield Run('ProbabilityEstimator.%s' % meth, w, r, v.epoch)
    w = World(opaque=World.OPAQUE + [MA + '.get_lexeme', DICT + '.word_is_known'])
    v = w.v
    k = v.cls(P + 'analyzer.Parse')
    v.types[PARSE] = k
    v.symattrs[(PARSE, '_morph')] = gv(w.morph)
    for meth, args in (('inflect', (sym('required'),)), ('make_agree_with_number', (sym('num'),)), ('lexeme', None),
                       ('is_known', None), ('normalized', None)):
        havoc(w, names)
        r = get(w, PARSE, meth, args, k)
        yield Run('Parse.%s' % meth, w, r, v.epoch)
    w = World()
    v = w.v
    d = sym('dictionary')
    v.types[d] = v.cls(DICT)
    for meth, args in (('build_tag_info', ('para_id', 'idx')), ('build_paradigm_info', ('para_id',)),
                       ('build_normal_form', ('para_id', 'idx', 'fixed_word')), ('build_stem', ('paradigm', 'idx', 'fixed_word')),
                       ('word_is_known', ('word', 'substitutes')), ('iter_known_words', ('prefix',))):
        havoc(w, names)
        r = w.call(d, meth, *[sym(x) for x in args])
        yield Run('Dictionary.%s' % meth, w, r, v.epoch)
    w = World()
    v = w.v
    t = tag_symbol(v)
    k = v.cls(TAG)
    for meth, args in (('grammemes', None), ('grammemes_cyr', None), ('cyr_repr', None), ('POS', None), ('case', None),
                       ('cyr2lat', ('text',)), ('lat2cyr', ('text',)), ('__contains__', ('grammeme',)), ('__str__', ()),
                       ('__repr__', ()), ('__eq__', ('other',)), ('__lt__', ('other',)), ('__hash__', ()), ('__len__', ()),
                       ('__reduce__', ()), ('is_productive', ()), ('_is_unknown', ()), ('grammeme_is_known', ('grammeme',)),
                       ('updated_grammemes', ('required',)), ('fix_rare_cases', ('required',)),
                       ('numeral_agreement_grammemes', ('num',))):
        x, _ = v.class_attr(k, meth)
        if x is None:
            continue
        havoc(w, names)
        r = get(w, t, meth, None if args is None else tuple(sym(a) for a in args), k)
        yield Run('Tag.%s' % meth, w, r, v.epoch)
    for run in shape_runs(names):
        yield run


def shape_runs(names=()):
    """Calls of the functions of plain text."""
    w = World()
    v = w.v
    for f, args in (('shapes.is_latin_char', ('char',)), ('shapes.is_latin', ('token',)), ('shapes.is_punctuation', ('token',)),
                    ('shapes.is_roman_number', ('token',)), ('shapes.restore_capitalization', ('word', 'example')),
                    ('tokenizers.simple_word_tokenize', ('text',)), ('utils.word_splits', ('word',)),
                    ('utils.combinations_of_all_lengths', ('items',)), ('utils.longest_common_substring', ('items',)),
                    ('utils.largest_elements', ('items', 'key'))):
        havoc(w, names)
        r = w.func(P + f, *[sym(a) for a in args])
        yield Run(f.split('.')[-1], w, r, v.epoch)


def get(w, base, name, args, cls):
    """Attribute value (args None) or method call."""
    if args is not None:
        return w.call(base, name, *args)
    v = w.v
    v.new_epoch()
    v.gate = w.base_gate
    v.warn_top = []
    x = v.attr_gv(gv(base), name, None)
    f = v.find_method(cls, name)
    r = w.pack(x, f.leaf if f is not None and hasattr(f, 'leaf') else gv(cls.leaf))
    if f is not None:
        r.where = w.where_func(f)
    return r


# ---------------------------------------------------------------- effects on state
def root(t):
    """The object the effect reaches into."""
    while True:
        if t.op in ('idx', 'attr', 'slice'):
            t = t.args[0]
        elif t.op == 'mcall' and t.args[1] in VIEWS:
            t = t.args[0]
        else:
            return t


VIEWS = ('get', 'setdefault', 'values', 'items', 'keys', 'pop', '__getitem__')


def epoch_of(v, t):
    if t.op in ('inst', 'obj', 'objref', 'cur') and t.args[0] in v.objs:
        return v.objs[t.args[0]].epoch
    return None


def where_of(e):
    return '%s:%s %s' % e.loc if e.loc else '?'


def name_of(v, t):
    """Readable name of pre-existing state."""
    r = root(t)
    if r.op in ('obj', 'objref', 'cur'):
        leaf = mk('obj', r.args[0])
        for q, k in v.classes.items():
            for n, x in k.attrs.items():
                if isinstance(x, GV) and any(a is leaf for _, a in x.alts):
                    return '%s.%s' % (q.replace(P, ''), n)
        for m, ns in v.mod_ns.items():
            for n, x in ns.items():
                if isinstance(x, GV) and any(a is leaf for _, a in x.alts):
                    return '%s.%s' % (m.replace(P, ''), n)
    return show(t)[:120]


def shared_effects(v, effects, e0):
    """Effects on classes, modules and objects that existed before the call."""
    for e in effects:
        if e.gate == FALSE or e.kind not in ('setattr', 'mutate', 'setitem', 'global', 'delattr', 'delitem'):
            continue
        b = root(e.payload[0])
        if b.op in ('cls', 'mod'):
            yield e, b
        elif epoch_of(v, b) is not None and epoch_of(v, b) < e0:
            yield e, b
        elif b.op == 'ext':
            yield e, b


def what(v, e):
    return '%s of %s (%s)' % (e.kind if e.kind == 'setattr' else e.payload[1], name_of(v, e.payload[0]),
                              e.payload[1] if e.kind != 'mutate' else show_gate(e.gate)[:80])


def lock_leaves(locks):
    """(lock objects held, something that may be a lock)"""
    sure, maybe = [], []
    for t in locks:
        if t.op == 'lock':
            sure.append(t)
        elif t.op != 'file':
            maybe.append(t)
    return sure, maybe


def a10_worlds():
    for lang in LANGS:
        World.RESOLVE = True
        try:
            w = World(opaque=[P + 'dawg.WordsDawg'], typed_morph=False)
        finally:
            World.RESOLVE = False
        yield lang, w


def published(v, effects, e0):
    """Changes of objects created by the call after they were stored in shared state."""
    for e, b in shared_effects(v, effects, e0):
        if e.kind not in ('setattr', 'global') or not isinstance(e.payload[2], GV):
            continue
        for _, x in e.payload[2].alts:
            if x.op == 'obj' and v.objs[x.args[0]].epoch >= e0:
                for ev in v.objs[x.args[0]].events:
                    if ev.seqno > e.seqno and ev.gate != FALSE:
                        yield ev, e


def check_A10(rep):
    for lang, w in a10_worlds():
        v = w.v
        rep.world = w
        m, r = construct(w, path=const('/dictionary/path'), lang=const(lang), result_type=NONE)
        e0 = v.obj(m).epoch
        n = 0
        common = None
        name = 'state shared between analyzers changes under the lock (%s)' % lang
        bad = []
        changes = [(e, what(v, e)) for e, b in shared_effects(v, r.effects, e0)]
        changes += [(ev, '%s of %s (%s)' % (ev.kind, e.payload[1], what(v, e))) for ev, e in published(v, r.effects, e0)]
        for e, text in changes:
            n += 1
            sure, maybe = lock_leaves(e.locks)
            old = [t for t in sure if t.args[1] < e0]
            if not old:
                args = [t for t in maybe if any(x.op == 'sym' for x in subterms(t))]
                st = False if not maybe or args else None
                bad.append((st, e, text, 'under a lock that depends on the arguments: %s' % show(args[0])[:80] if args else
                            'under a lock created by this very call' if sure else
                            'without a lock' if not maybe else 'the lock %s is not resolved' % show(maybe[0])[:80]))
            else:
                common = set(old) if common is None else common & set(old)
        if not bad and n and not common:
            bad.append((False, e, text, 'the changes do not share one lock'))
        times = [t for t in v.acquired if t.op == 'lock' and t in (common or ())]
        if bad:
            st = False if any(x[0] is False for x in bad) else None
            for s, e, text, why in bad:
                if s is st:
                    rep.add(name, st, where_of(e), '%s: %s' % (text, why))
        elif n == 0:
            rep.add(name, None, r.where, 'no change of shared state found')
        elif len(set(times)) != 1 or len(times) != 1:
            rep.add(name, None, r.where, 'the lock is taken %d times during construction' % len(times))
        else:
            rep.add(name, True, r.where, '%d changes' % n)


def registering(v):
    """Methods of the tag class that change its tables."""
    out = set()
    w = World()
    k = w.v.cls(TAG)
    for n in list(k.attrs):
        f = w.v.find_method(k, n)
        if f is None or isinstance(f, GV) or getattr(f, 'kind', None) != 'class':
            continue
        r = w.call(k.leaf, n, *[sym('a%d' % i) for i in range(len(f.node.args.args) - 1 - len(f.node.args.defaults))])
        if any(True for _ in shared_effects(w.v, r.effects, w.v.epoch)):
            out.add(n)
    return out


def lazy_runs():
    for lang in LANGS:
        World.RESOLVE = True
        try:
            w = World(opaque=[P + 'dawg.WordsDawg', DICT + '.__init__'], typed_morph=False)
        finally:
            World.RESOLVE = False
        v = w.v
        for q, k in v.classes.items():
            if q.startswith(P + 'units.'):
                v.opaque |= set([q + '.parse', q + '.tag'])
        m = make_analyzer(w, lang, probability_estimator_cls=NONE, result_type=NONE)
        for meth in ('parse', 'tag', 'normal_forms'):
            yield Run('MorphAnalyzer.%s' % meth, w, w.call(m, meth, WORD), v.epoch)


def check_A10_lazy(rep):
    """Nothing registers grammemes later, outside construction."""
    bad = []
    n = 0
    names = registering(None)
    for run in list(runs()) + list(lazy_runs()):
        v = run.w.v
        n += 1
        for e, b in shared_effects(v, run.r.effects, run.e0):
            if e.locks:
                continue
            if b.op == 'cls' and v.subclass_of(v.classes[b.args[0]], v.cls(TAG)) or \
                    b.op != 'cls' and name_of(v, b).startswith('tagset.'):
                bad.append((e, '%s: %s' % (run.label, what(v, e))))
        for e in run.r.calls:
            f = e.payload[0]
            if f.op == 'attr' and f.args[1] in names and not e.locks and e.gate != FALSE:
                bad.append((e, '%s: calls %s' % (run.label, show(f)[:100])))
    for e, text in bad:
        rep.add('analysing does not change the tag class', False, where_of(e), '%s, without the construction lock' % text)
    if not bad:
        rep.add('analysing does not change the tag class', True, '%d calls' % n)


# ---------------------------------------------------------------- A09
STATE = ('morph', 'dictionary', 'tag', 'letters', 'particles', 'prefixes', 'dict_path')
ADDING = ('append', 'add', 'update', 'extend', 'insert', 'appendleft', 'intersection_update', 'difference_update',
          'symmetric_difference_update')


V = [None, 0]


def content(t):
    """What an object created during the call holds."""
    v, e0 = V
    o = v.objs.get(t.args[0]) if v is not None else None
    if o is None or o.epoch < e0:
        return []
    out = [Gate(ev.gate) for ev in o.events] + [x for ev in o.events for x in ev.payload if isinstance(x, (T, GV))]
    out += [b for ev in o.events for b in ev.binders]
    return out + [x for x in o.attrs.values() if isinstance(x, GV)]


def deps(x, binders=(), state=()):
    """Inputs of the call a value or condition depends on."""
    out = set()
    seen = set()
    todo = [Gate(x) if isinstance(x, int) else x]
    by = dict((elem(b), b) for b in binders)
    by.update((mk('index', b), b) for b in binders)
    done = set()
    while todo:
        y = todo.pop()
        for t in subterms(y, seen):
            if t.op == 'sym' and (t.args[0] not in STATE or t in state):
                out.add(t)
            elif t in by and t not in done:
                done.add(t)
                todo.append(by[t].args[1])
            elif t.op in ('obj', 'inst') and t not in done:
                done.add(t)
                todo.extend(content(t))
    return out


def key_parts(k):
    out = [k]
    if k.op == 'tuple':
        for x in k.args:
            out += key_parts(x)
    return out


def without_key(key, val, binders):
    """Inputs the value depends on beyond the key it is stored under."""
    out = set()
    for kg, k in key.alts:
        m = dict((p, mk('keypart', i)) for i, p in enumerate(key_parts(k)) if not is_const(p))
        for g, t in val.under(kg).alts:
            g = B.constrain(g, kg) if B.and_(g, kg) != FALSE else FALSE
            if g == FALSE:
                continue
            if t.op == 'bool':
                g = B.and_(g, B.constrain(t.args[0].g, kg) if B.and_(t.args[0].g, kg) != FALSE else FALSE)
            else:
                out |= deps(ops.subst(t, m), binders)
            out |= deps(ops.subst_gate(g, m), binders)
    return out


def reads(v, name):
    """Is an attribute of that name ever read?"""
    import ast
    for m in v.program.modules.values():
        if not m.name.startswith('pymorphy2'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
                return True
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return True
    return False


def augmented(v, e, name):
    """The effect is an augmented assignment to the attribute, which is also read elsewhere."""
    import ast
    hit = other = False
    for m in v.program.modules.values():
        if not m.name.startswith('pymorphy2'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.AugAssign):
                t = n.target
                if (isinstance(t, ast.Attribute) and t.attr == name or isinstance(t, ast.Name) and t.id == name) and \
                        m.relpath == e.loc[0] and n.lineno == e.loc[1]:
                    hit = True
    return hit and reads(v, name)


def mentions(x, base, name):
    """The condition looks at the attribute itself."""
    for t in subterms(Gate(x) if isinstance(x, int) else x):
        if t.op == 'attr' and t.args[1] == name:
            return True
        if t.op in ('isnone', 'truthy') and t.args[0].op == 'attr' and t.args[0].args[1] == name:
            return True
    return False


def is_state(v, b, e0):
    if b.op in ('cls', 'mod'):
        return True
    ep = epoch_of(v, b)
    if ep is not None:
        return ep < e0
    return b.op == 'sym' and b.args[0] in STATE


def global_state(v, b):
    """State not tied to one analyzer."""
    if b.op in ('cls', 'mod'):
        return True
    return b.op in ('obj', 'objref', 'cur') and '.' in name_of(v, b) and not name_of(v, b).startswith('TOP')


def judge(run, e, memos):
    """(status, reason) of one effect."""
    v = run.w.v
    base, name, val = e.payload
    b = root(base)
    V[:] = [v, run.e0]
    if b is SEEN:
        return True, ''
    if not is_state(v, b, run.e0):
        ep = epoch_of(v, b)
        if ep is not None or b.op in ('call', 'mcall', 'copy', 'seq', 'setof', 'listof', 'dict', 'sorted', 'bin', 'slice'):
            return True, ''
        if b.op == 'elem':
            return None, 'changes %s' % show(base)[:80]
        return None, 'changes %s, an argument of the call' % show(base)[:80]
    state = ()
    if e.kind in ('setattr', 'global'):
        if not isinstance(val, GV):
            return None, 'value not known'
        d = deps(val, e.binders)
        gd = deps(e.gate, e.binders)
        if global_state(v, b):
            for _, t in list(val.alts):
                for s in subterms(t):
                    if s.op == 'sym' and s.args[0] in STATE and s.args[0] != 'tag' or s.op == 'inst':
                        d.add(s)
        if augmented(v, e, name):
            return False, 'counts calls'
        if not reads(v, name):
            return True, ''
        if d:
            if any(a.op == 'cmp' and mentions(mk('x', a), b, name) for a in B.support_atoms(e.gate)) and \
                    all(t.op == 'tuple' for _, t in val.alts):
                asked = [x for a in B.support_atoms(e.gate) if a.op == 'cmp' and a.args[0] == '==' and mentions(mk('x', a), b, name)
                         for x in a.args[1:] if not mentions(mk('x', x), b, name)]
                if len(asked) == 1 and all(asked[0] in t.args for _, t in val.alts):
                    more = without_key(gv(asked[0]), val, e.binders)
                    if more:
                        return False, 'keeps for %s a value that also depends on %s' % (show(asked[0])[:60], names(more))
                return None, 'keeps %s depending on %s' % (name, names(d))
            return False, 'keeps a value that depends on %s' % names(d)
        if gd and not mentions(e.gate, b, name):
            return False, 'is set depending on %s' % names(gd)
        for o in run.r.effects:
            if o.kind == 'setattr' and o.seqno < e.seqno and o.payload[0] is base and o.payload[1] != name and \
                    not mentions(e.gate, b, name) and mentions(e.gate, b, o.payload[1]):
                return False, 'is set only after %s announced it' % o.payload[1]
        return True, ''
    if e.kind == 'setitem' or name in ('setitem', 'setdefault'):
        if e.kind == 'setitem':
            key, val = name, val
            key = key if isinstance(key, GV) else gv(key)
            val = val if isinstance(val, GV) else gv(val)
        else:
            key, val = (val[0], val[1] if len(val) > 1 else gv(NONE))
        d = without_key(key, val, e.binders)
        if d:
            return False, 'keeps under the key %s a value that also depends on %s' % (show_gv(key), names(d))
        if global_state(v, b):
            own = [s for g, t in val.alts for s in subterms(t) if s.op == 'inst' or s.op == 'sym' and s.args[0] in STATE]
            if own:
                return False, 'keeps for all analyzers a value that depends on %s' % show(own[0])
        if e.binders and any(a.op in ('truthy', 'cmp', 'isnone') and any(
                root(s) is b for s in subterms(a) if s.op in ('obj', 'objref', 'cur', 'attr')) for a in B.support_atoms(e.gate)) \
                and not any(a.op == 'in' and a.args[1].op in ('obj', 'objref', 'cur', 'attr') for a in B.support_atoms(e.gate)):
            return False, 'is filled step by step, visible to concurrent calls'
        if deps(e.gate, e.binders) and iterated(run, base):
            return False, 'is iterated over, and gets items depending on %s' % names(deps(e.gate, e.binders))
        memos.add(base)
        return True, ''
    if name in ADDING:
        d = deps(mk('x', *[x for x in val if isinstance(x, GV)]), e.binders)
        if d:
            return False, 'collects values that depend on %s' % names(d)
        gd = deps(e.gate, e.binders)
        own = any(root(s) is b for a in B.support_atoms(e.gate) for s in subterms(a) if s.op in ('obj', 'objref', 'cur', 'attr'))
        if gd and not own:
            return False, 'collects values when %s ask for it' % names(gd)
        return None, 'grows with every call'
    if name in ('clear', 'pop', 'popitem', 'delitem', 'remove', 'discard'):
        return (True, '') if base in memos else (None, 'removes items')
    return None, name


def iterated(run, base):
    """Does the call go through all items of the container?"""
    def over(t):
        while True:
            if t.op in ('listof', 'tupleof', 'setof', 'copy', 'sorted', 'reversed', 'enumerate') or \
                    t.op == 'mcall' and t.args[1] in ('items', 'keys', 'values'):
                t = t.args[0]
            elif t.op == 'seq' and len(t.args[1]) == 1 and len(t.args[1][0].binders) == 1:
                t = t.args[1][0].binders[0].args[1]
            else:
                break
        return t is base or t.op in ('obj', 'objref', 'cur') and base.op in ('obj', 'objref', 'cur') and t.args[0] == base.args[0]

    seen = set()
    xs = [run.r.value] + [Gate(e.gate) for e in run.r.effects] + [b for e in run.r.effects for b in e.binders]
    for x in xs:
        for t in subterms(x, seen):
            if t.op == 'binder' and isinstance(t.args[1], T) and over(t.args[1]):
                return True
    return False


def show_gv(x):
    return ' | '.join(show(t)[:60] for _, t in x.alts[:3])


def names(d):
    return ', '.join(sorted(show(x)[:40] for x in d)[:3])


def exposed(t, depth=0):
    """Containers the caller gets hold of."""
    if isinstance(t, GV):
        for _, x in t.alts:
            for y in exposed(x, depth):
                yield y
    elif isinstance(t, T):
        if t.op in ('obj', 'objref', 'cur', 'inst'):
            yield t
        elif t.op == 'tuple':
            for x in t.args:
                for y in exposed(x):
                    yield y
        elif t.op == 'ntuple':
            for x in t.args[1]:
                for y in exposed(x):
                    yield y
        elif t.op == 'seq':
            for e in t.args[1]:
                for y in exposed(e.value):
                    yield y
        elif t.op in ('idx', 'attr') or t.op == 'mcall' and t.args[1] in ('get', 'setdefault'):
            yield t


MUTABLE = ('list', 'set', 'dict', 'gen')


def mutable(v, x):
    """Is the value a mutable container?  None: not known."""
    r = set()
    for _, t in (x.alts if isinstance(x, GV) else ((TRUE, x),)):
        if t.op == 'obj':
            r.add(v.objs[t.args[0]].kind in MUTABLE)
        elif t.op == 'seq':
            r.add(t.args[0] in MUTABLE)
        elif t.op == 'dict':
            r.add(True)
        elif t.op in ('const', 'tuple', 'ntuple', 'bool'):
            r.add(False)
        elif t.op == 'sorted':
            r.add(True)
        elif t.op == 'copy':
            r.add(None)
        else:
            r.add(None)
    return True if True in r else None if None in r else False


N1 = 'calls leave no state that later calls depend on'
N2 = 'results share no mutable container with the analyzer'


def judge_run(run, acc):
    bad = acc['bad']
    v = run.w.v
    acc['calls'] += 1
    memos = set()
    effects = [e for e in run.r.effects if e.gate != FALSE]
    stored = {}
    for e in sorted(effects, key=lambda e: e.payload[1] in ('clear', 'pop', 'popitem', 'delitem')):
        acc['effects'] += 1
        st, why = judge(run, e, memos)
        if st is not True:
            bad.append((st, N1, where_of(e), '%s: %s %s' % (
                run.label, name_of(v, e.payload[0]) + ('.' + e.payload[1] if e.kind == 'setattr' else ''), why)))
        if is_state(v, root(e.payload[0]), run.e0):
            if e.kind == 'setattr':
                stored[attr(e.payload[0], e.payload[1])] = e.payload[2]
            elif e.payload[1] in ('setitem', 'setdefault') and len(e.payload[2]) > 1:
                stored[e.payload[0]] = e.payload[2][1]
    if '__reduce__' in run.label:
        return
    for t in exposed(run.r.value):
        ep = epoch_of(v, t)
        if ep is not None:
            if ep < run.e0 and t.op != 'inst' and v.objs[t.args[0]].kind in MUTABLE:
                bad.append((False, N2, run.r.where, '%s returns %s itself' % (run.label, name_of(v, t))))
            continue
        for k, x in stored.items():
            same_item = t is k or t.op in ('idx', 'mcall') and t.args[0] in views(k)
            if same_item and mutable(v, x) is True:
                bad.append((False, N2, run.r.where, '%s returns the object kept in %s' % (run.label, name_of(v, k))))


def check_A09(rep):
    acc = settled(judge_run, lambda: {'bad': [], 'calls': 0, 'effects': 0})
    bad = acc['bad']
    for st, name, where, d in sorted(set(bad), key=lambda x: (x[0] is not False, str(x))):
        rep.add(name, st, where, d)
    for n in (N1, N2):
        if not any(b[1] == n for b in bad):
            rep.add(n, True, '%d calls of the public interface, %d effects' % (acc['calls'], acc['effects']))


def views(k):
    """All terms that denote the container k."""
    if k.op in ('obj', 'objref', 'cur'):
        return ContainerViews(k.args[0])
    return (k,)


class ContainerViews(object):
    def __init__(self, oid):
        self.oid = oid

    def __contains__(self, t):
        return t.op in ('obj', 'objref', 'cur') and t.args[0] == self.oid


def check_A09_iterators(rep):
    """Nothing kept is used up by its first use."""
    import ast
    bad = []
    n = 0
    for lang in LANGS:
        w = analyzer_world()
        make_analyzer(w, lang, probability_estimator_cls=NONE)
        u = World()
        for name, _ in UNITS:
            u.unit(name)
        for v, o in [(w.v, o) for o in w.v.objs.values()] + [(u.v, o) for o in u.v.objs.values()]:
            if o.kind != 'inst':
                continue
            for name, x in o.attrs.items():
                if not isinstance(x, GV):
                    continue
                n += 1
                for _, t in x.alts:
                    if one_shot(v, t):
                        bad.append(('%s.%s' % (o.cls.qualname if o.cls else '?', name)))
        v = w.v
        for q, k in v.classes.items():
            for name, x in k.attrs.items():
                if isinstance(x, GV) and any(one_shot(v, t) for _, t in x.alts):
                    bad.append('%s.%s' % (q, name))
        for q, ns in v.mod_ns.items():
            for name, x in ns.items():
                if isinstance(x, GV) and any(one_shot(v, t) for _, t in x.alts):
                    bad.append('%s.%s' % (q, name))
    for b in sorted(set(bad)):
        rep.add('state is no one-shot iterator', False, b, 'an iterator is kept; its second use finds nothing')
    if not bad:
        rep.add('state is no one-shot iterator', True, '%d attributes' % n)
    # results kept by caching decorators
    w = World()
    v = w.v
    bad = []
    n = 0
    for f in v.funcs.values():
        decs = getattr(f.node, 'decorator_list', [])
        for d in decs:
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ''
            if not ('cache' in nm or 'memo' in nm) or nm == 'cached_property':
                continue
            n += 1
            a = [sym('a%d' % i) for i in range(len(f.node.args.args))]
            try:
                v.new_epoch()
                v.gate = TRUE
                x = v.call_gv(gv(f.leaf), [gv(y) for y in a], {}, None)
            except Exception:
                continue
            where = w.where_func(f)
            if f.is_gen:
                bad.append((False, where, 'a generator is kept'))
            elif mutable(v, x) is True and public(f.qualname):
                bad.append((False, where, 'a mutable container is kept and handed out'))
    for st, where, d in bad:
        rep.add('cached results are immutable', st, where, d)
    if not bad:
        rep.add('cached results are immutable', True, '%d cached functions' % n)


PUBLIC = [P + 'analyzer.', P + 'tagset.', P + 'shapes.', P + 'tokenizers.', P + 'units.', P + 'utils.',
          P + 'opencorpora_dict.wrapper.']


def public(q):
    return any(q.startswith(p) for p in PUBLIC)


def one_shot(v, t):
    if t.op == 'obj':
        return v.objs[t.args[0]].kind == 'gen'
    if t.op == 'seq':
        return t.args[0] == 'gen'
    if t.op in ('reversed', 'enumerate', 'zip'):
        return True
    if t.op == 'call' and t.args[0].op == 'ext':
        return t.args[0].args[0] in ('builtins.iter', 'builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.reversed',
                                     'builtins.enumerate', 'itertools.chain')
    return False
