"""A25, A11, A12, A32, A31: construction and configuration of analyzers, the type of results."""
from .common import *
from pmlint.vfg import VFG

AN = P + 'analyzer.'

SPEC = '''
import os
from pymorphy2.analyzer import lang_dict_path, _iter_entry_points

def chosen_path(path, lang):
    if path is not None:
        return path
    if 'PYMORPHY2_DICT_PATH' in os.environ:
        return os.environ['PYMORPHY2_DICT_PATH']
    if lang is None:
        return lang_dict_path('ru')
    return lang_dict_path(lang)

def chosen_lang(d, path, lang):
    if lang is not None:
        return lang
    if path is None:
        return 'ru'
    if d.lang is None:
        return 'ru'
    return d.lang

def installed(lang):
    paths = dict((pkg.name, pkg.load().get_path()) for pkg in _iter_entry_points('pymorphy2_dicts'))
    try:
        import pymorphy2_dicts
        paths['ru-old'] = pymorphy2_dicts.get_path()
    except ImportError:
        pass
    return paths

def installed_path(lang):
    paths = installed(lang)
    if lang in paths:
        return paths[lang]
    raise ValueError(lang)
'''

LANG, PATH, UNITS_ARG, SUBS, EST, RT = [sym(x) for x in ('lang', 'path', 'units', 'subs', 'estimator', 'result_type')]
OPTIONS = ('path', 'lang', 'result_type', 'units', 'probability_estimator_cls', 'char_substitutes')


def environ_rw():
    """os.environ.get(k) / os.getenv(k) written as membership and item."""
    env = mk('ext', 'os.environ')

    def key(t):
        if t.op == 'mcall' and t.args[0] is env and t.args[1] == 'get' and len(t.args[2]) == 1 and not t.args[3]:
            return t.args[2][0]
        if t.op == 'call' and t.args[0] in (mk('ext', 'os.getenv'), mk('ext', 'os.environ.get')) and len(t.args[1]) == 1:
            return t.args[1][0]
        return None

    def arw(a):
        if a.op == 'isnone' and key(a.args[0]) is not None:
            return B.not_(A('in', key(a.args[0]), env))
        if a.op == 'truthy' and key(a.args[0]) is not None:      # a variable set to nothing is not considered
            return A('in', key(a.args[0]), env)
        if a.op == 'truthy' and a.args[0].op == 'idx' and a.args[0].args[0] is env:
            return A('in', a.args[0].args[1], env)
        if a.op == 'isnone' and a.args[0].op == 'idx' and a.args[0].args[0] is env:     # values are texts
            return B.not_(A('in', a.args[0].args[1], env))
        return None

    def trw(t):
        k = key(t)
        return idx(env, k) if k is not None else None
    return trw, arw


def construct(w, **kw):
    v = w.v
    v.new_epoch()
    v.gate = TRUE
    v.warn_top = []
    args = dict((k, x if isinstance(x, GV) else gv(x)) for k, x in kw.items())
    r = v.instantiate(v.cls(MA).leaf, [], args, None)
    t = r.single()
    if t is None or t.op != 'inst':
        raise AnalysisError('MorphAnalyzer cannot be instantiated')
    return t, w.pack(r, v.lookup(MA + '.__init__'))


def config_world(extra=()):
    w = World(opaque=[P + 'dawg.WordsDawg', DICT + '.__init__', P + 'units.base.BaseAnalyzerUnit.init'], typed_morph=False)
    for q, k in w.v.classes.items():
        if q.startswith(P + 'units.'):
            for m in ('parse', 'tag', 'init'):
                w.v.opaque.add(q + '.' + m)
    w.v.opaque |= set(extra)
    return w


def calls_to(v, r, pred):
    return [e for e in r.calls if pred(e.payload[0])]


def func_name(v, f):
    while f.op == 'bound':
        f = f.args[0]
    return v.funcs[f.args[0]].qualname if f.op == 'func' else f.args[0] if f.op == 'ext' else None


def arg(e, i, name):
    f, a, kw = e.payload[:3]
    if name in kw:
        return kw[name]
    return a[i] if i < len(a) else None


def cases():
    """(label, path, lang, assumption about the symbols)"""
    return [
        ('path and language given', PATH, LANG),
        ('path given', PATH, NONE),
        ('language given', NONE, LANG),
        ('neither given', NONE, NONE),
    ]


# ---------------------------------------------------------------- A25
def check_A25(rep):
    for label, path, lang in cases():
        w = config_world([AN + 'lang_dict_path'])
        v = w.v
        rep.world = w
        m, r = construct(w, path=path, lang=lang, units=UNITS_ARG, char_substitutes=SUBS, probability_estimator_cls=EST,
                         result_type=NONE)
        c = w.canon()
        trw, arw = environ_rw()
        c.rewrites.append(trw)
        c.atom_rw.append(arw)
        for s in (PATH, LANG, UNITS_ARG, SUBS, EST):
            fix(c, ops.is_none(s), FALSE)
        spec = w.run_spec(SPEC, 'chosen_path', path, lang)
        loads = calls_to(v, r, lambda f: f.op == 'attr' and f.args[1] == '__init__' and f.args[0].op == 'inst' and
                         v.subclass_of(v.obj(f.args[0]).cls, v.cls(DICT)))
        if len(loads) != 1:
            rep.add('the dictionary is loaded from the chosen path (%s)' % label, None, r.where, '%d dictionaries loaded' % len(loads))
        else:
            rep.equal('the dictionary is loaded from the chosen path (%s)' % label, r.where,
                      c.gv(arg(loads[0], 0, 'path').under(loads[0].gate)), c.gv(spec.value))
        ests = calls_to(v, r, lambda f: f is EST)
        if ests:
            rep.equal('corpus probabilities come from the same path (%s)' % label, r.where,
                      c.gv(arg(ests[0], 0, 'path').under(ests[0].gate)), c.gv(spec.value))
        d = v.get_attr(m, 'dictionary', None).single()
        if d is None:
            rep.add('the language of the analyzer (%s)' % label, None, r.where, 'dictionary not resolved')
            continue
        sl = w.run_spec(SPEC, 'chosen_lang', d, path, lang)
        got = v.get_attr(m, 'lang', None)
        rep.equal('the language of the analyzer (%s)' % label, r.where, c.gv(got.under(r.gate)), c.gv(sl.value))
        bad = [e for e in r.raises if c.gate(e.gate, e.binders) != FALSE]
        rep.add('no selection is an error (%s)' % label, not bad or (None if any(unresolved(c.gate(e.gate, e.binders)) for e in
                bad) else False), r.where, '; '.join('raised at %s:%s when %s' % (e.loc[0], e.loc[1], show_gate(
                    c.gate(e.gate, e.binders))[:300]) for e in bad[:2]))
    # mismatch is reported
    w = config_world([AN + 'lang_dict_path'])
    v = w.v
    m, r = construct(w, path=PATH, lang=LANG, units=UNITS_ARG, char_substitutes=SUBS, probability_estimator_cls=NONE,
                     result_type=NONE)
    c = w.canon()
    for s in (PATH, LANG, UNITS_ARG, SUBS):
        fix(c, ops.is_none(s), FALSE)
    d = v.get_attr(m, 'dictionary', None).single()
    warn = FALSE
    for e in calls_to(v, r, lambda f: f is mk('ext', 'warnings.warn')):
        warn = B.or_(warn, c.gate(e.gate, e.binders))
    dl = v.get_attr(d, 'lang', None)
    differ = c.gate(B.not_(v.compare_gv('==', dl, gv(LANG), None)))
    rep.add('a language mismatch is reported', True if B.implies(differ, warn) else None if unresolved(warn) else False,
            r.where, 'warns when %s' % show_gate(warn)[:300])
    # installed packages
    w = config_world()
    v = w.v
    r = w.func(AN + 'lang_dict_path', LANG)
    s = w.run_spec(SPEC, 'installed_path', LANG)
    c = w.canon()
    # packages give paths
    c.assume.append(lambda a: FALSE if a.op == 'isnone' and strip_copy(a.args[0]).op == 'idx' and a.args[0].args[1] is LANG else None)
    rep.equal('the dictionary of an installed language is the one its package provides', r.where,
              c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate)))
    g1, g2 = c.gate(r.gate), c.gate(s.gate)
    rep.add('a language that is not installed is an error', True if g1 == g2 else None if
            unresolved(mk('x', Gate(g1))) or foreign(g1) - foreign(g2) else False, r.where, 'returns when %s' % show_gate(g1)[:400])
    ex = [e for e in r.raises if e.payload and 'ValueError' in repr(e.payload)]
    rep.add('the error is a ValueError', True if len(ex) == len(r.raises) and ex else None, r.where, repr(r.raises)[:300])


def plain_unit(v, t):
    """(class, constructor attributes) of a unit instance"""
    ob = v.obj(t)
    return ob.cls.qualname


def unit_list(v, val):
    """Flat list of unit instances in a constant list of units."""
    out = []
    if isinstance(val, GV):
        val = v.snap_gv(val).single()
    if val is None:
        return None
    if val.op in ('obj', 'objref'):
        val = v.snapshot(v.objs[val.args[0]])
    val = strip_copy(val)
    if val.op == 'inst':
        return [val]
    if val.op in ('tupleof', 'listof'):
        return unit_list(v, val.args[0])
    if val.op == 'tuple':
        xs = val.args
    elif val.op == 'seq' and all(not e.binders and e.gate == TRUE for e in val.args[1]):
        xs = [e.value for e in val.args[1]]
    else:
        return None
    for x in xs:
        y = unit_list(v, x)
        if y is None:
            return None
        out += y
    return out


def unit_params(v, w, t):
    """Values given to the unit's constructor, by name."""
    init = v.find_method(v.obj(t).cls, '__init__')
    if init is None:
        return {}
    a = init.node.args
    names = [x.arg for x in a.args[1:] + a.kwonlyargs]
    out = {}
    for n in names:
        x = v.obj(t).attrs.get(n)
        out[n] = v.snap_gv(x) if x is not None else None
    return out


def check_A25_config(rep):
    for lang, config in (('ru', 'ru'), ('uk', 'uk'), ('ru-old', 'ru')):
        w = analyzer_world()
        v = w.v
        rep.world = w
        m = make_analyzer(w, lang=lang, probability_estimator_cls=NONE, result_type=NONE)
        v.gate = TRUE
        want = unit_list(v, v.lookup(P + 'lang.%s.DEFAULT_UNITS' % config))
        r, us = units_run(w, m, 'parse')
        label = 'units of the %s configuration are used for language %s' % (config, lang)
        if us is None or want is None:
            rep.add(label, None, r.where, 'units not resolved')
        else:
            got = [x[0] for x in us]
            if not all(t.op == 'inst' for t in got):
                rep.add(label, None, r.where, 'units not resolved: %s' % show(got[0])[:200])
            else:
                a = [plain_unit(v, t) for t in got]
                b = [plain_unit(v, t) for t in want]
                d = ''
                ok = a == b
                if not ok:
                    d = '%s instead of %s' % ([x.split('.')[-1] for x in a], [x.split('.')[-1] for x in b])
                else:
                    c = w.canon()
                    for x, y in zip(got, want):
                        px, py = unit_params(v, w, x), unit_params(v, w, y)
                        for n in sorted(py):
                            if px.get(n) is None or py[n] is None:
                                ok = ok and None if ok is not False else ok
                                d = d or '%s of %s not resolved' % (n, plain_unit(v, x))
                            elif not same(c.gv(px[n]), c.gv(py[n])):
                                u = unresolved(c.gv(px[n]))
                                ok = (None if u else False) if ok is not False else False
                                d = '%s of %s is %s' % (n, plain_unit(v, x), pretty(c.gv(px[n]), 200))
                rep.add(label, ok, r.where, d)
        # letter substitutions
        w = config_world()
        v = w.v
        m, r = construct(w, path=const('/x'), lang=const(lang), probability_estimator_cls=NONE, result_type=NONE)
        want = v.snap_gv(v.lookup(P + 'lang.%s.CHAR_SUBSTITUTES' % config))
        comp = [e for e in r.calls if e.payload[0].op in ('attr', 'mcall') and e.payload[0].args[1] == 'compile_replaces']
        label = 'letter substitutions of the %s configuration are used for language %s' % (config, lang)
        if len(comp) != 1:
            rep.add(label, None, r.where, '%d calls of compile_replaces' % len(comp))
        else:
            c = w.canon()
            rep.equal(label, r.where, c.gv(v.snap_gv(arg(comp[0], 0, 'replaces')).under(comp[0].gate)), c.gv(want))
    # explicit ones win
    w = config_world()
    v = w.v
    m, r = construct(w, path=const('/x'), lang=const('uk'), probability_estimator_cls=NONE, result_type=NONE,
                     char_substitutes=SUBS, units=UNITS_ARG)
    c = w.canon()
    for s in (UNITS_ARG, SUBS):
        fix(c, ops.is_none(s), FALSE)
    c.assume.append(lambda a: FALSE if a.op == 'cmp' and a.args[0] == 'is' and SUBS in a.args and any(
        isinstance(x, T) and x.op in ('inst', 'call', 'const') for x in a.args) else None)
    comp = [e for e in r.calls if e.payload[0].op in ('attr', 'mcall') and e.payload[0].args[1] == 'compile_replaces']
    if len(comp) == 1:
        x = c.gv(v.snap_gv(arg(comp[0], 0, 'replaces')).under(comp[0].gate))
        alts = [(g, t) for g, t in x.alts]
        # 'subs or {}' is the empty table for an empty table
        ok = all(t is SUBS or B.implies(g, B.not_(truth_leaf(SUBS))) for g, t in alts)
        rep.add('explicit letter substitutions are used', True if ok else None if unresolved(x) else False, r.where, pretty(x, 300))
    else:
        rep.add('explicit letter substitutions are used', None, r.where, '%d calls of compile_replaces' % len(comp))


# ---------------------------------------------------------------- A11
def check_A11(rep):
    for label, path, lang in cases():
        w = config_world([AN + 'lang_dict_path'])
        v = w.v
        rep.world = w
        given = dict(path=path, lang=lang, result_type=RT, units=UNITS_ARG, probability_estimator_cls=EST, char_substitutes=SUBS)
        m, r0 = construct(w, **given)
        restored(rep, w, m, given, label)
    # defaults
    w = config_world([AN + 'lang_dict_path'])
    v = w.v
    rep.world = w
    m, r0 = construct(w)
    params = init_params(v)
    given = {}
    for n, d in params:
        if d is None:
            rep.add('option %s has a default' % n, None, r0.where, 'no default')
            continue
        given[n] = d
    restored(rep, w, m, given, 'all options left at their default')
    of_its_class(rep)
    for n in sorted(given):
        sentinel(rep, w, n, given[n])


def init_params(v):
    f = v.find_method(v.cls(MA), '__init__')
    a = f.node.args
    names = [x.arg for x in a.args[1:]]
    defs = list(f.defaults)
    out = []
    k = len(names) - len(defs)
    for i, n in enumerate(names):
        out.append((n, defs[i - k] if i >= k else None))
    for x in a.kwonlyargs:
        out.append((x.arg, f.kw_defaults.get(x.arg)))
    return out


def restored(rep, w, m, given, label):
    v = w.v
    r = w.call(m, '__reduce__')
    c = w.canon()
    for s in (PATH, LANG, UNITS_ARG, SUBS, EST, RT):
        fix(c, ops.is_none(s), FALSE)
    f = v.find_method(v.cls(MA), '__init__')
    names = [x.arg for x in f.node.args.args[1:]]
    val = c.gv(r.value.under(r.gate))
    tup = val.single()
    name = 'the restored analyzer gets the same options (%s)' % label
    if tup is None and all(t.op == 'tuple' for g, t in val.alts):
        alts = val.alts
    elif tup is not None and tup.op == 'tuple':
        alts = [(TRUE, tup)]
    else:
        rep.add(name, None, r.where, 'not a tuple: %s' % pretty(val, 300))
        return
    mods = dict(given)
    # units left out: the configuration's units are as good as the default (A25)
    for n in names:
        ok, d = True, ''
        i = names.index(n)
        for g, t in alts:
            if len(t.args) < 2 or t.args[0] is not v.cls(MA).leaf or t.args[1].op != 'tuple':
                ok, d = None, 'not (class, arguments, ...): %s' % pretty(t, 200)
                break
            if len(t.args) > 2 and t.args[2] is not NONE:
                ok, d = None, 'additional state: %s' % pretty(t.args[2], 200)
                break
            a = t.args[1].args
            want = mods.get(n)
            if want is None:
                continue
            want = c.gv(v.snap_gv(want if isinstance(want, GV) else gv(want)))
            if i >= len(a):
                dflt = dict(init_params(v)).get(n)
                ok = same(c.gv(v.snap_gv(dflt)), want) if dflt is not None else False
                d = 'option %s is not passed on' % n
            else:
                x = gv(a[i])
                if not same(x, want) and not as_default(w, c, n, x, want):
                    ok = None if unresolved(x) or foreign(x) - foreign(want) else False
                    d = 'option %s becomes %s instead of %s' % (n, pretty(x, 200), pretty(want, 200))
            if not ok:
                break
        rep.add('option %s of a restored analyzer (%s)' % (n, label), ok, r.where, d)


def of_its_class(rep):
    """What is restored is of the class of the original, which may be a subclass."""
    w = config_world()
    v = w.v
    m = sym('analyzer')
    v.types[m] = v.cls(MA)
    r = w.call(m, '__reduce__')
    own = attr(m, '__class__')
    ok, d = True, ''
    for g, t in r.value.alts:
        if t.op != 'tuple' or not t.args:
            ok, d = None, 'not a tuple: %s' % pretty(t, 200)
        elif t.args[0] is not own:
            ok, d = False if t.args[0] is v.cls(MA).leaf else None, 'restored as %s' % pretty(t.args[0], 200)
        if not ok:
            break
    rep.add('the restored analyzer is of the same class', ok, r.where, d)


def as_default(w, c, n, x, want):
    """Passing on what the default stands for."""
    v = w.v
    if n == 'units' and want.single() is NONE:
        us = unit_list(v, x)
        t = x.single()
        for lang in LANGS:
            d = c.gv(v.snap_gv(v.lookup(P + 'lang.%s.DEFAULT_UNITS' % lang)))
            if same(x, d):
                return True
    return False


def sentinel(rep, w, n, d):
    """A default that is tested by identity must be restored as the same object in another process."""
    v = w.v
    t = d.single() if isinstance(d, GV) else d
    name = 'the default of option %s is restored as the default' % n
    where = w.where(v.cls(MA), '__init__')
    if t is None:
        rep.add(name, None, where, 'not resolved')
        return
    if t is NONE or t.op in ('cls', 'const', 'func'):
        rep.add(name, True, where)
        return
    if t.op == 'inst':
        red = v.find_method(v.obj(t).cls, '__reduce__')
        if red is None:
            new = v.find_method(v.obj(t).cls, '__new__')
            eq = v.find_method(v.obj(t).cls, '__eq__')
            rep.add(name, None if new is not None or eq is not None else False, where,
                    'the default %s is tested by identity and restored as another object' % v.obj(t).cls.qualname)
            return
        r = w.call(t, '__reduce__')
        x = r.value.single()
        if x is not None and x.op == 'const' and isinstance(ops.cval(x), str):
            mod = v.obj(t).cls.qualname.rsplit('.', 1)[0]
            y = v.module(mod).get(ops.cval(x))
            ok = y is not None and y.single() is t
            rep.add(name, ok, r.where, 'the default is restored as %s.%s' % (mod, ops.cval(x)))
        else:
            rep.add(name, None, r.where, pretty(r.value, 200))
        return
    if t.op in ('call', 'mcall'):
        rep.add(name, None if t.op == 'mcall' or show(t.args[0]) != 'builtins.object' else False, where,
                'the default %s has no identity in another process' % show(t))
        return
    rep.add(name, None, where, show(t)[:200])


# ---------------------------------------------------------------- A12
BASE_UNIT = P + 'units.base.BaseAnalyzerUnit'


def unit_classes(v):
    """Analyzer unit classes users or configurations can put into an analyzer."""
    base = v.cls(BASE_UNIT)
    out = []
    for q, k in sorted(v.classes.items()):
        if q.startswith(P + 'units.') and v.subclass_of(k, base) and '<locals>' not in q and \
                not q.split('.')[-1].startswith('_'):
            out.append(k)
    return out


def new_unit(v, k, label=''):
    """(instance created with every option given, names of the options) or (None, reason)"""
    init = v.find_method(k, '__init__')
    kw = {}
    if init is not None:
        a = init.node.args
        for x in a.args[1:] + a.kwonlyargs:
            kw[x.arg] = gv(sym(label + x.arg))
        if a.vararg is not None or a.kwarg is not None:
            return None, 'options of %s are not listed by name' % k.qualname
    v.gate = TRUE
    t = v.instantiate(k.leaf, [], kw, None).single()
    if t is None or t.op != 'inst' or v.gate != TRUE:
        return None, 'not resolved'
    return t, sorted(kw)


def own_attrs(v, t):
    return dict((n, v.snap_gv(x)) for n, x in v.obj(t).attrs.items() if not n.startswith('__'))


def check_A12(rep):
    w = config_world()
    for q, k in w.v.classes.items():
        if q.startswith(P + 'units.'):
            w.v.opaque.discard(q + '.init')
    w.v.opaque.discard(P + 'units.base.BaseAnalyzerUnit.init')
    v = w.v
    v.types[w.morph] = v.cls(MA)
    rep.world = w
    classes = unit_classes(v)
    rep.analysed['unit_classes'] = len(classes)
    for k in classes:
        short = k.qualname.split('.')[-1]
        where = w.where(k, 'clone')
        v.new_epoch()
        t, names = new_unit(v, k)
        name = 'a copy of a %s has all of its options' % short
        if t is None:
            rep.add(name, None, where, names)
            continue
        before = own_attrs(v, t)
        c = w.canon()
        for n in names:
            # giving an option means giving a value; None stands for the default
            fix(c, ops.is_none(sym(n)), FALSE)
        r = w.call(t, 'clone')
        x = r.value.single()
        if x is None or x.op != 'inst':
            rep.add(name, None, r.where, 'not resolved: %s' % pretty(c.gv(r.value), 300))
            continue
        rep.add('a copy of a %s is another object' % short, x is not t, r.where)
        if v.obj(x).cls is not k:
            rep.add(name, False, r.where, 'the copy is a %s' % v.obj(x).cls.qualname)
            continue
        after = own_attrs(v, x)
        ok, d = True, ''
        for n in sorted(before):
            a = c.gv(before[n])
            b = c.gv(after[n]) if n in after else None
            if b is not None and same(a, b):
                continue
            u = b is None or set(unresolved(b)) - set(unresolved(a)) or foreign(b) - foreign(a)
            if ok is not False:
                ok = None if u else False
                d = '%s is %s in the copy of a %s with %s' % (n, 'missing' if b is None else pretty(b, 200), short, pretty(a, 200))
        rep.add(name, ok, r.where, d)
        # binding the copy
        v.new_epoch()
        v.gate = TRUE
        e0 = v.epoch
        y = v.instantiate(k.leaf, [], dict((n, gv(sym(n))) for n in names), None).single()
        f = v.get_attr(y, 'init', None)
        v.call_gv(f, [gv(w.morph)], {}, None)
        bad, unk = foreign_writes(w, list(v.effects), e0)
        rep.add('binding a %s changes no other unit' % short, False if bad else None if unk else True, w.where(k, 'init'),
                '; '.join((bad + unk)[:3]))
    construction(rep)


def is_unit_obj(v, t):
    return t.op == 'inst' and v.obj(t).cls is not None and v.subclass_of(v.obj(t).cls, v.cls(BASE_UNIT))


def foreign_writes(w, effects, e0):
    """Changes of analyzer units or unit classes that existed before (definite, possible)."""
    v = w.v
    bad, unk = [], []
    for e in effects:
        b = e.payload[0]
        at = '%s %s at %s:%s' % (e.kind, e.payload[1], e.loc[0], e.loc[1]) if e.loc else '%s %s' % (e.kind, e.payload[1])
        if b.op == 'cls':
            k = v.classes[b.args[0]]
            if v.subclass_of(k, v.cls(BASE_UNIT)):
                bad.append('%s changes the class %s' % (at, k.qualname))
        elif b.op in ('inst', 'obj', 'objref'):
            o = v.objs[b.args[0]]
            if o.epoch >= e0:
                continue
            if b.op == 'inst':
                if is_unit_obj(v, b):
                    bad.append('%s changes a %s that existed before' % (at, o.cls.qualname))
            else:
                val = e.payload[2]
                vs = [t for x in (val if isinstance(val, (list, tuple)) else [val]) if isinstance(x, (GV, T))
                      for t in ([a for _, a in x.alts] if isinstance(x, GV) else [x])]
                if any(is_unit_obj(v, t) for t in vs):
                    bad.append('%s puts a unit into an object shared by analyzers' % at)
    return bad, unk


def construction(rep):
    for label, build in (('given units', True), ('ru', False), ('uk', False)):
        w = analyzer_world()
        v = w.v
        given = []
        kw = {}
        if build:
            pairs = [new_unit(v, v.cls(P + 'units.' + n)) for n, _ in UNITS[:6]]
            given = [t for t, _ in pairs if t is not None]
            if len(given) < 4:
                rep.add('an analyzer works on copies (%s)' % label, None, MA, 'units not resolved')
                continue
            kw['units'] = mk('tuple', given[0], mk('tuple', *given[1:3]), *given[3:])
        all_units = []
        where = MA
        for n in (1, 2):
            v.new_epoch()
            e0 = v.epoch
            m, r = construct(w, path=const('/x'), lang=const('ru' if build else label), probability_estimator_cls=NONE,
                             result_type=NONE, **kw)
            where = r.where
            e0 = v.obj(m).epoch
            bound, bad, unk = [], [], []
            for e in r.calls:
                f = e.payload[0]
                if f.op == 'attr' and f.args[1] == 'init':
                    b = f.args[0]
                    if b.op != 'inst':
                        unk.append('init of %s' % show(b)[:200])
                    elif v.obj(b).epoch < e0:
                        bad.append('a %s that existed before is bound to the analyzer (%s:%s)' % (
                            v.obj(b).cls.qualname, e.loc[0], e.loc[1]))
                    else:
                        bound.append(b)
            x, y = foreign_writes(w, r.effects, e0)
            bad += x
            unk += y
            if not bound and not bad:
                unk.append('no unit is bound')
            rep.add('an analyzer binds copies of its units only (%s, %d)' % (label, n), False if bad else None if unk else True,
                    where, '; '.join((bad + unk)[:3]))
            _, us = units_run(w, m, 'parse')
            if us is None:
                rep.add('an analyzer uses copies of its units only (%s, %d)' % (label, n), None, where, 'units not resolved')
                all_units.append(None)
                continue
            ts = [u[0] for u in us]
            old = [t for t in ts if t.op == 'inst' and v.obj(t).epoch < e0]
            rep.add('an analyzer uses copies of its units only (%s, %d)' % (label, n), False if old else
                    True if all(t.op == 'inst' for t in ts) else None, where,
                    'uses %s' % ', '.join(v.obj(t).cls.qualname for t in old))
            all_units.append(ts)
            if build:
                want = [v.obj(t).cls.qualname for t in given]
                got = [v.obj(t).cls.qualname for t in ts if t.op == 'inst']
                rep.add('an analyzer uses the given units in the given order (%d)' % n, want == got if len(got) == len(ts) else
                        None, where, 'uses %s' % got)
        if None not in all_units and len(all_units) == 2:
            both = [t for t in all_units[0] if t in all_units[1] and t.op == 'inst']
            rep.add('two analyzers share no unit (%s)' % label, not both, where)
        rep.world = w
