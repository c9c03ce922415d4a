"""Analysis worlds: the value-flow engine set up with symbolic analyzers, units and dictionaries, plus the comparison
of implementation and specification values."""
import ast

from .canon import Canon, unresolved, diff, pretty
from .model import Module, AnalysisError
from .terms import (T, mk, const, NONE, TRUE_T, B, TRUE, FALSE, A, GV, gv, gv_join, Gate, Emission, show, show_gate,
                    subterms, top)
from .ops import seq, mcall, boolt, subst, subst_gate
from .vfg import VFG
from .carried import conflict, STATE

P = 'pymorphy2.'
MA = P + 'analyzer.MorphAnalyzer'
DICT = P + 'opencorpora_dict.wrapper.Dictionary'
TAG = P + 'tagset.OpencorporaTag'

UNITS = [
    ('DictionaryAnalyzer', {}),
    ('AbbreviatedFirstNameAnalyzer', {'letters': 'letters'}),
    ('AbbreviatedPatronymicAnalyzer', {'letters': 'letters'}),
    ('NumberAnalyzer', {}),
    ('PunctuationAnalyzer', {}),
    ('RomanNumberAnalyzer', {}),
    ('LatinAnalyzer', {}),
    ('HyphenSeparatedParticleAnalyzer', {'particles_after_hyphen': 'particles'}),
    ('HyphenAdverbAnalyzer', {}),
    ('HyphenatedWordsAnalyzer', {'skip_prefixes': 'prefixes'}),
    ('KnownPrefixAnalyzer', {'known_prefixes': 'prefixes'}),
    ('UnknownPrefixAnalyzer', {}),
    ('KnownSuffixAnalyzer', {}),
    ('UnknAnalyzer', {}),
]


def sym(n):
    return mk('sym', n)


class Result(object):
    """Value of a call together with what it did."""

    def __init__(self, value, effects, raises, partials, calls, where, warn, gate=TRUE):
        self.gate = gate      # condition under which the call returns
        self.value, self.effects, self.raises, self.partials, self.calls = value, effects, raises, partials, calls
        self.where = where
        self.warn = warn


class _Assuming(object):
    def __init__(self, w, gate):
        self.w, self.gate = w, gate

    def __enter__(self):
        self.old = self.w.base_gate
        self.w.base_gate = B.and_(self.old, self.gate)

    def __exit__(self, *a):
        self.w.base_gate = self.old


class World(object):
    RESOLVE = False
    PATCH = {}            # module -> code to analyse at its end
    KEEP_SETS = False     # iterating over a set is kept apart from iterating over what it was made of
    OPAQUE = [MA + '.parse', MA + '.tag', P + 'dawg.WordsDawg', DICT + '.__init__']

    def __init__(self, opaque=None, backend=None, typed_morph=True):
        self.v = v = VFG(opaque=self.OPAQUE if opaque is None else opaque)
        v.resolve_old = World.RESOLVE
        v.keep_sets = World.KEEP_SETS
        for name, src in World.PATCH.items():
            old = v.program.modules[name]
            tree = ast.Module(old.tree.body + ast.parse(src).body, [])
            v.program.modules[name] = Module(old.name, old.path, tree, old.src, old.is_pkg)
        v.load_all()
        v.warn_top = []
        self.morph = sym('morph')
        if typed_morph:
            v.types[self.morph] = v.cls(MA)
        v.attr_types[(MA, 'dictionary')] = DICT
        self.base_gate = TRUE
        self.units = {}
        self.backend = backend
        self.nspec = 0
        self.canon_names = {}

    # ---- units
    def unit(self, name, suffix='', **over):
        k = (name, suffix)
        if k in self.units:
            return self.units[k]
        args = dict(UNITS).get(name, {})
        c = self.v.cls(P + 'units.' + name)
        kw = dict((a, gv(sym(s))) for a, s in args.items())
        kw.update((a, gv(x)) for a, x in over.items())
        leaf = self.v.instantiate(c.leaf, [], kw, None).single()
        init = self.v.get_attr(leaf, 'init', None)
        self.v.call_gv(init, [gv(self.morph)], {}, None)
        self.v.new_epoch()
        self.units[k] = leaf
        self.canon_names[leaf] = 'self'
        return leaf

    def where(self, cls, meth):
        m = self.v.find_method(cls, meth)
        if m is None:
            return cls.qualname
        return self.where_func(m)

    def where_func(self, fn):
        f = fn
        mod = self.v.program.modules.get(f.module)
        return '%s:%s %s' % (mod.relpath if mod else f.module, getattr(f.node, 'lineno', '?'), f.qualname)

    def call(self, base, meth, *args, **kw):
        v = self.v
        v.new_epoch()
        v.gate = self.base_gate
        v.warn_top = []
        b = base if isinstance(base, GV) else gv(base)
        f = v.attr_gv(b, meth, None)
        if f is None:
            raise AnalysisError('no attribute %s' % meth)
        r = v.call_gv(f, [a if isinstance(a, GV) else gv(a) for a in args],
                      dict((k, a if isinstance(a, GV) else gv(a)) for k, a in kw.items()), None)
        return self.pack(r, f)

    def func(self, dotted, *args, **kw):
        v = self.v
        v.new_epoch()
        v.gate = self.base_gate
        v.warn_top = []
        f = v.lookup(dotted)
        r = v.call_gv(f, [a if isinstance(a, GV) else gv(a) for a in args],
                      dict((k, a if isinstance(a, GV) else gv(a)) for k, a in kw.items()), None)
        return self.pack(r, f)

    def under(self, gate):
        return _Assuming(self, gate)

    def pack(self, r, f):
        v = self.v
        t = f.single() if isinstance(f, GV) else f
        where = '?'
        if t is not None:
            while t.op == 'bound':
                t = t.args[0]
            if t.op == 'func':
                where = self.where_func(v.funcs[t.args[0]])
            else:
                where = show(t)
        r = self.changed_in_place(v.snap_gv(r))
        return Result(r, list(v.effects), list(v.raises), list(v.partials), list(v.calls), where, list(v.warn_top), v.gate)

    REORDER = ('sort', 'reverse')

    def changed_in_place(self, r):
        """A list made by a library call and changed afterwards is not the list the call returned."""
        v = self.v
        new = dict((e.payload[0], top('changed in place by %s' % e.payload[1])) for e in v.effects
                   if e.kind in ('mutate', 'setitem') and isinstance(e.payload[0], T) and e.payload[0].op == 'mcall'
                   and e.payload[0].args[1] in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'findall', 'copy')
                   and e.payload[1] not in self.REORDER)
        if not new:
            return r
        return gv_join([(subst_gate(g, new), subst(t, new)) for g, t in r.alts])

    # ---- specification code
    def spec(self, src, name=None):
        """Load specification source (parsed and analysed like the implementation, never run)."""
        self.nspec += 1
        name = name or 'pmspec.s%d' % self.nspec
        m = Module(name, '/spec/%s.py' % name, ast.parse(src), src, False)
        self.v.program.modules[name] = m
        ns = self.v.module(name)
        self.v.new_epoch()
        return name

    def run_spec(self, src, fname, *args, **kw):
        if src not in self.__dict__.setdefault('_specs', {}):
            self._specs[src] = self.spec(src)
        return self.func(self._specs[src] + '.' + fname, *args, **kw)

    # ---- canonical forms
    def canon(self, **kw):
        c = Canon(self.v, **kw)
        c.names = self.canon_names
        if self.backend is not None:
            c.assume.append(lambda a: (TRUE if self.backend == 'slow' else FALSE)
                            if a.op == 'noimport' and 'dawg' in repr(a.args) else None)
        return c


PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'


class Obligation(object):
    def __init__(self, name, status, where, detail='', key=None):
        self.name, self.status, self.where, self.detail = name, status, where, detail
        self.key = key or name


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []
        self.notes = []
        self.analysed = {}
        self.expected = None

    def add(self, name, ok, where, detail='', unknown=None):
        """ok: True proved, False refuted, None unknown"""
        st = PROVED if ok else (UNKNOWN if ok is None else REFUTED)
        self.obligations.append(Obligation(name, st, where, detail))
        return st

    def equal(self, name, where, a, b, extra_unknown=False):
        """a: implementation value, b: specification value (both canonical)."""
        if same(a, b):
            return self.add(name, True, where)
        ua = set(unresolved(a))
        ub = set(unresolved(b))
        bad = (ua - ub) | (foreign(a) - foreign(b))
        d = diff(a, b)
        detail = '; '.join('at %s: code gives %s, required %s' % (p or 'value', pretty(x, 300), pretty(y, 300))
                           for p, x, y in d[:3])
        if bad and not extra_unknown and all(x.op in STATE for x in bad):
            why = conflict(a, b)
            if why:
                return self.add(name, False, where, why)
        if bad or extra_unknown:
            return self.add(name, None, where, 'not resolved (%s): %s' % (', '.join(pretty(x, 80) for x in
                                                                                    sorted(bad, key=lambda t: t.uid)[:3]), detail))
        return self.add(name, False, where, detail)

    def count(self, status):
        return sum(1 for o in self.obligations if o.status == status)


FOREIGN = set("""partition rpartition rsplit translate format format_map splitlines count find rfind index rindex zfill
group groups groupdict match search finditer fullmatch findall sub span casefold expandtabs encode decode""".split())
PLAIN = set("""builtins.int builtins.float builtins.getattr builtins.ord builtins.chr builtins.hash builtins.round os.path.join
builtins.ValueError builtins.TypeError builtins.KeyError""".split())


def foreign(x):
    """Applications of library operations the comparison knows nothing about."""
    out = set()
    todo = []
    if isinstance(x, GV):
        for g, t in x.alts:
            todo.append(t)
            todo.extend(B.support_atoms(g))
    elif isinstance(x, int):
        todo.extend(B.support_atoms(x))
    elif isinstance(x, T):
        todo.append(x)
    seen = set()
    for t in todo:
        for s in subterms(t, seen):
            if s.op == 'call' and s.args[0].op == 'ext' and s.args[0].args[0] not in PLAIN:
                out.add(s.args[0])
            elif s.op == 'mcall' and (s.args[1] in FOREIGN or s.args[0].op == 'ext'):
                out.add(const('.' + s.args[1]))
            elif s.op in ('reduce', 'sum') or s.op == 'bin' and s.args[0] in ('<<', '>>', '^'):
                out.add(const(s.op))
    return out


def same(a, b):
    if isinstance(a, GV) and isinstance(b, GV):
        return set(a.alts) == set(b.alts)
    if isinstance(a, GV):
        return len(a.alts) == 1 and a.alts[0][0] == TRUE and same(a.alts[0][1], b)
    if isinstance(b, GV):
        return same(b, a)
    return a is b or (not isinstance(a, T) and a == b)


def both_modes(fn):
    """
    Decide every obligation under two views of state kept on analyzer objects: as an unknown object, and as the value
    its initialisation computed (no method changes it afterwards: property A09).  One view suffices for a proof.
    """
    def run(rep):
        reps = []
        errs = []
        for mode in (False, True):
            r = Report(rep.prop)
            World.RESOLVE = mode
            try:
                fn(r)
            except AnalysisError:
                raise
            except Exception as e:
                errs.append(e)
            finally:
                World.RESOLVE = False
            reps.append(r)
        a, b = reps
        if len(errs) == 2:
            rep.obligations.extend(a.obligations)
            raise errs[0]
        rep.world = getattr(a, 'world', None) or getattr(b, 'world', None)
        rep.notes.extend(x for x in a.notes if x not in rep.notes)
        other = dict((o.name, o) for o in b.obligations)
        for o in a.obligations:
            p = other.pop(o.name, None)
            rep.obligations.append(pick(o, p))
        rep.obligations.extend(other.values())
    run.__name__ = fn.__name__
    return run


def pick(o, p):
    if p is None or o.status == PROVED:
        return o
    if p.status == PROVED:
        return p
    return o if o.status == REFUTED else p
