"""Gated value-flow construction.

Walks the syntax tree of a function once (no path enumeration, no loop
unrolling except over literal sequences) and builds, for every definition and
every effect, the gated value that reaches it.  Repository helpers are
inlined, so the result does not depend on how the code is split up.
"""
import ast
import builtins

from . import ops
from .canon import MEMOS
from .model import AnalysisError, Program, PKG
from .ops import (boolt, seq, plain_items, single_map, truth, truth_leaf, exists, compare, member, idx, slice_, add,
                  length, attr, mcall, to_str, binop, subst, subst_gate, strip_copy, isstr, isnum, cval, concat,
                  is_none)
from .terms import (T, mk, const, is_const, NONE, TRUE_T, FALSE_T, top, B, TRUE, FALSE, A, GV, gv, gv_join, gv_ite,
                    lift, Gate, Emission, elem, new_binder, BINDER_STOP, show, show_gate, subterms, elems_in,
                    gate_elems)

KEYVAR = mk('keyvar')
MUTATORS = set(['append', 'add', 'update', 'extend', 'pop', 'clear', 'sort', 'setdefault', 'remove', 'discard',
                'insert', 'popitem', 'reverse', 'appendleft', 'popleft', '__setitem__', '__delitem__',
                'intersection_update', 'difference_update', 'symmetric_difference_update'])



def partition(srcs):
    """Exactly one of the values stands for every item of one loop."""
    if not srcs or any(len(bs) != 1 or bs[0] is not srcs[0][0][0] for bs, g, v in srcs) or BINDER_STOP.get(srcs[0][0][0]):
        return False
    total = FALSE
    for _, g, _ in srcs:
        if B.and_(total, g) != FALSE:
            return False
        total = B.or_(total, g)
    return total == TRUE


class Obj(object):
    n = 0

    def __init__(self, kind, epoch, loc, binders, cls=None, gate=TRUE):
        Obj.n += 1
        self.bgate = gate
        self.oid = Obj.n
        self.kind = kind
        self.epoch = epoch
        self.loc = loc
        self.birth = tuple(binders)
        self.cls = cls
        self.attrs = {}
        self.events = []
        self.default = None
        self.name = None
        self.frozen = False
        self.touched = False


class Event(object):
    __slots__ = ('kind', 'gate', 'binders', 'payload', 'loc', 'locks', 'seqno')

    def __init__(self, kind, gate, binders, payload, loc, locks=(), seqno=0):
        self.kind, self.gate, self.binders, self.payload = kind, gate, tuple(binders), payload
        self.loc, self.locks, self.seqno = loc, tuple(locks), seqno

    def __repr__(self):
        return 'Event(%s %r if %s @%s)' % (self.kind, self.payload, show_gate(self.gate), self.loc)


class Func(object):
    n = 0

    def __init__(self, node, module, qualname, cls, closure):
        Func.n += 1
        self.fid = Func.n
        self.node, self.module, self.qualname, self.cls, self.closure = node, module, qualname, cls, closure
        self.defaults = []
        self.kw_defaults = {}
        self.kind = None      # None | static | class | property
        self.is_gen = False
        self.is_coro = False
        if not isinstance(node, ast.Lambda):
            ys = [x for x in walk_scope(node.body) if isinstance(x, (ast.Yield, ast.YieldFrom))]
            self.is_gen = bool(ys)
            for st in walk_scope(node.body):
                if isinstance(st, (ast.Assign, ast.AugAssign)) and isinstance(st.value, ast.Yield):
                    self.is_coro = True
        self.leaf = mk('func', self.fid)


class ClassInfo(object):
    def __init__(self, qualname, name, module, bases, node):
        self.qualname, self.name, self.module, self.bases, self.node = qualname, name, module, bases, node
        self.attrs = {}
        self.fields = None     # namedtuple fields
        self.leaf = mk('cls', qualname)


class Frame(object):
    def __init__(self, func, module, env, closure, cls=None):
        self.func, self.module, self.env, self.closure, self.cls = func, module, env, closure, cls
        self.returns = []
        self.yields = None
        self.base_binders = 0
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Handler(object):
    def __init__(self, types, depth):
        self.types, self.depth = types, depth
        self.gates = [FALSE for _ in types]


class LoopCtx(object):
    def __init__(self, depth):
        self.depth = depth
        self.breaks = FALSE
        self.break_raw = []


def walk_scope(nodes):
    """ast.walk without entering nested function/class scopes."""
    stack = list(nodes) if isinstance(nodes, list) else [nodes]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def assigned_names(nodes):
    out = []
    for n in walk_scope(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
    return out


def rebound_names(nodes):
    """Names that are assigned other than by an augmented assignment."""
    aug = set()
    for n in walk_scope(nodes):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and type(n.op) in (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd):
            aug.add(id(n.target))
    return set(n.id for n in walk_scope(nodes) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))
               and id(n) not in aug)


EXC_PARENTS = {
    'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'LookupError': ['Exception'],
    'ValueError': ['Exception'], 'UnicodeDecodeError': ['UnicodeError'], 'UnicodeEncodeError': ['UnicodeError'],
    'UnicodeError': ['ValueError'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
    'ZeroDivisionError': ['ArithmeticError'], 'OverflowError': ['ArithmeticError'], 'ArithmeticError': ['Exception'],
    'ImportError': ['Exception'], 'ModuleNotFoundError': ['ImportError'], 'StopIteration': ['Exception'],
    'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'RecursionError': ['RuntimeError'],
    'OSError': ['Exception'], 'IOError': ['Exception'], 'FileExistsError': ['OSError'],
    'AssertionError': ['Exception'], 'Exception': ['BaseException'], 'EnvironmentError': ['OSError'],
    'FileNotFoundError': ['OSError'],
}
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


def exc_matches(exc, handler):
    exc = EXC_ALIAS.get(exc, exc)
    handler = EXC_ALIAS.get(handler, handler)
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e == handler:
            return True
        if e in seen:
            continue
        seen.add(e)
        todo.extend(EXC_PARENTS.get(e, []))
    return False


def taken_from(t, total):
    """n when the term is total - n"""
    if t.op == 'bin' and t.args[0] == '-' and t.args[1] is total:
        return t.args[2]
    if t.op == 'add' and len(t.args) == 2 and total in t.args:
        (x,) = [x for x in t.args if x is not total] or [total]
        return x.args[0] if x.op == 'neg' else None
    return None


def within(it, total):
    """The range holds numbers from 1 to the total at most."""
    if it.op != 'range' or len(it.args) != 2:
        return False
    lo, hi = it.args

    def parts(t, name):
        if isinstance(t, tuple):
            return [y for x in t for y in parts(x, name)]
        if not isinstance(t, T):
            return []
        if t.op in (name, 'tuple'):
            return parts(t.args, name)
        return [t]
    low = any(isnum(x) and cval(x) >= 1 for x in parts(lo, 'max'))
    if hi is total:
        return low
    if hi.op != 'add' or len(hi.args) != 2 or const(1) not in hi.args:
        return False
    (top_,) = [x for x in hi.args if x is not const(1)] or [const(1)]
    return low and any(x is total for x in parts(top_, 'min'))


def distinct_keys(ems):
    """Entries of a dictionary that cannot replace each other."""
    if not any(e.binders for e in ems):
        return True
    if len(ems) != 1:
        return False
    (e,) = ems
    key = idx(e.value, const(0))
    parts = key.args if key.op == 'tuple' else (key,)
    return all(any(names_item(p, b) for p in parts) for b in e.binders)


def names_item(t, b):
    """No two items of the loop have the same value of the term."""
    it = strip_copy(b.args[1])
    while it.op in ('sorted', 'reversed', 'listof', 'tupleof'):
        it = strip_copy(it.args[0])
    x = elem(b)
    if t is mk('index', b):
        return True
    if t is x:
        return it.op in ('range', 'setof', 'frozensetof', 'enumerate') or it.op == 'mcall' and it.args[1] in ('keys', 'items') or \
            it.op == 'seq' and it.args[0] in ('set', 'frozenset') or it.op in ('dict', 'sym', 'attr')
    if t.op == 'idx' and t.args[0] is x and is_const(t.args[1], 0):
        return it.op == 'enumerate' or it.op == 'mcall' and it.args[1] in ('items', 'iteritems')
    return False


class VFG(object):
    def __init__(self, program=None, opaque=(), opaque_globals=()):
        self.program = program or Program()
        self.opaque = set(opaque)
        self.opaque_globals = set(opaque_globals)
        self.objs = {}
        self.funcs = {}
        self.classes = {}
        self.mod_ns = {}
        self.mod_busy = set()
        self.epoch = 0
        self.gate = TRUE
        self.binders = []
        self.locks = []
        self.handlers = []
        self.frames = []
        self.loops = []
        self.loc = None
        self.types = {}
        self.attr_types = {}
        self.symattrs = {}
        self.effects = []
        self.partials = []
        self.raises = []
        self.acquired = []
        self.calls = []        # opaque calls: Event
        self.seqno = 0
        self.callstack = []
        self.resolve_old = False
        self.keep_sets = False
        self.expand_dicts = False
        self.transparent = set(['pymorphy2.cache.memoized_with_single_argument'])
        self.stats = {'functions': set(), 'call_sites': set(), 'notes': []}
        self.genused = set()
        self.assigned_attrs = None
        self.inline_unique = True
        self.unique_methods = None
        self.warn_top = []
        self.max_depth = 40
        self.in_trial = False
        self.pending = []      # [(oid -> number of events at loop entry)]

    # ------------------------------------------------------------- utilities
    def here(self, node=None):
        f = self.frames[-1] if self.frames else None
        m = f.module if f else None
        qn = f.func.qualname if f and f.func else '<module>'
        ln = getattr(node, 'lineno', None)
        if ln is None:
            ln = self.loc[1] if self.loc else 0
        path = self.program.modules[m].relpath if m in self.program.modules else str(m)
        return (path, ln, qn)

    def tick(self):
        self.seqno += 1
        return self.seqno

    def new_obj(self, kind, node=None, cls=None):
        o = Obj(kind, self.epoch, self.here(node), self.binders, cls, self.gate)
        self.objs[o.oid] = o
        return o

    def leaf_of(self, o):
        return mk('inst' if o.kind == 'inst' else 'obj', o.oid)

    def obj(self, leaf):
        return self.objs[leaf.args[0]]

    def top(self, reason, node=None):
        loc = self.here(node)
        self.warn_top.append((reason, loc))
        return top('%s at %s:%s' % (reason, loc[0], loc[1]))

    def new_epoch(self):
        """Everything allocated so far becomes pre-existing state."""
        self.epoch += 1
        self.effects = []
        self.partials = []
        self.raises = []
        self.calls = []
        self.acquired = []

    # --------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mod_ns:
            return self.mod_ns[name]
        if name not in self.program.modules:
            raise AnalysisError('module %s not found' % name)
        m = self.program.modules[name]
        parent = name.rpartition('.')[0]
        if parent and parent in self.program.modules:
            self.module(parent)
            if name in self.mod_ns:
                return self.mod_ns[name]
        ns = self.mod_ns[name] = {}
        ns['__name__'] = gv(const(name))
        fr = Frame(None, name, ns, [])
        saved = (self.gate, self.binders, self.handlers, self.loops, self.frames, self.locks, self.callstack)
        self.gate, self.binders, self.handlers, self.loops, self.locks = TRUE, [], [], [], []
        self.frames = [fr]
        self.callstack = []
        try:
            self.exec_block(m.tree.body)
        finally:
            (self.gate, self.binders, self.handlers, self.loops, self.frames, self.locks, self.callstack) = saved
        if parent and parent in self.mod_ns:
            self.mod_ns[parent].setdefault(name.rpartition('.')[2], gv(mk('mod', name)))
        return ns

    def load_all(self):
        for n in sorted(self.program.modules):
            if not n.endswith('__main__'):
                self.module(n)
        for qn, c in list(self.classes.items()):
            pass
        self.new_epoch()

    def lookup(self, dotted):
        """Resolve 'pkg.mod.Class.attr' to a GV (public anchors)."""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            mn = '.'.join(parts[:k])
            if mn in self.program.modules:
                ns = self.module(mn)
                rest = parts[k:]
                break
        else:
            raise AnalysisError('%s not found' % dotted)
        if not rest:
            return gv(mk('mod', mn))
        if rest[0] not in ns:
            raise AnalysisError('public name %s not found' % dotted)
        v = ns[rest[0]]
        for r in rest[1:]:
            t = v.single()
            if t is None:
                raise AnalysisError('%s is ambiguous' % dotted)
            v = self.get_attr(t, r, None)
            if v is None:
                raise AnalysisError('public name %s not found' % dotted)
        return v

    def cls(self, dotted):
        t = self.lookup(dotted).single()
        if t is None or t.op != 'cls':
            raise AnalysisError('class %s not found' % dotted)
        return self.classes[t.args[0]]

    def mro(self, c):
        """Simplified MRO (depth first, left to right; sufficient for linear hierarchies)."""
        out = []

        def go(x):
            if x in out:
                out.remove(x)
            out.append(x)
            for b in x.bases:
                if b.op == 'cls':
                    go(self.classes[b.args[0]])
        go(c)
        return out

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name], k
        return None, None

    def subclass_of(self, c, d):
        return d in self.mro(c)

    def find_method(self, c, name):
        v, k = self.class_attr(c, name)
        if v is None:
            return None
        t = v.single()
        if t is not None and t.op == 'func':
            return self.funcs[t.args[0]]
        return None

    def attr_assigned_in_class(self, c, name):
        """Is self.<name> / cls.<name> assigned in any method of the hierarchy (or any subclass)?"""
        if self.assigned_attrs is None:
            self.assigned_attrs = {}
            for m in self.program.modules.values():
                for cn in [n for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)]:
                    s = self.assigned_attrs.setdefault(m.name + '.' + cn.name, set())
                    for n in ast.walk(cn):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            s.add(n.attr)
        fam = set(k.qualname for k in self.mro(c))
        for q, k in self.classes.items():
            if c in self.mro(k):
                fam.add(q)
        return any(name in self.assigned_attrs.get(q, ()) for q in fam)

    # ----------------------------------------------------------- environment
    def read_name(self, name, node=None):
        fr = self.frames[-1]
        if name in fr.env and name not in fr.globals_decl:
            v = fr.env[name].under(self.gate)
            if v.alts:
                return v
        for cf in reversed(fr.closure):
            if name in cf.env:
                v = cf.env[name].under(self.gate)
                if v.alts:
                    return v
        ns = self.mod_ns.get(fr.module, {})
        dotted = fr.module + '.' + name
        if dotted in self.opaque_globals:
            return gv(mk('global', dotted))
        if name in ns:
            v = ns[name].under(self.gate)
            if v.alts:
                return self.redirect(v)
        if hasattr(builtins, name) or name in ('unicode', 'long', 'xrange', 'basestring'):
            return gv(mk('ext', 'builtins.' + name))
        return gv(self.top('unbound name %s' % name, node))

    def redirect(self, v):
        """Names imported from an opaque global."""
        t = v.single()
        if t is not None and t.op == 'cls' and t.args[0] in self.opaque_globals:
            return gv(mk('global', t.args[0]))
        if any(x.op == 'cls' and x.args[0] in self.opaque_globals for _, x in v.alts):
            return v
        return v

    def write_name(self, name, v):
        fr = self.frames[-1]
        env = fr.env
        if name in fr.globals_decl:
            env = self.mod_ns[fr.module]
            if self.frames[0].func is not None or len(self.frames) > 1:
                self.effect('global', mk('mod', fr.module), name, v)
        elif name in fr.nonlocal_decl:
            for cf in reversed(fr.closure):
                if name in cf.env:
                    env = cf.env
                    break
        old = env.get(name)
        env[name] = self.guarded(v, old)

    def guarded(self, v, old):
        g = self.gate
        if g == TRUE:
            return v
        alts = [(B.and_(g, a), t) for a, t in v.alts]
        if old is not None:
            ng = B.not_(g)
            alts += [(B.and_(ng, a), t) for a, t in old.alts]
        return gv_join(alts)

    # ---------------------------------------------------------------- effects
    def effect(self, kind, base, name, value, node=None):
        e = Event(kind, self.gate, self.binders, (base, name, value), self.here(node), self.locks, self.tick())
        self.effects.append(e)
        if kind == 'setitem' and isinstance(base, T) and base.op == 'attr' and base.args[1] not in MEMOS and any(
                a.op == 'in' and a.args[1] is base and B.constrain(self.gate, B.atom(a)) == FALSE
                for a in B.support_atoms(self.gate)):
            MEMOS.add(base.args[1])
        return e

    def partial(self, kind, term, excs, node, fail=None, operands=()):
        """An operation that may raise.  fail: gate under which it raises (or None = unknown)."""
        caught = None
        for h in reversed(self.handlers):
            for i, (ht, _) in enumerate(h.types):
                if any(exc_matches(x, y) for x in excs for y in ht):
                    caught = (h, i)
                    break
            if caught:
                break
        if fail is None:
            fail = A('raises', kind, term)
        self.partials.append(Event('partial', self.gate, self.binders,
                                   {'kind': kind, 'term': term, 'excs': excs, 'caught': bool(caught), 'fail': fail,
                                    'operands': tuple(operands),
                                    'covered': tuple(x for x in excs if any(exc_matches(x, y) for h in self.handlers
                                                                            for ht, _ in h.types for y in ht))},
                                   self.here(node), self.locks, self.tick()))
        if caught:
            h, i = caught
            g = B.and_(self.gate, fail)
            h.gates[i] = B.or_(h.gates[i], exists(self.binders[h.depth:], g))
            self.gate = B.and_(self.gate, B.not_(fail))

    def do_raise(self, excname, value, node):
        caught = None
        for h in reversed(self.handlers):
            for i, (ht, _) in enumerate(h.types):
                if any(exc_matches(excname, y) for y in ht):
                    caught = (h, i)
                    break
            if caught:
                break
        if caught:
            h, i = caught
            h.gates[i] = B.or_(h.gates[i], exists(self.binders[h.depth:], self.gate))
        else:
            self.raises.append(Event('raise', self.gate, self.binders, (excname, value), self.here(node),
                                     self.locks, self.tick()))
        self.gate = FALSE

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.gate == FALSE:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.top('unsupported statement %s' % type(s).__name__, s)
            for n in assigned_names([s]):
                self.write_name(n, gv(self.top('unsupported statement', s)))
            return
        saved = self.loc
        self.loc = (None, s.lineno)
        m(s)
        self.loc = saved

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Import(self, s):
        for a in s.names:
            self.import_check(a.name, s)
            if a.asname:
                self.write_name(a.asname, gv(self.modleaf(a.name)))
            else:
                self.modleaf(a.name)
                self.write_name(a.name.split('.')[0], gv(self.modleaf(a.name.split('.')[0])))

    def modleaf(self, name):
        if name == PKG or name.startswith(PKG + '.'):
            if name in self.program.modules:
                if name not in self.mod_ns:
                    self.module(name)
                return mk('mod', name)
        return mk('ext', name)

    def import_check(self, name, node):
        if name == PKG or name.startswith(PKG + '.') or name.startswith('__future__'):
            return
        if self.handlers:
            std = ('os', 'sys', 'itertools', 'collections', 'json', 'codecs', 'heapq', 'functools')
            if name.split('.')[0] not in std or name in ('xml.etree.cElementTree',):
                self.partial('import', mk('ext', name), ('ImportError',), node, fail=A('noimport', name))

    def x_ImportFrom(self, s):
        if s.module == '__future__':
            return
        fr = self.frames[-1]
        if s.level:
            pm = self.program.modules[fr.module]
            base = fr.module.split('.')
            if not pm.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        self.import_check(name, s)
        for a in s.names:
            if a.name == '*':
                if name in self.program.modules:
                    ns = self.module(name)
                    for k, v in list(ns.items()):
                        if not k.startswith('_'):
                            self.write_name(k, v)
                continue
            tgt = a.asname or a.name
            if name in self.program.modules:
                ns = self.module(name)
                if name + '.' + a.name in self.opaque_globals:
                    self.write_name(tgt, gv(mk('global', name + '.' + a.name)))
                elif a.name in ns:
                    self.write_name(tgt, ns[a.name])
                elif name + '.' + a.name in self.program.modules:
                    self.module(name + '.' + a.name)
                    self.write_name(tgt, gv(mk('mod', name + '.' + a.name)))
                else:
                    if self.handlers:
                        self.do_raise('ImportError', None, s)
                        return
                    self.write_name(tgt, gv(self.top('import of unknown name %s.%s' % (name, a.name), s)))
            else:
                self.write_name(tgt, gv(mk('ext', name + '.' + a.name)))

    def x_Global(self, s):
        self.frames[-1].globals_decl.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocal_decl.update(s.names)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        f = self.make_func(s, s.name)
        v = gv(f.leaf)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, f)
        self.write_name(s.name, v)

    def make_func(self, node, name):
        fr = self.frames[-1]
        if fr.cls is not None:
            qn = fr.cls.qualname + '.' + name
            closure = fr.closure
        elif fr.func is not None:
            qn = fr.func.qualname + '.' + name
            closure = fr.closure + [fr]
        else:
            qn = fr.module + '.' + name
            closure = []
        f = Func(node, fr.module, qn, fr.cls, list(closure))
        self.funcs[f.fid] = f
        f.defaults = [self.ev(d) for d in node.args.defaults]
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                f.kw_defaults[a.arg] = self.ev(d)
        return f

    def apply_decorator(self, d, v, f):
        if isinstance(d, ast.Name) and d.id in ('property', 'classmethod', 'staticmethod'):
            f.kind = {'property': 'property', 'classmethod': 'class', 'staticmethod': 'static'}[d.id]
            return v
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            return v
        dv = self.ev(d)
        t = dv.single()
        if t is not None:
            if t.op == 'ext' and t.args[0].split('.')[-1] in ('wraps', 'lru_cache', 'cached_property'):
                return v
            if t.op == 'call' and show(t.args[0]).split('.')[-1] in ('wraps', 'lru_cache', 'clru_cache'):
                return v
            if t.op == 'transparent':
                return v
            if t.op in ('func', 'bound', 'partial'):
                return self.call_leaf(t, [v], {}, d)
        return v

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        if fr.cls is not None:
            qn = fr.cls.qualname + '.' + s.name
        elif fr.func is not None:
            qn = fr.func.qualname + '.' + s.name
        else:
            qn = fr.module + '.' + s.name
        bases = []
        for b in s.bases:
            bv = self.ev(b)
            t = bv.single()
            if t is None:
                # e.g. DAWG from one of two backends
                t = mk('extalt', tuple(x for _, x in bv.alts))
            bases.append(t)
        c = ClassInfo(qn, s.name, fr.module, bases, s)
        self.classes[qn] = c
        for b in bases:
            if b.op == 'cls' and self.classes[b.args[0]].fields:
                c.fields = self.classes[b.args[0]].fields
            if b.op == 'ntcls':
                c.fields = b.args[1]
        nf = Frame(fr.func, fr.module, c.attrs, fr.closure + ([fr] if fr.func is not None else []), cls=c)
        nf.func = fr.func
        self.frames.append(nf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        v = gv(c.leaf)
        self.write_name(s.name, v)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else gv(NONE)
        fr = self.frames[-1]
        if self.gate != FALSE:
            fr.returns.append((self.gate, tuple(self.binders[fr.base_binders:]), v, len(self.loops), self.here(s)))
        self.gate = FALSE

    def x_Raise(self, s):
        name = 'Exception'
        val = None
        if s.exc is not None:
            e = s.exc
            n = e.func if isinstance(e, ast.Call) else e
            if isinstance(n, ast.Name):
                name = n.id
            elif isinstance(n, ast.Attribute):
                name = n.attr
            val = self.ev(e)
        self.do_raise(name, val, s)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if c != TRUE:
            self.partials.append(Event('partial', self.gate, self.binders,
                                       {'kind': 'assert', 'term': boolt(c), 'excs': ('AssertionError',),
                                        'caught': False, 'fail': B.not_(c), 'operands': ()},
                                       self.here(s), self.locks, self.tick()))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                sl = t.slice
                full = isinstance(sl, ast.Slice) and sl.lower is None and sl.upper is None and sl.step is None
                key = None if isinstance(sl, ast.Slice) else self.ev(sl)
                for g, leaf in base.alts:
                    with self.under(g):
                        self.mutate(leaf, 'clear' if full else 'delitem', [key] if key is not None else [], {}, s)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value)
                for g, leaf in base.alts:
                    with self.under(g):
                        self.effect('delattr', leaf, t.attr, None, s)

    def x_Assign(self, s):
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value)
        else:
            v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def x_AugAssign(self, s):
        op = OPS[type(s.op)]
        val = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.read_name(t.id, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.attr_gv(base, t.attr, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev_slice(t.slice)
            cur = self.subscript(base, key, s)
        else:
            return
        # in-place on mutable containers
        handled = FALSE
        for g, leaf in cur.alts:
            if leaf.op == 'obj' and op in ('+', '|', '-', '&'):
                with self.under(g):
                    meth = {'+': 'extend', '|': 'update', '-': 'difference_update', '&': 'intersection_update'}[op]
                    self.mutate(leaf, meth, [val], {}, s)
                handled = B.or_(handled, g)
        if cur.alts and B.implies(B.and_(self.gate, cur.domain()), handled):
            if isinstance(t, ast.Name):
                return
            if isinstance(t, ast.Attribute):
                for g, leaf in base.alts:
                    if leaf.op != 'inst':
                        pass
                return
            return
        new = self.binop_gv(op, cur, val, s, augmented=True)
        if isinstance(t, ast.Name):
            self.write_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.set_attr(base, t.attr, new, s)
        else:
            self.set_item(base, key, new, s, aug=(op, val))

    def under(self, g):
        return _Under(self, g)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.write_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, node)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev_slice(t.slice)
            self.set_item(base, key, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def unpack(self, t, v, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = v.map(lambda x: self.snap_if_fresh(x))
        for g, leaf in v.alts:
            known = plain_items(leaf)
            if known is not None and not star and len(known) != n:
                self.partial('unpack', leaf, ('ValueError',), node, fail=TRUE)
                return
            if known is None and leaf.op not in ('elem',):
                self.partials.append(Event('partial', self.gate, self.binders,
                                           {'kind': 'unpack', 'term': leaf, 'excs': ('ValueError',), 'caught': False,
                                            'fail': A('raises', 'unpack%d' % n, leaf), 'operands': (const(n),)},
                                           self.here(node), self.locks, self.tick()))
        for i, e in enumerate(t.elts):
            if star and i > star[0]:
                k = const(i - n)
            elif star and i == star[0]:
                after = n - i - 1
                val = v.map(lambda x: slice_(x, const(i), const(-after) if after else NONE))
                self.assign(e.value, val, node)
                continue
            else:
                k = const(i)
            val = lift(lambda x: idx(x, k), v)
            self.assign(e, val, node)

    def set_attr(self, base, name, v, node):
        for g, leaf in base.alts:
            with self.under(g):
                if self.gate == FALSE:
                    continue
                if leaf.op == 'inst':
                    o = self.obj(leaf)
                    if o.epoch < self.epoch:
                        self.effect('setattr', leaf, name, v, node)
                    o.attrs[name] = self.guarded(v, o.attrs.get(name))
                elif leaf.op == 'cls':
                    c = self.classes[leaf.args[0]]
                    self.effect('setattr', leaf, name, v, node)
                    c.attrs[name] = self.guarded(v, c.attrs.get(name))
                elif leaf.op == 'mod':
                    self.effect('setattr', leaf, name, v, node)
                    self.mod_ns[leaf.args[0]][name] = self.guarded(v, self.mod_ns[leaf.args[0]].get(name))
                else:
                    self.effect('setattr', leaf, name, v, node)
                    k = (leaf, name)
                    old = self.symattrs.get(k)
                    if old is None:
                        old = gv(attr(leaf, name))
                    self.symattrs[k] = self.guarded(v, old)

    def set_item(self, base, key, v, node, aug=None):
        for g, leaf in base.alts:
            with self.under(g):
                if self.gate == FALSE:
                    continue
                if leaf.op == 'obj':
                    self.mutate(leaf, 'setitem', [key, v], {'aug': aug} if aug else {}, node)
                elif leaf.op == 'call' and leaf.args[0].op == 'ext' and leaf.args[0].args[0] == 'builtins.globals':
                    self.effect('setitem', leaf, key, v, node)
                else:
                    self.effect('setitem', leaf, key, v, node)

    # --- branches
    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        g0 = self.gate
        g_then = B.and_(g0, c)
        g_else = B.and_(g0, B.not_(c))
        if g_then != FALSE:
            self.gate = g_then
            self.exec_block(s.body)
            e1 = self.gate
        else:
            e1 = FALSE
        if g_else != FALSE:
            self.gate = g_else
            self.exec_block(s.orelse)
            e2 = self.gate
        else:
            e2 = FALSE
        self.gate = B.or_(e1, e2)

    def x_With(self, s):
        n0 = len(self.locks)
        for it in s.items:
            v = self.ev(it.context_expr)
            t = v.single()
            t = t if t is not None else top('lock')
            if t not in self.locks:
                self.acquired.append(t)
            self.locks.append(t)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.exec_block(s.body)
        del self.locks[n0:]

    def x_Try(self, s):
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append((('BaseException', 'Exception'), h))
            else:
                names = []
                for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append(e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else '?')
                types.append((tuple(names), h))
        hf = Handler(types, len(self.binders))
        g0 = self.gate
        nlocks = len(self.locks)
        self.handlers.append(hf)
        self.exec_block(s.body)
        self.handlers.pop()
        if s.orelse:
            self.exec_block(s.orelse)
        out = self.gate
        for (names, h), hg in zip(types, hf.gates):
            if hg == FALSE:
                continue
            self.gate = hg
            if h.name:
                self.write_name(h.name, gv(mk('exc', names[0])))
            self.exec_block(h.body)
            out = B.or_(out, self.gate)
        self.gate = out
        if s.finalbody:
            gsave = self.gate
            self.gate = g0
            self.exec_block(s.finalbody)
            self.gate = gsave

    # --- loops
    def x_For(self, s):
        it = self.ev(s.iter)
        g0 = self.gate
        self.run_loop(it, lambda v: self.assign(s.target, v, s), s.body, s, s.orelse,
                      assigned_names(s.body) + [n for n in assigned_names([s.target])])

    def x_While(self, s):
        fr = self.frames[-1]
        g0 = self.gate
        b = new_binder(mk('while', self.tick()))
        again = rebound_names(s.body)
        names = [n for n in assigned_names(s.body) if n in fr.env and (n in again or not self.containers(fr.env[n].under(g0)))]
        init = {}
        carried = {}
        for n in names:
            init[n] = fr.env[n]
            carried[n] = mk('carried', b, n)
            fr.env[n] = gv(carried[n])

        def attempt():
            self.loops.append(LoopCtx(len(self.binders)))
            self.binders.append(b)
            self.gate = B.and_(g0, self.truth(self.ev(s.test)))
            self.exec_block(s.body)
        self.enter_pending(*self.trial(attempt))
        self.loops.append(LoopCtx(len(self.binders)))
        self.binders.append(b)
        c = self.truth(self.ev(s.test))
        self.gate = B.and_(g0, c)
        rets0 = len(fr.returns)
        self.exec_block(s.body)
        lc = self.loops.pop()
        self.binders.pop()
        self.pending.pop()
        BINDER_STOP[b] = [B.not_(c)] + ([lc.breaks] if lc.breaks != FALSE else [])
        WHILE_INFO[b] = {}
        for n in names:
            new = fr.env[n]
            WHILE_INFO[b][n] = (init[n], new)
            fr.env[n] = gv_join([(g, mk('loopout', b, n, t)) for g, t in init[n].alts])
        WHILE_INFO[b]['__cond__'] = c
        self.gate = g0
        for (rg, rb, rv, depth, loc) in fr.returns[rets0:]:
            self.gate = B.and_(self.gate, B.not_(exists([x for x in rb if x is b or True], rg)))

    def containers(self, v):
        return bool(v.alts) and all(t.op == 'obj' and self.objs[t.args[0]].kind in ('list', 'set', 'dict') for _, t in v.alts)

    def enter_pending(self, changed, chattrs):
        p = {}
        for oid in changed:
            p[oid] = len(self.objs[oid].events)
        for oid, name in chattrs:
            o = self.objs[oid]
            if name in o.attrs:
                o.attrs[name] = gv(mk('curattr', oid, name))
        self.pending.append(p)

    def x_Break(self, s):
        if self.loops:
            lc = self.loops[-1]
            lc.breaks = B.or_(lc.breaks, exists(self.binders[lc.depth + lc.nsrc:], self.gate)
                              if hasattr(lc, 'nsrc') else self.gate)
        self.gate = FALSE

    def x_Continue(self, s):
        self.gate = FALSE

    def run_loop(self, it, bind, body, node, orelse=(), names=(), body_fn=None):
        """Execute body for every source of elements of it."""
        fr = self.frames[-1]
        g0 = self.gate
        brk = []
        broke_any = FALSE
        rets0 = len(fr.returns)
        raises0 = len(self.raises)
        for g, leaf in it.alts:
            gg = B.and_(g0, g)
            if gg == FALSE:
                continue
            for (bs, sg, val) in self.sources(leaf, node):
                g_src = B.and_(gg, sg)
                for obs, br in brk:
                    # items of one iteration of a shared loop: earlier iterations are covered by its end condition
                    k = 0
                    while k < len(obs) and k < len(bs) and obs[k] is bs[k]:
                        k += 1
                    g_src = B.and_(g_src, B.not_(exists(obs[k:], br) if k < len(obs) else br))
                # returns taken inside earlier sources
                for (rg, rb, rv, depth, loc) in fr.returns[rets0:]:
                    g_src = B.and_(g_src, B.not_(exists(rb[max(0, len(self.binders) - fr.base_binders):], rg)))
                if g_src == FALSE:
                    continue
                init = {}
                carried = {}
                inplace = set()
                if bs:
                    for n in names:
                        if n in fr.env and n not in carried:
                            cur = fr.env[n].under(g0)
                            if not cur.alts:
                                continue
                            if body is not None and self.containers(cur) and n not in rebound_names(body):
                                inplace.add(n)
                                continue        # changed in place
                            init[n] = fr.env[n]
                            carried[n] = mk('carried', bs[0], n)
                            fr.env[n] = gv(carried[n])
                val_gv = val if isinstance(val, (GV, LazyCall)) else gv(val)

                def once():
                    lc = LoopCtx(len(self.binders))
                    lc.nsrc = len(bs)
                    self.loops.append(lc)
                    self.binders.extend(bs)
                    self.gate = g_src
                    bind(val_gv.force() if isinstance(val_gv, LazyCall) else val_gv)
                    if body_fn is not None:
                        body_fn()
                    else:
                        self.exec_block(body)
                    return lc
                if bs:
                    self.enter_pending(*self.trial(once))
                lc = once()
                self.loops.pop()
                if bs:
                    self.pending.pop()
                    del self.binders[-len(bs):]
                if lc.breaks != FALSE:
                    br = lc.breaks
                    rel = B.simplify(br, gg)
                    if bs:
                        BINDER_STOP.setdefault(bs[0], []).append(rel)
                        ex = exists(bs, br)
                    else:
                        ex = br
                    brk.append((tuple(bs), br))
                    broke_any = B.or_(broke_any, ex)
                if bs:
                    for n in init:
                        fr.env[n] = self.after_loop_value(n, init[n], carried[n], fr.env[n], bs, g_src)
                    for n in names:
                        if n in fr.env and n not in init and n not in inplace:
                            fr.env[n] = self.after_loop_value(n, None, None, fr.env[n], bs, g_src)
        # gate after the loop
        out = g0
        for (rg, rb, rv, depth, loc) in fr.returns[rets0:]:
            k = max(0, len(self.binders) - fr.base_binders)
            out = B.and_(out, B.not_(exists(rb[k:], rg)))
        for r in self.raises[raises0:]:
            out = B.and_(out, B.not_(exists(r.binders[len(self.binders):], r.gate)))
        self.gate = out
        if orelse:
            self.gate = B.and_(out, B.not_(broke_any))
            self.exec_block(orelse)
            self.gate = B.or_(self.gate, B.and_(out, broke_any))

    def after_loop_value(self, name, init, C, N, bs, g_src):
        bset = set(bs)
        alts = [(B.and_(g, g_src), t) for g, t in N.alts if B.and_(g, g_src) != FALSE]
        upd = [(g, t) for g, t in alts if t is not C]
        if not upd:
            return init if init is not None else N
        uses_c = C is not None and any(C in set(subterms(t)) or any(C in set(subterms(a)) for a in B.support_atoms(g))
                                       for g, t in upd)
        base = init if init is not None else GV(())
        if not uses_c:
            res = base
            indep = all(not (elems_in(t) & bset) for g, t in upd)
            if indep and (len(upd) == 1):
                g, t = upd[0]
                ex = exists(bs, g)
                return gv_join([(ex, t)] + [(B.and_(B.not_(ex), a), x) for a, x in base.alts])
            total = FALSE
            for g, t in upd:
                total = B.or_(total, g)
            ex = exists(bs, total)
            leaf = mk('lastof', tuple(Emission(bs, g, t) for g, t in upd))
            return gv_join([(ex, leaf)] + [(B.and_(B.not_(ex), a), x) for a, x in base.alts])
        if len(upd) == 1 and C is not None:
            g, t = upd[0]
            dep = any(C in set(subterms(a)) for a in B.support_atoms(g))
            if not dep and t.op == 'add' and C in t.args and sum(x is C for x in t.args) == 1:
                e = None
                rest = [x for x in t.args if x is not C]
                if not any(C in set(subterms(x)) for x in rest):
                    if t.args[0] is C or not any(x.op in ('tuple', 'str') for x in rest):
                        e = rest[0] if len(rest) == 1 else (concat(rest) if ops.strish(t) else mk('add', *rest))
                        em = Emission(bs, g, e)
                        out = []
                        for a, x in base.alts:
                            if x.op in ('tuple',) and e.op == 'tuple':
                                out.append((a, seq('tuple', [Emission((), TRUE, i) for i in x.args] +
                                                   [Emission(bs, g, i) for i in e.args])))
                            else:
                                out.append((a, add(x, mk('sum', em))))
                        return gv_join(out)
        # flag accumulated through the carried value:  x = x or c
        leafs = []
        ems = tuple(Emission(bs, g, t) for g, t in alts)
        return gv_join([(a, mk('fold', name, x, ems)) for a, x in base.alts])

    # --------------------------------------------------------------- iteration
    def snap_if_fresh(self, leaf):
        """Mutable container -> immutable snapshot when its content is known."""
        if leaf.op == 'obj':
            o = self.obj(leaf)
            if o.kind in ('list', 'set', 'gen', 'dict'):
                k = self.pending_at(o)
                if k is not None:
                    return mk('cur', o.oid, k, o.birth)
                if (o.epoch == self.epoch or (self.resolve_old and o.epoch < self.epoch and not o.touched)) \
                        and not self.loop_pending(o):
                    return self.snapshot(o)
                return mk('objref', o.oid)
        return leaf

    def snap_gv(self, v):
        """Resolve containers of a returned value; contents restricted to the gate of each alternative."""
        return gv_join([(g, self.snap_under(t, g)) for g, t in v.alts])

    def snap_under(self, t, g):
        s = self.snap_if_fresh(t)
        if g != TRUE and s.op == 'seq' and not s.args[3]:
            ems = []
            for e in s.args[1]:
                if B.and_(e.gate, g) != FALSE:
                    ems.append(Emission(e.binders, B.simplify(e.gate, g), e.value, e.kind, e.loc))
            s = seq(s.args[0], ems, s.args[2])
        return s

    def as_seq(self, v):
        """Guarded sequences -> one sequence of guarded emissions (None when some alternative is not a sequence)."""
        v = self.snap_gv(v)
        if len(v.alts) == 1 and v.alts[0][0] == TRUE:
            t = v.alts[0][1]
            if t.op == 'tuple':
                return seq('list', [Emission((), TRUE, x) for x in t.args])
            if t.op == 'seq':
                return t
            b = new_binder(strip_copy(t))
            return seq('list', [Emission((b,), TRUE, elem(b))])
        ems = []
        order = None
        for g, t in v.alts:
            t = strip_copy(t)
            if t.op == 'tuple':
                t = seq('list', [Emission((), TRUE, x) for x in t.args])
            if t.op != 'seq':
                b = new_binder(t)
                t = seq('list', [Emission((b,), TRUE, elem(b))])
            if t.args[3]:
                return t
            if t.args[1]:
                if order is not None and order != t.args[2]:
                    return top('differently ordered alternatives')
                order = t.args[2]
            for e in t.args[1]:
                ems.append(Emission(e.binders, B.and_(e.gate, g), e.value, e.kind, e.loc))
        return seq('list', ems, order or ())

    def pending_at(self, o):
        """Number of changes made so far in the running loop when o is changed by an enclosing loop, else None."""
        for p in reversed(self.pending):
            if o.oid in p:
                return len(o.events) - p[o.oid]
        return None

    def trial(self, run):
        """Run a loop body for its effects only: -> containers and attributes it changes (all state is restored)."""
        if self.in_trial:
            return set(), set()
        self.in_trial = True
        counts = [(o, len(o.events), o.touched, o.frozen, o.default) for o in self.objs.values()]
        attrs = [(o, dict(o.attrs)) for o in self.objs.values() if o.kind == 'inst']
        cattrs = [(c, dict(c.attrs)) for c in self.classes.values()]
        envs = [(f.env, dict(f.env), f, len(f.returns)) for f in self.frames]
        clos = []
        for f in self.frames:
            for d in f.closure or []:
                env = getattr(d, 'env', d)
                if isinstance(env, dict):
                    clos.append((env, dict(env)))
        sa = dict(self.symattrs)
        lens = [(l, len(l)) for l in (self.effects, self.partials, self.raises, self.calls, self.warn_top)]
        hg = [(h, list(h.gates)) for h in self.handlers]
        lb = [(l, l.breaks) for l in self.loops]
        co = [(k, dict(st)) for k, st in CORO.items()]
        g0, nb, nl, nk = self.gate, len(self.binders), len(self.loops), list(self.locks)
        try:
            run()
        finally:
            self.in_trial = False
            changed = set()
            for o, n, t, fz, df in counts:
                if len(o.events) > n:
                    changed.add(o.oid)
                    del o.events[n:]
                o.touched, o.frozen, o.default = t, fz, df
            chattrs = set()
            for o, a in attrs:
                for k in o.attrs:
                    if k not in a or a[k] != o.attrs[k]:
                        chattrs.add((o.oid, k))
                o.attrs.clear()
                o.attrs.update(a)
            for c, a in cattrs:
                c.attrs.clear()
                c.attrs.update(a)
            for env, a, f, n in envs:
                env.clear()
                env.update(a)
                del f.returns[n:]
            for env, a in clos:
                env.clear()
                env.update(a)
            self.symattrs.clear()
            self.symattrs.update(sa)
            for l, n in lens:
                del l[n:]
            for h, x in hg:
                h.gates = x
            for l, x in lb:
                l.breaks = x
            for k, st in co:
                CORO[k].clear()
                CORO[k].update(st)
            self.gate = g0
            del self.binders[nb:]
            del self.loops[nl:]
            self.locks[:] = nk
        return changed, chattrs

    def loop_pending(self, o):
        """o was created outside the innermost loop(s) and is filled inside one still running."""
        n = len(o.birth)
        return len(self.binders) > n and any(
            len(e.binders) > n and n < len(self.binders) and e.binders[n] is self.binders[n] for e in o.events)

    def snapshot(self, o, upto=None):
        events = o.events if upto is None else o.events[:upto]
        n = len(o.birth)
        bg = o.bgate

        def rel(g):
            return B.constrain(g, bg) if bg != TRUE and B.and_(g, bg) != FALSE else g
        if o.kind == 'dict':
            ems = []
            for e in events:
                if e.kind == 'setitem':
                    k, v = e.payload[0], e.payload[1]
                    kv = lift(lambda a, b: mk('tuple', a, b), k, v)
                    for g, t in kv.alts:
                        ems.append(Emission(e.binders[n:], rel(B.and_(e.gate, g)), t, 'item', e.loc))
                elif e.kind == 'update':
                    ems.append(Emission(e.binders[n:], rel(e.gate), mk('splice', *[x for x in e.payload]), 'splice', e.loc))
                else:
                    ems.append(Emission(e.binders[n:], rel(e.gate), mk('op', e.kind), 'op', e.loc))
            return mk('dict', tuple(self.simplify_em(x) for x in ems))
        ems = []
        order = []
        note = []
        for e in events:
            if e.kind == 'item':
                if order:
                    note.append(('added after ordering',))
                for g, t in e.payload[0].alts:
                    gg = B.and_(e.gate, g)
                    if gg != FALSE:
                        ems.append(self.simplify_em(Emission(e.binders[n:], rel(gg), t, 'item', e.loc)))
            elif e.kind == 'order':
                order.append(e.payload[0])
                if rel(e.gate) != TRUE or len(e.binders) > n:
                    order.append(mk('cond', Gate(rel(e.gate))))
            elif e.kind == 'clear' and rel(e.gate) == TRUE and len(e.binders) == n:
                ems, order, note = [], [], []
            else:
                note.append((e.kind,))
        # a complete element-wise copy of another opaque sequence
        kind = {'list': 'list', 'set': 'set', 'gen': 'gen'}.get(o.kind, o.kind)
        if len(ems) == 1 and not order and not note and kind in ('list', 'gen'):
            e = ems[0]
            if len(e.binders) == 1 and e.gate == TRUE and e.value is elem(e.binders[0]) \
                    and not BINDER_STOP.get(e.binders[0]) and e.binders[0].args[2] is None \
                    and not (self.keep_sets and self.is_set(e.binders[0].args[1])):
                return ops.copy_of(e.binders[0].args[1])
        return seq(kind, ems, order, note)

    def is_set(self, t):
        if t.op in ('obj', 'objref', 'cur'):
            return self.objs[t.args[0]].kind == 'set'
        return t.op == 'seq' and t.args[0] in ('set', 'frozenset') or t.op in ('setof', 'frozensetof', 'bin')

    def simplify_em(self, e):
        return e

    def freshen(self, e, m=None, order=None):
        """Copy of emission e with fresh binders (m: renaming shared by the emissions of one sequence)."""
        if not e.binders:
            return (), e.gate, e.value
        m = {} if m is None else m
        out = []
        for b in e.binders:
            if b in m:
                out.append(m[b])
                continue
            itb = subst(b.args[1], m) if m else b.args[1]
            nb = new_binder(itb, tuple(order) + tuple(b.args[2] or ()) if order and not out else b.args[2])
            if b in WHILE_INFO:
                WHILE_INFO[nb] = WHILE_INFO[b]
            m[elem(b)] = elem(nb)
            m[mk('index', b)] = mk('index', nb)
            m[b] = nb
            out.append(nb)
        for b, nb in zip(e.binders, out):
            if BINDER_STOP.get(b) and nb not in BINDER_STOP:
                BINDER_STOP[nb] = [subst_gate(g, m) for g in BINDER_STOP[b]]
        return tuple(out), subst_gate(self.unfold(e.gate, e.binders), m), subst(self.unfold(e.value, e.binders), m)

    def unfold(self, t, bs):
        """Containers created anew for every item of a loop -> their contents."""
        own = {}

        def fn(x):
            if x.op == 'obj' and x.args[0] in self.objs:
                r = own.get(x)
                if r is None:
                    o = self.objs[x.args[0]]
                    r = x
                    if o.kind in ('list', 'set', 'gen', 'dict') and o.default is None and any(b in o.birth for b in bs):
                        r = self.snap_if_fresh(x)
                        if r.op in ('seq', 'dict', 'copy'):
                            own[x] = x
                            r = self.unfold(r, bs)
                        else:
                            r = x
                    own[x] = r
                return r if r is not x else None
            return None
        if isinstance(t, int):
            if not any(x.op == 'obj' for a in B.support_atoms(t) for x in subterms(a)):
                return t
            return ops._rwg(t, fn, {})
        if not any(x.op == 'obj' for x in subterms(t)):
            return t
        return ops.rewrite(t, fn)

    def sources(self, leaf, node=None):
        """-> list of (binders, gate, value) describing the elements of leaf."""
        leaf = self.snap_if_fresh(leaf)
        o = leaf.op
        if o == 'copy':
            return self.sources(leaf.args[0], node)
        if o == 'tuple':
            if self.keep_sets and len(leaf.args) > 12:
                b = new_binder(leaf)
                return [((b,), TRUE, elem(b))]
            return [((), TRUE, x) for x in leaf.args]
        if o == 'ntuple':
            return [((), TRUE, x) for x in leaf.args[1]]
        if o == 'seq':
            if leaf.args[3]:
                b = new_binder(leaf)
                return [((b,), TRUE, elem(b))]
            out = []
            if self.keep_sets and leaf.args[0] in ('set', 'frozenset') and (
                    len(leaf.args[1]) > 1 or any(e.binders for e in leaf.args[1])):
                b = new_binder(leaf)
                return [((b,), TRUE, elem(b))]
            if self.keep_sets and len(leaf.args[1]) > 12 and not any(e.binders for e in leaf.args[1]):
                b = new_binder(leaf)
                return [((b,), TRUE, elem(b))]
            order = leaf.args[2]
            if self.keep_sets and order and len(leaf.args[1]) > 1 and not all(e.binders for e in leaf.args[1]):
                b = new_binder(leaf)
                return [((b,), TRUE, elem(b))]
            fm = {}
            for e in leaf.args[1]:
                bs, g, v = self.freshen(e, fm, order)
                out.append((bs, g, v))
            return out
        if o == 'dict':
            if all(e.kind == 'item' for e in leaf.args[0]) and (self.expand_dicts or distinct_keys(leaf.args[0])):
                out = []
                fm = {}
                for e in leaf.args[0]:
                    bs, g, v = self.freshen(e, fm)
                    out.append((bs, g, idx(v, const(0))))
                return out
        if o == 'mcall' and leaf.args[1] in ('items', 'iteritems', 'keys', 'values', 'itervalues') and not leaf.args[2]:
            d = leaf.args[0]
            if d.op == 'obj':
                d = self.snap_if_fresh(d)
            if d.op == 'dict' and all(e.kind == 'item' for e in d.args[0]) and (
                    self.expand_dicts or distinct_keys(d.args[0])):
                out = []
                fm = {}
                for e in d.args[0]:
                    bs, g, v = self.freshen(e, fm)
                    if leaf.args[1] == 'keys':
                        v = idx(v, const(0))
                    elif 'values' in leaf.args[1]:
                        v = idx(v, const(1))
                    out.append((bs, g, v))
                return out
            if d.op == 'objref' and d is not leaf.args[0]:
                leaf = mk('mcall', d, leaf.args[1], (), ())
        if o == 'enumerate':
            inner = leaf.args[0]
            start = leaf.args[1]
            srcs = self.sources(inner, node)
            if len(srcs) > 1 and all(not bs and g == TRUE for bs, g, v in srcs) and isnum(start):
                return [((), TRUE, mk('tuple', const(i + cval(start)), v)) for i, (bs, g, v) in enumerate(srcs)]
            out = []
            for bs, g, v in srcs:
                if len(bs) == 1 and (g == TRUE and len(srcs) == 1 or partition(srcs)):
                    i = mk('index', bs[0])
                elif not bs and len(srcs) == 1:
                    i = const(0)
                else:
                    i = mk('position', leaf, *bs)
                if not is_const(start, 0):
                    i = add(i, start)
                out.append((bs, g, mk('tuple', i, v)))
            return out
        if o == 'zip':
            return self.zip_sources(leaf, node)
        if o == 'reversed':
            inner = self.snap_if_fresh(leaf.args[0])
            items = plain_items(inner)
            if items is not None:
                return [((), TRUE, x) for x in reversed(items)]
            if inner.op == 'seq' and not inner.args[3]:
                return self.sources(seq(inner.args[0], inner.args[1], inner.args[2] + (mk('rev'),)), node)
            b = new_binder(inner, (mk('rev'),))
            return [((b,), TRUE, elem(b))]
        if o == 'mapcall':
            out = []
            f, inner = leaf.args
            for bs, g, v in self.sources(inner, node):
                out.append((bs, g, ('call', f, v)))
            # evaluated lazily in the loop body context
            return [(bs, g, LazyCall(self, f, v[2], node)) for bs, g, v in out]
        if o == 'range':
            a = leaf.args
            if all(isnum(x) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= 24:
                    return [((), TRUE, const(x)) for x in r]
            if len(a) == 1 and a[0].op == 'len':
                b = new_binder(a[0].args[0])
                return [((b,), TRUE, mk('index', b))]
        if isstr(leaf) and len(cval(leaf)) <= 3:
            return [((), TRUE, const(c)) for c in cval(leaf)]
        if o in ('objref',):
            b = new_binder(leaf)
            return [((b,), TRUE, elem(b))]
        b = new_binder(leaf)
        return [((b,), TRUE, elem(b))]

    def zip_sources(self, leaf, node):
        parts = [self.snap_if_fresh(x) for x in leaf.args[0]]
        srcs = [self.sources(x, node) for x in parts]
        if all(all(not bs and g == TRUE for bs, g, v in s) for s in srcs):
            return [((), TRUE, mk('tuple', *[s[i][2] for s in srcs])) for i in range(min(len(s) for s in srcs))]
        # element-wise views of the same underlying sequence
        if all(len(s) == 1 and len(s[0][0]) == 1 and s[0][1] == TRUE and not BINDER_STOP.get(s[0][0][0]) for s in srcs):
            base = [strip_copy(s[0][0][0].args[1]) for s in srcs]
            lens = [x.args[0].args[0] if x.op == 'range' and len(x.args) == 1 and x.args[0].op == 'len' else None for x in base]
            if any(x is None for x in lens):
                srcs = [s if x is None else [(s[0][0], TRUE, subst(s[0][2], {elem(s[0][0][0]): mk('index', s[0][0][0])}))]
                        for s, x in zip(srcs, lens)]
                base = [b if x is None else strip_copy(x) for b, x in zip(base, lens)]
            if all(x is base[0] for x in base) and all(s[0][0][0].args[2] == srcs[0][0][0][0].args[2] for s in srcs):
                b0 = [s[0][0][0] for s in srcs if strip_copy(s[0][0][0].args[1]) is base[0]][0]
                vals = []
                for s in srcs:
                    v = s[0][2]
                    if isinstance(v, LazyCall):
                        return [((b0,), TRUE, self.top('zip of map', node))]
                    vals.append(v if s[0][0][0] is b0 else
                                subst(v, {elem(s[0][0][0]): elem(b0), mk('index', s[0][0][0]): mk('index', b0)}))
                return [((b0,), TRUE, mk('tuple', *vals))]
        alt = self.zip_alternatives(srcs)
        if alt is not None:
            return alt
        eq = self.equal_parts(parts)
        if eq is not None:
            base, n, starts = eq
            b = new_binder(mk('range', n))
            return [((b,), TRUE, mk('tuple', *[idx(base, ops.add(lo, elem(b))) for lo in starts]))]
        b = new_binder(mk('zip', tuple(parts)))
        e = elem(b)
        return [((b,), TRUE, mk('tuple', *[idx(e, const(i)) for i in range(len(parts))]))]

    def zip_alternatives(self, srcs):
        """Views of the same sequence whose items are one of several values, depending on the item."""
        b0 = None
        out = [(TRUE, ())]
        for s in srcs:
            if any(isinstance(v, LazyCall) for bs, g, v in s):
                return None
            if not partition(s):
                return None
            b = s[0][0][0]
            if b0 is None:
                b0 = b
            elif strip_copy(b.args[1]) is not strip_copy(b0.args[1]) or b.args[2] != b0.args[2]:
                return None
            m = {elem(b): elem(b0), mk('index', b): mk('index', b0)}
            if len(out) * len(s) > 16:
                return None
            out = [(B.and_(h, ops.subst_gate(g, m)), xs + (subst(v, m),)) for h, xs in out for _, g, v in s]
        return [((b0,), h, mk('tuple', *xs)) for h, xs in out if h != FALSE]

    def equal_parts(self, parts):
        """Slices x[a*n:b*n] of one sequence with n = len(x) // k: the shortest has n items."""
        parts = [strip_copy(p) for p in parts]
        if not all(p.op == 'slice' and p.args[3] is NONE and p.args[0] is parts[0].args[0] for p in parts):
            return None
        base = parts[0].args[0]
        total = length(base)
        n = None
        for p in parts:
            for x in p.args[1:3]:
                for y in subterms(x):
                    if (y.op in ('bin', 'floordiv')) and total in y.args and len(y.args) in (2, 3):
                        n = y if n in (None, y) else False
        if not n or not (n.op == 'floordiv' or n.args[0] == '//') or n.args[-2] is not total or not ops.isnum(n.args[-1]):
            return None
        k = ops.cval(n.args[-1])

        def times(x):
            for c in range(k + 1):
                if x is (ops.binop('*', n, const(c)) if c > 1 else n if c else const(0)):
                    return c

        widths = []
        starts = []
        for p in parts:
            lo = 0 if p.args[1] is NONE else times(p.args[1])
            hi = k if p.args[2] is NONE else times(p.args[2])
            if lo is None or hi is None or hi <= lo:
                return None
            widths.append(hi - lo)
            starts.append(const(0) if lo == 0 else p.args[1])
        return (base, n, starts) if min(widths) == 1 else None

    def zip_of(self, ts, g):
        """zip() of containers under a condition: one item beside a sequence known to have one item stands for a
        sequence of that item."""
        ts = [self.snap_under(t, g) for t in ts]
        ones = [plain_items(t) is not None and len(plain_items(t)) == 1 for t in ts]
        if any(ones) and not all(ones):
            for t, one in zip(ts, ones):
                t = strip_copy(t)
                if one or t.op != 'seq' or len(t.args[1]) != 1 or t.args[3]:
                    continue
                e = t.args[1][0]
                if len(e.binders) != 1 or e.gate != TRUE:
                    continue
                b = e.binders[0]
                if B.implies(g, A('cmp', '==', mk('len', strip_copy(b.args[1])), const(1))):
                    for i, x in enumerate(ts):
                        if ones[i]:
                            ts[i] = seq('list', [Emission((b,), TRUE, plain_items(x)[0])])
                    break
        return mk('zip', tuple(ts))

    # ------------------------------------------------------------- mutation
    def mutate(self, leaf, meth, args, kw, node):
        """Mutating method of a container. Returns result GV."""
        args = [a if isinstance(a, GV) else gv(a) for a in args]
        if leaf.op != 'obj':
            self.effect('mutate', leaf, meth, args, node)
            return gv(mcall(leaf, meth, [self.as_leaf(a) for a in args]))
        o = self.obj(leaf)
        if o.epoch < self.epoch:
            self.effect('mutate', leaf, meth, args, node)
            o.touched = True
        g, bs = self.gate, self.binders
        loc = self.here(node)

        def ev(kind, *payload):
            o.events.append(Event(kind, g, bs, payload, loc, self.locks, self.tick()))
        if o.kind in ('list', 'set', 'gen'):
            if meth in ('append', 'add', 'appendleft'):
                ev('item', args[0])
                if meth == 'appendleft':
                    ev('reorder')
                return gv(NONE)
            if meth in ('extend', 'update', '__iadd__', 'union_update'):
                for a in args:
                    for ag, al in a.alts:
                        for (sb, sg, sv) in self.sources(al, node):
                            gg = B.and_(g, ag, sg)
                            if gg == FALSE:
                                continue
                            if isinstance(sv, LazyCall):
                                sv = sv.force(gg, sb)
                            o.events.append(Event('item', gg, list(bs) + list(sb), (sv if isinstance(sv, GV) else gv(sv),),
                                                  loc, self.locks, self.tick()))
                        if self.snap_if_fresh(al).op == 'seq' and self.snap_if_fresh(al).args[2]:
                            pass
                return gv(NONE)
            if meth == 'sort':
                ev('order', self.order_term(kw, node))
                return gv(NONE)
            if meth == 'reverse':
                ev('order', mk('rev'))
                return gv(NONE)
            if meth == 'insert':
                ev('item', args[1])
                ev('insertpos', args[0])
                return gv(NONE)
            if meth == 'clear':
                ev('clear')
                return gv(NONE)
            if meth == 'setitem':
                ev('setitem', args[0], args[1])
                return gv(NONE)
            if meth in ('pop', 'remove', 'discard', 'delitem', 'popleft', 'difference_update', 'intersection_update',
                        'symmetric_difference_update', 'popitem'):
                if meth == 'remove' and len(args) == 1:
                    x = args[0].single() if isinstance(args[0], GV) else args[0]
                    if x is not None:
                        self.partial('missing', mcall(leaf, meth, (x,)), ('KeyError' if o.kind == 'set' else 'ValueError',),
                                     node, fail=B.not_(self.member_leaf(x, leaf, node)), operands=(leaf, x))
                        g = self.gate
                ev(meth, *args)
                return gv(mk('popped', leaf, const(self.seqno)))
        if o.kind == 'dict':
            if meth == 'setitem':
                ev('setitem', args[0], args[1], kw.get('aug'))
                return gv(NONE)
            if meth == 'setdefault':
                have = lift(lambda k: boolt(member(k, self.ref(o))), args[0])
                cur = self.dict_get(o, args[0], node)
                c = truth(have)
                dflt = args[1] if len(args) > 1 else gv(NONE)
                o.events.append(Event('setitem', B.and_(g, B.not_(c)), bs, (args[0], dflt, None), loc, self.locks,
                                      self.tick()))
                return gv_ite(c, cur, dflt)
            if meth == 'update':
                for a in args:
                    for ag, al in a.alts:
                        s = self.snap_if_fresh(al)
                        if s.op == 'dict' and all(e.kind == 'item' for e in s.args[0]):
                            for e in s.args[0]:
                                fb, fg, fv = self.freshen(e)
                                o.events.append(Event('setitem', B.and_(g, ag, fg), list(bs) + list(fb),
                                                      (gv(idx(fv, const(0))), gv(idx(fv, const(1))), None), loc,
                                                      self.locks, self.tick()))
                        else:
                            o.events.append(Event('update', B.and_(g, ag), bs, (s,), loc, self.locks, self.tick()))
                for k, v in kw.items():
                    ev('setitem', gv(const(k)), v, None)
                return gv(NONE)
            ev(meth, *args)
            return gv(mk('popped', leaf, const(self.seqno)))
        ev(meth, *args)
        return gv(self.top('mutation %s' % meth, node))

    def order_term(self, kw, node):
        key = kw.get('key')
        rev = kw.get('reverse')
        kt = NONE
        if key is not None and key.single() is not NONE:
            r = self.call_gv(key, [gv(KEYVAR)], {}, node)
            kt = self.as_leaf(r)
        rt = self.as_leaf(rev) if rev is not None else FALSE_T
        if kt.op == 'neg' and rt.op == 'const':
            kt, rt = kt.args[0], const(not rt.args[0])      # the order of numbers; equal ones stay in place either way
        return mk('sortkey', kt, rt)

    def ref(self, o):
        k = self.pending_at(o)
        return mk('cur', o.oid, k, o.birth) if k is not None else mk('objref', o.oid)

    def as_leaf(self, v):
        """GV -> one term (phi node when it has several alternatives)."""
        if isinstance(v, T):
            return v
        s = v.single()
        if s is not None and len(v.alts) == 1:
            return s
        return mk('phi', tuple((Gate(g), t) for g, t in v.alts))

    def dict_get(self, o, key, node, default=None):
        """Value of o[key] as GV (dict object)."""
        def one(k):
            # last matching unconditional write wins
            res = []
            rest = self.gate
            for e in reversed(o.events):
                if e.kind != 'setitem':
                    return None
                kk = e.payload[0].single()
                if kk is None:
                    return None
                if kk is k:
                    g = e.gate
                    if len(e.binders) > len(o.birth) and e.binders != tuple(self.binders[:len(e.binders)]):
                        return None
                    hit = B.and_(rest, g)
                    if hit != FALSE:
                        res.append((g, e.payload[1]))
                        rest = B.and_(rest, B.not_(g))
                    if rest == FALSE:
                        return gv_join(res).under(self.gate)
                elif not (kk.op == 'const' and k.op == 'const'):
                    return None
            return None
        out = []
        for g, k in key.alts:
            r = one(k)
            if r is None and o.default is None and k.op != 'const' and 0 < len(o.events) <= 3 and self.closed_dict(o) and \
                    all(B.implies(self.gate, e.gate) for e in o.events):
                # a small table of constants: one alternative per key
                alts = []
                rest = TRUE
                for e in reversed(o.events):
                    eq = ops.compare('==', k, e.payload[0].single())
                    alts.append((B.and_(rest, eq), e.payload[1]))
                    rest = B.and_(rest, B.not_(eq))
                alts.append((rest, gv(idx(self.dict_view(o), k))))
                r = gv_join(alts).under(self.gate)
            if r is None:
                r = gv(idx(self.dict_view(o), k))
            out.append((g, r))
        return gv_join(out)

    def dict_view(self, o):
        return self.ref(o)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return gv(self.top('unsupported expression %s' % type(e).__name__, e))
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis or isinstance(e.value, (complex,)):
            return gv(mk('ext', repr(e.value)))
        return gv(const(e.value))

    def e_Name(self, e):
        return self.read_name(e.id, e)

    def e_Tuple(self, e):
        return self.tuple_of(e.elts)

    def tuple_of(self, elts):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value).map(self.snap_if_fresh)
                parts.append(('*', v))
            else:
                parts.append(('', self.ev(x)))

        def build(*ts):
            acc = mk('tuple')
            for (k, _), t in zip(parts, ts):
                if k:
                    it = plain_items(t)
                    acc = add(acc, mk('tuple', *it) if it is not None else t)
                else:
                    acc = add(acc, mk('tuple', t))
            return acc
        return lift(build, *[v for _, v in parts])

    def e_List(self, e):
        o = self.new_obj('list', e)
        leaf = self.leaf_of(o)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.mutate(leaf, 'extend', [self.ev(x.value)], {}, e)
            else:
                self.mutate(leaf, 'append', [self.ev(x)], {}, e)
        return gv(leaf)

    def e_Set(self, e):
        o = self.new_obj('set', e)
        leaf = self.leaf_of(o)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.mutate(leaf, 'update', [self.ev(x.value)], {}, e)
            else:
                self.mutate(leaf, 'add', [self.ev(x)], {}, e)
        return gv(leaf)

    def e_Dict(self, e):
        o = self.new_obj('dict', e)
        leaf = self.leaf_of(o)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.mutate(leaf, 'update', [self.ev(v)], {}, e)
            else:
                kv = self.ev(k)
                self.mutate(leaf, 'setitem', [kv, self.ev(v)], {}, e)
        return gv(leaf)

    def e_BoolOp(self, e):
        is_or = isinstance(e.op, ast.Or)
        g0 = self.gate
        alts = []
        cur = g0
        for i, x in enumerate(e.values):
            self.gate = cur
            v = self.ev(x)
            cur = self.gate
            if i == len(e.values) - 1:
                alts.append((cur, v))
                break
            c = self.truth(v)
            stop = c if is_or else B.not_(c)
            g = B.and_(cur, stop)
            if g != FALSE:
                # keep only the alternatives that stop here
                for a, t in v.alts:
                    ga = B.and_(g, a)
                    if ga != FALSE:
                        alts.append((ga, t))
            cur = B.and_(cur, B.not_(stop))
            if cur == FALSE:
                break
        self.gate = g0
        # boolean-valued operands collapse to one boolean term
        res = gv_join((B.and_(g, TRUE), v) for g, v in alts)
        return self.boolify(res.under(g0))

    def boolify(self, v):
        if len(v.alts) > 1 and all(t.op == 'bool' or t is TRUE_T or t is FALSE_T for _, t in v.alts):
            return gv(boolt(truth(v)))
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return gv(boolt(B.not_(truth(v.map(self.tview)))))
        if isinstance(e.op, ast.USub):
            return v.map(ops.neg)
        if isinstance(e.op, ast.UAdd):
            return v
        return v.map(lambda t: mk('invert', t))

    def tview(self, t):
        return self.snap_if_fresh(t)

    def truth(self, v):
        return truth(v.map(self.tview))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop_gv(OPS[type(e.op)], a, b, e)

    def binop_gv(self, op, a, b, node, augmented=False):
        if op == '%' and all(isstr(t) for _, t in a.alts):
            return self.pct(a, b, node)

        def f(x, y):
            if x.op == 'obj' or y.op == 'obj':
                return self.container_op(op, x, y, node)
            if x.op == 'phi' or y.op == 'phi':
                pass
            return binop(op, x, y)
        if op in ('/', '//', '%'):
            zero = FALSE
            for g, t in b.alts:
                if isnum(t) and cval(t) != 0:
                    continue
                zero = B.or_(zero, B.and_(g, B.not_(truth_leaf(t))))
            if zero != FALSE:
                self.partial('div', self.as_leaf(b), ('ZeroDivisionError',), node, fail=zero)
        return lift(f, a, b)

    def pct(self, a, b, node):
        def f(x, y):
            y = self.fmtarg(y)
            r = ops.percent_format(x, y)
            return r if r is not None else mk('fmtcall', x, y)
        if any(t.op == 'tuple' for _, t in b.alts) or True:
            return lift(f, a, b)

    def fmtarg(self, y):
        y = self.snap_if_fresh(y)
        return y

    def container_op(self, op, x, y, node):
        xs, ys = self.snap_if_fresh(x), self.snap_if_fresh(y)
        if op == '+':
            o = self.new_obj('list', node)
            leaf = self.leaf_of(o)
            if all(t.op in ('obj', 'tuple', 'seq', 'copy', 'mcall', 'call', 'attr', 'sym', 'elem', 'idx', 'slice', 'add')
                   for t in (x, y)):
                self.mutate(leaf, 'extend', [gv(x)], {}, node)
                self.mutate(leaf, 'extend', [gv(y)], {}, node)
                return leaf
        if op == '*' and isnum(y) and xs.op == 'seq':
            it = plain_items(xs)
            if it is not None and len(it) * cval(y) < 64:
                o = self.new_obj('list', node)
                for _ in range(cval(y)):
                    for i in it:
                        self.mutate(self.leaf_of(o), 'append', [gv(i)], {}, node)
                return self.leaf_of(o)
        if op == '*' and (xs.op == 'seq' or ys.op == 'seq'):
            if ys.op == 'seq':
                xs, ys = ys, xs
            it = plain_items(xs)
            if it is not None and len(it) == 1:
                o = self.new_obj('list', node)
                b = new_binder(mk('range', ys))
                o.events.append(Event('item', self.gate, list(self.binders) + [b], (gv(it[0]),), self.here(node),
                                      self.locks, self.tick()))
                return self.leaf_of(o)
            return mk('repeat', xs, ys)
        if op == '|':
            if all(t.op == 'seq' and t.args[0] == 'set' for t in (xs, ys)):
                return seq('set', xs.args[1] + ys.args[1])
        return binop(op, xs, ys)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = self.compare_gv(CMPS[type(op)], left, right, e)
            res = r if res is None else B.and_(res, r)
            left = right
        return gv(boolt(res))

    def compare_gv(self, op, a, b, node):
        def f(x, y):
            if op in ('in', 'not in'):
                g = self.member_leaf(x, y, node)
                return boolt(g if op == 'in' else B.not_(g))
            if op in ('is', 'is not'):
                return boolt(compare(op, x, y))
            return boolt(compare(op, self.snap_if_fresh(x), self.snap_if_fresh(y)))
        return truth(lift(f, a, b))

    def member_leaf(self, x, c, node):
        x = self.snap_if_fresh(x)
        if c.op == 'obj':
            o = self.obj(c)
            s = self.snap_if_fresh(c)
            if s.op in ('seq', 'copy', 'dict'):
                if s.op == 'seq' and not s.args[1] and not s.args[3]:
                    return FALSE
                if s.op == 'dict' and not s.args[0]:
                    return FALSE
                if s.op == 'copy':
                    return member(x, s)
                if s.op == 'seq' and s.args[3]:
                    return B.atom(mk('in', x, mk('at', o.oid, len(o.events), o.birth)))
                return member(x, s)
            if o.kind == 'set' and o.epoch < self.epoch:
                sn = self.snapshot(o)
                if sn.op == 'seq' and len(sn.args[1]) == 1 and not sn.args[3]:
                    e = sn.args[1][0]
                    if len(e.binders) == 1 and e.gate == TRUE and e.value is elem(e.binders[0]):
                        return member(x, e.binders[0].args[1])
            return B.atom(mk('in', x, s))
        if c.op == 'inst' or (c.op in ('sym', 'attr', 'elem', 'idx') and self.type_of(c) is not None):
            cls = self.obj(c).cls if c.op == 'inst' else self.type_of(c)
            f = self.find_method(cls, '__contains__')
            if f is not None and f.qualname not in self.opaque:
                return self.truth(self.call_func(f, [gv(c), gv(x)], {}, node))
        return member(x, c)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        g0 = self.gate
        alts = []
        g1 = B.and_(g0, c)
        if g1 != FALSE:
            self.gate = g1
            alts.append((c, self.ev(e.body)))
        g2 = B.and_(g0, B.not_(c))
        if g2 != FALSE:
            self.gate = g2
            alts.append((B.not_(c), self.ev(e.orelse)))
        self.gate = g0
        return self.boolify(gv_join(alts).under(g0))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(gv(const(v.value)))
            else:
                x = self.ev(v.value)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec).single()
                    spec = cval(sp) if sp is not None and isstr(sp) else '?'
                conv = {115: 's', 114: 'r', -1: None, 97: 'a'}.get(v.conversion)
                parts.append(x.map(lambda t: ops.brace_part(self.snap_if_fresh(t), spec, conv)))
        return lift(lambda *ts: concat(ts), *parts) if parts else gv(const(''))

    def e_FormattedValue(self, e):
        return self.ev(ast.JoinedStr(values=[e]))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        f = self.make_func(e, '<lambda>')
        return gv(f.leaf)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else gv(NONE)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.mutate(fr.yields, 'append', [v], {}, e)
        return gv(mk('sent', e.lineno))

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is not None:
            self.mutate(fr.yields, 'extend', [v], {}, e)
        return gv(NONE)

    def e_Await(self, e):
        return gv(self.top('await', e))

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'gen')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def comp(self, e, kind):
        o = self.new_obj(kind, e)
        leaf = self.leaf_of(o)
        fr = self.frames[-1]
        names = []
        for g in e.generators:
            names += assigned_names([g.target])
        nf = Frame(fr.func, fr.module, {}, fr.closure + ([fr] if fr.func is not None or fr.cls is None else []), cls=None)
        if fr.func is None and fr.cls is None:
            nf.closure = [fr]
        if fr.cls is not None:
            nf.closure = fr.closure + [fr]
        nf.base_binders = fr.base_binders
        nf.yields = None
        first = self.ev(e.generators[0].iter)
        self.frames.append(nf)
        g0 = self.gate
        try:
            def gen(i):
                g = e.generators[i]
                it = first if i == 0 else self.ev(g.iter)

                def body():
                    for c in g.ifs:
                        self.gate = B.and_(self.gate, self.truth(self.ev(c)))
                        if self.gate == FALSE:
                            return
                    if i + 1 < len(e.generators):
                        gen(i + 1)
                    elif kind == 'dict':
                        k = self.ev(e.key)
                        v = self.ev(e.value)
                        self.mutate(leaf, 'setitem', [k, v], {}, e)
                    else:
                        v = self.ev(e.elt)
                        if self.gate != FALSE:
                            self.mutate(leaf, 'append', [v], {}, e)
                self.run_loop(it, lambda v: self.assign(g.target, v, e), None, e, (), [], body_fn=body)
            gen(0)
        finally:
            self.frames.pop()
        self.gate = g0
        return gv(leaf)

    # subscripts
    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return (self.ev(s.lower) if s.lower is not None else gv(NONE),
                    self.ev(s.upper) if s.upper is not None else gv(NONE),
                    self.ev(s.step) if s.step is not None else gv(NONE))
        return self.ev(s)

    def e_Subscript(self, e):
        base = self.ev(e.value)
        key = self.ev_slice(e.slice)
        return self.subscript(base, key, e)

    def subscript(self, base, key, node):
        if isinstance(key, tuple):
            def f(b, lo, hi, st):
                b2 = self.snap_if_fresh(b)
                if b.op == 'obj' and lo is NONE and hi is NONE and st is NONE:
                    o = self.new_obj('list', node)
                    self.mutate(self.leaf_of(o), 'extend', [gv(b)], {}, node)
                    return self.leaf_of(o)
                return slice_(b2, lo, hi, st)
            base, key = self.cut_from_end(base, key)
            return lift(f, base, *key)
        out = []
        for g, b in base.alts:
            with self.under(g):
                if self.gate == FALSE:
                    continue
                out.append((g, self.index_leaf(b, key, node)))
        return gv_join(out)

    def cut_from_end(self, base, key):
        """x[:len(x) - n] is x[:-n] unless n is 0."""
        b, lo, hi, st = base.single(), key[0], key[1].single(), key[2]
        if b is not None and hi is NONE and lo.single() is not None and b.op != 'obj':
            n = taken_from(lo.single(), length(b))
            if n is not None and n.op == 'elem' and within(n.args[0].args[1], length(b)):
                return base, (gv(mk("neg", n)), key[1], st)
        if b is None or hi is None or hi.op != 'add' or st.single() is not NONE or b.op == 'obj' or \
                lo.single() is None or not (lo.single() is NONE or lo.single().op == 'len'):
            return base, key
        n = length(b)
        rest = [x for x in hi.args if x is not n]
        if len(rest) != len(hi.args) - 1 or len(rest) != 1 or rest[0].op != 'neg':
            return base, key
        p = rest[0].args[0]
        some = TRUE if p.op == 'len' and ops.never_empty(p.args[0]) else truth_leaf(p)
        return base, (lo, gv_join([(some, rest[0]), (B.not_(some), NONE)]), st)

    def index_leaf(self, b, key, node):
        if b.op == 'obj':
            o = self.obj(b)
            if o.kind == 'dict':
                kt = self.as_leaf(key)
                r = None
                if o.default is None:
                    miss = B.not_(self.truth(lift(lambda k: boolt(self.member_leaf(k, b, node)), key)))
                    known = self.known_dict_value(o, key)
                    if known is not None:
                        return known
                    if miss != FALSE:
                        self.partial('key', mk('idx', self.ref(o), kt), ('KeyError',), node, fail=miss,
                                     operands=(self.ref(o), kt))
                    return self.dict_get(o, key, node)
                else:
                    known = self.known_dict_value(o, key)
                    if known is not None:
                        return known
                    if o.epoch < self.epoch:
                        self.effect('mutate', b, 'defaultdict-getitem', [key], node)
                    elif self.makes_container(o.default):
                        # the new item is (usually) written to afterwards
                        o.events.append(Event('default', self.gate, self.binders, (key,), self.here(node), self.locks,
                                              self.tick()))
                    return gv_join((g, idx(self.ref(o), k)) for g, k in key.alts)
            s = self.snap_if_fresh(b)
            if s.op in ('objref', 'cur') and o.epoch == self.epoch or s.op == 'seq' and s.args[3]:
                s = s if s.op == 'cur' else mk('at', o.oid, len(o.events), o.birth)
            if s.op == 'seq':
                parts = ops.outer_split(s)
                if parts is not None and len(parts) > 1:
                    return gv_join((B.and_(g, gk), idx(x, k)) for g, x in parts for gk, k in key.alts if x.args[1])
            if s.op == 'objref' and o.kind == 'list':
                full = self.snapshot(o)
                it = plain_items(full)
                if it is not None:
                    def f(k):
                        if isnum(k) and -len(it) <= cval(k) < len(it):
                            return it[cval(k)]
                        return idx(s, k)
                    return lift(f, key)
            return lift(lambda k: idx(s, k), key)
        if b.op in ('inst',) or (self.type_of(b) is not None):
            c = self.obj(b).cls if b.op == 'inst' else self.type_of(b)
            f = self.find_method(c, '__getitem__')
            if f is not None:
                return self.call_func(f, [gv(b), key], {}, node)

        def f(k):
            r = idx(b, k)
            if r.op == 'bottom':
                self.partial('index', mk('idx', b, k), (r.args[0],), node, fail=TRUE, operands=(b, k))
                return r
            if r.op == 'idx' and r.args[0] is ops.strip_copy(b) and not (b.op == 'elem' and isnum(k)) \
                    and not (b.op == 'add' and isnum(k) and cval(k) in (0, -1) and any(
                        x.op == 'tuple' and x.args for x in b.args)):
                excs = ('IndexError', 'KeyError')
                if self.handlers or True:
                    h = [y for hh in self.handlers for (ht, _) in hh.types for y in ht]
                    fail = None
                    if 'KeyError' in h and not isnum(k):
                        fail = B.not_(member(k, b))
                    self.partial('index', r, excs, node, fail=fail, operands=(b, k))
            return r
        return lift(f, key)

    def known_dict_value(self, o, key):
        """All alternatives of key are constants written unconditionally -> value."""
        out = []
        for g, k in key.alts:
            hit = None
            for e in reversed(o.events):
                if e.kind != 'setitem' or len(e.binders) > len(o.birth):
                    return None
                kk = e.payload[0].single()
                if kk is None or (kk is not k and not (kk.op == 'const' and k.op == 'const')):
                    return None
                if kk is k:
                    if e.gate != TRUE and not B.implies(self.gate, e.gate):
                        return None
                    hit = e.payload[1]
                    break
            if hit is None:
                return None
            out.append((g, hit))
        return gv_join(out)

    def makes_container(self, factory):
        t = factory.single()
        return not (t is not None and t.op == 'ext' and t.args[0] in (
            'builtins.int', 'builtins.float', 'builtins.str', 'builtins.bool', 'builtins.tuple', 'builtins.frozenset'))

    def closed_dict(self, o):
        """All keys are constants."""
        return all(e.kind == 'setitem' and len(e.binders) <= len(o.birth) and e.payload[0].single() is not None and
                   e.payload[0].single().op == 'const' for e in o.events)

    # attributes
    def e_Attribute(self, e):
        base = self.ev(e.value)
        return self.attr_gv(base, e.attr, e)

    def attr_gv(self, base, name, node):
        out = []
        for g, leaf in base.alts:
            with self.under(g):
                if self.gate == FALSE:
                    continue
                v = self.get_attr(leaf, name, node)
                if v is None:
                    self.partial('attr', mk('attr', leaf, name), ('AttributeError',), node, fail=TRUE)
                    v = gv(mk('bottom', 'AttributeError'))
                out.append((g, v))
        return gv_join(out)

    def type_of(self, leaf):
        """Declared class of an opaque term."""
        c = self.types.get(leaf)
        if c is not None:
            return c
        if leaf.op == 'attr':
            bt = self.type_of(leaf.args[0])
            if bt is not None:
                for k in self.mro(bt):
                    q = self.attr_types.get((k.qualname, leaf.args[1]))
                    if q is not None:
                        return self.classes.get(q)
        return None

    def bind(self, f, selfleaf, owner):
        """Func accessed through an instance."""
        if f.kind == 'static':
            return gv(f.leaf)
        if f.kind == 'class':
            if selfleaf.op in ('cls', 'clsof'):
                return gv(mk('bound', f.leaf, selfleaf))
            c = self.obj(selfleaf).cls.leaf if selfleaf.op == 'inst' else mk('attr', selfleaf, '__class__')
            return gv(mk('bound', f.leaf, c))
        return gv(mk('bound', f.leaf, selfleaf))

    def get_attr(self, leaf, name, node):
        o = leaf.op
        if o == 'inst':
            ob = self.obj(leaf)
            if name == '__class__':
                return gv(ob.cls.leaf)
            if name == '__dict__':
                return gv(mk('attr', leaf, '__dict__'))
            own = ob.attrs.get(name)
            if own is not None:
                own = own.under(self.gate)
                if own.alts and B.implies(self.gate, own.domain()):
                    return own
            cv = self.inst_class_attr(ob.cls, leaf, name, node)
            if own is not None and own.alts:
                dom = own.domain()
                if cv is None:
                    return own
                return gv_join(list(own.alts) + [(B.and_(B.not_(dom), g), t) for g, t in cv.alts])
            if cv is None and (self.has_ext_base(ob.cls) or any(k.qualname + '.__init__' in self.opaque
                                                                for k in self.mro(ob.cls))):
                return gv(mk('attr', leaf, name))
            return cv
        if o == 'cls':
            c = self.classes[leaf.args[0]]
            if name == '__name__':
                return gv(const(c.name))
            v, k = self.class_attr(c, name)
            if v is None:
                if name == '__init__' and not self.has_ext_base(c):
                    return gv(mk('ext', 'builtins.object.__init__'))
                if name in ('__init__', '__new__', '__mro__', '__doc__', '__module__', '__bases__') or self.has_ext_base(c):
                    return gv(mk('attr', leaf, name))
                return None
            v = v.under(self.gate)
            t = v.single()
            if t is not None and t.op == 'func':
                f = self.funcs[t.args[0]]
                if f.kind == 'class':
                    return gv(mk('bound', f.leaf, leaf))
            return v
        if o == 'mod':
            ns = self.module(leaf.args[0])
            if leaf.args[0] + '.' + name in self.opaque_globals:
                return gv(mk('global', leaf.args[0] + '.' + name))
            if name in ns:
                v = ns[name].under(self.gate)
                if v.alts:
                    return v
            sub = leaf.args[0] + '.' + name
            if sub in self.program.modules:
                self.module(sub)
                return gv(mk('mod', sub))
            return None
        if o == 'ext':
            return gv(mk('ext', leaf.args[0] + '.' + name))
        if o == 'obj':
            return gv(mk('objm', leaf, name))
        if o == 'super':
            cq, selfleaf = leaf.args
            c = self.classes[cq.args[0]]
            if selfleaf.op == 'inst':
                start = self.obj(selfleaf).cls
            elif selfleaf.op == 'cls':
                start = self.classes[selfleaf.args[0]]
            else:
                start = self.type_of(selfleaf) or c
            ms = self.mro(start)
            ms = ms[ms.index(c) + 1:] if c in ms else self.mro(c)[1:]
            for k in ms:
                if name in k.attrs:
                    t = k.attrs[name].single()
                    if t is not None and t.op == 'func':
                        f = self.funcs[t.args[0]]
                        if f.kind == 'static':
                            return gv(f.leaf)
                        if f.kind == 'property':
                            return self.call_func(f, [gv(selfleaf)], {}, node)
                        return gv(mk('bound', f.leaf, selfleaf))
                    return k.attrs[name]
            return gv(mk('superattr', leaf, name))
        if o in ('tuple', 'seq', 'dict') and name != '__class__':
            return gv(mk('attr', leaf, name))
        if o == 'ntuple' and name in leaf.args[2]:
            return gv(attr(leaf, name))
        if o == 'ntuple' and leaf.args[0].args[0] in self.classes:
            v = self.inst_class_attr(self.classes[leaf.args[0].args[0]], leaf, name, node)
            if v is not None:
                return v
        if o == 'coro':
            return gv(mk('corom', leaf, name))
        if o == 'func' and name in ('__name__', '__doc__'):
            return gv(const(self.funcs[leaf.args[0]].qualname.split('.')[-1]))
        # opaque receivers
        k = (leaf, name)
        if k in self.symattrs:
            v = self.symattrs[k].under(self.gate)
            if v.alts:
                return v
        c = self.type_of(leaf)
        if c is not None:
            if c.fields and name in c.fields:
                return gv(idx(leaf, const(c.fields.index(name))))
            v = self.inst_class_attr(c, leaf, name, node)
            if v is not None:
                return v
        if leaf.op == 'attr' and leaf.args[1] == '__class__':
            c = self.type_of(leaf.args[0])
            if c is not None:
                m, _ = self.class_attr(c, name)
                t = m.single() if m is not None else None
                if t is not None and t.op == 'func' and self.funcs[t.args[0]].kind in ('class', 'static') \
                        and self.funcs[t.args[0]].qualname not in self.opaque:
                    f = self.funcs[t.args[0]]
                    return gv(mk('bound', f.leaf, leaf)) if f.kind == 'class' else gv(f.leaf)
                if m is not None and not self.attr_assigned_in_class(c, name) and t is not None and t.op != 'func':
                    return m
        cq = self.clsof_type(leaf)
        if cq is not None:
            m, _ = self.class_attr(cq, name)
            t = m.single() if m is not None else None
            if t is not None and t.op == 'func':
                f = self.funcs[t.args[0]]
                if f.qualname not in self.opaque and f.kind in ('class', 'static'):
                    return gv(mk('bound', f.leaf, leaf)) if f.kind == 'class' else gv(f.leaf)
        if self.inline_unique and c is None:
            f = self.unique_method(name)
            if f is not None and f.kind is None and f.qualname not in self.opaque:
                return gv(mk('bound', f.leaf, leaf))
        return gv(attr(leaf, name))

    def clsof_type(self, leaf):
        """leaf denotes a class object of known class (types entry ('clsof'))."""
        return self.types.get(mk('clsof', leaf))

    COMMON = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(int)) | set(dir(tuple)) \
        | set(dir(frozenset)) | set(['read', 'write', 'load', 'save', 'close', 'send', 'acquire', 'release'])

    def unique_method(self, name):
        if self.unique_methods is None:
            cnt = {}
            for c in self.classes.values():
                for k, v in c.attrs.items():
                    t = v.single()
                    if t is not None and t.op == 'func':
                        cnt.setdefault(k, []).append(self.funcs[t.args[0]])
            self.unique_methods = dict((k, fs[0]) for k, fs in cnt.items()
                                       if len(fs) == 1 and k not in self.COMMON and not k.startswith('__'))
        return self.unique_methods.get(name)

    def has_ext_base(self, c):
        return any(b.op != 'cls' and not (b.op == 'ext' and b.args[0] == 'builtins.object')
                   for k in self.mro(c) for b in k.bases)

    def inst_class_attr(self, c, leaf, name, node):
        v, k = self.class_attr(c, name)
        if v is None:
            return None
        v = v.under(self.gate)
        t = v.single()
        if t is not None and t.op == 'func':
            f = self.funcs[t.args[0]]
            if f.qualname in self.opaque or any(kk.qualname + '.' + name in self.opaque for kk in self.mro(c)):
                if leaf.op == 'inst' and f.kind is None:
                    return gv(mk('bound', f.leaf, leaf))
                return gv(mk('attr', leaf, name))
            if f.kind == 'property':
                return self.call_func(f, [gv(leaf)], {}, node)
            return self.bind(f, leaf, k)
        if leaf.op != 'inst' and self.attr_assigned_in_class(c, name):
            return None
        if t is not None and t.op == 'inst':
            ob = self.obj(t)
            if ob.cls is not None and self.find_method(ob.cls, '__get__') is not None:
                return gv(mk('attr', leaf, name))
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.ev_super(e)
        fv = self.ev(e.func)
        args = []
        star_top = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                leafs = [plain_items(self.snap_if_fresh(t)) for _, t in v.alts]
                if len(leafs) == 1 and leafs[0] is not None:
                    args.extend(gv(x) for x in leafs[0])
                else:
                    args.append(v.map(lambda t: mk('star', self.snap_if_fresh(t))))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                t = v.single()
                s = self.snap_if_fresh(t) if t is not None else None
                if s is not None and s.op == 'dict' and all(
                        x.kind == 'item' and not x.binders and isstr(x.value.args[0]) for x in s.args[0]):
                    vals = {}
                    for x in s.args[0]:
                        n = cval(x.value.args[0])
                        alts = [(B.and_(g, B.not_(x.gate)), t) for g, t in vals.get(n, ())] + [(x.gate, x.value.args[1])]
                        vals[n] = [(g, t) for g, t in alts if g != FALSE]
                    whole = True
                    for n, alts in vals.items():
                        dom = FALSE
                        for g, _ in alts:
                            dom = B.or_(dom, g)
                        whole = whole and B.implies(self.gate, dom)
                    if whole:
                        for n, alts in vals.items():
                            kw[n] = gv_join([(g, gv(t)) for g, t in alts])
                    else:
                        kw['**'] = v
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        self.stats['call_sites'].add(self.here(e))
        return self.call_gv(fv, args, kw, e)

    def ev_super(self, e):
        fr = self.frames[-1]
        if e.args:
            c = self.ev(e.args[0]).single()
            s = self.ev(e.args[1]).single() if len(e.args) > 1 else None
        else:
            f = fr.func
            c = f.cls.leaf if f is not None and f.cls is not None else None
            s = None
            if f is not None and f.node.args.args:
                s = self.read_name(f.node.args.args[0].arg, e).single()
        if c is None or s is None or c.op != 'cls':
            return gv(self.top('super()', e))
        return gv(mk('super', c, s))

    def call_gv(self, fv, args, kw, node):
        if len(fv.alts) == 1:
            return self.call_leaf(fv.alts[0][1], args, kw, node)
        out = []
        for g, f in fv.alts:
            with self.under(g):
                if self.gate == FALSE:
                    continue
                out.append((g, self.call_leaf(f, [a.under(self.gate) for a in args], kw, node)))
        return gv_join(out)

    def opaque_call(self, f, args, kw, node):
        """Uninterpreted call; logged."""
        def build(*ts):
            n = len(args)
            ts = [self.argview(t) for t in ts]
            pos = tuple(ts[:n])
            kws = tuple((k, t) for k, t in zip(keys, ts[n:]))
            if f.op == 'attr':
                r = mcall(f.args[0], f.args[1], pos, kws)
            else:
                r = mk('call', f, pos, kws)
            return r
        keys = sorted(kw)
        res = lift(build, *(list(args) + [kw[k] for k in keys]))
        self.calls.append(Event('call', self.gate, self.binders, (f, tuple(args), dict(kw), res), self.here(node),
                                self.locks, self.tick()))
        if f.op == 'attr' and f.args[1] in MUTATORS:
            self.effect('mutate', f.args[0], f.args[1], list(args), node)
        if f.op == 'ext' and f.args[0] in self.CHARACTER and len(args) == 1 and not kw:
            self.partial(f.args[0], self.as_leaf(res), ('ValueError',), node, operands=[self.as_leaf(args[0])])
            return res
        if f.op == 'attr' and f.args[1] in ('encode', 'decode') and len(args) == 1 and not kw:
            t = self.as_leaf(args[0])
            if is_const(t) and isinstance(t.args[0], str) and t.args[0].lower().replace('_', '-') not in ('utf8', 'utf-8', 'utf-16', 'utf-32'):
                self.partial(f.args[1], self.as_leaf(res), ('UnicodeEncodeError' if f.args[1] == 'encode' else 'UnicodeDecodeError',),
                             node, operands=[f.args[0], t])
                return res
        # may raise inside a try
        if self.handlers:
            self.opaque_raise(f, res, node)
        return res

    def argview(self, t):
        s = self.snap_if_fresh(t)
        return s

    CHARACTER = ('unicodedata.name', 'unicodedata.digit', 'unicodedata.decimal', 'unicodedata.numeric')
    RAISERS = {
        'builtins.int': ('ValueError', 'TypeError'), 'builtins.float': ('ValueError', 'TypeError'),
        'os.mkdir': ('OSError',), 'os.makedirs': ('OSError',), 'unicodedata.name': ('ValueError',),
        'builtins.next': ('StopIteration',), 'builtins.open': ('OSError',),
    }

    SAFE = (set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(set))) - set(
        ['index', 'encode', 'decode', 'pop', 'remove', 'popitem', '__getitem__', 'format', 'format_map'])

    def opaque_raise(self, f, res, node):
        if f.op == 'attr' and f.args[1] in self.SAFE:
            return
        h = self.handlers[-1]
        t = self.as_leaf(res)
        name = f.args[0] if f.op == 'ext' else f.args[1] if f.op == 'attr' else ''
        known = self.RAISERS.get(name)
        for hh in reversed(self.handlers):
            for i, (ht, _) in enumerate(hh.types):
                if known is not None:
                    continue
                if any(x in ('Exception', 'BaseException') for x in ht) or f.op == 'ext' or f.op == 'attr':
                    if all(x in ('ImportError', 'KeyError', 'IndexError', 'StopIteration') for x in ht):
                        continue
                    fail = A('raises', ht[0], t)
                    g = B.and_(self.gate, fail)
                    hh.gates[i] = B.or_(hh.gates[i], exists(self.binders[hh.depth:], g))
                    self.gate = B.and_(self.gate, B.not_(fail))
                    return

    def call_leaf(self, f, args, kw, node):
        o = f.op
        if o == 'func':
            fn = self.funcs[f.args[0]]
            return self.call_func(fn, args, kw, node)
        if o == 'bound':
            fn = self.funcs[f.args[0].args[0]]
            return self.call_func(fn, [gv(f.args[1])] + list(args), kw, node)
        if o == 'cls':
            return self.instantiate(f, args, kw, node)
        if o == 'objm':
            return self.obj_method(f.args[0], f.args[1], args, kw, node)
        if o == 'ext':
            from .builtins_model import call_ext
            return call_ext(self, f.args[0], args, kw, node)
        if o == 'itemgetter':
            if len(f.args) == 1:
                return self.subscript(args[0], gv(f.args[0]), node)
            parts = [self.subscript(args[0], gv(k), node) for k in f.args]
            return lift(lambda *ts: mk('tuple', *ts), *parts)
        if o == 'attrgetter':
            r = args[0]
            for n in f.args[0].split('.'):
                r = self.attr_gv(r, n, node)
            return r
        if o == 'partial':
            kk = dict(f.args[2])
            kk.update(kw)
            return self.call_gv(gv(f.args[0]), [gv(x) for x in f.args[1]] + list(args),
                                dict((k, v if isinstance(v, GV) else gv(v)) for k, v in kk.items()), node)
        if o == 'corom':
            return self.coro_step(f.args[0], f.args[1], args, node)
        if o == 'ntcls':
            return self.make_ntuple(f, args, kw, node)
        if o == 'superattr':
            if f.args[1] in ('__init__',):
                if args or kw:
                    self.calls.append(Event('call', self.gate, self.binders, (f, tuple(args), dict(kw), gv(NONE)),
                                            self.here(node), self.locks, self.tick()))
                return gv(NONE)
            return self.opaque_call(mk('attr', f.args[0].args[1], f.args[1]), args, kw, node)
        if o == 'inst':
            m = self.find_method(self.obj(f).cls, '__call__')
            if m is not None:
                return self.call_func(m, [gv(f)] + list(args), kw, node)
        if o == 'attr' and f.args[0].op == 'lock' and f.args[1] in ('acquire', 'release', '__enter__', '__exit__'):
            if f.args[1] in ('acquire', '__enter__'):
                a = [x.single() for x in args]
                if kw or a not in ([], [TRUE_T]):
                    if a != [FALSE_T]:
                        self.locks.append(self.top('lock', node))
                    return gv(mcall(f.args[0], 'acquire', tuple(self.argview(x) if x is not None else top('arg') for x in a)))
                if f.args[0] not in self.locks:
                    self.acquired.append(f.args[0])
                self.locks.append(f.args[0])
            elif f.args[0] in self.locks:
                i = len(self.locks) - 1 - self.locks[::-1].index(f.args[0])
                del self.locks[i]
            return gv(TRUE_T)
        if o == 'attr':
            base = f.args[0]
            if base.op in ('cls',) and f.args[1] in ('__new__', '_make'):
                if f.args[1] == '_make' and len(args) == 1:
                    t = args[0].single()
                    it = plain_items(self.snap_if_fresh(t)) if t is not None else None
                    if it is not None:
                        return self.instantiate(base, [gv(x) for x in it], {}, node)
                    return self.instantiate(base, [args[0].map(lambda t: mk('star', t))], {}, node)
            if base.op in ('seq', 'tuple', 'dict', 'objref'):
                return self.container_method(base, f.args[1], args, kw, node)
            if base.op == 'const' and isinstance(base.args[0], str):
                return self.str_method(base, f.args[1], args, kw, node)
        if o == 'phi':
            return gv(self.top('call of phi', node))
        if o == 'attr' and f.args[1] == 'join' and len(args) == 1:
            return self.str_join(f.args[0], args[0], node)
        if o == 'attr' and f.args[1] == 'format':
            pass
        if o == 'attr' and not kw and f.args[1] == 'index' and len(args) == 1:
            def f2(t):
                r = mcall(f.args[0], 'index', (t,))
                self.partial('indexof', r, ('ValueError',), node, fail=B.not_(member(t, f.args[0])),
                             operands=(f.args[0], t))
                return r
            return lift(f2, args[0])
        if o == 'attr' and f.args[1] in ('extend', 'update') and False:
            pass
        return self.opaque_call(f, args, kw, node)

    def str_method(self, base, name, args, kw, node):
        if name == 'join' and len(args) == 1:
            return self.str_join(base, args[0], node)
        if name == 'format':
            def f(*ts):
                r = ops.brace_format(base, [self.snap_if_fresh(x) for x in ts[:len(args)]],
                                     dict(zip(keys, [self.snap_if_fresh(x) for x in ts[len(args):]])))
                return r if r is not None else mk('fmtcall', base, *ts)
            keys = sorted(kw)
            return lift(f, *(list(args) + [kw[k] for k in keys]))
        keys = sorted(kw)
        r = lift(lambda *ts: mcall(base, name, [self.snap_if_fresh(x) for x in ts[:len(args)]],
                                   tuple(zip(keys, ts[len(args):]))),
                 *(list(args) + [kw[k] for k in keys]))
        t = r.single()
        if t is not None and t.op == 'seq' and t.args[0] == 'list':
            o = self.new_obj('list', node)
            for e in t.args[1]:
                self.mutate(self.leaf_of(o), 'append', [gv(e.value)], {}, node)
            return gv(self.leaf_of(o))
        return r

    def str_join(self, sep, arg, node):
        def f(t):
            t = self.snap_if_fresh(t)
            it = plain_items(t)
            if it is not None:
                parts = []
                for i, x in enumerate(it):
                    if i:
                        parts.append(sep)
                    parts.append(x)
                return concat(parts)
            return mk('join', sep, t)
        groups = self.item_groups(arg)
        if groups is not None and 1 < max([len(x.alts) for x in groups] or [0]) <= 4 and len(groups) <= 8:
            parts = []
            for i, x in enumerate(groups):
                if i:
                    parts.append(gv(sep))
                parts.append(x)
            return lift(lambda *ts: concat(list(ts)), *parts)
        return lift(f, arg)

    def item_groups(self, arg):
        """Items of a list literal whose items have alternatives, one value per item; None if it is something else."""
        t = arg.single() if isinstance(arg, GV) else None
        t = self.snap_if_fresh(t) if t is not None else None
        if t is None or t.op != 'seq' or t.args[0] not in ('list', 'tuple') or t.args[2] or t.args[3]:
            return None
        out, group, seen = [], [], FALSE
        for e in t.args[1]:
            if e.binders or e.kind != 'item' or B.and_(seen, e.gate) != FALSE:
                return None
            group.append((e.gate, e.value))
            seen = B.or_(seen, e.gate)
            if seen == TRUE:
                out.append(gv_join(group))
                group, seen = [], FALSE
        return out if not group else None

    def container_method(self, base, name, args, kw, node):
        if base.op == 'objref':
            leaf = mk('obj', base.args[0])
            return self.obj_method(leaf, name, args, kw, node)
        if base.op == 'tuple' and name == 'index':
            def f2(t):
                r = mk('indexof', base, t)
                self.partial('indexof', r, ('ValueError',), node, fail=B.not_(member(t, base)), operands=(base, t))
                return r
            return lift(f2, args[0])
        keys = sorted(kw)
        return lift(lambda *ts: mcall(base, name, [self.snap_if_fresh(x) for x in ts[:len(args)]],
                                      tuple(zip(keys, ts[len(args):]))), *(list(args) + [kw[k] for k in keys]))

    def obj_method(self, leaf, name, args, kw, node):
        o = self.obj(leaf)
        if name in MUTATORS or name in ('__setitem__',):
            if name == '__setitem__':
                name = 'setitem'
            return self.mutate(leaf, name, args, kw, node)
        if o.kind == 'dict':
            if name == 'get':
                d = args[1] if len(args) > 1 else gv(NONE)

                def f(k):
                    known = self.known_dict_value(o, gv(k))
                    if known is not None:
                        return known
                    g = self.member_leaf(k, leaf, node)
                    if g == FALSE:
                        return d
                    val = self.dict_get(o, gv(k), node)
                    return gv_ite(g, val, d)
                return lift(f, args[0])
            if name in ('items', 'iteritems', 'keys', 'values', 'itervalues', 'iterkeys') and not args:
                return gv(mk('mcall', leaf, name, (), ()))
            if name == 'copy':
                n = self.new_obj('dict', node)
                n.default = o.default
                for e in o.events:
                    n.events.append(e)
                if o.epoch < self.epoch and not self.resolve_old:
                    n.events.append(Event('update', self.gate, self.binders, (self.ref(o),), self.here(node)))
                return gv(self.leaf_of(n))
        if name == 'copy' and o.kind in ('list', 'set'):
            n = self.new_obj(o.kind, node)
            self.mutate(self.leaf_of(n), 'extend', [gv(leaf)], {}, node)
            return gv(self.leaf_of(n))
        if name == 'issubset' and args:
            return gv(boolt(self.compare_gv('<=', gv(leaf), args[0], node)))
        if name == 'issuperset' and args:
            return gv(boolt(self.compare_gv('<=', args[0], gv(leaf), node)))
        if name == 'isdisjoint' and len(args) == 1:
            return gv(boolt(B.not_(self.truth(self.binop_gv('&', gv(leaf), args[0], node)))))
        if name in ('union', 'intersection', 'difference', 'symmetric_difference') and len(args) == 1:
            op = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[name]
            return self.binop_gv(op, gv(leaf), args[0].map(lambda t: t), node)
        s = self.snap_if_fresh(leaf)
        if name == 'index' and len(args) == 1:
            def f2(t):
                r = mk('indexof', s, t)
                self.partial('indexof', r, ('ValueError',), node, fail=B.not_(member(t, s)), operands=(s, t))
                return r
            return lift(f2, args[0])
        keys = sorted(kw)
        return lift(lambda *ts: mcall(s, name, [self.snap_if_fresh(x) for x in ts[:len(args)]],
                                      tuple(zip(keys, ts[len(args):]))), *(list(args) + [kw[k] for k in keys]))

    def bind_args(self, fn, args, kw, node):
        a = fn.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        extra = []
        kw = dict(kw)
        i = 0
        for v in args:
            t = v.single() if isinstance(v, GV) else v
            if t is not None and t.op == 'star':
                src = t.args[0]
                k = 0
                while i < len(names):
                    env[names[i]] = gv(idx(src, const(k)))
                    i += 1
                    k += 1
                if a.vararg:
                    extra.append(v)
                continue
            if i < len(names):
                env[names[i]] = v
                i += 1
            else:
                extra.append(v)
        if extra and not a.vararg:
            self.partial('arity', mk('const', fn.qualname), ('TypeError',), node, fail=TRUE)
        if a.vararg:
            env[a.vararg.arg] = lift(lambda *ts: mk('tuple', *ts), *extra)
        rest = {}
        star2 = kw.pop('**', None)
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            o = self.new_obj('dict', node)
            for k, v in rest.items():
                self.mutate(self.leaf_of(o), 'setitem', [gv(const(k)), v], {}, node)
            if star2 is not None:
                self.mutate(self.leaf_of(o), 'update', [star2], {}, node)
            env[a.kwarg.arg] = gv(self.leaf_of(o))
        elif rest:
            self.partial('arity', mk('const', fn.qualname), ('TypeError',), node, fail=TRUE)
        nd = len(fn.defaults)
        for j, n in enumerate(names):
            if n not in env:
                k = j - (len(names) - nd)
                if star2 is not None:
                    t = star2.single()
                    known = None
                    if t is not None and t.op == 'obj' and self.obj(t).kind == 'dict':
                        known = self.known_dict_value(self.obj(t), gv(const(n)))
                        if known is None and k >= 0 and self.obj(t).events and self.closed_dict(self.obj(t)):
                            known = fn.defaults[k]
                    env[n] = known if known is not None else star2.map(lambda t: idx(t, const(n)))
                elif 0 <= k < nd:
                    env[n] = fn.defaults[k]
                else:
                    self.partial('arity', mk('const', fn.qualname), ('TypeError',), node, fail=TRUE)
                    env[n] = gv(self.top('missing argument %s' % n, node))
        for x in a.kwonlyargs:
            if x.arg not in env:
                env[x.arg] = fn.kw_defaults.get(x.arg, gv(NONE))
        return env

    def call_func(self, fn, args, kw, node):
        if fn.qualname in self.opaque:
            if fn.cls is not None and args and fn.kind is None:
                s = self.as_leaf(args[0])
                return self.opaque_call(mk('attr', s, fn.qualname.split('.')[-1]), args[1:], kw, node)
            return self.opaque_call(mk('global', fn.qualname), args, kw, node)
        if fn.qualname in self.transparent and not fn.closure:
            return gv(mk('transparent', fn.qualname))
        if fn.qualname in self.callstack and self.callstack.count(fn.qualname) >= 2 or len(self.callstack) > self.max_depth:
            return self.opaque_call(mk('global', fn.qualname), args, kw, node)
        env = self.bind_args(fn, args, kw, node)
        if fn.is_coro:
            return gv(self.new_coro(fn, env))
        return self.run_func(fn, env, node)

    def run_func(self, fn, env, node):
        self.stats['functions'].add(fn.qualname)
        fr = Frame(fn, fn.module, env, fn.closure)
        fr.base_binders = len(self.binders)
        saved_loops, saved_loc = self.loops, self.loc
        self.loops = []
        g0 = self.gate
        self.frames.append(fr)
        self.callstack.append(fn.qualname)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body)
                return v
            if fn.is_gen:
                o = self.new_obj('gen', node)
                fr.yields = self.leaf_of(o)
                self.exec_block(fn.node.body)
                self.gate = g0
                return gv(self.leaf_of(o))
            self.exec_block(fn.node.body)
            fall = self.gate
            res = self.join_returns(fr, fall, g0)
        finally:
            self.callstack.pop()
            self.frames.pop()
            self.loops, self.loc = saved_loops, saved_loc
            if not (isinstance(fn.node, ast.Lambda)):
                self.gate = g0
        if fn.is_gen:
            return res
        dom = FALSE
        for g, t in res.alts:
            dom = B.or_(dom, g)
        self.gate = B.and_(g0, dom)
        return self.boolify(res.under(self.gate)) if self.gate != FALSE else res

    def join_returns(self, fr, fall, g0):
        alts = []
        i = 0
        rs = fr.returns
        done = FALSE
        while i < len(rs):
            g, bs, v, depth, loc = rs[i]
            if not bs:
                for a, t in v.alts:
                    alts.append((B.and_(g, a), t))
                i += 1
                continue
            # all returns issued inside the same outermost loop
            j = i
            group = []
            while j < len(rs) and rs[j][1] and rs[j][1][0] is bs[0]:
                for a, t in rs[j][2].alts:
                    gg = B.and_(rs[j][0], a)
                    if gg != FALSE:
                        group.append((gg, rs[j][1], t))
                j += 1
            total = FALSE
            for gg, bb, t in group:
                total = B.or_(total, exists(bb, gg))
            same = all(t is group[0][2] for _, _, t in group)
            bset = set(x for _, bb, _ in group for x in bb)
            if same and not (elems_in(group[0][2]) & bset):
                alts.append((total, group[0][2]))
            else:
                ems = [Emission(bb, gg, t) for gg, bb, t in group]
                parts = ops.outer_split(seq('list', ems))
                for g, x in parts or [(total, seq('list', ems))]:
                    if x.args[1]:
                        alts.append((B.and_(g, total), ops.first_item(x) or mk('firstof', tuple(ems))))
            i = j
        if fall != FALSE:
            alts.append((fall, NONE))
        return gv_join(alts)

    # ------------------------------------------------------------ coroutines
    def new_coro(self, fn, env):
        cid = self.tick()
        CORO[cid] = {'fn': fn, 'env': env, 'pos': 0, 'target': None, 'binders': tuple(self.binders)}
        return mk('coro', cid)

    def coro_step(self, leaf, meth, args, node):
        st = CORO[leaf.args[0]]
        fn = st['fn']
        self.stats['functions'].add(fn.qualname)
        fr = Frame(fn, fn.module, st['env'], fn.closure)
        fr.base_binders = len(self.binders)
        self.frames.append(fr)
        self.callstack.append(fn.qualname)
        saved_loops = self.loops
        self.loops = []
        try:
            if meth in ('send', '__next__', 'next', 'throw', 'close'):
                if st['target'] is not None:
                    val = args[0] if args else gv(NONE)
                    if isinstance(st['target'], ast.AST):
                        self.assign(st['target'], val, node)
                body = fn.node.body
                while st['pos'] < len(body):
                    s = body[st['pos']]
                    st['pos'] += 1
                    ys = [x for x in walk_scope([s]) if isinstance(x, (ast.Yield, ast.YieldFrom))]
                    if not ys:
                        if isinstance(s, ast.Return):
                            st['pos'] = len(body)
                            break
                        self.exec_stmt(s)
                        continue
                    y = None
                    tgt = None
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                        y = s.value
                        tgt = False
                    elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Yield) and len(s.targets) == 1:
                        y = s.value
                        tgt = s.targets[0]
                    if y is None or len(ys) > 1:
                        return gv(self.top('coroutine with nested yield', s))
                    st['target'] = tgt
                    return self.ev(y.value) if y.value is not None else gv(NONE)
                self.partial('stopiteration', leaf, ('StopIteration',), node, fail=TRUE)
                return gv(mk('bottom', 'StopIteration'))
            return gv(self.top('coroutine method', node))
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.loops = saved_loops

    # --------------------------------------------------------- instantiation
    def instantiate(self, f, args, kw, node):
        c = self.classes[f.args[0]]
        if c.qualname in self.opaque_globals:
            return self.opaque_call(mk('global', c.qualname), args, kw, node)
        if c.fields and self.find_method(c, '__new__') is None and self.find_method(c, '__init__') is None:
            return self.make_ntuple(mk('ntcls', c.qualname, c.fields), args, kw, node)
        if any(b.op == 'ext' and b.args[0] in ('builtins.Exception', 'builtins.ValueError') for k in self.mro(c)
               for b in k.bases):
            return gv(mk('exc', c.name))
        o = self.new_obj('inst', node, c)
        leaf = self.leaf_of(o)
        init = self.find_method(c, '__init__')
        if init is not None:
            self.call_func(init, [gv(leaf)] + list(args), kw, node)
        elif args or kw:
            if not self.has_ext_base(c):
                self.partial('arity', leaf, ('TypeError',), node, fail=TRUE)
            o.attrs['__ctor_args__'] = lift(lambda *ts: mk('tuple', *ts), *args)
        return gv(leaf)

    def make_ntuple(self, f, args, kw, node):
        qn, fields = f.args
        vals = {}
        for i, a in enumerate(args):
            t = a.single()
            if t is not None and t.op == 'star':
                base = t.args[0]
                k = i
                while k < len(fields):
                    vals[fields[k]] = gv(idx(base, const(k - i)))
                    k += 1
                if len(args) == 1 and not kw:
                    return gv(mk('ntuple', mk('cls', qn), tuple(vals[x].single() for x in fields), fields))
                break
            if i < len(fields):
                vals[fields[i]] = a
        for k, v in kw.items():
            vals[k] = v
        miss = [x for x in fields if x not in vals]
        if miss:
            self.partial('arity', f, ('TypeError',), node, fail=TRUE)
            for x in miss:
                vals[x] = gv(self.top('missing field', node))
        return lift(lambda *ts: mk('ntuple', mk('cls', qn), tuple(ts), fields), *[vals[x] for x in fields])


class _Under(object):
    def __init__(self, it, g):
        self.it, self.g = it, g

    def __enter__(self):
        self.saved = self.it.gate
        self.it.gate = B.and_(self.saved, self.g)
        self.entry = self.it.gate

    def __exit__(self, *a):
        # code inside may have removed raising alternatives from the gate
        lost = B.and_(self.entry, B.not_(self.it.gate))
        self.it.gate = B.and_(self.saved, B.not_(lost))
        return False


class LazyCall(object):
    """Element of map(f, xs): evaluated in the context of the consuming loop."""

    def __init__(self, it, f, v, node):
        self.it, self.f, self.v, self.node = it, f, v, node

    def force(self, gate=None, binders=()):
        it = self.it
        sg, sb = it.gate, it.binders
        if gate is not None:
            it.gate = gate
            it.binders = list(it.binders) + list(binders)
        v = self.v.force() if isinstance(self.v, LazyCall) else self.v
        r = it.call_leaf(self.f, [v if isinstance(v, GV) else gv(v)], {}, self.node)
        it.gate, it.binders = sg, sb
        return r


WHILE_INFO = {}
CORO = {}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
