"""Regular expressions found in the source, as syntax trees and automata (nothing is matched against sample texts)."""
import re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C

from .common import *

MAXREPEAT = C.MAXREPEAT


class Unsupported(Exception):
    pass


FLAGS = {'re.VERBOSE': re.X, 're.X': re.X, 're.IGNORECASE': re.I, 're.I': re.I, 're.UNICODE': re.U, 're.U': re.U,
         're.MULTILINE': re.M, 're.M': re.M, 're.DOTALL': re.S, 're.S': re.S, 're.ASCII': re.A, 're.A': re.A}


def flags_of(t):
    """Value of a flags argument, None when not known."""
    if t is None:
        return 0
    if is_const(t) and isinstance(t.args[0], int):
        return t.args[0]
    if t.op == 'ext':
        return int(FLAGS[t.args[0]]) if t.args[0] in FLAGS else None
    if t.op == 'bin' and t.args[0] == '|':
        a, b = flags_of(t.args[1]), flags_of(t.args[2])
        return None if a is None or b is None else a | b
    return None


def use_of(t):
    """An application of a regular expression: (pattern, flags, method, arguments) or None."""
    if t.op == 'mcall' and t.args[0].op == 'call' and t.args[0].args[0].op == 'ext' and \
            t.args[0].args[0].args[0] == 're.compile':
        p = compiled(t.args[0])
        return p and p + (t.args[1], t.args[2])
    if t.op == 'mcall' and t.args[0].op == 'ext' and t.args[0].args[0] == 're':
        return direct(t.args[1], t.args[2], dict(t.args[3] or ()))
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('re.'):
        return direct(t.args[0].args[0][3:], t.args[1], dict(t.args[2] or ()))
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[0].op == 'call':
        p = compiled(t.args[0].args[0])
        return p and p + (t.args[0].args[1], t.args[1])
    return None


def compiled(t):
    if not (t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 're.compile'):
        return None
    a, kw = t.args[1], dict(t.args[2] or ())
    p = a[0] if a else kw.get('pattern')
    f = flags_of(a[1] if len(a) > 1 else kw.get('flags'))
    if p is None or f is None or not is_const(p) or not isinstance(p.args[0], str):
        return None
    return p.args[0], f


def direct(meth, a, kw):
    n = {'match': 2, 'fullmatch': 2, 'search': 2, 'split': 3, 'findall': 2, 'finditer': 2}.get(meth)
    if n is None or not a or not is_const(a[0]) or not isinstance(a[0].args[0], str):
        return None
    f = flags_of(a[n] if len(a) > n else kw.get('flags'))
    if f is None:
        return None
    return a[0].args[0], f, meth, tuple(a[1:n])


def parse(pattern, flags):
    try:
        return sre_parse.parse(pattern, flags)
    except re.error as e:
        raise Unsupported('not a regular expression: %s' % e)


CATEGORY = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
            C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}


class CharSet(object):
    """Set of characters of a single-character node."""

    def __init__(self, op, av, flags):
        self.op, self.av, self.flags = op, av, flags

    def one(self, c):
        if self.op is C.LITERAL:
            return ord(c) == self.av
        if self.op is C.NOT_LITERAL:
            return ord(c) != self.av
        if self.op is C.ANY:
            return bool(self.flags & re.S) or c != '\n'
        if self.op is C.CATEGORY:
            return self.cat(self.av, c)
        neg = False
        hit = False
        for op, av in self.av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                hit = hit or ord(c) == av
            elif op is C.RANGE:
                hit = hit or av[0] <= ord(c) <= av[1]
            elif op is C.CATEGORY:
                hit = hit or self.cat(av, c)
            else:
                raise Unsupported(str(op))
        return hit != neg

    def cat(self, av, c):
        if av not in CATEGORY:
            raise Unsupported(str(av))
        k = CATEGORY[av]
        if self.flags & re.A and ord(c) > 127:
            r = False
        elif k[1] in 'dD':
            r = c.isdecimal()
        elif k[1] in 'sS':
            r = c.isspace()
        else:
            r = c.isalnum() or c == '_'
        return r != k[1].isupper()

    def has(self, c):
        if not self.flags & re.I or self.op is C.ANY:
            return self.one(c)
        pos = any(self.one(x) for x in set([c, c.lower(), c.upper(), c.swapcase()]) if len(x) == 1)
        if self.op is C.NOT_LITERAL or self.op is C.IN and self.av and self.av[0][0] is C.NEGATE:
            return all(self.one(x) for x in set([c, c.lower(), c.upper(), c.swapcase()]) if len(x) == 1)
        return pos


SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY)
REPEATS = tuple(getattr(C, n) for n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT') if hasattr(C, n))


def sub(av, flags):
    """Body of a group with its flags."""
    g, add, drop, body = av
    return g, body, (flags | add) & ~drop


def charsets(tree, flags):
    """Every single-character node."""
    for op, av in tree:
        if op in SINGLE:
            yield CharSet(op, av, flags)
        elif op is C.BRANCH:
            for x in av[1]:
                for y in charsets(x, flags):
                    yield y
        elif op is C.SUBPATTERN:
            g, body, f = sub(av, flags)
            for y in charsets(body, f):
                yield y
        elif op in REPEATS:
            for y in charsets(av[2], flags):
                yield y
        else:
            raise Unsupported(str(op))


def groups(tree, flags, earlier=()):
    """(Single-character nodes tried at the same place before, contents, flags) of the capturing groups."""
    earlier = list(earlier)
    for op, av in tree:
        if op is C.BRANCH:
            before = list(earlier)
            for x in av[1]:
                for y in groups(x, flags, before):
                    yield y
                before += charsets(x, flags)
        elif op is C.SUBPATTERN:
            g, body, f = sub(av, flags)
            if g is not None:
                yield earlier, body, f
            else:
                for y in groups(body, f, earlier):
                    yield y
        elif op in REPEATS:
            for y in groups(av[2], flags, earlier):
                yield y


def swallowed(body, flags, earlier):
    """Single-character nodes that a greedy repetition at the start of the group takes as often as it can."""
    for op, av in body:
        if op is C.MAX_REPEAT and av[1] > 1:
            for o, a in av[2]:
                if len(av[2]) == 1 and o in SINGLE:
                    yield CharSet(o, a, flags), earlier
            return
        if op is C.BRANCH:
            before = list(earlier)
            for x in av[1]:
                for y in swallowed(x, flags, before):
                    yield y
                before += charsets(x, flags)
            return
        if op is C.SUBPATTERN:
            g, b, f = sub(av, flags)
            for y in swallowed(b, f, earlier):
                yield y
            return
        return


def outside_groups(tree, flags, inside=False):
    """Single-character nodes whose text no group captures, and the number of groups a piece of text is in at most."""
    out, depth = [], 0
    for op, av in tree:
        if op in SINGLE:
            if not inside:
                out.append(CharSet(op, av, flags))
        elif op is C.BRANCH:
            for x in av[1]:
                o, d = outside_groups(x, flags, inside)
                out += o
                depth = max(depth, d)
        elif op is C.SUBPATTERN:
            g, body, f = sub(av, flags)
            o, d = outside_groups(body, f, inside or g is not None)
            out += o
            depth = max(depth, d + (g is not None))
        elif op in REPEATS:
            o, d = outside_groups(av[2], flags, inside)
            out += o
            # a group inside a repetition keeps only its last piece
            depth = max(depth, d)
            if d and av[1] != 1:
                raise Unsupported('a repeated group')
        else:
            raise Unsupported(str(op))
    return out, depth


# ---------------------------------------------------------------- automata
END = 'END'        # after the last character
NLE = 'NLE'        # a newline that is the last character


def char(c):
    return '\n' if c == NLE else c


class Language(object):
    """Texts for which the method of the pattern finds a match, as a nondeterministic automaton."""

    def __init__(self, pattern, flags, method, nonempty=False):
        if method not in ('match', 'fullmatch', 'search'):
            raise Unsupported(method)
        self.n = 0
        self.eps = {}
        self.edges = {}
        tree = parse(pattern, flags)
        flags = (tree.state if hasattr(tree, 'state') else tree.pattern).flags
        s = self.new()
        if method == 'search' and len(tree) and tree[0][0] is C.AT and tree[0][1] in (
                C.AT_BEGINNING, C.AT_BEGINNING_STRING) and not flags & re.M:
            method = 'match'
        if method == 'search':
            self.on(s, lambda c: True, s)
        last = self.build(tree, flags, s, method != 'search')
        if method != 'fullmatch':
            end = self.new()
            self.e(last, end)
            self.on(end, lambda c: True, end)
            last = end
        self.last = last
        self.initial = frozenset([s])
        self.nonempty = nonempty

    def through(self, f):
        """The text is converted character by character first."""
        for a, es in self.edges.items():
            self.edges[a] = [(lambda c, t=t: len(f(c)) == 1 and t(f(c)), b) for t, b in es]

    def padded(self, how):
        """White characters around are removed first."""
        if how in ('strip', 'lstrip'):
            s = self.new()
            self.on(s, lambda c: c.isspace(), s)
            for x in self.initial:
                self.e(s, x)
            self.initial = frozenset([s])
        if how in ('strip', 'rstrip'):
            s = self.new()
            self.e(self.last, s)
            self.on(s, lambda c: c.isspace(), s)
            self.last = s

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, guard=None):
        self.eps.setdefault(a, []).append((guard, b))

    def on(self, a, test, b):
        self.edges.setdefault(a, []).append((test, b))

    def closure(self, xs, nxt):
        todo, seen = list(xs), set(xs)
        while todo:
            for guard, y in self.eps.get(todo.pop(), ()):
                if y not in seen and (guard is None or guard(nxt)):
                    seen.add(y)
                    todo.append(y)
        return seen

    def step(self, xs, c):
        x = char(c)
        return frozenset(b for a in self.closure(xs, c) for t, b in self.edges.get(a, ()) if t(x))

    def accepts(self, xs):
        return self.last in self.closure(xs, END)

    def build(self, tree, flags, a, at_start):
        """Add the pattern after state a; returns the state after it."""
        for i, (op, av) in enumerate(tree):
            if op in SINGLE:
                cs = CharSet(op, av, flags)
                b = self.new()
                self.on(a, cs.has, b)
                a = b
            elif op is C.BRANCH:
                b = self.new()
                for x in av[1]:
                    self.e(self.build(x, flags, a, at_start and not i), b)
                a = b
            elif op is C.SUBPATTERN:
                g, body, f = sub(av, flags)
                a = self.build(body, f, a, at_start and not i)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, body = av
                for _ in range(lo):
                    a = self.build(body, flags, a, False)
                if hi is MAXREPEAT or hi == MAXREPEAT:
                    b = self.new()
                    self.e(a, b)
                    self.e(self.build(body, flags, b, False), b)
                else:
                    if hi - lo > 200:
                        raise Unsupported('repetition')
                    b = self.new()
                    self.e(a, b)
                    for _ in range(hi - lo):
                        a = self.build(body, flags, a, False)
                        self.e(a, b)
                a = b
            elif op is C.AT:
                if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and at_start and not i and not flags & re.M:
                    continue
                b = self.new()
                if av is C.AT_END_STRING:
                    self.e(a, b, lambda c: c == END)
                elif av is C.AT_END and not flags & re.M:
                    self.e(a, b, lambda c: c in (END, NLE))
                else:
                    raise Unsupported(str(av))
                a = b
            else:
                raise Unsupported(str(op))
        return a


def outside(a, b, alphabet, limit=200000):
    """A text that a accepts and b does not (None: there is none over the alphabet)."""
    first = (a.initial, b.initial)
    seen = set([first])
    todo = [(first, '')]
    for (x, y), w in todo:
        if a.accepts(x) and not (a.nonempty and not w) and (not b.accepts(y) or b.nonempty and not w):
            return w
        for c in alphabet:
            p = (a.step(x, c), b.step(y, c))
            if not p[0]:
                continue
            if c == NLE:
                if a.accepts(p[0]) and not b.accepts(p[1]):
                    return w + '\n'
                continue
            if p not in seen:
                seen.add(p)
                if len(seen) > limit:
                    raise Unsupported('too many states')
                todo.append((p, w + c))
    return None
