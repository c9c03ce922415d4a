"""A23 tokens, A24 capitalisation, A29 shapes: rules about plain text functions."""
import re
import unicodedata

from . import regex
from .common import *

S = P + 'shapes.'
TEXT = sym('text')
TOKEN = sym('token')
EXAMPLE = sym('example')


def loops(x):
    """What the loops of a canonical value run over."""
    out = set()
    todo = [t for _, t in x.alts] if isinstance(x, GV) else [x]
    for g, t in x.alts if isinstance(x, GV) else ():
        todo.extend(B.support_atoms(g))
    seen = set()
    while todo:
        t = todo.pop()
        for s in subterms(t, seen):
            if s.op in ('cbinder', 'binder'):
                out.add(s)
            for a in s.args:
                for e in a if isinstance(a, tuple) else (a,):
                    if isinstance(e, Emission):
                        out.update(e.binders)
                        todo.append(e.value)
                        todo.extend(B.support_atoms(e.gate))
                    elif isinstance(e, Gate):
                        todo.extend(B.support_atoms(e.g))
    return out


def alternatives(rep, name, where, value, specs):
    """The value equals one of the required forms; it is refuted only when it uses the loops of one of them."""
    for s in specs:
        if same(value, s):
            return rep.add(name, True, where)
    ls = loops(value)
    for s in specs:
        if ls <= loops(s):
            return rep.equal(name, where, value, s)
    return rep.add(name, None, where, pretty(value, 300))


# ---------------------------------------------------------------- A24
CAPITALS = '''
def case_like(word, example):
    if example.islower():
        return word.lower()
    if example.isupper():
        return word.upper()
    if example.istitle():
        return word.title()
    return word.lower()

def by_position(word, example):
    if '-' not in example:
        return case_like(word, example)
    parts = example.split('-')
    return '-'.join([case_like(x, parts[i]) if i < len(parts) else x.lower() for i, x in enumerate(word.split('-'))])

def by_zip(word, example):
    if '-' not in example:
        return case_like(word, example)
    xs, ys = word.split('-'), example.split('-')
    return '-'.join([case_like(x, y) for x, y in zip(xs, ys)] + [x.lower() for x in xs[len(ys):]])
'''

def exclusive(a):
    """A text in lower case is neither in upper nor in title case."""
    if a.op == 'truthy' and a.args[0].op == 'mcall' and a.args[0].args[1] == 'islower':
        x = a.args[0].args[0]
        return B.and_(B.atom(a), B.not_(truth_leaf(mcall(x, 'isupper', ()))), B.not_(truth_leaf(mcall(x, 'istitle', ()))))
    return None


CASINGS = ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold')


def check_A24(rep):
    w = World()
    rep.world = w
    v = w.v
    for fn in ('restore_capitalization', 'restore_word_case'):
        r = w.func(S + fn, WORD, EXAMPLE)
        specs = []
        for spec in ('by_position', 'by_zip'):
            s = w.run_spec(CAPITALS, spec, WORD, EXAMPLE)
            c = w.canon(atom_rw=[exclusive])
            specs.append(c.gv(s.value))
        c = w.canon(atom_rw=[exclusive])
        value = c.gv(r.value)
        alternatives(rep, '%s re-cases every part after the part of the example at its position' % fn, r.where, value, specs)
        rep.add('%s returns for all words' % fn, True if r.gate == TRUE and not [e for e in r.raises if e.gate != FALSE]
                else None, r.where, 'raises under some condition')
        bad = [e for e in r.effects if e.kind not in ('warn',)]
        rep.add('%s keeps no state' % fn, None if bad else True, r.where, str(bad)[:200])
        pieces(rep, fn, w, r)


def pieces(rep, fn, w, r):
    """Every emitted piece is a part of the word, re-cased; the parts are joined as they were split."""
    v = w.v
    st, text = True, ''
    for g, t in r.value.alts:
        if g == FALSE:
            continue
        t = v.snap_if_fresh(t)
        if t.op == 'join':
            glue = t.args[0]
            s = v.as_seq(gv(t.args[1]))
            if s is None or s.op != 'seq':
                st = st and None
                continue
            for e in s.args[1]:
                x = uncased(e.value)
                b = e.binders[-1] if e.binders else None
                src = b.args[1] if b is not None else None
                while src is not None and src.op in ('enumerate', 'listof', 'copy', 'tupleof'):
                    src = src.args[0]
                if src is not None and src.op == 'mcall' and src.args[1] == 'split' and uncased(src.args[0]) is WORD:
                    if src.args[2][:1] != (glue,):
                        st, text = False, 'split at %s, joined with %s' % (show(src.args[2]), show(glue))
                    elif len(src.args[2]) > 1:
                        if is_const(src.args[2][1]) and src.args[2][1].args[0] != -1:
                            st, text = False, 'only some parts are split'
                        elif st:
                            st, text = None, 'not all parts are split'
                    elif not any(y is elem(b) for y in subterms(x)):
                        st, text = False, 'a part of the result is %s' % show(e.value)[:120]
                elif src is not None and any(y.op == 'mcall' and y.args[1] in ('strip', 'rstrip', 'lstrip', 'replace') and
                                             uncased(y.args[0]) is WORD and y.args[2] for y in subterms(src)):
                    st, text = False, 'the parts of %s are taken' % show(src)[:120]
                elif st:
                    st = None
        else:
            x = uncased(t)
            if x is not WORD and not any(y is WORD for y in subterms(t)):
                st, text = False, 'the result is %s' % show(t)[:120]
            elif x is not WORD and st:
                st = None
    rep.add('%s: every part of the word is kept' % fn, st, r.where, text)


def uncased(t):
    while isinstance(t, T) and t.op == 'mcall' and t.args[1] in CASINGS and not t.args[2]:
        t = t.args[0]
    return t


# ---------------------------------------------------------------- A29
SHAPES = '''
import unicodedata

def is_latin(token):
    return any(c.isalpha() for c in token) and all('LATIN' in unicodedata.name(c, '') for c in token if c.isalpha())

def is_punctuation(token):
    return bool(token) and not token.isspace() and all(unicodedata.category(c)[0] == 'P' for c in token if not c.isspace())
'''


def is_text(a):
    """Under Python 3 the argument is text, not bytes."""
    if a.op == 'isinstance' and 'bytes' in repr(a.args[1]):
        return FALSE
    if a.op == 'isinstance' and a.args[1].op == 'ext' and a.args[1].args[0] == 'builtins.str':
        return TRUE
    return None


def memo_of(v, a):
    """Is the condition 'the cache has an entry'?  Module level dictionaries are caches."""
    if a.op == 'in' and a.args[1].op in ('cur', 'objref', 'obj'):
        o = v.objs.get(a.args[1].args[0])
        return o is not None and o.kind == 'dict'
    if a.op == 'isnone' and a.args[0].op in ('idx', 'mcall'):
        x = a.args[0].args[0]
        o = v.objs.get(x.args[0]) if x.op in ('cur', 'objref', 'obj') else None
        return o is not None and o.kind == 'dict'
    return False


def truth(v, x):
    out = FALSE
    for g, t in x.alts:
        out = B.or_(out, B.and_(g, truth_leaf(t)))
    return out


def fresh_canon(w):
    """Texts only, and nothing remembered yet."""
    v = w.v
    c = w.canon()
    c.assume.append(is_text)

    def miss(a):
        if memo_of(v, a):
            return TRUE if a.op == 'isnone' else FALSE
        return None
    c.assume.append(miss)
    return c


class NotKnown(Exception):
    pass


def value_of(t, token, ch):
    """Value of a term over a text and a character of it (library functions of text only)."""
    o = t.op
    if o == 'const':
        return t.args[0]
    if t in (TOKEN, WORD):
        return token
    if o in ('celem', 'elem'):
        if not ch:
            raise NotKnown(show(t))
        k = t.args[0] if o == 'celem' else len(ch) - 1
        return ch[k] if isinstance(k, int) and k < len(ch) else ch[-1]
    if o == 'tuple':
        return tuple(value_of(x, token, ch) for x in t.args)
    if o == 'idx':
        x, i = value_of(t.args[0], token, ch), value_of(t.args[1], token, ch)
        try:
            return x[i]
        except (IndexError, TypeError):
            raise NotKnown(show(t))
    if o == 'slice':
        x, lo, hi = [value_of(y, token, ch) for y in t.args[:3]]
        return x[lo:hi]
    if o == 'len':
        return len(value_of(t.args[0], token, ch))
    if o in ('before', 'after', 'rbefore', 'rafter'):
        x, y = value_of(t.args[0], token, ch), value_of(t.args[1], token, ch)
        parts = (x.partition if o[0] != 'r' else x.rpartition)(y)
        return parts[0 if o.endswith('before') else 2]
    if o == 'mcall' and t.args[1] in ('match', 'search', 'fullmatch'):
        u = regex.use_of(t)
        if u is None or len(u[3]) != 1:
            raise NotKnown(show(t))
        return getattr(re.compile(u[0], u[1]), u[2])(value_of(u[3][0], token, ch))
    if o == 'mcall':
        if t.args[1] not in METHODS or t.args[3:] and t.args[3]:
            raise NotKnown(show(t))
        x = value_of(t.args[0], token, ch)
        if not isinstance(x, str):
            raise NotKnown(show(t))
        return getattr(x, t.args[1])(*[value_of(y, token, ch) for y in t.args[2]])
    if o == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in CHARACTER and not (len(t.args) > 2 and t.args[2]):
        try:
            return CHARACTER[t.args[0].args[0]](*[value_of(y, token, ch) for y in t.args[1]])
        except (TypeError, ValueError):
            raise NotKnown(show(t))
    if o in ('setof', 'listof', 'tupleof', 'copy', 'reversed', 'frozensetof', 'sorted'):
        return value_of(t.args[0], token, ch)
    if o == 'seq' and t.args[0] in ('list', 'set', 'frozenset', 'tuple') and not any(e.binders for e in t.args[1]):
        return tuple(value_of(e.value, token, ch) for e in t.args[1] if holds(e.gate, token, ch))
    raise NotKnown(show(t))


METHODS = set('''isspace isalpha isupper islower istitle isdigit isalnum isnumeric isdecimal lower upper title casefold strip
isprintable isascii isidentifier lstrip rstrip startswith endswith replace split count find'''.split())
CHARACTER = {'unicodedata.category': unicodedata.category, 'unicodedata.name': unicodedata.name, 'builtins.ord': ord,
             'builtins.str': str, 'unicodedata.bidirectional': unicodedata.bidirectional}


def atom_holds(a, token, ch):
    o = a.op
    if o == 'truthy':
        return bool(value_of(a.args[0], token, ch))
    if o == 'isnone':
        return value_of(a.args[0], token, ch) is None
    if o == 'in':
        return value_of(a.args[0], token, ch) in value_of(a.args[1], token, ch)
    if o == 'cmp':
        x, y = value_of(a.args[1], token, ch), value_of(a.args[2], token, ch)
        try:
            return {'==': x == y, '<': x < y if a.args[0] == '<' else None, '<=': x <= y if a.args[0] == '<=' else None,
                    '>': x > y if a.args[0] == '>' else None, '>=': x >= y if a.args[0] == '>=' else None,
                    '!=': x != y}[a.args[0]]
        except (KeyError, TypeError):
            raise NotKnown(show(a))
    if o == 'cexists':
        bs, g = a.args
        if len(bs) != 1 or bs[0].args[2].g != FALSE:
            raise NotKnown(show(a))
        it = value_of(bs[0].args[0], token, ch)
        return any(holds(g.g, token, ch + (c,)) for c in it)
    raise NotKnown(show(a))


def holds(g, token, ch=()):
    if g <= 1:
        return bool(g)
    v, lo, hi = B.nodes[g]
    try:
        r = atom_holds(B.atoms[v], token, ch)
    except NotKnown:
        # a guarded condition
        r = holds(lo, token, ch)
        if r != holds(hi, token, ch):
            raise
        return r
    return holds(hi if r else lo, token, ch)


def character_atoms(g):
    """Conditions on single characters, and whether the condition only says which kinds of characters occur."""
    out, monadic = set(), True
    for a in B.support_atoms(g):
        if a.op == 'cexists':
            if len(a.args[0]) == 1 and a.args[0][0].args[0] in (TOKEN, WORD):
                inner = B.support_atoms(a.args[1].g)
                if any(x.op == 'cexists' for x in inner):
                    monadic = False
                out |= set(x for x in inner if x.op != 'cexists')
            else:
                monadic = False
                out |= set(x for x in B.support_atoms(a.args[1].g) if x.op != 'cexists')
        elif a.op == 'truthy' and a.args[0] in (TOKEN, WORD):
            pass
        elif a.op == 'truthy' and a.args[0].op == 'mcall' and a.args[0].args[0] in (TOKEN, WORD) and \
                a.args[0].args[1] in ('isspace', 'strip') and not a.args[0].args[2]:
            pass
        else:
            monadic = False
    return out, monadic


def kinds(atoms):
    """One character of every kind the conditions tell apart."""
    atoms = sorted(atoms, key=lambda t: t.uid)
    seen = {}
    for n in list(range(0xD800)) + list(range(0xE000, 0x110000)):
        c = chr(n)
        k = tuple(atom_holds(a, c, (c,)) for a in atoms) + (c.isspace(),)
        if k not in seen or len(seen[k]) < 2:
            seen.setdefault(k, []).append(c)
    return seen


def subsets(xs):
    for n in range(2 ** len(xs)):
        yield ''.join(x for i, x in enumerate(xs) if n >> i & 1)


def shape_condition(rep, name, where, code, required):
    """The two conditions on a text hold for the same texts."""
    if code == required:
        return rep.add(name, True, where)
    try:
        a1, m1 = character_atoms(code)
        a2, m2 = character_atoms(required)
        ks = kinds(a1 | a2)
        reps = [cs[0] for cs in ks.values()]
        if m1 and m2 and len(reps) <= 10:
            texts = subsets(reps)
        else:
            some = sorted(set(c for cs in ks.values() for c in cs))[:14]
            texts = [''] + [x * k + y + z * k for x in some for y in some + ['', '-', ',', '.'] for z in some + ['']
                            for k in (1, 2, 5)]
            some += ['-', ',']
            some = list(dict.fromkeys(some))
            texts += [x * 150 + y for x in some for y in some] + [y + x * 150 for x in some for y in some]
            m1 = False
        for text in texts:
            p, q = holds(code, text), holds(required, text)
            if p != q:
                return rep.add(name, False, where, 'for the text %r the code says %s, required %s; condition of the code: %s'
                               % (text, p, q, show_gate(code)[:300]))
        if m1 and m2:
            return rep.add(name, True, where)
        return rep.add(name, None, where, show_gate(code)[:300])
    except NotKnown as e:
        return rep.add(name, None, where, 'not resolved: %s' % str(e)[:200])


NUMERAL = r'M{0,%d}(CM|CD|D?C{0,3})(XC|XL|L?X{0,3})(IX|IV|V?I{0,3})'
ALPHABET = list('MDCLXVImdclxvia1- ') + ['\n', regex.NLE]


def roman_condition(rep, name, where, g):
    """The texts that pass are complete numerals; every numeral in capitals passes."""
    us = {}
    for a in B.support_atoms(g):
        if a.op in ('isnone', 'truthy'):
            t = a.args[0]
            u = regex.use_of(t)
            if u is not None:
                us[a] = u
                continue
            if a.op == 'truthy' and t in (TOKEN, WORD):
                continue
        return numeral_samples(rep, name, where, g)
    if len(us) != 1:
        return rep.add(name, None if us or g != TRUE else False, where, 'no regular expression decides')
    (a, (pattern, flags, method, args)), = us.items()
    if len(args) != 1:
        return rep.add(name, None, where, 'arguments of the match')
    arg = args[0]
    yes = B.constrain(g, B.not_(B.atom(a)) if a.op == 'isnone' else B.atom(a))
    no = B.constrain(g, B.atom(a) if a.op == 'isnone' else B.not_(B.atom(a)))
    nonempty = [x for x in B.support_atoms(g) if x.op == 'truthy' and x.args[0] in (TOKEN, WORD)]
    if no != FALSE:
        return rep.add(name, False, where, 'a text without a match passes')
    for x in nonempty:
        if B.constrain(yes, B.atom(x)) != TRUE:
            return rep.add(name, False, where, 'only the empty text passes')
    guarded = bool(nonempty) and B.constrain(yes, B.not_(B.atom(nonempty[0]))) == FALSE
    if not nonempty and yes != TRUE:
        return rep.add(name, None, where, show_gate(yes))
    try:
        prep = []
        while arg not in (TOKEN, WORD):
            if arg.op == 'mcall' and arg.args[1] in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'casefold') and not arg.args[2]:
                prep.append(arg.args[1])
                arg = arg.args[0]
            else:
                return numeral_samples(rep, name, where, g)
        code = regex.Language(pattern, flags, method, guarded)
        for how in prep:
            if how in ('upper', 'lower', 'casefold'):
                f = str.upper if how == 'upper' else str.lower
                code.through(f)
            else:
                code.padded(how)
        allowed = regex.Language(NUMERAL % 4, re.I, 'fullmatch', True)
        wanted = regex.Language(NUMERAL % 3, 0, 'fullmatch', True)
        x = regex.outside(code, allowed, ALPHABET)
        if x is not None:
            return rep.add(name, False, where, 'the text %r passes' % x)
        x = regex.outside(wanted, code, ALPHABET)
        if x is not None:
            return rep.add(name, False, where, 'the numeral %r does not pass' % x)
        return rep.add(name, True, where)
    except regex.Unsupported as e:
        return rep.add(name, None, where, 'regular expression: %s' % e)


def numeral_samples(rep, name, where, g):
    """The condition is of another form: a difference counts, no difference proves nothing."""
    want = re.compile(NUMERAL % 4, re.I)
    must = re.compile(NUMERAL % 3)
    try:
        for x in ('', 'I', 'IV', 'XIV', 'MCMXCIX', 'IIX', 'IIII', 'a', '1', 'I1', 'Ia', 'aI'):
            for y in ('', '.', ',', '-', ' ', '\n', ')', '-I', '.I', ' I', 'а'):
                for text in (x + y, y + x):
                    p = holds(g, text)
                    if p and not (text and want.fullmatch(text)) or not p and text and must.fullmatch(text):
                        return rep.add(name, False, where, 'the text %r %s; condition: %s' % (
                            text, 'passes' if p else 'does not pass', show_gate(g)[:300]))
    except NotKnown as e:
        return rep.add(name, None, where, 'not resolved: %s' % str(e)[:200])
    return rep.add(name, None, where, show_gate(g)[:300])


def check_A29(rep):
    w = World()
    rep.world = w
    v = w.v
    required = {}
    for f in ('is_latin', 'is_punctuation'):
        r = w.func(S + f, TOKEN)
        s = w.run_spec(SHAPES, f, TOKEN)
        c = fresh_canon(w)
        shape_condition(rep, '%s looks at all characters of the token' % f, r.where, c.gate(truth(v, r.value)),
                        c.gate(truth(v, s.value)))
    r = w.func(S + 'is_roman_number', TOKEN)
    c = fresh_canon(w)
    roman_condition(rep, 'is_roman_number accepts complete numerals only', r.where, c.gate(truth(v, r.value)))

    # the units
    for n, f in (('PunctuationAnalyzer', 'is_punctuation'), ('LatinAnalyzer', 'is_latin'), ('RomanNumberAnalyzer', None)):
        u = w.unit(n)
        for meth in ('parse', 'tag'):
            r = w.call(u, meth, WORD, WL, SEEN)
            q = v.as_seq(r.value)
            c = fresh_canon(w)
            name = '%s.%s decides by all characters of the word' % (n, meth)
            if q is None or q.op != 'seq' or any(e.binders for e in q.args[1]):
                rep.add(name, None, r.where, 'not a list of single items')
                continue
            g = FALSE
            for e in q.args[1]:
                g = B.or_(g, e.gate)
            g = c.gate(g)
            if f is None:
                roman_condition(rep, name, r.where, g)
            else:
                s = w.run_spec(SHAPES, f, WORD)
                shape_condition(rep, name, r.where, g, c.gate(truth(v, s.value)))

    # numbers
    u = w.unit('NumberAnalyzer')
    for meth in ('parse', 'tag'):
        r = w.call(u, meth, WORD, WL, SEEN)
        q = v.as_seq(r.value)
        name = 'NumberAnalyzer.%s converts the entire word' % meth
        if q is None or q.op != 'seq':
            rep.add(name, None, r.where, 'not a list of items')
            continue
        st, text = True, ''
        for e in q.args[1]:
            at = [a for a in B.support_atoms(e.gate) if a.op == 'raises']
            if not at or e.binders:
                st, text = None if st else st, 'not decided by a conversion'
                continue
            g = e.gate
            for a in at:
                if B.implies(e.gate, B.not_(B.atom(a))):
                    x = whole_word(a.args[1])
                    if x is False:
                        st, text = False, 'decided by %s' % show(a.args[1])[:120]
                    elif x is None and st:
                        st, text = None, show(a.args[1])[:120]
                    g = FALSE
            if g != FALSE:
                if not at:
                    st, text = None if st else st, show_gate(e.gate)[:200]
                elif all(B.implies(e.gate, B.atom(a)) for a in at):
                    st, text = False, 'a word that fails every conversion is a number'
                elif st:
                    st, text = None, show_gate(e.gate)[:200]
        rep.add(name, st, r.where, text)


def whole_word(t):
    """Is the whole word converted?"""
    if not (t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.int', 'builtins.float') and t.args[1]):
        return None
    x = t.args[1][0]
    while x is not WORD:
        if x.op == 'mcall' and x.args[1] in ('replace', 'lower', 'upper'):
            if x.args[1] == 'replace' and (len(x.args[2]) != 2 or not all(is_const(y) for y in x.args[2])):
                return None
            if x.args[1] == 'replace' and x.args[2][1] is const(''):
                return False if x.args[2][0].args[0] not in ('_', ' ') else None
            x = x.args[0]
        elif x.op in ('slice', 'idx', 'before', 'after', 'rbefore', 'rafter') or x.op == 'mcall' and x.args[1] in ('rstrip', 'lstrip', 'strip'):
            return False
        else:
            return None
    return True


def check_A29_memo(rep):
    """What was classified before has no influence."""
    from . import effects
    acc = effects.settled(effects.judge_run, lambda: {'bad': [], 'calls': 0, 'effects': 0}, effects.shape_runs)
    name = 'classification does not depend on text seen before'
    for st, n, where, d in sorted(set(acc['bad']), key=lambda x: (x[0] is not False, str(x))):
        rep.add(name, st, where, d)
    if not acc['bad']:
        rep.add(name, True, '%d functions, %d effects' % (acc['calls'], acc['effects']))


# ---------------------------------------------------------------- A23
def check_A23(rep):
    World.KEEP_SETS = True
    try:
        tokens(rep, World())
    finally:
        World.KEEP_SETS = False


def tokens(rep, w):
    rep.world = w
    v = w.v
    r = w.func(P + 'tokenizers.simple_word_tokenize', TEXT)
    where = r.where
    rep.add('every text is tokenised', True if r.gate == TRUE and not [e for e in r.raises if e.gate != FALSE] else None, where)
    bad = [e for e in r.effects if e.gate != FALSE]
    rep.add('nothing is kept between texts', None if bad else True, where, str(bad)[:200])
    t = r.value.single()
    q = v.as_seq(r.value) if t is not None else None
    c = w.canon()
    if q is None or q.op != 'seq' or q.args[0] not in ('list', 'gen'):
        rep.add('tokens are the pieces of a split', None, where, 'not a list of items')
        return
    es = [e for e in q.args[1] if e.gate != FALSE]
    if len(es) != 1 or len(es[0].binders) != 1 or q.args[2] or es[0].binders[0].args[2]:
        rep.add('tokens are the pieces of a split', None, where, pretty(c.term(q), 200))
        return
    e = es[0]
    b = e.binders[0]
    it = b.args[1]
    while it.op in ('listof', 'tupleof', 'copy'):
        it = it.args[0]
    from .order import unordered
    if it.op in ('reversed', 'setof', 'frozensetof', 'sorted') or unordered(v, it):
        rep.add('tokens come in the order of the text', False, where, show(it)[:200])
        return
    u = regex.use_of(it)
    if u is None or u[2] not in ('split', 'findall') or not u[3]:
        rep.add('tokens are the pieces of a split', None, where, show(it)[:200])
        return
    pattern, flags, method, args = u
    if args[0] is not TEXT:
        cased = uncased(args[0]) is TEXT
        gone = args[0].op == 'mcall' and args[0].args[1] in ('replace', 'translate') or args[0].op == 'slice'
        rep.add('the text itself is split', False if cased or gone and args[0].args[0] is TEXT else
                True if args[0].op == 'mcall' and args[0].args[1] in ('strip', 'rstrip', 'lstrip') and args[0].args[0] is TEXT
                and not args[0].args[2] else None, where, 'split is %s' % show(args[0])[:120])
    else:
        rep.add('the text itself is split', True, where)
    if len(args) > 1 and not (is_const(args[1]) and args[1].args[0] == 0):
        rep.add('the whole text is split', False if is_const(args[1]) else None, where, 'at most %s' % show(args[1]))
    try:
        sets = separators(rep, where, pattern, flags, method)
    except regex.Unsupported as x:
        bad = wrong_pieces(pattern, flags, method)
        rep.add('separators', False if bad else None, where, 'regular expression: %s; %s' % (x, 'the tokens of %r are %r' % bad if bad else ''))
        sets = None
    # the filter
    x = elem(b)
    value = e.value
    clean = value.op == 'mcall' and value.args[1] in ('strip', 'rstrip', 'lstrip') and value.args[0] is x and not value.args[2]
    name = 'the pieces are returned as they are'
    if value is x or clean:
        rep.add(name, True, where)
    else:
        lost = value.op == 'mcall' and value.args[0] is x or value.op == 'slice' and value.args[0] is x or \
            not any(y is x for y in subterms(value))
        rep.add(name, False if lost else None, where, 'tokens are %s' % show(value)[:120])
    g = e.gate
    name = 'exactly the empty and the white pieces are dropped'
    samples = ['', ' ', '\n', '\t\n', '\xa0', '\x1c', 'a', '-', '--', '_', '1', '.', '+', '"', 'ab-c', '\u200b', '\u0301', 'я', '\x00',
               '\ud7ff', '\u3000', '\u2028', '\xad', 'a1', '0', '00', '…', '\U0001f600']
    if any(a.op == 'in' and a.args[1].op in ('cur', 'obj') or a.op in ('in', 'cexists', 'exists') and any(
            y.op == 'selfref' for y in subterms(a)) for a in B.support_atoms(g)):
        rep.add(name, False, where, 'a piece is dropped depending on earlier pieces: %s' % show_gate(g)[:200])
        return
    try:
        for text in samples:
            keep = holds(ops.subst_gate(g, {x: TOKEN}), text)
            if keep != bool(text.strip()):
                rep.add(name, False, where, 'the piece %r is %s' % (text, 'returned' if keep else 'dropped'))
                break
        else:
            known = set(B.support_atoms(B.and_(truth_leaf(x), truth_leaf(mcall(x, 'isspace', ())), truth_leaf(mcall(x, 'strip', ())))))
            known.update(B.support_atoms(A('isnone', x)))
            rep.add(name, True if set(B.support_atoms(g)) <= known else None, where, show_gate(g)[:200])
    except NotKnown as y:
        rep.add(name, None, where, 'not resolved: %s' % y)


PIECES = ['a.b', '1.5', '3,14', 'a - b', 'x-y', 'a+b', '..', '. .', 'a_b', '\u2026', 'a\n b', '1-2', '5%', 'т.е.', 'ht://a.b', "don't",
          '$5', 'a@b.c', '№1', '-', '--', '!?', 'x!', '!x', 'a/b', '12:30', 'a  b', ' a', 'a ', '«я»', 'я\u0301', '(a)', '', '1 000', 'A.B.',
          'a...b', '-a-', '5-й', '_', 'C++', '#a', '\u200b', 'a\u200bb', '\xadа', '\U0001f600!', 'a\tb', "l\u2019a", 'i.e', '1.', '.5']


def wrong_pieces(pattern, flags, method):
    """A text that the regular expression (a constant of the source) cuts into wrong tokens."""
    import re
    try:
        rx = re.compile(pattern, flags)
    except re.error:
        return None
    for text in PIECES:
        want = []
        run = False
        for ch in text:
            inner = ch.isalnum() or ch in '_-'
            if ch.isspace():
                pass
            elif inner and run:
                want[-1] += ch
            else:
                want.append(ch)
            run = inner
        got = rx.split(text) if method == 'split' else rx.findall(text)
        if not all(isinstance(x, str) or x is None for x in got):
            return None
        got = [x for x in got if x and not x.isspace()]
        if got != want:
            return text, got
    return None


def separators(rep, where, pattern, flags, method):
    tree = regex.parse(pattern, flags)
    flags = (tree.state if hasattr(tree, 'state') else tree.pattern).flags
    lo, hi = tree.getwidth()
    sets = list(regex.charsets(tree, flags))
    if method == 'findall':
        rep.add('separators', None, where, 'pieces are found, not split')
        return None
    rep.add('no split between neighbouring characters without a separator', lo > 0, where,
            'the expression %r matches the empty text' % pattern)
    out, depth = regex.outside_groups(tree, flags)
    lost = word = kept = None
    white = set()
    chars = [chr(n) for n in list(range(0xD800)) + list(range(0xE000, 0x110000))]
    for c in chars:
        sp = c.isspace()
        if lost is None and not sp and any(s.has(c) for s in out):
            lost = c
        if (c.isalnum() or c in '_-') and word is None and any(s.has(c) for s in sets):
            word = c
        elif not sp and kept is None and not (c.isalnum() or c in '_-') and not any(s.has(c) for s in sets):
            kept = c
        if sp:
            white.add(c)
    rep.add('separators that are not white are kept', lost is None, where, 'the separator %r is lost' % lost)
    rep.add('a separator is kept once', depth <= 1, where, 'nested groups of %r return a separator twice' % pattern)
    rep.add('no split inside a run of letters, digits, underscores and hyphens', word is None, where,
            'the character %r is a separator' % word)
    if hi == 1:
        rep.add('every other character is a token of its own', kept is None, where, 'the character %r is no separator' % kept)
        left = sorted(c for c in white if not any(s.has(c) for s in sets))
        rep.add('white characters separate tokens', not left, where, '%r does not' % left[:3])
    else:
        lang = regex.Language(pattern, flags, 'fullmatch')
        left = sorted(c for c in white if not lang.accepts(lang.step(lang.initial, regex.NLE if c == '\n' else c)))
        rep.add('white characters separate tokens', True if not left else None, where, '%r alone does not' % left[:3])
        long = [x for x in regex.groups(tree, flags) if x[1].getwidth()[1] > 1]
        glued = None
        for earlier, body, f in long:
            for s, before in regex.swallowed(body, f, earlier):
                free = [c for c in chars[:0x3000] if s.has(c) and not any(x.has(c) for x in before)]
                marks = [c for c in free if not (c.isspace() or c.isalnum() or c in '_-')]
                if marks and glued is None:
                    glued = marks[0] * 2
        rep.add('every other character is a token of its own', False if glued else None if long else True, where,
                '%r is one token' % glued)
    return sets
