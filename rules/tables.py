"""A30 and the table part of A03: constant language tables, evaluated from the syntax tree."""
import unicodedata
from .common import *


def const_list(v, value):
    """Constant strings of a constant collection, in order; None when not constant."""
    if value is None:
        return None
    if isinstance(value, GV):
        value = v.snap_gv(value).single()
        if value is None:
            return None
    if value.op in ('obj', 'objref') and v.objs[value.args[0]].kind in ('list', 'set'):
        value = v.snapshot(v.objs[value.args[0]])
    value = strip_copy(value)
    if value.op in ('tupleof', 'listof', 'setof', 'copy') and len(value.args) == 1:
        return const_list(v, value.args[0])
    if value.op == 'bin' and value.args[0] in ('|', '&', '-', '^'):
        a, b = const_list(v, value.args[1]), const_list(v, value.args[2])
        if a is None or b is None:
            return None
        a, b = set(a), set(b)
        return sorted({'|': a | b, '&': a & b, '-': a - b, '^': a ^ b}[value.args[0]])
    if value.op == 'const' and isinstance(ops.cval(value), str):
        return list(ops.cval(value))
    if value.op == 'tuple':
        xs = list(value.args)
    elif value.op == 'seq' and not value.args[3]:
        xs = []
        for e in value.args[1]:
            if e.binders or e.gate != TRUE:
                return None
            xs.append(e.value)
    else:
        return None
    if any(x.op != 'const' for x in xs):
        return None
    return [ops.cval(x) for x in xs]


def const_dict(v, value):
    if isinstance(value, GV):
        value = v.snap_gv(value).single()
    if value is None:
        return None
    if value.op in ('obj', 'objref') and v.objs[value.args[0]].kind == 'dict':
        value = v.snapshot(v.objs[value.args[0]])
    value = strip_copy(value)
    if value.op != 'dict':
        return None
    out = []
    for e in value.args[0]:
        if e.binders or e.gate != TRUE or e.value.op != 'tuple' or any(x.op != 'const' for x in e.value.args):
            return None
        out.append(tuple(ops.cval(x) for x in e.value.args))
    return out


class Tables(object):
    def __init__(self, lang):
        self.w = w = analyzer_world()
        self.v = v = w.v
        self.lang = lang
        self.cfg = v.lookup(P + 'lang.' + lang)
        self.morph = make_analyzer(w, lang, probability_estimator_cls=NONE)
        r, units = units_run(w, self.morph, 'parse')
        self.units = None if units is None else [x[0] for x in units]
        self.where = 'pymorphy2/lang/%s' % lang

    def named(self, name):
        try:
            return self.v.lookup(P + 'lang.%s.%s' % (self.lang, name))
        except Exception:
            return None

    def of(self, cls, attr_name):
        """Attribute of the default unit of a class."""
        k = self.v.cls(P + 'units.' + cls)
        for u in self.units or ():
            if u.op == 'inst' and self.v.obj(u).cls is k:
                return self.v.get_attr(u, attr_name, None)
        return None


AFFIXES = [('particles after a hyphen', 'HyphenSeparatedParticleAnalyzer', 'particles_after_hyphen'),
           ('known prefixes', 'KnownPrefixAnalyzer', 'known_prefixes'),
           ('skipped prefixes', 'HyphenatedWordsAnalyzer', 'skip_prefixes')]


def check_A03_tables(rep):
    for lang in LANGS:
        t = Tables(lang)
        rep.world = t.w
        for label, cls, a in AFFIXES:
            xs = const_list(t.v, t.of(cls, a))
            bad = [x for x in xs or () if not isinstance(x, str) or not x]
            rep.add('no empty item among the %s (%s)' % (label, lang), None if xs is None else not bad, t.where,
                    'an empty affix' if bad else '')


def scripts(text):
    """The scripts the letters of a text come from."""
    return set(unicodedata.name(x, '?').split()[0] for x in text if x.isalpha())


def check_A30(rep):
    for lang in LANGS:
        t = Tables(lang)
        rep.world = t.w
        v = t.v

        def claim(name, xs, pred, why):
            if xs is None:
                rep.add('%s (%s)' % (name, lang), None, t.where, 'the table is not constant')
                return
            bad = [x for x in xs if not pred(x)]
            rep.add('%s (%s)' % (name, lang), not bad, t.where, '%s: %s' % (why, bad[:5]))

        parts = const_list(v, t.of('HyphenSeparatedParticleAnalyzer', 'particles_after_hyphen'))
        claim('particles are lower-case letters after a hyphen', parts,
              lambda x: isinstance(x, str) and x[:1] == '-' and x[1:].isalpha() and x == x.lower(), 'not a usable particle')
        # a particle must not be hidden by an earlier one it ends with
        if parts is not None:
            bad = [x for i, x in enumerate(parts) for y in parts[:i] if x.endswith(y)]
            rep.add('no particle ends with an earlier one (%s)' % lang, not bad, t.where, str(bad))
        own = lambda x: not isinstance(x, str) or scripts(x) <= set(['CYRILLIC'])
        claim('particles are written in the letters of the language', parts, own, 'letters of another script')
        known = const_list(v, t.of('KnownPrefixAnalyzer', 'known_prefixes'))
        skip = const_list(v, t.of('HyphenatedWordsAnalyzer', 'skip_prefixes'))
        for label, xs in (('known prefixes', known), ('skipped prefixes', skip)):
            claim('%s are non-empty lower-case text' % label, xs,
                  lambda x: isinstance(x, str) and x and x == x.lower() and x == x.strip(), 'never matches a lower-cased word')
            claim('%s do not mix letters of different scripts' % label, xs,
                  lambda x: not isinstance(x, str) or len(scripts(x)) <= 1, 'looks like a prefix it is not')
        rep.add('prefix analysis and hyphenated words use the same prefixes (%s)' % lang,
                None if known is None or skip is None else set(known) == set(skip), t.where,
                str(sorted(set(known or ()) ^ set(skip or ()))[:5]))
        cs = const_dict(v, t.named('CHAR_SUBSTITUTES'))
        claim('letter substitutions map a lower-case letter to another one', cs,
              lambda p: len(p[0]) == len(p[1]) == 1 and p[0].isalpha() and p[1].isalpha() and p[0] != p[1] and
              p[0] == p[0].lower() and p[1] == p[1].lower(), 'not usable')
        claim('letter substitutions are letters of the language', cs, lambda p: own(p[0]) and own(p[1]), 'letters of another script')
        pp = const_list(v, t.named('PARADIGM_PREFIXES'))
        claim('paradigm prefixes are written in the letters of the language', pp, own, 'letters of another script')
        rep.add('paradigm prefixes include the empty one (%s)' % lang, None if pp is None else '' in pp, t.where, str(pp))
        claim('paradigm prefixes are lower-case', pp, lambda x: x == x.lower() and (not x or x.isalpha()), 'not usable')
        for cls in ('AbbreviatedFirstNameAnalyzer', 'AbbreviatedPatronymicAnalyzer'):
            ls = const_list(v, t.of(cls, 'letters'))
            claim('initials of %s are upper-case letters' % cls, ls,
                  lambda x: x.isalpha() and x == x.upper() and x != x.lower(), 'not usable')
            claim('initials of %s are letters of the language' % cls, ls, own, 'letters of another script')
        if t.units is None:
            rep.add('unit order (%s)' % lang, None, t.where, 'units not recognised')
        else:
            names = [v.obj(u).cls.name if u.op == 'inst' else '?' for u in t.units]
            rep.add('the dictionary is consulted first and the unknown-word fallback last (%s)' % lang,
                    names[:1] == ['DictionaryAnalyzer'] and names[-1:] == ['UnknAnalyzer'] and
                    names.count('UnknAnalyzer') == 1, t.where, ', '.join(names))
            cfg = t.named('DEFAULT_UNITS')
            own = None if cfg is None else flat_classes(v, cfg)
            rep.add('language code %s selects its own units' % lang, None if own is None else own == names, t.where,
                    '%s instead of %s' % (names, own))
            mine = v.get_attr(t.morph, 'char_substitutes', None)
            m1 = mine.single() if isinstance(mine, GV) else mine
            got = None
            if m1 is not None and m1.op == 'mcall' and m1.args[1] == 'compile_replaces' and len(m1.args[2]) == 1:
                got = const_dict(v, gv(m1.args[2][0]))
            rep.add('language code %s selects its own letter substitutions' % lang,
                    None if got is None or cs is None else sorted(got) == sorted(cs), t.where, '%s instead of %s' % (got, cs))


def flat_classes(v, value):
    s = v.as_seq(value)
    if s.op != 'seq' or s.args[3]:
        return None
    out = []
    for e in s.args[1]:
        if e.binders or e.gate != TRUE:
            return None
        if e.value.op == 'inst':
            out.append(v.obj(e.value).cls.name)
        else:
            sub = flat_classes(v, gv(e.value))
            if sub is None:
                return None
            out += sub
    return out
