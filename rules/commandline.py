"""A22: the command line prints the requested fields for every token."""
import re

from .common import *

CLI = P + 'cli.'
MORPH, IN, OUT, THRESH = sym('morph'), sym('in_file'), sym('out_file'), sym('thresh')

SPEC = '''
from pymorphy2.tokenizers import simple_word_tokenize

def tokens(in_file, tokenize):
    for line in in_file:
        if tokenize:
            for token in simple_word_tokenize(line):
                yield token
        else:
            token = line.strip()
            if token:
                yield token

def record(tok, items, end):
    return "%s{%s}%s" % (tok, "|".join(items), end)

def records_lst(morph, in_file, tokenize, thresh, end):
    for tok in tokens(in_file, tokenize):
        yield record(tok, ["%s:%0.3f=%s" % (p.normal_form, p.score, p.tag) for p in morph.parse(tok) if p.score >= thresh], end)

def records_lt(morph, in_file, tokenize, thresh, end):
    for tok in tokens(in_file, tokenize):
        yield record(tok, ["%s:%s" % (p.normal_form, p.tag) for p in morph.parse(tok) if p.score >= thresh], end)

def records_st(morph, in_file, tokenize, thresh, end):
    for tok in tokens(in_file, tokenize):
        yield record(tok, ["%0.3f=%s" % (p.score, p.tag) for p in morph.parse(tok) if p.score >= thresh], end)

def records_t(morph, in_file, tokenize, thresh, end):
    for tok in tokens(in_file, tokenize):
        if thresh:
            yield record(tok, [str(p.tag) for p in morph.parse(tok) if p.score >= thresh], end)
        else:
            yield record(tok, [str(t) for t in morph.tag(tok)], end)

def records_t_parse(morph, in_file, tokenize, thresh, end):
    for tok in tokens(in_file, tokenize):
        yield record(tok, [str(p.tag) for p in morph.parse(tok) if p.score >= thresh], end)

def records_ls(morph, in_file, tokenize, thresh, end, totals):
    for tok in tokens(in_file, tokenize):
        yield record(tok, ["%s:%0.3f" % (lemma, w) for lemma, w in totals(tok) if w >= thresh], end)

def records_l(morph, in_file, tokenize, thresh, end, totals):
    for tok in tokens(in_file, tokenize):
        yield record(tok, [lemma for lemma, w in totals(tok) if w >= thresh], end)

def each(in_file, tokenize):
    for tok in tokens(in_file, tokenize):
        yield tok
'''
MODES = [('lemma, score and tag', 'lst', (1, 1, 1)), ('lemma and tag', 'lt', (1, 0, 1)), ('score and tag', 'st', (0, 1, 1)),
         ('tag', 't', (0, 0, 1)), ('lemma and score', 'ls', (1, 1, 0)), ('lemma', 'l', (1, 0, 0))]


def plain(es):
    """Tokens and lemmas are text already: str() changes nothing."""
    m = {}
    for e in es:
        for t in subterms(e.value):
            if t.op == 'str':
                x = t.args[0]
                tag = x.op == 'attr' and x.args[1] == 'tag' or x.op == 'elem' and \
                    strip_copy(x.args[0].args[1]).op == 'mcall' and strip_copy(x.args[0].args[1]).args[1] == 'tag'
                if not tag:
                    m[t] = x
    return [Emission(e.binders, e.gate, subst(e.value, m), e.kind, e.loc) for e in es] if m else es


def world():
    return World(typed_morph=False)


def run(w, mode, tokenize, newlines=True, cache=0):
    nf, score, tag = mode
    kw = dict(morph=MORPH, in_file=IN, out_file=OUT, tokenize=const(bool(tokenize)), score=const(bool(score)),
              normal_form=const(bool(nf)), tag=const(bool(tag)), newlines=const(newlines), cache_size=const(cache),
              thresh=THRESH)
    return w.func(CLI + 'parse', **kw)


def written(w, r):
    """What is written to the output file, as a sequence of (conditional) values; None when not recognised."""
    v = w.v
    out = []
    for e in r.calls:
        f, args, kw = e.payload[0], e.payload[1], e.payload[2]
        if f.op == 'attr' and f.args[0] is OUT or f.op == 'bound' and OUT in f.args:
            name = f.args[1]
        elif any(OUT in set(subterms(x)) for x in list(args) + list(kw.values())
                 for x in ([t for _, t in x.alts] if isinstance(x, GV) else [x]) if isinstance(x, T)):
            return None
        else:
            continue
        if name == 'flush':
            continue
        if name == 'writelines' and len(args) == 1 and not kw:
            for g, t in (args[0] if isinstance(args[0], GV) else gv(args[0])).alts:
                q = v.as_seq(v.snap_gv(gv(t)))
                if q is None or q.op != 'seq' or q.args[2] or q.args[3]:
                    return None
                out += [Emission(tuple(e.binders) + tuple(i.binders), B.and_(e.gate, g, i.gate), i.value, 'item', e.loc) for i in q.args[1]]
            continue
        if name != 'write' or len(args) != 1 or kw:
            return None
        val = args[0] if isinstance(args[0], GV) else gv(args[0])
        for g, t in val.alts:
            out.append(Emission(e.binders, B.and_(e.gate, g), t, 'item', e.loc))
    return out


def located(r, es):
    locs = ['%s:%s' % e.loc[:2] for e in es or () if e.loc]
    return r.where + (' (written at %s)' % ', '.join(sorted(set(locs))) if locs else '')


def check_A22(rep):
    w = world()
    v = w.v
    rep.world = w
    for label, key, mode in MODES:
        for tokenize in (0, 1):
            name = 'one record per %s: token and its %s' % ('token' if tokenize else 'line', label)
            v.expand_dicts = not mode[2]
            r = run(w, mode, tokenize)
            es = written(w, r)
            if es is None:
                rep.add(name, None, r.where, 'the writes to the output file are not recognised')
                continue
            if not es:
                rep.add(name, False, r.where, 'nothing is written')
                continue
            if mode[2]:
                plain_mode(rep, w, name, key, tokenize, r, es)
            else:
                lemma_mode(rep, w, name, key, tokenize, r, es)


def spec_of(w, key, tokenize, *extra):
    return w.v.as_seq(w.run_spec(SPEC, 'records_' + key, MORPH, IN, const(bool(tokenize)), THRESH, const('\n'), *extra).value)


def as_list(es):
    return seq('list', plain(es))


def plain_mode(rep, w, name, key, tokenize, r, es):
    c = w.canon()
    a = c.term(as_list(es))
    specs = [spec_of(w, key, tokenize)]
    if key == 't':
        specs.append(spec_of(w, 't_parse', tokenize))
    for s in specs:
        if same(a, c.term(as_list(s.args[1]))):
            rep.add(name, True, located(r, es))
            return
    rep.equal(name, located(r, es), a, c.term(as_list(specs[0].args[1])), extra_unknown=split_writes(es))


def split_writes(es):
    """A record may be written in several pieces."""
    seen = set()
    for e in es:
        k = e.binders
        if any(b == k and not B.and_(g, e.gate) == FALSE for b, g in seen):
            return True
        seen.add((k, e.gate))
    return False


# ---------------------------------------------------------------- lemma modes
def totals(v):
    """Dictionaries that accumulate something for the results of a word: {object id: [event]}."""
    out = {}
    for o in v.objs.values():
        if o.kind == 'dict':
            for e in o.events:
                if e.kind == 'setitem' and any(strip_copy(b.args[1]).op == 'mcall' and
                                               strip_copy(b.args[1]).args[:2] == (MORPH, 'parse') for b in e.binders):
                    out.setdefault(o.oid, []).append(e)
    return out


def amount(v, oid, e):
    """[(condition, amount, added to the old one)] of the write, None when it is not an accumulation."""
    key, val = e.payload[0], e.payload[1]
    out = []
    vals = val.alts if isinstance(val, GV) else [(TRUE, val)]
    if len(e.payload) > 2 and e.payload[2] is not None:
        op, by = e.payload[2][:2]
        if op != '+':
            return None
        by = by if isinstance(by, GV) else gv(by)
        return [(g, t, True) for g, t in by.alts]
    for g, t in vals:
        if t.op == 'add' and len(t.args) == 2 and old_total(t.args[0], oid):
            out.append((g, t.args[1], True))
        elif t.op == 'add' and len(t.args) == 2 and old_total(t.args[1], oid):
            out.append((g, t.args[0], True))
        else:
            out.append((g, t, False))
    return out


def starts_at_zero(e, oid, evs):
    """A lemma that is not there yet gets 0, and then the score is added as for every other one."""
    key, val = e.payload[0], e.payload[1]
    if not isinstance(val, GV) or val.single() is None or not ops.isnum(val.single()) or ops.cval(val.single()) != 0:
        return False
    at = [a for a in B.support_atoms(e.gate) if a.op == 'in' and old_ref(a.args[1], oid)]
    if len(at) != 1 or B.constrain(e.gate, B.atom(at[0])) != FALSE:
        return False
    rest = B.constrain(e.gate, B.not_(B.atom(at[0])))
    return any(x.seqno > e.seqno and x.gate == rest and x.binders == e.binders and repr(x.payload[0]) == repr(key) and
               len(x.payload) > 2 and x.payload[2] is not None for x in evs)


def old_total(t, oid):
    return t.op == 'idx' and t.args[0].op in ('cur', 'objref', 'obj', 'at') and t.args[0].args[0] == oid


def lemma_mode(rep, w, name, key, tokenize, r, es):
    v = w.v
    where = located(r, es)
    tabs = dict((o, es_) for o, es_ in totals(v).items() if any(mentions(e, o) for e in es))
    if len(tabs) != 1:
        c = w.canon()
        text = pretty(c.term(as_list(es)), 400)
        summed = any(t.op in ('cur', 'curof', 'sum', 'reduce', 'objref', 'at') for e in es for t in subterms(e.value))
        whole = c.term(as_list(es))
        rep.add(name, None if summed or tabs or unresolved(whole) or foreign(whole) else False, where,
                'the scores of the results of a lemma are not added up: %s' % text)
        return
    oid, evs = list(tabs.items())[0]
    cover = {}
    zeros = [e for e in evs if starts_at_zero(e, oid, evs)]
    for e in evs:
        if e in zeros:
            continue
        at = '%s (%s)' % (r.where, e.loc and '%s:%s' % e.loc[:2])
        b = e.binders[-1]
        parse = strip_copy(b.args[1])
        k = e.payload[0].single() if isinstance(e.payload[0], GV) else e.payload[0]
        n2 = 'the scores of a lemma are added up under the lemma%s (%s)' % (' of a line' if not tokenize else '', key)
        ok = k is attr(elem(b), 'normal_form')
        rep.add(n2, ok or (None if k is None or unresolved(k) or foreign(k) else False), at,
                'the key is %s' % (pretty(k, 200) if k is not None else e.payload[0]))
        am = amount(v, oid, e)
        n2 = 'every result adds its score to its lemma%s (%s)' % (' of a line' if not tokenize else '', key)
        extra = [a for a in B.support_atoms(e.gate) if elem(b) in set(subterms(a)) or THRESH in set(subterms(a))]
        extra = [a for a in extra if not (a.op == 'in' and 'normal_form' in show(a))]
        if am is None:
            rep.add(n2, None, at, 'not an addition')
            continue
        bad = [(g, t) for g, t, _ in am if t is not attr(elem(b), 'score')]
        ins = [a for a in B.support_atoms(e.gate) + [a for g, _, _ in am for a in B.support_atoms(g)]
               if a.op == 'in' and old_ref(a.args[1], oid)]
        known = B.or_(*[B.atom(a) for a in set(ins)]) if ins else FALSE
        lost = [(g, t) for g, t, added in am if not added and B.and_(B.and_(e.gate, g), known) != FALSE or not added and not ins]
        if BINDER_STOP.get(b):
            rep.add(n2, None, at, 'the loop over the results may stop early')
        elif extra:
            un = [u for u in unresolved(mk('x', Gate(e.gate))) if u.op not in ('cur', 'curof')] or foreign(mk('x', Gate(e.gate)))
            rep.add(n2, None if un else False, at, 'the score is only added if %s' % show_gate(e.gate)[:300])
        elif bad:
            un = any([u for u in unresolved(t) if not old_ref(u, oid)] or foreign(t) for _, t in bad)
            rep.add(n2, None if un else False, at, 'what is added is %s' % '; '.join(pretty(t, 200) for _, t in bad))
        elif lost:
            rep.add(n2, False, at, 'the total of the earlier results is replaced by %s' % '; '.join(pretty(t, 200) for _, t in lost))
        else:
            rep.add(n2, True, at)
            cover.setdefault(e.binders, []).append(e.gate)
    for bs, gs in cover.items():
        g = B.or_(*gs)
        if any(a.op == 'in' and old_ref(a.args[1], oid) for a in B.support_atoms(g)):
            rep.add('the scores of all results of a lemma are added up%s (%s)' % (' of a line' if not tokenize else '', key), False,
                    where, 'a score is only added if %s' % show_gate(g)[:300])
    # the output: the same in both cases (first and later result of a lemma) in terms of the total
    TOTAL, LEMMA = sym('total'), sym('lemma')
    res = set()
    for e in es:
        x = e.value
        cands = set(s for s in subterms(x) if s.op == 'seq')
        cands = [s for s in cands if s.args[1] and all(i.binders and any(
            strip_copy(bb.args[1]).op == 'mcall' and strip_copy(bb.args[1]).args[:2] == (MORPH, 'parse') for bb in i.binders)
            for i in s.args[1])]
        if len(cands) != 1:
            rep.add(name, None, where, 'the list of lemmas is not recognised: %s' % pretty(x, 300))
            return
        s = cands[0]
        outs = set()
        for i in s.args[1]:
            if zeros and len(s.args[1]) > len(zeros) and not any(old_total(t, oid) for y in [i.value] + B.support_atoms(i.gate)
                                                                 for t in subterms(y)):
                continue        # the initial zero of a lemma, replaced by the total
            bb = i.binders[-1]
            score, lemma = attr(elem(bb), 'score'), attr(elem(bb), 'normal_form')
            m = {}
            ts = set(subterms(i.value))
            for a in B.support_atoms(i.gate):
                ts |= set(subterms(a))
            for t in ts:
                if t.op == 'add' and any(old_total(q, oid) for q in t.args) and score in t.args:
                    m[t] = TOTAL
            later = any(a.op == 'in' and old_ref(a.args[1], oid) for a in B.support_atoms(i.gate))
            g = i.gate
            for a in list(B.support_atoms(g)):
                if a.op == 'in' and old_ref(a.args[1], oid):
                    p1 = B.constrain(g, B.atom(a))
                    p0 = B.constrain(g, B.not_(B.atom(a)))
                    later = p0 == FALSE
                    g = B.or_(p1, p0)
            if not later:
                m[score] = TOTAL
            m[lemma] = LEMMA
            g, val = ops.subst_gate(g, m), subst(i.value, m)
            outs.add((g, val))
        res.add((e.binders, e.gate, tuple(sorted(outs, key=repr)), x, s))
    if len(res) != 1:
        rep.add(name, None, where, 'several writes')
        return
    binders, gate, outs, x, s = list(res)[0]
    if len(outs) != 1:
        un = any(unresolved(t) or unresolved(mk('x', Gate(g))) for g, t in outs)
        rep.add(name, None if un else False, where, 'first and later results of a lemma are printed differently: %s' %
                '; '.join('%s if %s' % (pretty(t, 200), show_gate(g)[:200]) for g, t in outs))
        return
    g, val = outs[0]
    toks = w.v.as_seq(w.run_spec(SPEC, 'each', IN, const(bool(tokenize))).value)
    c = w.canon()
    lem = sym('lemmas of the token')
    code = c.term(as_list([Emission(binders, gate, subst(x, {s: lem}), 'item')]))
    (te,) = toks.args[1]
    rec = ops.add(ops.add(ops.add(te.value, const('{')), mk('join', const('|'), lem)), const('}\n'))
    want = c.term(as_list([Emission(te.binders, te.gate, rec, 'item')]))
    rep.equal(name, where, code, want)
    item = w.run_spec(ITEM, 'ls' if key == 'ls' else 'l', LEMMA, TOTAL).value.single()
    rep.equal('%s: what is printed for a lemma' % name, where, *[c.term(as_list([Emission((), TRUE, x)])) for x in (val, item)])
    cond = w.run_spec(ITEM, 'kept', TOTAL, THRESH).value
    rep.equal('%s: all and only the lemmas whose total is below the threshold are left out' % name, where,
              c.term(boolt(g)), c.term(boolt(w.v.truth(cond))))


ITEM = '''
def ls(lemma, total):
    return "%s:%0.3f" % (lemma, total)
def l(lemma, total):
    return lemma
def kept(total, thresh):
    return total >= thresh
'''


def old_ref(t, oid):
    return t.op in ('cur', 'objref', 'obj', 'at') and t.args[0] == oid


def mentions(e, oid):
    for x in [e.value] + list(B.support_atoms(e.gate)):
        for t in subterms(x):
            if t.op in ('cur', 'objref', 'obj', 'at') and t.args and t.args[0] == oid:
                return True
    return False


# ---------------------------------------------------------------- caching
CACHES = [('no cache', 0, const), ('unlimited cache', 'unlim', const), ('cache of any size', 'cache_size', sym)]
LRU = ('functools.lru_cache', 'fastcache.clru_cache', 'backports.functools_lru_cache.lru_cache', 'functools.cache')


def lru(t):
    """(function, argument) for lru_cache(...)(function)(argument)."""
    if t.op == 'call' and len(t.args[1]) == 1 and not t.args[2]:
        f, (x,) = t.args[0], t.args[1]
        if f.op == 'call' and len(f.args[1]) == 1 and not f.args[2]:
            d = f.args[0]
            if d.op == 'call' and d.args[0].op == 'ext' and d.args[0].args[0] in LRU or d.op == 'ext' and d.args[0] in LRU:
                return f.args[1][0], x
    return None


def remembered(t):
    """(object id, key) for a value read from a dictionary."""
    if t.op == 'idx' and t.args[0].op in ('cur', 'objref', 'at'):
        return t.args[0].args[0], t.args[1]
    return None


def check_A22_cache(rep):
    mode = (1, 1, 1)
    for label, value, kind in CACHES:
        for tokenize in (0, 1):
            w = world()
            v = w.v
            v.transparent = set()
            rep.world = w
            per = 'token' if tokenize else 'line'
            name = '%s: every %s is answered as without a cache' % (label, per)
            kw = dict(morph=MORPH, in_file=IN, out_file=OUT, tokenize=const(bool(tokenize)), score=const(True),
                      normal_form=const(True), tag=const(True), newlines=const(True), cache_size=kind(value), thresh=THRESH)
            r = w.func(CLI + 'parse', **kw)
            es = written(w, r)
            where = located(r, es)
            if not es or split_writes(es):
                rep.add(name, None, where, 'writes are not recognised')
                continue
            (te,) = spec_of(w, 'lst', tokenize).args[1]
            toks = v.as_seq(w.run_spec(SPEC, 'each', IN, const(bool(tokenize))).value).args[1][0]
            c = w.canon()
            cover = FALSE
            status, text = True, ''
            for e in es:
                st, tx, val = through(w, e, toks, c)
                cover = B.or_(cover, e.gate)
                if st is True:
                    a = c.term(as_list([Emission(e.binders, TRUE, val)]))
                    b = c.term(as_list([Emission(te.binders, TRUE, te.value)]))
                    if a is not b:
                        ok = not (set(unresolved(a)) - set(unresolved(b))) and not foreign(a) - foreign(b)
                        st, tx = (False if ok else None), 'code writes %s' % pretty(a, 300)
                if st is not True and status is not False:
                    status, text = st, tx
            if status is True:
                a = c.term(as_list([Emission(es[0].binders, cover, const(1))]))
                b = c.term(as_list([Emission(te.binders, te.gate, const(1))]))
                if a is not b:
                    status, text = None, 'written if %s' % show_gate(cover)[:300]
            rep.add(name, status, where, text)
    memo(rep)


def through(w, e, toks, c):
    """(status, text, value) of a written value with caches looked through."""
    v = w.v
    t = e.value
    m = lru(t)
    if m is not None:
        f, x = m
        tok = c.term(as_list([Emission(e.binders, TRUE, x)]))
        if tok is not c.term(as_list([Emission(toks.binders, TRUE, toks.value)])):
            return (None if unresolved(tok) or foreign(tok) else False), 'the cache is asked for %s' % pretty(tok, 200), None
        if f.op not in ('func', 'bound'):
            return None, 'cached function %s' % pretty(f, 200), None
        v.new_epoch()
        v.gate = TRUE
        r = v.snap_gv(v.call_gv(gv(f), [gv(x)], {}, None))
        if v.effects:
            return None, 'the cached function changes state', None
        if r.single() is None:
            return None, 'the cached function has several results', None
        return True, '', r.single()
    m = remembered(t)
    if m is not None:
        oid, k = m
        o = v.objs.get(oid)
        sets = [ev for ev in o.events if ev.kind == 'setitem'] if o is not None else []
        if o is None or o.kind != 'dict' or len(sets) != 1 or any(ev.kind not in ('setitem', 'delitem', 'clear') for ev in o.events):
            return None, 'cache not recognised: %s' % pretty(t, 200), None
        key, val = sets[0].payload[0], sets[0].payload[1]
        key = key.single() if isinstance(key, GV) else key
        val = val.single() if isinstance(val, GV) else val
        if key is None or val is None:
            return None, 'cache not recognised', None
        if key is not k:
            un = unresolved(key) or unresolved(k) or foreign(key) or foreign(k)
            return (None if un else False), 'stored under %s but looked up under %s' % (pretty(key, 200), pretty(k, 200)), None
        whole = c.term(as_list([Emission(toks.binders, TRUE, toks.value)]))
        if c.term(as_list([Emission(e.binders, TRUE, k)])) is not whole and not (
                k.op == 'tuple' and any(c.term(as_list([Emission(e.binders, TRUE, x)])) is whole for x in k.args)):
            return None if unresolved(k) else False, 'two tokens may share the key %s' % pretty(k, 200), None
        return True, '', val
    if t.op in ('cur', 'curof'):
        return None, pretty(t, 200), None
    return True, '', t


def memo(rep):
    """The memo of one call of the command is not used by another one with other options."""
    w = world()
    v = w.v
    v.transparent = set()
    kw = dict((k, sym(k)) for k in 'morph in_file out_file tokenize score normal_form tag newlines thresh'.split())
    r = w.func(CLI + 'parse', cache_size=const('unlim'), **kw)
    bad = []
    for e in r.effects:
        if e.kind in ('setitem', 'mutate', 'setattr'):
            base = e.payload[0]
            if isinstance(base, T) and base is not OUT:
                bad.append('%s changes %s' % (e.loc and '%s:%s' % e.loc[:2], pretty(base, 100)))
    rep.add('nothing is remembered from one run to the next', not bad, r.where, '; '.join(bad[:3]))


# ---------------------------------------------------------------- options
ARGS = sym('args')
MAIN = '''
import sys
def opened(fn):
    if fn in ('-', '', None):
        return sys.stdin
    return open(fn, 'rt', encoding='utf8')

def options(args):
    if args['--score'] or args['--lemmatize'] or args['--tag']:
        score, lemma, tag = args['--score'], args['--lemmatize'], args['--tag']
    else:
        score, lemma, tag = True, True, True
    return [('in_file', opened(args['<input>'])), ('out_file', sys.stdout), ('tokenize', not args['--tokenized']),
            ('score', score), ('normal_form', lemma), ('tag', tag), ('newlines', True), ('cache_size', args['--cache']),
            ('thresh', float(args['--thresh']))]

def wanted(args):
    return bool(args['parse'])
'''
FLAGS = ['--score', '--lemmatize', '--tag', '--tokenized']
VALUES = ['--thresh', '--cache', '--lang', '--dict']


def check_A22_options(rep):
    w = World(opaque=World.OPAQUE + [CLI + 'parse', MA + '.__init__', CLI + 'show_dict_mem_usage', CLI + 'show_dict_meta'],
              typed_morph=False)
    rep.world = w
    v = w.v
    r = w.func(CLI + 'main', sym('argv'))
    doc = [e for e in r.calls if e.payload[0].op == 'ext' and e.payload[0].args[0] == 'docopt.docopt']
    name = 'options are read from the usage text'
    if len(doc) != 1:
        rep.add(name, None, r.where, '%d calls of docopt' % len(doc))
        return
    args, kw = list(doc[0].payload[1]), dict(doc[0].payload[2])
    text = args[0] if args else kw.get('doc')
    argv = args[1] if len(args) > 1 else kw.get('argv')
    single = lambda x: x.single() if isinstance(x, GV) else x
    text, argv = single(text), single(argv)
    rep.add(name, (argv is sym('argv') and is_const(text)) or None, r.where, 'docopt(%s, %s)' % (pretty(text, 60), argv))
    if not is_const(text):
        return
    usage(rep, r.where, text.args[0])
    sub = {}
    for e in r.calls:
        for t in terms_of(e):
            for s in subterms(t):
                if s.op == 'call' and s.args[0].op == 'ext' and s.args[0].args[0] == 'docopt.docopt':
                    sub[s] = ARGS
    calls = [e for e in r.calls if e.payload[0].op == 'global' and e.payload[0].args[0] == CLI + 'parse']
    name = 'the parse command is run when it is asked for'
    c = w.canon()
    c.assume.append(lambda a: FALSE if a.op == 'cmp' and a.args[0] == '==' and
                    'version_info' in show(a.args[1]) else None)
    # a file name is a text or None
    FN = idx(ARGS, const('<input>'))
    empty, none = B.atom(mk('cmp', '==', FN, const(''))), B.atom(mk('isnone', FN))
    c.assume.append(lambda a: B.not_(B.or_(empty, none)) if a is mk('truthy', FN) else empty if a.op == 'cmp' and
                    a.args[0] == '==' and FN in a.args and const('') in a.args else None)
    c.rewrites.append(lambda t: mk('file', *(t.args[:3] + (0,))) if t.op == 'file' and t.args[3] else None)
    if len(calls) != 1:
        rep.add(name, None, r.where, '%d calls of parse' % len(calls))
        return
    e = calls[0]
    where = '%s (%s)' % (r.where, e.loc and '%s:%s' % e.loc[:2])
    want = v.truth(w.run_spec(MAIN, 'wanted', ARGS).value)
    rep.equal(name, where, c.term(boolt(ops.subst_gate(e.gate, sub))), c.term(boolt(want)))
    names = params(v, CLI + 'parse')
    given = dict(zip(names, e.payload[1]))
    given.update(e.payload[2])
    spec = w.run_spec(MAIN, 'options', ARGS).value
    ss = v.as_seq(spec)
    want = {}
    for it in items_of(ss):
        want.setdefault(it.value.args[0].args[0], []).append((it.gate, it.value.args[1]))
    gate = ops.subst_gate(e.gate, sub)
    for k in sorted(want):
        name = 'option %s of the parse command' % k
        if k not in given:
            rep.add(name, None, where, 'not passed')
            continue
        val = given[k] if isinstance(given[k], GV) else gv(given[k])
        code = gv_join([(B.constrain(ops.subst_gate(g, sub), gate), subst(t, sub)) for g, t in val.alts
                        if B.and_(gate, ops.subst_gate(g, sub)) != FALSE])
        if k in ('score', 'normal_form', 'tag', 'tokenize', 'newlines'):
            a, b = c.term(boolt(v.truth(code))), c.term(boolt(v.truth(gv_join(want[k]))))
        else:
            a, b = c.gv(code), c.gv(gv_join(want[k]))
        rep.equal(name, where, a, b)
    made = [x for x in r.calls if x.payload[0].op == 'attr' and x.payload[0].args[1] == '__init__' and
            x.payload[0].args[0].op == 'inst' and v.obj(x.payload[0].args[0]).cls.qualname == MA]
    made = [x for x in made if B.and_(x.gate, e.gate) != FALSE]
    name = 'the analyzer of the parse command uses the requested dictionary and language'
    if len(made) != 1:
        rep.add(name, None, where, '%d analyzers' % len(made))
        return
    names = params(v, MA + '.__init__')
    pos = list(made[0].payload[1])
    names = names[1:] if names and names[0] == 'self' else names
    given = dict(zip(names, pos))
    given.update(made[0].payload[2])
    ok = all(single(given.get(k)) is not None and subst(single(given[k]), sub) is idx(ARGS, const(o))
             for k, o in (('path', '--dict'), ('lang', '--lang')))
    extra = set(given) - {'path', 'lang'}
    res = [single(x) for x in given.values()]
    rep.add(name, (ok and not extra) or (None if extra or any(x is None or unresolved(x) or foreign(x) - {mk('ext', 'docopt.docopt')} for x in res) else False), where,
            ', '.join('%s=%s' % (k, pretty(subst(single(x), sub), 60)) for k, x in given.items() if single(x) is not None))


def items_of(s):
    return s.args[1] if s.op == 'seq' else [Emission((), TRUE, x) for x in s.args]


def terms_of(e):
    out = []
    for x in list(e.payload[1]) + list(dict(e.payload[2]).values()):
        for t in ([t for _, t in x.alts] if isinstance(x, GV) else [x]):
            if isinstance(t, T):
                out.append(t)
        if isinstance(x, GV):
            for g, _ in x.alts:
                out.extend(B.support_atoms(g))
    out.extend(B.support_atoms(e.gate))
    return out


def params(v, dotted):
    f = v.lookup(dotted).single()
    a = v.funcs[f.args[0]].node.args
    return [x.arg for x in a.args]


def usage(rep, where, text):
    """The usage text declares the options (docopt reads them from it)."""
    opts = {}
    for line in text.splitlines():
        m = re.match(r'\s*(?:(-\w),?\s+)?(--[\w-]+)(?:[ =](<\S+>|[A-Z]+))?(?:\s\s+(.*)|\s*)$', line)
        if m:
            cur = m.group(2)
            opts[cur] = [m.group(1), m.group(3), m.group(4) or '']
        elif opts and line.startswith('     ') and line.strip():
            opts[cur][2] += ' ' + line.strip()
        elif not line.strip():
            pass
    bad = []
    for o in FLAGS:
        if o not in opts:
            bad.append('%s is not declared' % o)
        elif opts[o][1]:
            bad.append('%s takes an argument' % o)
    for o in VALUES:
        if o not in opts:
            bad.append('%s is not declared' % o)
        elif not opts[o][1]:
            bad.append('%s takes no argument' % o)
    short = dict((o[0], k) for k, o in opts.items() if o[0])
    for s, o in (('-l', '--lemmatize'), ('-s', '--score'), ('-t', '--tag'), ('-c', '--cache')):
        if short.get(s) != o:
            bad.append('%s is %s' % (s, short.get(s)))
    if not bad:
        m = re.search(r'\[default: (.*?)\]', opts['--thresh'][2])
        try:
            if m is None or float(m.group(1)) != 0:
                bad.append('--thresh is %s when not given' % (m and m.group(1)))
        except ValueError:
            bad.append('the default of --thresh is not a number')
    rep.add('the usage text declares the options of the parse command', not bad, where, '; '.join(bad))
