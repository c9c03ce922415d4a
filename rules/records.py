"""Dictionary records and paradigms as the analyzer reads them (shared by A05, A17, A31)."""
from .common import *

SPEC = '''
def tag(d, para_id, i):
    p = d.paradigms[para_id]
    return d.gramtab[p[len(p) // 3 + i]]

def normal(d, para_id, i, word):
    p = d.paradigms[para_id]
    n = len(p) // 3
    prefix = d.paradigm_prefixes[p[n * 2 + i]]
    suffix = d.suffixes[p[i]]
    if suffix:
        stem = word[len(prefix):-len(suffix)]
    else:
        stem = word[len(prefix):]
    return d.paradigm_prefixes[p[n * 2]] + stem + d.suffixes[p[0]]

def stem(d, p, i, word):
    n = len(p) // 3
    prefix = d.paradigm_prefixes[p[n * 2 + i]]
    suffix = d.suffixes[p[i]]
    if suffix:
        return word[len(prefix):-len(suffix)]
    return word[len(prefix):]

def info(d, para_id):
    p = d.paradigms[para_id]
    n = len(p) // 3
    res = []
    for i in range(n):
        res.append((d.paradigm_prefixes[p[n * 2 + i]], d.gramtab[p[n + i]], d.suffixes[p[i]]))
    return res
'''


def positive_index(i):
    def fn(a):
        if a.op == 'truthy' and a.args[0] is i:
            return TRUE
        if a.op == 'cmp' and i in a.args:
            op, x, y = a.args
            other = y if x is i else x
            if not ops.isnum(other):
                return None
            k = ops.cval(other)
            if op == '==' and k <= 0:
                return FALSE
            if k <= 0 and op in ('<', '<=') and y is i:      # k < i
                return TRUE
            if k <= 0 and op in ('<', '<=') and x is i:      # i < k
                return FALSE
            if k == 1 and op == '<=' and y is i:
                return TRUE
            if k == 1 and op == '<' and x is i:
                return FALSE
        return None
    return fn


def dictionary_reads(rep, names=('tag', 'normal', 'stem', 'info')):
    w = World()
    v = w.v
    d = sym('dictionary')
    v.types[d] = v.cls(DICT)
    para, i, word, p = sym('para_id'), sym('idx'), sym('fixed_word'), sym('paradigm')
    if 'tag' in names:
        r = w.call(d, 'build_tag_info', para, i)
        s = w.run_spec(SPEC, 'tag', d, para, i)
        c = w.canon()
        rep.equal('the tag of a form is read from the tag third of its paradigm', r.where, c.gv(r.value.under(r.gate)),
                  c.gv(s.value.under(s.gate)))
    if 'normal' in names:
        r = w.call(d, 'build_normal_form', para, const(0), word)
        s = w.run_spec(SPEC, 'normal', d, para, const(0), word)
        c = w.canon()
        x = c.gv(r.value.under(r.gate))
        name = 'the normal form of the first form is the form itself'
        if same(x, gv(word)):
            rep.add(name, True, r.where)
        else:
            rep.equal(name, r.where, x, c.gv(s.value.under(s.gate)))
        r = w.call(d, 'build_normal_form', para, i, word)
        s = w.run_spec(SPEC, 'normal', d, para, i, word)
        c = w.canon()
        c.assume.append(positive_index(i))
        rep.equal('the normal form of any other form is built from the stem and the first affixes of its paradigm', r.where,
                  c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate)))
    if 'stem' in names:
        r = w.call(d, 'build_stem', p, i, word)
        s = w.run_spec(SPEC, 'stem', d, p, i, word)
        c = w.canon()
        rep.equal("the stem of a form is the form without the affixes of its own position", r.where,
                  c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate)))
    if 'info' in names:
        r = w.call(d, 'build_paradigm_info', para)
        s = w.run_spec(SPEC, 'info', d, para)
        c = w.canon()
        rep.equal('paradigm descriptions list prefix, tag and suffix of every position', r.where,
                  c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate)))
