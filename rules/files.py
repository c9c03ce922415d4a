"""A16, A20: what is written to dictionary files is what is read from them."""
import struct

from .common import *


def ntuple_fields(t):
    return t.args[2] if t.op == 'ntuple' else None


def ntuple_field(t, n):
    return t.args[1][t.args[2].index(n)]


S = P + 'opencorpora_dict.storage.'
C = P + 'opencorpora_dict.compile.'
COMPILED, OUT, SRC, LANGCODE, PATH = [sym(x) for x in ('compiled', 'out', 'source', 'language', 'path')]
META = 'meta.json'
HOLE = '*'


def concat(t):
    """Parts of a text: constant strings and terms."""
    if t.op == 'const':
        return [ops.cval(t)]
    if t.op == 'add':
        out = []
        for a in t.args:
            out.extend(concat(a))
        return out
    if t.op == 'str' and len(t.args) == 1:
        return [t.args[0]]
    return [t]


class Use(object):
    """One use of a file: where, how, with what content."""

    def __init__(self, path, way, enc, what, event):
        self.path, self.way, self.enc, self.what, self.event = path, way, enc, what, event
        self.base, self.parts = None, None
        if path.op == 'call' and path.args[0].op == 'ext' and path.args[0].args[0] in ('os.path.join', 'posixpath.join') \
                and len(path.args[1]) == 2 and not path.args[2]:
            self.base, self.parts = path.args[1][0], concat(path.args[1][1])
        elif path.op == 'add' and len(path.args) >= 3 and path.args[1] is const('/'):
            self.base, self.parts = path.args[0], [x for a in path.args[2:] for x in concat(a)]

    @property
    def pattern(self):
        return None if self.parts is None else ''.join(x if isinstance(x, str) else HOLE for x in self.parts)

    @property
    def holes(self):
        return [x for x in self.parts or () if isinstance(x, T)]

    @property
    def plain(self):
        """The name is a constant or has an index or name in it, nothing unknown."""
        return self.pattern is not None and self.pattern != HOLE


def encoding(f):
    """(mode, encoding) of an open file."""
    a, kw = f.args[1], dict(f.args[2])
    mode = a[0] if a else kw.get('mode', const('r'))
    enc = kw.get('encoding')
    if enc is None and len(a) > 1:
        enc = a[1]
    if mode.op != 'const' or enc is not None and enc.op != 'const':
        return None, None
    e = ops.cval(enc) if enc is not None else None
    return ops.cval(mode), e.lower().replace('-', '').replace('_', '') if isinstance(e, str) else e


def ext(name):
    return mk('ext', name)


def uses(v, r):
    """Files the events of a call read or write; None items for what is not understood."""
    out = []
    for e in r.calls:
        f, args, kw = e.payload[:3]
        xs = [v.snap_gv(a) if isinstance(a, GV) else gv(a) for a in args]
        if f is ext('json.dump') and len(xs) > 1:
            for g, t in xs[1].alts:
                if t.op == 'file':
                    out.append(Use(t.args[0], 'json', encoding(t), args[0], e))
                    out[-1].file = t
        elif f is ext('json.load') and xs:
            for g, t in xs[0].alts:
                if t.op == 'file':
                    out.append(Use(t.args[0], 'json', encoding(t), e.payload[3], e))
                    out[-1].file = t
        elif f is ext('open'):
            for g, t in e.payload[3].alts:
                if t.op == 'file' and 'b' in str(encoding(t)[0]):
                    out.append(Use(t.args[0], 'binary', (None, None), None, e))
                    out[-1].file = t
        elif f.op == 'attr' and f.args[1] in ('save', 'load') and len(xs) == 1:
            for g, t in xs[0].alts:
                out.append(Use(t, 'dawg', (None, None), f.args[0], e))
                out[-1].file = None
    return out


def pairs(v, val):
    """{key: value} of a list of pairs, {} keys with a loop are left out; None when not understood."""
    t = val.single() if isinstance(val, GV) else val
    if t is None:
        return None
    if t.op in ('obj', 'objref'):
        t = v.snapshot(v.objs[t.args[0]])
    t = strip_copy(t)
    ems = t.args[1] if t.op == 'seq' and not t.args[3] else t.args[0] if t.op == 'dict' else \
        [Emission((), TRUE, x) for x in t.args] if t.op == 'tuple' else None
    if ems is None:
        return None
    out = {}
    for e in ems:
        if e.binders:
            return None
        x = e.value
        if x.op in ('obj', 'objref'):
            x = v.snapshot(v.objs[x.args[0]])
        if x.op == 'seq' and all(not y.binders and y.gate == TRUE for y in x.args[1]) and not x.args[2] and not x.args[3]:
            x = mk('tuple', *[y.value for y in x.args[1]])
        if x.op != 'tuple' or len(x.args) != 2 or x.args[0].op != 'const':
            return None
        if e.gate == TRUE:
            out[ops.cval(x.args[0])] = x.args[1]
    return out


class Storage(object):
    def __init__(self, w):
        self.w = w
        self.v = v = w.v
        self.save = w.func(S + 'save_compiled_dict', COMPILED, OUT, SRC, LANGCODE)
        self.written = [u for u in uses(v, self.save) if u.base is OUT]
        self.meta = None
        for u in self.written:
            if u.pattern == META:
                self.meta = pairs(v, u.what)
        self.load = w.func(S + 'load_dict', PATH)
        self.read = [u for u in uses(v, self.load)]

    def formats(self):
        """Gramtab file name parts of the writer, by format: (binder key term, parts)."""
        t = (self.meta or {}).get('gramtab_formats')
        if t is not None and t.op in ('obj', 'objref'):
            t = self.v.snapshot(self.v.objs[t.args[0]])
        return t if t is not None and t.op == 'dict' else None

    def resolve(self, u):
        """A name the reader takes from the metadata -> the pattern the writer put there."""
        if u.pattern is not None and u.pattern != HOLE:
            return u.pattern
        for x in u.holes:
            if x.op == 'idx' and x.args[0].op == 'idx' and x.args[0].args[1] is const('gramtab_formats'):
                t = self.formats()
                if t is not None and len(t.args[0]) == 1 and t.args[0][0].value.op == 'tuple':
                    return ''.join(y if isinstance(y, str) else HOLE for y in concat(t.args[0][0].value.args[1]))
        return None


def attrs_of(t):
    """Attributes of the compiled dictionary a value is made from."""
    return set(x.args[1] for x in subterms(t) if x.op == 'attr' and x.args[0] is COMPILED)


SPEC = '''
def gramtab(Tag, tags):
    return [Tag(x) for x in tags]

def tags(Tag, compiled):
    return [Tag._from_internal_tag(x) for x in compiled.gramtab]

def meta(pairs):
    return dict((k, x) for k, x in pairs)
'''

FIELDS = [('gramtab', 'gramtab', 'json'), ('suffixes', 'suffixes', 'json'), ('words', 'words_dawg', 'dawg'),
          ('paradigms', 'paradigms', 'binary'), ('prediction_suffixes_dawgs', 'prediction_suffixes_dawgs', 'dawg')]
DATA = set(x[1] for x in FIELDS)


def check_A16(rep):
    w = World(opaque=World.OPAQUE + [TAG + '.__new__', TAG + '.__init__'])
    rep.world = w
    v = w.v
    st = Storage(w)
    c = w.canon()
    ws, rs = st.save.where, st.load.where
    known = {}
    for u in st.written:
        if u.pattern is not None:
            known.setdefault(u.pattern, []).append(u)
    understood = all(u.plain for u in st.written) and st.written and st.meta is not None

    # the files
    for pat in sorted(known):
        us = known[pat]
        g = FALSE
        for u in us:
            g = B.or_(g, u.event.gate)
        rep.add('%s is written whenever a dictionary is saved' % pat, g == TRUE or None, ws, show_gate(g)[:200])
    seen = {}
    for u in st.read:
        pat = st.resolve(u)
        if pat is None or u.base is not PATH:
            first = [x for x in subterms(u.path) if x.op == 'idx' and ops.isnum(x.args[1]) and x.args[0].op == 'seq'
                     and any(y.op == 'mcall' and y.args[1] in ('values', 'keys', 'items') for y in subterms(x.args[0]))]
            rep.add('every file the loader opens is known by name', False if first and u.base is PATH else None, rs,
                    'the file is chosen by its place in a table: %s' % show(u.path)[:300] if first else show(u.path)[:200])
            continue
        seen.setdefault(pat, []).append(u)
    for pat in sorted(seen):
        if pat == 'paradigm-prefixes.json':
            continue        # only in dictionaries of the previous format version
        name = 'the loader reads %s the way it was written' % pat
        ru, wu = seen[pat][0], known.get(pat, [None])[0]
        where = '%s (%s)' % (rs, ru.event.loc and '%s:%s' % ru.event.loc[:2])
        if wu is None:
            rep.add(name, False if understood else None, where, 'no file of that name is written; written are %s' % ', '.join(sorted(known)))
            continue
        if ru.way != wu.way:
            rep.add(name, False, where, 'it is read as %s and written as %s' % (ru.way, wu.way))
            continue
        if ru.way == 'json':
            a, b = wu.enc[1], ru.enc[1]
            ok = a == b or (a, b) == ('utf8', 'utf8sig') or (a, b) == ('ascii', 'utf8')
            if None in (wu.enc[0], ru.enc[0]):
                ok = None
            rep.add(name, ok, where, 'written as %s, read as %s' % (a, b))
        else:
            rep.add(name, True, where)
    rep.add('the loader reads the metadata, grammemes, tags, paradigms, suffixes, words and prediction data',
            len([p for p in seen if p in known]) >= 7 or None, rs, ', '.join(sorted(seen)))

    fields(rep, w, st, c, seen, known)
    layout(rep, w, st, c)
    metadata(rep, w, st, c)
    version(rep, w, st)
    attributes(rep)
    update(rep)


def content(v, c, u):
    return c.gv(v.snap_gv(u.what)) if isinstance(u.what, GV) else gv(c.term(u.what))


def fields(rep, w, st, c, seen, known):
    v = w.v
    rs = st.load.where
    vals = {}
    for g, t in st.load.value.alts:
        names = ntuple_fields(t)
        if names is None:
            rep.add('the loaded dictionary has named fields', None, rs, show(t)[:200])
            return
        for n in names:
            vals.setdefault(n, []).append((g, ntuple_field(t, n)))
    by_path = dict((u.path, st.resolve(u)) for u in st.read)

    def files(t):
        out = set()
        for x in subterms(t):
            if x in by_path:
                out.add(by_path[x])
        return out

    for field, attr_name, way in FIELDS:
        name = '%s are restored from the file they were saved in' % field.replace('_', ' ')
        if field not in vals:
            rep.add(name, None, rs, 'no field %s' % field)
            continue
        ok, why = True, ''
        for g, t in vals[field]:
            x = t
            if t.op in ('obj', 'objref'):
                x = v.snapshot(v.objs[t.args[0]])
            if field == 'paradigms':
                pats = set(by_path[u.path] for u in st.read if u.way == 'binary' and contains(v, st, t, u))
            else:
                pats = set(p for p in files(x) if p != META and (p not in known or any(
                    written_attrs(v, c, st, u) & DATA for u in known[p])) and p != 'paradigm-prefixes.json')
            if len(pats) != 1:
                ok, why = None, 'made from %s' % sorted(map(str, pats))
                break
            pat = pats.pop()
            us = known.get(pat)
            if us is None:
                ok, why = None, 'not written: %s' % pat
                break
            src = set()
            for u in us:
                src |= written_attrs(v, c, st, u)
            if attr_name not in src:
                ok, why = (False if src else None), '%s is loaded from %s, which holds %s' % (field, pat, ', '.join(sorted(src)))
                break
        rep.add(name, ok, rs, why)

    # exact content
    for pat, attr_name in (('suffixes.json', 'suffixes'),):
        for p, us in known.items():
            for u in us:
                if written_attrs(v, c, st, u) == {attr_name}:
                    rep.equal('the %s are saved as they are' % attr_name, st.save.where, content(v, c, u),
                              gv(attr(COMPILED, attr_name)))
    for g, t in vals.get('suffixes', ())[:1]:
        f = [u for u in st.read if u.way == 'json' and isinstance(u.what, GV) and u.what.single() is t]
        rep.add('the suffixes are used as they were saved', bool(f) or None, rs, show(t)[:200])
    for p, us in known.items():
        for u in us:
            if 'gramtab' in written_attrs(v, c, st, u) and p != META:
                s = content(v, c, u).single()
                bs = u.event.binders
                ok = None
                if s is not None and s.op == 'seq' and len(s.args[1]) == 1 and not s.args[2]:
                    e = s.args[1][0]
                    ok = e.gate == TRUE and len(e.binders) == 1 and whole(e.binders[0], attr(COMPILED, 'gramtab'))
                    if ok is False and (unresolved(s) or foreign(s)):
                        ok = None
                rep.add('every tag is saved, in order', ok, st.save.where, show(s)[:300] if s else '')
    # every tag class in the registry gets its tags back
    reg = const_registry(v)
    for fmt, cls in reg or ():
        w2 = World()
        k = w2.v.cls(cls)
        m = w2.v.find_method(k, '_from_internal_tag')
        if m is None:
            continue
        r = w2.call(k.leaf, '_from_internal_tag', sym('tag'))
        if fmt == 'opencorpora-int':
            rep.equal('tags of the internal format are saved unchanged', r.where, w2.canon().gv(r.value), gv(sym('tag')))
    gt = vals.get('gramtab')
    if gt and reg:
        k = v.cls(dict(reg).get('opencorpora-int', TAG))
        loads = [u for u in st.read if st.resolve(u) in known and any('gramtab' in written_attrs(v, c, st, x)
                                                                     for x in known[st.resolve(u)])
                 and st.resolve(u) != META]
        if len(loads) == 1:
            s = w.run_spec(SPEC, 'gramtab', k.leaf, loads[0].what)
            cc = w.canon()
            rep.equal('every tag is loaded, in order', rs, cc.gv(v.snap_gv(gv(gt[0][1]))), cc.gv(s.value))
        else:
            rep.add('every tag is loaded, in order', None, rs, '%d files of tags' % len(loads))
    pd = vals.get('prediction_suffixes_dawgs')
    if pd:
        ok, why = True, ''
        for g, t in pd:
            x = v.snapshot(v.objs[t.args[0]]) if t.op in ('obj', 'objref') else t
            ok = None
            if x.op == 'seq' and not x.args[2] and not x.args[3]:
                e = [y for y in x.args[1] if B.and_(y.gate, g) != FALSE]
                if len(e) == 1 and len(e[0].binders) == 1 and B.implies(g, e[0].gate) and e[0].value.op == 'mcall' \
                        and e[0].value.args[1] == 'load' and not BINDER_STOP.get(e[0].binders[0]):
                    p = Use(e[0].value.args[2][0], 'dawg', None, None, None)
                    h = p.holes
                    it = e[0].binders[0].args[1]
                    pp = ntuple_field(dict((gg, tt) for gg, tt in st.load.value.alts)[g], 'paradigm_prefixes')
                    ok = len(h) == 1 and (h[0].op == 'index' and it is pp or h[0].op == 'elem' and it.op == 'range' and
                                          it.args == (ops.length(pp),)) and h[0].args[0] is e[0].binders[0] or None
                    if ok and e[0].binders[0].args[2] is not None:
                        ok = False
                    if h and all(z.op == 'add' for z in h):
                        ok = False
                    if len(h) == 1 and h[0].op == 'elem' and h[0].args[0] is e[0].binders[0] and it.op == 'range' and \
                            len(it.args) == 2 and ops.isnum(it.args[0]) and ops.cval(it.args[0]) != 0:
                        ok = False
            why = show(x)[:3000]
            if ok is not True:
                break
        rep.add('prediction data of every prefix is loaded in the order of the prefixes', ok, rs, why)
    for p, us in known.items():
        for u in us:
            if u.way == 'dawg' and u.holes:
                h = u.holes[0]
                ok = None
                if h.op == 'index' and u.what.op == 'elem':
                    ok = h.args[0] is u.what.args[0]
                elif h.op == 'add' and any(x.op == 'index' for x in h.args):
                    ok = False
                rep.add('prediction data is numbered by its position', ok, st.save.where, show(u.path)[:200])


    pp = vals.get('paradigm_prefixes')
    if pp:
        ok, why = None, ''
        for g, t in pp:
            if any(x.op == 'idx' and x.args[1] is const('paradigm_prefixes') for x in subterms(t)):
                ok = t.op == 'idx' and t.args[1] is const('paradigm_prefixes') and t.args[0].op == 'idx' and \
                    t.args[0].args[1] is const('compile_options')
                if not ok and t.op != 'slice' and not (t.op == 'seq' and not unresolved(t)):
                    ok = None
                why = show(t)[:300]
        rep.add('the paradigm prefixes are the ones the dictionary was compiled with', ok, rs, why)


def whole(b, t):
    """A canonical loop over all items of a sequence, in their order."""
    return b.args[0] is t and b.args[1] is None and b.args[2].g == FALSE


def contains(v, st, t, u):
    """The container is filled from a binary file (its records are read from it in the order of the file)."""
    x = v.snapshot(v.objs[t.args[0]]) if t.op in ('obj', 'objref') else t
    fs = [f for e in st.load.calls if e.payload[0].op == 'attr' and e.payload[0].args[1] in ('fromfile', 'frombytes', 'fromstring')
          for a in e.payload[1] for f in (a.alts if isinstance(a, GV) else [(TRUE, a)])
          if f[1] is u.file or e.payload[0].args[1] != 'fromfile' and u.file in list(subterms(f[1]))]
    made = [e.payload[0].args[0] for e in st.load.calls if e.payload[0].op == 'attr' and
            e.payload[0].args[1] in ('fromfile', 'frombytes', 'fromstring')]
    return bool(fs) and any(y in made for y in subterms(x))


def written_attrs(v, c, st, u):
    if u.way == 'binary':
        out = set()
        for e in st.save.calls:
            if e.payload[0].op == 'attr' and e.payload[0].args[0] is u.file and e.payload[0].args[1] == 'write' and e.payload[1]:
                x = plain(e.payload[1][0])
                if isinstance(x, T) and x.op == 'mcall' and x.args[1] in ('tobytes', 'tostring'):
                    out |= attrs_of(x.args[0])
                    for b in e.binders:
                        out |= attrs_of(b)
            if e.payload[0].op == 'attr' and any(u.file is t for a in e.payload[1] if isinstance(a, GV) for _, t in a.alts):
                out |= attrs_of(e.payload[0].args[0])
                for b in e.binders:
                    out |= attrs_of(b)
        return out
    if u.way == 'dawg':
        return attrs_of(u.what)
    out = set()
    for g, t in content(v, c, u).alts:
        out |= attrs_of(t)
    return out


def const_registry(v):
    try:
        t = v.lookup(P + 'tagset.registry').single()
    except Exception:
        return None
    t = v.snapshot(v.objs[t.args[0]]) if t is not None and t.op in ('obj', 'objref') else t
    if t is None or t.op != 'dict':
        return None
    out = []
    for e in t.args[0]:
        if e.binders or e.value.op != 'tuple' or e.value.args[0].op != 'const' or e.value.args[1].op != 'cls':
            return None
        out.append((ops.cval(e.value.args[0]), e.value.args[1].args[0]))
    return out


# ---- binary layout
def layout(rep, w, st, c):
    v = w.v
    name = 'paradigms are read in the record layout they are written in'
    where = '%s and %s' % (st.save.where, st.load.where)
    wops, rops = [], []
    lens = {}
    for e in st.save.calls:
        f, a = e.payload[0], e.payload[1]
        if f.op == 'attr' and f.args[0].op == 'file' and f.args[1] == 'write':
            x = a[0].single()
            if x is not None and x.op == 'mcall' and x.args[1] in ('tobytes', 'tostring') and not x.args[2]:
                wops.append((e, 'array', None, x.args[0]))
                continue
            if x is None or x.op != 'call' or x.args[0] is not ext('struct.pack') or x.args[2]:
                return rep.add(name, None, where, 'written: %s' % show(f))
            fmt = x.args[1][0]
            if fmt.op != 'const' or len(x.args[1]) != 2:
                return rep.add(name, None, where, 'written: %s' % show(x))
            wops.append((e, 'number', ops.cval(fmt), x.args[1][1]))
        elif f.op == 'attr' and f.args[1] == 'tofile':
            wops.append((e, 'array', None, f.args[0]))
    for e in st.load.calls:
        f, a = e.payload[0], e.payload[1]
        if f is ext('struct.unpack'):
            fmt, data = a[0].single(), a[1].single()
            if fmt is None or fmt.op != 'const' or data is None or data.op != 'mcall' or data.args[0].op != 'file' \
                    or data.args[1] != 'read' or not data.args[2] or not ops.isnum(data.args[2][0]):
                return rep.add(name, None, where, 'read: %s' % show(e.payload[3])[:200])
            rops.append((e, 'number', ops.cval(fmt), ops.cval(data.args[2][0])))
        elif f.op == 'attr' and f.args[1] == 'fromfile':
            n = a[1].single() if len(a) > 1 else None
            rops.append((e, 'array', f.args[0], n))
        elif f.op == 'attr' and f.args[1] in ('frombytes', 'fromstring'):
            n = numbers_of(f.args[0], a[0].single() if a else None)
            if n is None:
                return rep.add(name, None, where, 'read: %s' % show(e.payload[3])[:200])
            rops.append((e, 'array', f.args[0], n))
    if not wops or not rops:
        return rep.add(name, None, where, 'records not recognised')
    shape = lambda xs: [(len(x[0].binders), x[1]) for x in xs]
    if shape(wops) != shape(rops):
        return rep.add(name, None if any(x[0].gate != TRUE for x in wops) else False, where,
                       'written %s, read %s' % (shape(wops), shape(rops)))
    for x, y in zip(wops, rops):
        if x[1] == 'number':
            try:
                size = struct.calcsize(x[2])
                if x[2] != y[2] and not (same_format(x[2], y[2])):
                    return rep.add(name, False, where, 'written as %r, read as %r' % (x[2], y[2]))
                if size != y[3]:
                    return rep.add(name, False, where, 'a number of %d bytes is read with %d bytes' % (size, y[3]))
            except struct.error:
                return rep.add(name, None, where, 'format %r' % x[2])
    # what the numbers are
    ok = len(wops) == 3 and wops[0][3] is ops.length(attr(COMPILED, 'paradigms'))
    bad = None
    if len(wops) == 3:
        bs = wops[2][0].binders
        el = elem(bs[-1]) if bs else None
        arr = wops[2][3]
        if not bs or bs[-1].args[1] is not attr(COMPILED, 'paradigms') or arr is not el:
            ok = None
        if ok:
            n = wops[1][3]
            if n is not plain(ops.length(el)):
                ok, bad = False, 'the length of %s is written before %s' % (show(n), show(arr))
        n0 = wops[0][3]
        if n0 is not ops.length(attr(COMPILED, 'paradigms')) and n0.op in ('min', 'max') and \
                ops.length(attr(COMPILED, 'paradigms')) in list(subterms(n0)):
            ok, bad = False, 'the number of records written is %s' % show(n0)
        if ok is False and bad is None:
            bad = 'the number of records written is %s' % show(n0)
            ok = False if n0.op in ('len', 'add') else None
    rep.add('the number of paradigms and the length of each are written before them', ok, st.save.where, bad or '')
    if len(rops) == 3:
        e, _, arr, n = rops[2]
        first, second = [x[0].payload[3].single() for x in rops[:2]]
        ok = n is not None and n is idx(second, const(0)) or None
        if n is not None and n.op != 'idx':
            ok = None if ok is None and n.op not in ('add', 'bin') else ok or False
        bs = e.binders
        it = bs[-1].args[1] if bs else None
        if it is None or it.op != 'range':
            ok = None
        elif tuple(it.args) != (idx(first, const(0)),):
            ok = False
        if BINDER_STOP.get(bs[-1]) if bs else False:
            ok = False
        rep.add('as many paradigms of as many numbers are read', ok, st.load.where, 'array of %s in %s' % (show(n)[-120:], show(it)[-200:]))
        # the array type
        code = arr.args[1][0] if arr.op == 'call' and arr.args[0] is ext('array.array') and arr.args[1] else None
        wc = World()
        wr = wc.func(C + '_linearized_paradigm', sym('paradigm')) if wc.v.program.modules.get(P + 'opencorpora_dict.compile') \
            and has_func(wc.v, C + '_linearized_paradigm') else None
        if wr is not None:
            t = wr.value.single()
            wcode = t.args[1][0] if t is not None and t.op == 'call' and t.args[0] is ext('array.array') else None
            ok = None if code is None or wcode is None else code is wcode
            rep.add('paradigms are arrays of the same type on both sides', ok, where, '%s %s' % (code, wcode))
        # every record is kept
        s = [t for g, x in st.load.value.alts for t in [ntuple_field(x, 'paradigms')]]
        s = v.snapshot(v.objs[s[0].args[0]]) if s and s[0].op in ('obj', 'objref') else None
        ok = None
        if s is not None and s.op == 'seq' and len(s.args[1]) == 1 and not s.args[2] and not s.args[3]:
            em = s.args[1][0]
            ok = em.gate == TRUE and em.value is arr and tuple(em.binders) == tuple(bs)
            if em.gate != TRUE and em.value is arr:
                ok = False
            elif not ok:
                ok = None
        rep.add('every paradigm read is kept', ok, st.load.where, show(s)[:300] if s is not None else '')
    rep.add(name, True, where)


def numbers_of(arr, data):
    """How many numbers an array takes from ``f.read(n * size of a number)``."""
    if data is None or data.op != 'mcall' or data.args[1] != 'read' or len(data.args[2]) != 1:
        return None
    t = data.args[2][0]
    if t.op != 'mul' and not (t.op == 'bin' and t.args[0] == '*'):
        return None
    sizes = [x for x in t.args if isinstance(x, T) and (x.op == 'attr' and x.args[1] == 'itemsize' and x.args[0] is arr)]
    rest = [x for x in t.args if isinstance(x, T) and x not in sizes]
    return rest[0] if len(sizes) == 1 and len(rest) == 1 else None


def plain(t):
    return t.single() if isinstance(t, GV) else t


def has_func(v, dotted):
    try:
        return v.lookup(dotted) is not None
    except Exception:
        return False


def same_format(a, b):
    """Formats of the same bytes for the same numbers."""
    def bytes_of(f, n):
        try:
            return struct.pack(f, n)
        except (struct.error, OverflowError):
            return None
    try:
        return struct.calcsize(a) == struct.calcsize(b) and all(
            bytes_of(a, n) == bytes_of(b, n) for n in (0, 258, -1, (1 << 15) + 1, (1 << 16) - 1, 1 << 16, (1 << 31) + 1))
    except struct.error:
        return False


# ---- metadata
def metadata(rep, w, st, c):
    v = w.v
    m = st.meta
    ws = st.save.where
    if m is None:
        rep.add('metadata is a list of fields', None, ws, 'not recognised')
        return
    want = {'language_code': LANGCODE, 'compile_options': attr(COMPILED, 'compile_options'), 'source': SRC}
    for k in ('language_code', 'format_version', 'gramtab_formats', 'compile_options', 'source_revision', 'compiled_at'):
        rep.add('the metadata field %s is written' % k, k in m, ws, 'written are %s' % ', '.join(map(str, sorted(m))))
    for k, x in sorted(want.items()):
        if k in m:
            rep.equal('the metadata field %s holds what was given' % k, ws, gv(c.term(m[k])), gv(x))
    # gramtab_formats: every file of tags is listed under its own format
    t = st.formats()
    ok, why = None, 'not recognised'
    if t is not None and len(t.args[0]) == 1:
        e = t.args[0][0]
        us = [u for u in st.written if u.way == 'json' and 'gramtab' in written_attrs(v, c, st, u) and u.pattern != META]
        if e.value.op == 'tuple' and len(us) == 1:
            u = us[0]
            k, n = e.value.args
            ok = e.gate == TRUE and concat(n) == u.parts and u.event.binders == e.binders
            why = '%s: %s, the file is %s' % (show(k), show(n), show(u.path))
            if ok:
                b = e.binders[-1] if e.binders else None
                ok = True if b is not None and k is idx(elem(b), const(0)) else None
            elif not (e.gate == TRUE and set(concat(n)) != set(u.parts)):
                ok = None
    rep.add('every file of tags is listed under its format', ok, ws, why)
    reg = const_registry(v)
    rep.add('the format the loader asks for is one the writer saves', None if reg is None else 'opencorpora-int' in dict(reg),
            'tagset.registry', str(reg))
    # metadata is kept as it was read
    r = w.func(S + 'load_meta', sym('name')) if has_func(v, S + 'load_meta') else None
    if r is not None:
        js = [e.payload[3] for e in r.calls if e.payload[0] is ext('json.load')]
        if len(js) == 1:
            s = w.run_spec(SPEC, 'meta', js[0])
            cc = w.canon()
            rep.equal('metadata is read into a dictionary of all its fields', r.where, cc.gv(r.value), cc.gv(s.value))
    # metadata read elsewhere in the package
    w2 = World()
    d = sym('dictionary')
    w2.v.types[d] = w2.v.cls(DICT)
    for label, keys in (('the compile options', ('paradigm_prefixes', 'max_suffix_length')),):
        r = None
        try:
            w3 = World(opaque=World.OPAQUE + [C + x for x in ('_join_lexemes', '_to_paradigm', '_suffixes_prediction_data')] +
                       [P + 'dawg.PredictionSuffixesDAWG'])
            r = w3.func(C + 'compile_parsed_dict', sym('parsed'), sym('options'))
        except AnalysisError:
            pass
        t = r.value.single() if r is not None else None
        x = ntuple_field(t, 'compile_options') if t is not None and ntuple_fields(t) else None
        if x is None:
            rep.add('compile options are handed on', None, C + 'compile_parsed_dict', 'not recognised')
            continue
        given = mentions(w3.v, x, sym('options'))
        rep.add('the options the dictionary was compiled with are the ones recorded', True if given else
                (False if not given and x.op != 'top' and not unresolved(w3.canon().term(x)) else None), r.where,
                show(w3.v.snapshot(w3.v.objs[x.args[0]]) if x.op in ('obj', 'objref') else x)[:300])


def mentions(v, t, s):
    if t.op in ('obj', 'objref'):
        if any(s in list(subterms(y)) for ev in v.objs[t.args[0]].events for y in flat_terms(ev)):
            return True
        t = v.snapshot(v.objs[t.args[0]])
    return s in list(subterms(t)) or any(mentions(v, x, s) for x in subterms(t) if x.op in ('obj', 'objref') and x is not t)


def flat_terms(ev):
    out = []
    todo = [getattr(ev, n, None) for n in getattr(ev, '__slots__', ())] if hasattr(ev, '__slots__') else list(vars(ev).values())
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, GV):
            out.extend(t for _, t in x.alts)
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
    return out


# ---- format version
def version(rep, w, st):
    """No other file is opened unless the major version is the writer's."""
    v = w.v
    name = 'nothing but the metadata is read before the format version is accepted'
    m = (st.meta or {}).get('format_version')
    if m is None or m.op != 'const' or not isinstance(ops.cval(m), str) or '.' not in ops.cval(m):
        rep.add(name, None, st.save.where, 'the written version is not a constant')
        return
    written = ops.cval(m)
    major = written.split('.')[0]
    opened = [u for u in st.read if u.pattern != META]
    if not opened:
        rep.add(name, None, st.load.where, 'no files recognised')
        return
    status, why = True, ''
    for u in opened:
        g = canon_gate(w, u.event.gate)
        if g == FALSE:
            continue
        ats = [a for a in B.support_atoms(g) if version_atom(a)]
        eq = [a for a in ats if a.op == 'cmp' and a.args[0] == '==' and const(major) in a.args and B.implies(g, B.atom(a))
              and any(first_part(x) for x in a.args[1:])]
        eq += [a for a in ats if a.op == 'startswith' and a.args[1] is const(major + '.') and B.implies(g, B.atom(a))]
        if eq:
            continue
        loc = u.event.loc and '%s:%s' % u.event.loc[:2]
        # a version of another major number for which the file is opened all the same
        for bad in (str(int(major) + 1) + '.' + written.split('.')[1], '0.' + written.split('.')[1], '1' + written, major + '1.0'):
            h = canon_gate(w, u.event.gate, bad)
            if h == TRUE or h != FALSE and not any(version_atom(a) or bad in show(a) for a in B.support_atoms(h)):
                status, why = False, '%s: %s is read from a dictionary of version %s' % (loc, show(u.path)[:120], bad)
                break
        if status is False:
            break
        status, why = None, '%s under %s' % (loc, show_gate(g)[:300])
    rep.add(name, status, st.load.where, why)
    # accepted: the version written by this code
    bad = [u for u in opened if canon_gate(w, u.event.gate, written) == FALSE and u.pattern != 'paradigm-prefixes.json']
    rep.add('dictionaries of the version written by this code are accepted', not bad or None, st.load.where,
            show(bad[0].path)[:200] if bad else '')
    errs = [e for e in st.load.raises if version_gate(canon_gate(w, e.gate))]
    kinds = set(e.payload[0] for e in errs)
    rep.add('an unsupported version is reported as an error', True if kinds & {'ValueError'} else None, st.load.where, str(kinds))


def is_version(t):
    return t.op == 'idx' and t.args[1] is const('format_version') or t.op == 'mcall' and t.args[1] == 'get' and \
        t.args[2][:1] == (const('format_version'),)


def first_part(t):
    return t.op == 'before' and t.args[1] is const('.') or t.op == 'idx' and t.args[1] is const(0) and t.args[0].op == 'mcall' and t.args[0].args[1] in ('split', 'partition')


def version_atom(a):
    return any(is_version(t) for t in subterms(a))


def version_gate(g):
    return any(version_atom(a) for a in B.support_atoms(g))


def canon_gate(w, gate, value=None):
    c = w.canon()

    def present(a):
        if a.op == 'in' and a.args[0] is const('format_version'):
            return TRUE
        return None
    c.assume.append(present)
    if value is not None:
        c.rewrites.append(lambda t: const(value) if is_version(t) else fold(t))
        c.atom_rw.append(fold_atom)
    return c.gate(gate)


def fold(t):
    """Parts of a constant text."""
    if all(isinstance(a, T) and a.op == 'const' for a in t.args) and t.args:
        a = [ops.cval(x) for x in t.args]
        try:
            if t.op == 'before':
                return const(a[0].split(a[1])[0])
            if t.op == 'idx':
                return const(a[0][a[1]])
            if t.op in ('str', 'float', 'int') and len(a) == 1:
                return const({'str': str, 'float': float, 'int': int}[t.op](a[0]))
        except Exception:
            return None
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.int', 'builtins.float') and \
            len(t.args[1]) == 1 and t.args[1][0].op == 'const':
        try:
            return const((int if t.args[0].args[0].endswith('int') else float)(ops.cval(t.args[1][0])))
        except (TypeError, ValueError):
            return None
    return None


def fold_atom(a):
    if a.op == 'cmp' and a.args[1].op == a.args[2].op == 'const':
        x, y = ops.cval(a.args[1]), ops.cval(a.args[2])
        try:
            r = {'==': lambda: x == y, '<': lambda: x < y, '<=': lambda: x <= y}.get(a.args[0])
            return None if r is None else TRUE if r() else FALSE
        except TypeError:
            return None
    if a.op == 'startswith' and all(x.op == 'const' for x in a.args):
        return TRUE if ops.cval(a.args[0]).startswith(ops.cval(a.args[1])) else FALSE
    return None


def attributes(rep):
    """The dictionary object exposes every field under its own name."""
    w = World(opaque=[x for x in World.OPAQUE if x != DICT + '.__init__'] + [S + 'load_dict'])
    v = w.v
    v.new_epoch()
    v.gate = TRUE
    k = v.cls(DICT)
    d = v.instantiate(k.leaf, [gv(PATH)], {}, None).single()
    where = w.where(k, '__init__')
    if d is None or d.op != 'inst':
        rep.add('the dictionary object can be created', None, where, str(d))
        return
    at = v.obj(d).attrs
    for n in ('paradigms', 'gramtab', 'paradigm_prefixes', 'suffixes', 'words', 'prediction_suffixes_dawgs', 'meta', 'Tag'):
        name = 'the dictionary attribute %s is the loaded %s' % (n, n)
        x = v.get_attr(d, n, None)
        t = x.single() if x is not None else None
        if t is not None and t.op == 'attr' and t.args[0].op == 'call':
            rep.add(name, t.args[1] == n, where, show(t))
        elif t is not None and t.op == 'idx' and t.args[0].op == 'call' and ops.isnum(t.args[1]):
            fs = v.lookup(S + 'LoadedDictionary')
            rep.add(name, None, where, show(t))
        else:
            rep.add(name, None, where, show(t) if t is not None else 'not resolved')
    x = v.get_attr(d, 'lang', None)
    c = w.canon()
    t = c.gv(x).alts
    ok = any(const('language_code') in list(subterms(y)) for g, y in t)
    keys = [z.args[1] for g, y in t for z in subterms(y) if z.op == 'idx' and z.args[1].op == 'const' and isinstance(ops.cval(z.args[1]), str)]
    keys += [z.args[2][0] for g, y in t for z in subterms(y) if z.op == 'mcall' and z.args[1] == 'get' and z.args[2]
             and z.args[2][0].op == 'const']
    rep.add('the language of the dictionary is the language code it was saved with', True if ok else (False if keys else None),
            where, pretty(t[0][1], 200))


def update(rep):
    """update_meta keeps the fields and the file."""
    w = World()
    v = w.v
    if not has_func(v, S + 'update_meta'):
        return
    r = w.func(S + 'update_meta', sym('name'), sym('extra'))
    us = uses(v, r)
    opened = [(u.path, encoding(u.file)) for u in us if u.file is not None]
    reads = [x for x in opened if x[1][0] and 'r' in x[1][0]]
    writes = [x for x in opened if x[1][0] and 'w' in x[1][0]]
    ok = len(reads) == 1 and len(writes) == 1
    if not reads and len(writes) == 1 and len(us) == len(opened):
        ok = True
        reads = [(None, (None, None))]
    rep.add('updating metadata rewrites the file it has read', (reads[0][0] is writes[0][0] and reads[0][1][1] == writes[0][1][1])
            if ok else None, r.where, '%s %s' % (reads, writes))
    # the new values are what is there afterwards
    name = 'updating metadata replaces the values of the fields it is given'
    stored = [u for u in us if u.way == 'json' and u.enc[0] and 'w' in u.enc[0]]
    c = w.canon()
    alts = content(v, c, stored[0]).alts if len(stored) == 1 else []
    t = alts[0][1] if len(alts) == 1 else None
    if t is not None and t.op == 'mcall' and t.args[1] == 'items' or t is not None and t.op == 'call' and len(t.args[1]) == 1:
        t = t.args[0] if t.op == 'mcall' else t.args[1][0]
    if t is None or t.op != 'dict':
        return rep.add(name, None, r.where, show(t)[:300] if t is not None else '%d writes' % len(stored))
    extra = sym('extra')
    new = [e for e in t.args[0] if extra in list(subterms(e.value)) or any(extra in list(subterms(b)) for b in e.binders)]
    kept = [e for e in new if e.gate != TRUE and any(a.op in ('in', 'truthy', 'isnone') and extra not in list(subterms(a.args[-1]))
                                                     for a in B.support_atoms(e.gate))]
    ok = True if new and all(e.gate == TRUE for e in new) else False if not new and not unresolved(t) or kept else None
    rep.add(name, ok, r.where, show(t)[:400])


# ---- A20
Q = P + 'opencorpora_dict.probability.'
CPD = P + 'dawg.ConditionalProbDistDAWG'
EST = P + 'analyzer.ProbabilityEstimator'

SPEC20 = '''
def table(morph, cpd, least):
    out = []
    for word, fd in cpd.items():
        if fd.freqdist().N() >= least:
            probs = dict((p.tag, cpd[word].prob(p.tag.grammemes)) for p in morph.parse(word))
            if len(set(probs.values())) > 1:
                for tag, prob in probs.items():
                    out.append(((word, tag), prob))
    return out

def observed(reader, morph, tag2grammemes):
    out = []
    for word, parses in reader.iter_parsed_words():
        if len(parses) == 1:
            gr = tag2grammemes(parses[0][1])
            if len(morph.tag(word)) > 1 and gr != set(['UNKN']):
                out.append((word.lower(), gr))
    return out

def key(word, tag):
    return "%s:%s" % (word, tag)

def parses(p, word, parses):
    if not parses:
        return parses
    probs = [p.prob(word, x[1]) for x in parses]
    if sum(probs) == 0:
        k = 1.0 / sum([x[3] for x in parses])
        return [(w, tag, nf, score * k, st) for (w, tag, nf, score, st) in parses]
    res = [(x[0], x[1], x[2], p.prob(word, x[1]), x[4]) for x in parses]
    res.sort(key=lambda x: x[3], reverse=True)
    return res

def tags(p, word, tags):
    if not tags:
        return tags
    return sorted(tags, key=lambda t: p.prob(word, t), reverse=True)
'''


def check_A20(rep):
    names(rep)
    scale(rep)
    observed(rep)
    estimates(rep)


def names(rep):
    """The file and the flag."""
    w = World(opaque=World.OPAQUE + [P + 'opencorpora_dict.preprocess.tag2grammemes', CPD + '.__init__', CPD + '.prob',
                                     Q + 'estimate_conditional_tag_probability'])
    rep.world = w
    v = w.v
    m = sym('morph')
    log = sym('logger')
    given = B.and_(B.not_(A('isnone', m)), B.not_(A('isnone', log)))
    with w.under(given):
        r = w.func(Q + 'add_conditional_tag_probability', sym('corpus'), OUT, sym('least'), log, m)
    us = uses(v, r)
    saved = [u for u in us if u.way == 'dawg' and u.event.payload[0].args[1] == 'save']
    with w.under(given):
        e = w.func(EST, PATH)
    loaded = [u for u in uses(v, e) if u.way == 'dawg' and u.event.payload[0].args[1] == 'load']
    name = 'the table of probabilities is read from the file it is written to'
    where = '%s and %s' % (r.where, w.where(v.cls(EST), '__init__'))
    if len(saved) == 1 and len(loaded) == 1 and saved[0].base is OUT and loaded[0].base is PATH:
        ok = saved[0].pattern == loaded[0].pattern
        if saved[0].holes or loaded[0].holes:
            ok = None
        rep.add(name, ok, where, 'written to %s, read from %s' % (saved[0].pattern, loaded[0].pattern))
        g = B.simplify(saved[0].event.gate, given)
        rep.add('the table of probabilities is always written', True if g == TRUE else None, r.where, show_gate(g)[:200])
    else:
        rep.add(name, None, where, 'saved %s, loaded %s' % ([show(u.path) for u in saved], [show(u.path) for u in loaded]))
    # the same class reads and writes
    cls = lambda u: v.obj(u.what if u.what.op == 'inst' else u.event.payload[0].args[0]).cls.qualname \
        if u.event.payload[0].args[0].op == 'inst' else None
    if len(saved) == 1 and len(loaded) == 1:
        a, b = cls(saved[0]), cls(loaded[0])
        rep.add('the table is read with the class it is written with', a == b if a and b else None, where, '%s %s' % (a, b))
    # metadata
    c = w.canon()
    dumps = [u for u in us if u.way == 'json' and 'w' in str(u.enc[0])]
    flags, doubtful = set(), set()
    rep_keys = set()
    for u in dumps:
        for g, t in content(v, c, u).alts:
            for x in subterms(t):
                if x.op == 'tuple' and len(x.args) == 2 and x.args[0].op == 'const' and isinstance(ops.cval(x.args[0]), str):
                    rep_keys.add(ops.cval(x.args[0]))
                    if x.args[1] is TRUE_T:
                        flags.add(ops.cval(x.args[0]))
                    elif is_condition(x.args[1]):
                        doubtful.add(ops.cval(x.args[0]))
    ok = [u for u in dumps if u.pattern == META and u.base is OUT]
    rep.add('the metadata file of the dictionary is updated', True if ok else (False if dumps and all(u.plain for u in dumps) and dumps[0].base is OUT else None),
            r.where, ', '.join(show(u.path) for u in dumps)[:200])
    w2 = analyzer_world()
    v2 = w2.v
    v2.new_epoch()
    v2.gate = TRUE
    v2.instantiate(v2.cls(MA).leaf, [], {'path': gv(const('/d')), 'lang': gv(const('ru'))}, None)
    evs = [x for x in v2.calls if x.payload[0].op == 'attr' and x.payload[0].args[1] == 'load' and
           x.payload[0].args[0].op == 'inst' and v2.obj(x.payload[0].args[0]).cls.qualname == CPD]
    where2 = w2.where(v2.cls(MA), '__init__')
    name = 'the analyzer uses probabilities when the flag set by the writer says they are there'
    if not evs or not flags:
        asked = set(ops.cval(x) for a in B.support_atoms(w2.canon().gate(evs[0].gate)) for x in subterms(a)
                    if x.op == 'const' and isinstance(ops.cval(x), str)) if evs else set()
        rep.add(name, False if asked & doubtful else None, where2,
                'flags written: %s; not always set: %s' % (sorted(flags), sorted(doubtful & asked)))
    else:
        g = w2.canon().gate(evs[0].gate)
        keys = set()
        for a in B.support_atoms(g):
            for x in subterms(a):
                if x.op == 'idx' and x.args[1].op == 'const' and isinstance(ops.cval(x.args[1]), str):
                    keys.add(ops.cval(x.args[1]))
                if x.op == 'mcall' and x.args[1] == 'get' and x.args[2] and x.args[2][0].op == 'const':
                    keys.add(ops.cval(x.args[2][0]))
                if x.op == 'in' and x.args[0].op == 'const':
                    keys.add(ops.cval(x.args[0]))
        ok = bool(keys & flags)
        if not ok and not keys:
            ok = None
        if ok:
            # with the flag set the estimator is used
            def on(a):
                return TRUE if any(const(k) in list(subterms(a)) for k in keys & flags) and a.op in ('in', 'truthy') else None
            c2 = w2.canon()
            c2.assume.append(on)
            h = c2.gate(evs[0].gate)
            c3 = w2.canon()
            c3.assume.append(lambda a: FALSE if any(const(k) in list(subterms(a)) for k in keys & flags) and
                             a.op in ('in', 'truthy') else None)
            ok = False if h == FALSE or c3.gate(evs[0].gate) != FALSE and not keys - flags else \
                (None if c3.gate(evs[0].gate) != FALSE else True)
        rep.add(name, ok, where2, 'used when %s; set are %s' % (show_gate(g)[:300], sorted(flags)))


def as_text(key):
    """The parts of a text, whether they were converted to text by a format or in their own right."""
    m = {x: x.args[1][0] for x in subterms(key) if x.op == 'call' and x.args[0] is ext('builtins.str') and len(x.args[1]) == 1
         and not x.args[2]}
    m.update({x: x.args[0] for x in subterms(key) if x.op == 'str' and len(x.args) == 1 and isinstance(x.args[0], T)})
    return ops.subst(key, m) if m else key


def is_condition(t):
    """A value that is true in some cases only."""
    if t.op == 'const':
        return ops.cval(t) is False or ops.cval(t) is None
    try:
        g = ops.truth_leaf(t)
    except Exception:
        return False
    return t.op in ('bool', 'cmp', 'not', 'gate') or bool(g != TRUE and all(a.op == 'cmp' for a in B.support_atoms(g)) and
                                                         B.support_atoms(g))


CHANGES = ('builtins.min', 'builtins.max', 'builtins.abs', 'builtins.round', 'math.sqrt', 'math.log')


def scale(rep):
    """Key and number of an entry."""
    w = World()
    v = w.v
    k = v.cls(CPD)
    data = sym('data')
    with w.under(B.and_(B.not_(A('isnone', data)), B.not_(A('noimport', 'dawg')))):
        v.new_epoch()
        v.gate = w.base_gate
        inst = v.instantiate(k.leaf, [gv(data)], {}, None).single()
    where = w.where(k, '__init__')
    stored = super_args(v)
    word, tag = sym('word'), sym('tag')
    d = sym('table')
    v.types[d] = k
    r = w.call(d, 'prob', word, tag)
    c = w.canon()
    t = c.gv(r.value).single()
    # reading: number under the key divided by the scale
    read_key = read_scale = None
    if t is not None:
        for x in subterms(t):
            if x.op == 'mcall' and x.args[1] == 'get' and x.args[0] is d and x.args[2]:
                read_key = x.args[2][0]
            if x.op == 'idx' and x.args[0] is d:
                read_key = x.args[1]
        if t.op == 'bin' and t.args[0] == '/' and ops.isnum(t.args[2]):
            read_scale = ops.cval(t.args[2])
    floor = t is not None and t.op == 'bin' and t.args[0] == '//' and ops.isnum(t.args[2]) and read_key is not None
    rep.add('probabilities are read as a number divided by the scale', True if read_key is not None and read_scale else
            False if floor else None,
            r.where, pretty(t, 300) if t is not None else str(r.value))
    if read_scale and read_key is not None:
        n = t.args[1]
        ok = n.op == 'mcall' and n.args[1] == 'get' and n.args[0] is d and n.args[2][1:] == (const(0),) or None
        if not ok and (n.op in ('add', 'sub', 'mul', 'bin', 'min', 'max') or n.op == 'call' and n.args[0].op == 'ext' and
                       n.args[0].args[0] in CHANGES):
            ok = False
        rep.add('the probability is the number stored', ok, r.where, pretty(t, 300))
    if stored is None:
        rep.add('probabilities are stored under a key for word and tag', None, where, 'not recognised')
        return
    s = stored
    s = c.term(s)
    name = 'the key of an entry is the key it is looked up by'
    if s.op == 'seq' and len(s.args[1]) == 1 and s.args[1][0].value.op == 'tuple' and len(s.args[1][0].value.args) == 2:
        e = s.args[1][0]
        key, num = e.value.args
        rep.add('every probability is stored', True if e.gate == TRUE and len(e.binders) == 1 else
                (False if e.gate == FALSE else None), where, show_gate(e.gate)[:200])
        el = mk('celem', 0)
        wt = [(idx(idx(el, const(0)), const(0)), idx(idx(el, const(0)), const(1)), idx(el, const(1)))]
        cw, ct, cp = wt[0]
        if read_key is not None:
            m = {cw: word, ct: tag}
            rep.equal(name, where, gv(as_text(ops.subst(key, m))), gv(as_text(read_key)))
        name = 'a probability is stored with the scale it is read with'
        n = num
        if n.op == 'call' and n.args[0] is ext('builtins.int') and len(n.args[1]) == 1:
            n = n.args[1][0]
        elif n.op == 'call' and n.args[0] is ext('builtins.round'):
            n = n.args[1][0]
        k0 = None
        if n.op in ('mul', 'bin') and cp in n.args:
            ns = [ops.cval(x) for x in n.args if isinstance(x, T) and ops.isnum(x)]
            if len(ns) == 1 and (n.op == 'mul' or n.args[0] == '*'):
                k0 = ns[0]
        ok = None if k0 is None or read_scale is None else k0 == read_scale
        if ok is None and read_scale:
            # what is stored for sample probabilities
            for p in (1.0, 0.5, 0.123456, 0.654321, 1 / 3.0, 0.000321):
                x = number(num, {cp: p})
                if x is None:
                    break
                if abs(x - p * read_scale) > 1.5:
                    ok = False
                    break
        rep.add(name, ok, where,
                'stored %s, read %s' % (pretty(num, 200), pretty(t, 200)))
    else:
        rep.add(name, None, where, pretty(s, 300))


NUMBERS = {'builtins.int': int, 'builtins.round': round, 'builtins.float': float, 'builtins.min': min, 'builtins.max': max,
           'builtins.abs': abs, 'math.floor': lambda x: x // 1, 'math.ceil': lambda x: -(-x // 1)}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
         '//': lambda a, b: a // b, '%': lambda a, b: a % b}


def number(t, env):
    """The number an arithmetical expression stands for; None if it is something else."""
    if t in env:
        return env[t]
    if ops.isnum(t):
        return ops.cval(t)
    if t.op in ('mul', 'add', 'sub'):
        f, args = {'mul': '*', 'add': '+', 'sub': '-'}[t.op], t.args
    elif t.op == 'bin':
        f, args = t.args[0], t.args[1:]
    elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in NUMBERS and not t.args[2]:
        f, args = NUMBERS[t.args[0].args[0]], t.args[1]
    elif t.op in ('min', 'max') and t.args and isinstance(t.args[0], tuple):
        f, args = {'min': min, 'max': max}[t.op], t.args[0]
    else:
        return None
    xs = [number(x, env) if isinstance(x, T) else None for x in args]
    if None in xs or f in ARITH and len(xs) != 2:
        return None
    try:
        return (ARITH[f] if f in ARITH else f)(*xs)
    except Exception:
        return None


def super_args(v):
    """Argument of the constructor of the library class."""
    for e in v.calls:
        f = e.payload[0]
        if f.op == 'superattr' and f.args[1] == '__init__' and e.payload[1]:
            t = e.payload[1][-1]
            t = v.snap_gv(t).single() if isinstance(t, GV) else t
            if t is not None:
                return t
    return None


def observed(rep):
    """What is counted in the corpus and what is stored for a word."""
    pre = P + 'opencorpora_dict.preprocess.tag2grammemes'
    w = World(opaque=World.OPAQUE + [pre, CPD + '.__init__', CPD + '.prob'])
    v = w.v
    m, cpd, least, log = sym('morph'), sym('cpd'), sym('least'), sym('logger')
    where = Q + 'build_cpd_dawg'
    if has_func(v, where):
        r = w.func(where, m, cpd, least)
        got = [e.payload[1][-1] for e in r.calls if e.payload[0].op == 'attr' and e.payload[0].args[1] == '__init__' and e.payload[1]]
        s = w.run_spec(SPEC20, 'table', m, cpd, least)
        c = w.canon()
        if len(got) == 1:
            rep.equal('the table holds P(t|w) for every tag of a frequent word', r.where, c.gv(v.snap_gv(got[0])), c.gv(s.value))
        else:
            rep.add('the table holds P(t|w) for every tag of a frequent word', None, r.where, '%d tables' % len(got))
    where = Q + 'estimate_conditional_tag_probability'
    if has_func(v, where):
        with w.under(B.and_(A('noimport', 'tqdm'), B.not_(A('isnone', log)))):
            r = w.func(where, m, sym('corpus'), log)
        def last(f):
            return f.args[-1].split('.')[-1] if f.op in ('ext', 'global') else None
        got = [e for e in r.calls if last(e.payload[0]) == 'ConditionalFreqDist']
        readers = [e.payload[3].single() for e in r.calls if last(e.payload[0]) == 'CorpusReader']
        name = 'words of the corpus are counted in lower case'
        if len(got) == 1 and len(readers) == 1:
            s = w.run_spec(SPEC20, 'observed', readers[0], m, v.lookup(pre))
            c = w.canon()
            c.assume.append(lambda a: TRUE if a.op == 'noimport' else None)
            x = c.gv(v.snap_gv(got[0].payload[1][0]))
            rep.equal(name, r.where, x, c.gv(s.value))
        else:
            rep.add(name, None, r.where, '%d counts of %d readers' % (len(got), len(readers)))


def not_negative(a):
    """Comparisons of probabilities, and of sums of them, with 0."""
    if a.op != 'cmp' or a.args[0] not in ('==', '<', '<=') or const(0) not in a.args[1:] and const(0.0) not in a.args[1:]:
        return None
    op, x, y = a.args
    zero_first = ops.isnum(x)
    t = y if zero_first else x
    if t.op == 'mcall' and t.args[1] == 'prob':
        some = ops.truth_leaf(t)
    elif t.op == 'sum' and len(t.args) == 1 and isinstance(t.args[0], Emission) and t.args[0].value.op == 'mcall' and \
            t.args[0].value.args[1] == 'prob':
        e = t.args[0]
        some = ops.exists(e.binders, B.and_(e.gate, ops.truth_leaf(e.value)))
    else:
        return None
    if op == '==':
        return B.not_(some)
    if zero_first:
        return some if op == '<' else TRUE
    return B.not_(some) if op == '<=' else FALSE


def estimates(rep):
    """What the estimator does to results."""
    w = World(opaque=World.OPAQUE + [CPD + '.__init__', CPD + '.prob'])
    v = w.v
    with w.under(TRUE):
        e = w.func(EST, PATH).value.single()
    if e is None or e.op != 'inst':
        rep.add('the estimator can be created', None, EST, str(e))
        return
    word, low = sym('word'), sym('word_lower')
    for meth, spec, what in (('apply_to_parses', 'parses', sym('parses')), ('apply_to_tags', 'tags', sym('tags'))):
        r = w.call(e, meth, word, low, what)
        tables = [x.payload[0].args[0] for x in r.calls if x.payload[0].op == 'attr' and x.payload[0].args[1] == 'prob']
        table = tables[0] if tables and all(t is tables[0] for t in tables) else None
        name = 'scores are the stored probabilities in descending order, or are scaled to sum to one (%s)' % meth
        if table is None:
            rep.add(name, None, r.where, 'no table of probabilities')
            continue
        s = w.run_spec(SPEC20, spec, table, low, what)
        c = w.canon()
        c.assume_env.append(lambda a, env, c=c: None if not_negative(a) is None else c.gate(not_negative(a), env))
        a, b = c.gv(r.value.under(r.gate)), c.gv(s.value.under(s.gate))
        rep.equal(name, r.where, a, b)
    # what the analyzer hands to it
    w = analyzer_world()
    v = w.v
    est = sym('estimator')
    for meth, app in (('parse', 'apply_to_parses'), ('tag', 'apply_to_tags')):
        m = make_analyzer(w, 'ru', probability_estimator_cls=est)
        r = w.call(m, meth, WORD)
        evs = [x for x in r.calls if x.payload[0].op == 'attr' and x.payload[0].args[1] == app]
        name = 'probabilities are looked up for the lower-cased word (%s)' % meth
        c = w.canon()
        if not evs:
            rep.add(name, None, r.where, 'the estimator is not called')
            continue
        for x in evs:
            a = x.payload[1]
            t = c.gv(a[1]).single() if len(a) > 1 else None
            rep.add(name, t is c.term(WL) if t is not None and not foreign(t) else None, r.where, show(t) if t is not None else '')
            t = c.gv(a[0]).single() if a else None
