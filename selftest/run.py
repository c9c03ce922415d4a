#!/usr/bin/env python3
"""
Development aid (no registered check uses it): decide edited copies of the package.

    selftest/run.py [-p PROP] [-k text] [-j N]

'bug' variants must be reported for their property; 'same' variants (edits that keep the behaviour) must be reported
for no property.  The copies are made in a scratch directory and removed.
"""
import argparse
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def decide(job):
    """-> (variant number, {property: (refuted, unknown)} or error)"""
    n, var, props = job
    tmp = tempfile.mkdtemp(prefix='pmst')
    try:
        shutil.copytree('/repo/pymorphy2', tmp + '/pymorphy2', ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        for f, old, new in var['edits']:
            p = os.path.join(tmp, 'pymorphy2', f)
            s = open(p, encoding='utf8').read()
            if s.count(old) < 1:
                return n, 'text not found in %s: %r' % (f, old[:60])
            s = s.replace(old, new, 1) if not var.get('every') else s.replace(old, new)
            open(p, 'w', encoding='utf8').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return n, 'syntax error: %s' % e
        code = ('import sys; sys.path.insert(0, %r); sys.argv = ["x"]\n'
                'import check, json\n'
                'out = {}\n'
                'for p in %r:\n'
                '    rep, wall, crash, broken = check.run(p, "quick")\n'
                '    out[p] = ([(o.name, o.where, o.detail[:700]) for o in rep.obligations if o.status == "refuted"],\n'
                '              [(o.name, o.detail[:300]) for o in rep.obligations if o.status == "unknown"],\n'
                '              broken or crash)\n'
                'print(json.dumps(out))\n' % (ROOT, props))
        r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=1200,
                           env=dict(os.environ, PMLINT_REPO=tmp))
        if r.returncode:
            return n, 'crashed: ' + r.stderr[-500:]
        import json
        return n, json.loads(r.stdout.splitlines()[-1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-p', default=None)
    ap.add_argument('-k', default=None)
    ap.add_argument('-f', default=None, help='only the variants of this file')
    ap.add_argument('-s', action='store_true', help='check same-variants against their own property only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, ROOT)
    sys.path.insert(0, HERE)
    from rules import REGISTRY
    import glob
    import importlib
    from variants import VARIANTS
    for f in sorted(glob.glob(os.path.join(HERE, 'variants_*.py'))):
        n = len(VARIANTS)
        importlib.import_module(os.path.basename(f)[:-3])
        for var in VARIANTS[n:]:
            var['file'] = os.path.basename(f)[:-3]
    jobs = []
    for n, var in enumerate(VARIANTS):
        if a.p and var['prop'] not in a.p.split(',') or a.k and a.k not in var['name'] or \
                a.f and a.f != var.get('file', 'variants'):
            continue
        props = sorted(REGISTRY) if var['expect'] == 'same' and not a.s else [var['prop']]
        jobs.append((n, var, [p for p in props if p in REGISTRY]))
    bad = good = 0
    with multiprocessing.Pool(a.j) as pool:
        for n, out in pool.imap(decide, jobs):
            var = VARIANTS[n]
            head = '%s %s %s' % (var['prop'], var['expect'], var['name'])
            if not isinstance(out, dict):
                print('ERROR %s: %s' % (head, out))
                bad += 1
                continue
            hits = dict((p, x[0]) for p, x in out.items() if x[0])
            if var['expect'] == 'bug':
                if hits:
                    good += 1
                    if a.v:
                        print('ok    %s: %s' % (head, hits[var['prop']][0]))
                else:
                    bad += 1
                    o = out.get(var['prop'], ([], [], 'not registered'))
                    print('MISS  %s: undecided %s %s' % (head, o[1][:2], o[2]))
            else:
                und = dict((p, (x[1][:2], x[2])) for p, x in out.items() if x[1] or x[2])
                if hits:
                    bad += 1
                    print('ALARM %s: %s' % (head, hits))
                else:
                    good += 1
                    if und:
                        print('quiet %s: undecided %s' % (head, str(und)[:600] if not a.v else und))
                    elif a.v:
                        print('ok    %s' % head)
    print('%d as expected, %d not' % (good, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
