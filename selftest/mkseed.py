#!/usr/bin/env python3
"""
Development aid: make planted bugs (/verif/seeded/<id>) from selftest/seeds/*.py and confirm them.

    selftest/mkseed.py [id ...]        build and confirm; without ids, everything not made yet
    selftest/mkseed.py --check [id ..] run the registered check of its property on a patched copy

Each bug is applied to a scratch copy that is bind-mounted over /repo in a private mount namespace; /repo itself is
never changed.
"""
import glob
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.path.join(ROOT, 'seeded')
SEEDS = {}

HEAD = '''# -*- coding: utf-8 -*-
import os, sys, shutil, tempfile
sys.path.insert(0, '/repo')
import warnings
warnings.simplefilter('ignore')


def need(cond, *info):
    if not cond:
        print('FAILED:', *info)
        sys.stdout.flush()
        os._exit(1)

'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 LANG=C.UTF-8 LC_ALL=C.UTF-8%s
unset PYTHONPATH PYMORPHY2_DICT_PATH
cd /repo || exit 3
exec /opt/%s/bin/python "$(dirname "$0")/demo.py"
'''


def seed(id, prop, edits, needs, breaks, demo, env='venv', extra=''):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, env=env, extra=extra)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        exec(compile(open(f, encoding='utf8').read(), f, 'exec'), {'seed': seed})


def write(s):
    d = os.path.join(OUT, s['id'])
    if not os.path.isdir(d):
        os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='pmseed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', tmp + '/r'])
        for f, old, new in s['edits']:
            p = os.path.join(tmp, 'r/pymorphy2', f)
            t = open(p, encoding='utf8').read()
            if t.count(old) != 1:
                return '%s: text found %d times in %s: %r' % (s['id'], t.count(old), f, old[:80])
            open(p, 'w', encoding='utf8').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=tmp + '/r')
        with open(d + '/patch.diff', 'wb') as f:
            f.write(diff)
    finally:
        shutil.rmtree(tmp)
    with open(d + '/demo.py', 'w', encoding='utf8') as f:
        f.write(HEAD + s['demo'].strip() + '\nprint("ok")\n')
    with open(d + '/demo.sh', 'w') as f:
        f.write(SH % (s['extra'] and ' ' + s['extra'], s['env']))
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w', encoding='utf8') as f:
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1, ensure_ascii=False)
        f.write('\n')


def scratch(patch, command):
    tmp = tempfile.mkdtemp(prefix='pmseed')
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/r'])
        if patch:
            subprocess.check_call(['git', 'apply', patch], cwd=tmp + '/r')
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/r /repo && cd /repo && %s' % (tmp, command)],
                              capture_output=True, text=True, timeout=900)
    finally:
        shutil.rmtree(tmp)


def confirm(i):
    d = os.path.join(OUT, i)
    r = scratch(None, 'bash %s/demo.sh' % d)
    if r.returncode:
        return i, 'BAD demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:]
    r = scratch(d + '/patch.diff', 'bash %s/demo.sh' % d)
    if r.returncode == 0:
        return i, 'BAD demo does not fail with the patch'
    why = (r.stdout + r.stderr).strip().splitlines()[-1:]
    out = tempfile.mktemp()
    r = scratch(d + '/patch.diff', 'bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh %s >/dev/null 2>&1; cat %s' % (out, out))
    try:
        res = json.loads(r.stdout)
    except ValueError:
        return i, 'BAD build/test output ' + r.stdout[-300:] + r.stderr[-300:]
    finally:
        if os.path.exists(out):
            os.unlink(out)
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base['stable'] if isinstance(base, dict) else base
    failed = sorted(set(base) - set(res['passed']))
    if failed:
        return i, 'BAD tests fail: %s' % failed[:5]
    return i, 'good (%s)' % (why[0][:150] if why else '')


def caught(i):
    """Run the registered check of the property on a patched copy of the package."""
    d = os.path.join(OUT, i)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='pmseed')
    try:
        shutil.copytree('/repo/pymorphy2', tmp + '/pymorphy2', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + tmp, d + '/patch.diff'], cwd='/')
        code = ('import sys; sys.path.insert(0, %r); sys.argv = ["x"]\nimport check\n'
                'if %r not in check.REGISTRY: print("NOT REGISTERED"); sys.exit()\n'
                'rep, wall, crash, broken = check.run(%r, "quick")\n'
                'bad = [o for o in rep.obligations if o.status == "refuted"]\n'
                'unk = [o for o in rep.obligations if o.status == "unknown"]\n'
                'if bad: print("CAUGHT", bad[0].name, "|", bad[0].where, "|", bad[0].detail[:200])\n'
                'else: print("MISSED", crash, broken, [(o.name, o.detail[:300]) for o in unk][:3])\n' % (ROOT, prop, prop))
        r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, PMLINT_REPO=tmp))
        return i, prop, (r.stdout.strip().replace('\n', ' ') or r.stderr[-400:])
    finally:
        shutil.rmtree(tmp)


def main(argv):
    load()
    if argv[:1] == ['--check']:
        ids = argv[1:] or sorted(os.listdir(OUT))
        ids = [i for j in ids for i in ([j] if os.path.isdir(os.path.join(OUT, j)) else
                                        [k for k in sorted(os.listdir(OUT)) if k.startswith(j)])]
        n = 0
        with multiprocessing.Pool(8) as pool:
            for i, prop, out in pool.imap(caught, ids):
                n += out.startswith('CAUGHT')
                print(i, out)
        print('%d of %d caught' % (n, len(ids)))
        return 0
    ids = argv or [i for i in sorted(SEEDS) if not os.path.exists(os.path.join(OUT, i, 'patch.diff'))]
    ok = []
    for i in ids:
        e = write(SEEDS[i])
        if e:
            print(e)
        else:
            ok.append(i)
    with multiprocessing.Pool(6) as pool:
        for i, out in pool.imap_unordered(confirm, ok):
            print(i, out)
            if out.startswith('BAD'):
                os.rename(os.path.join(OUT, i, 'patch.diff'), '/tmp/w/rejected-%s.diff' % i)
                shutil.rmtree(os.path.join(OUT, i))
            sys.stdout.flush()
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
