"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the output of mkseed.py --check (stdin)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    state = {}
    for l in sys.stdin:
        m = re.match(r'(\S+)\s+(CAUGHT|MISSED)\b', l)
        if m:
            state[m.group(1)] = m.group(2)
    rows = ['<!-- seeds -->', '| planted bug | what it breaks | needs | caught by its check |', '|---|---|---|---|']
    n = 0
    for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        d = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
        ok = state.get(s)
        n += ok == 'CAUGHT'
        rows.append('| %s | %s | %s | %s |' % (s, d['what_it_breaks'], d['needs'],
                                               {'CAUGHT': 'yes', 'MISSED': 'no (undecided)'}.get(ok, '?')))
    rows.append('')
    rows.append('%d of %d caught.' % (n, len(rows) - 4))
    rows.append('<!-- /seeds -->')
    p = os.path.join(ROOT, 'DESIGN.md')
    t = open(p).read()
    new = '\n'.join(rows)
    if '@SEEDS@' in t:
        t = t.replace('@SEEDS@', new)
    else:
        t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: new, t, flags=re.S)
    open(p, 'w').write(t)


if __name__ == '__main__':
    main()
