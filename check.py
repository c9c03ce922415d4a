#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough]      decide one property of /repo's current source
check.py --all                                 all of them (development)
check.py --confirm                             rewrite expected.json from the current tree (development)

Exit 0: no violation. Exit 1: VIOLATION line printed. Exit 2: the analysis itself is broken (a public name the
property is stated about no longer exists, or no rule instance was found).
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
sys.dont_write_bytecode = True

from pmlint.model import AnalysisError
from pmlint.world import Report, Obligation, PROVED, REFUTED, UNKNOWN
from rules import REGISTRY, TECHNIQUE

BUDGET = 700


class OutOfTime(Exception):
    pass


def _alarm(*a):
    raise OutOfTime()


def known():
    """Confirmed defects of the repository that are recorded rather than repaired: (property, rule, construct, text)."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, text = line[len('finding:'):].split(' :: ', 1)
            parts = [x.strip() for x in head.split(' | ')]
            out.append((parts[0].replace('property=', '').strip(), parts[1], parts[2], text))
    return out


def run(prop, tier):
    mod, title = REGISTRY[prop][:2]
    rep = Report(prop)
    rep.tier = tier
    t0 = time.time()
    crash = None
    broken = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(BUDGET)
    try:
        m = importlib.import_module('rules.' + mod)
        fns = [getattr(m, n) for n in sorted(vars(m)) if n == 'check_' + prop or n.startswith('check_%s_' % prop)]
        for fn in fns:
            try:
                fn(rep)
            except (OutOfTime, AnalysisError):
                raise
            except Exception as e:
                crash = '%s: %s' % (type(e).__name__, e)
                tb = traceback.extract_tb(e.__traceback__)
                rep.obligations.append(Obligation('%s (analysis stopped)' % fn.__name__, UNKNOWN, prop,
                                                  '%s at %s:%s' % (crash, tb[-1].filename, tb[-1].lineno)))
                if os.environ.get('PMLINT_DEBUG'):
                    traceback.print_exc()
    except AnalysisError as e:
        broken = str(e)
        if os.environ.get('PMLINT_DEBUG'):
            traceback.print_exc()
    except OutOfTime:
        crash = 'time budget exhausted'
    finally:
        signal.alarm(0)
    return rep, time.time() - t0, crash, broken


def main(argv):
    if argv[:1] == ['--all']:
        bad = 0
        for p in sorted(REGISTRY):
            bad |= one(p, 'quick', brief=True)
        return bad
    if argv[:1] == ['--confirm']:
        exp = {}
        for p in sorted(REGISTRY):
            rep = run(p, 'quick')[0]
            exp[p] = len(rep.obligations)
        with open(os.path.join(HERE, 'expected.json'), 'w') as f:
            json.dump(exp, f, indent=1, sort_keys=True)
            f.write('\n')
        return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return one(prop, tier)


def one(prop, tier, brief=False):
    mod, rule = REGISTRY[prop][:2]
    rep, wall, crash, broken = run(prop, tier)
    obs = rep.obligations
    refuted = [o for o in obs if o.status == REFUTED]
    unknown = [o for o in obs if o.status == UNKNOWN]
    proved = [o for o in obs if o.status == PROVED]
    kf = []
    real = []
    for o in refuted:
        for p, r, construct, text in known():
            if p == prop and r == o.name and construct in o.where + ' ' + o.detail:
                kf.append((o, text))
                break
        else:
            real.append(o)
    exp = 0
    ep = os.path.join(HERE, 'expected.json')
    if os.path.exists(ep):
        exp = json.load(open(ep)).get(prop, 0)
    print('%s %s: %d obligations, %d proved, %d undecided, %d refuted (%d known) in %.2f s' % (
        prop, rule, len(obs), len(proved), len(unknown), len(refuted), len(kf), wall))
    if not brief:
        for o in proved:
            print('  proved    %s  [%s]' % (o.name, o.where))
    for o in unknown:
        print('  UNDECIDED %s  [%s] %s' % (o.name, o.where, o.detail[:600]))
    for o, text in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    evdir = os.path.join(HERE, 'evidence')
    if not os.path.isdir(evdir):
        os.makedirs(evdir)
    replay = os.path.join(evdir, '%s.violation.json' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    world = getattr(rep, 'world', None)
    program = world.v.program if world is not None else getattr(rep, 'program', None)
    analysed = program.stats() if program is not None else {}
    if world is not None:
        analysed['functions_evaluated'] = len(world.v.stats['functions'])
    analysed.update(rep.analysed)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
        'coverage': {
            'explanation': TECHNIQUE + ' Rule: ' + rule,
            'rule': rule,
            'obligations': len(obs), 'discharged': len(proved), 'undecided': len(unknown), 'refuted': len(refuted),
            'analysed': analysed,
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (prop, tier),
            'samples': [{'obligation': o.name, 'where': o.where, 'status': o.status} for o in obs],
        },
        'assumptions': list(rep.notes) + REGISTRY[prop][2],
        'wall_s': round(wall, 3), 'violations': len(real),
    }
    with open(os.path.join(evdir, '%s.json' % prop), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if real:
        with open(replay, 'w', encoding='utf8') as f:
            json.dump({'property': prop, 'rule': rule, 'command': ev['coverage']['checker_cmd'],
                       'violations': [{'rule': o.name, 'where': o.where, 'detail': o.detail} for o in real]},
                      f, indent=1, ensure_ascii=False)
        for o in real:
            print('  REFUTED   %s  [%s] %s' % (o.name, o.where, o.detail[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if broken is not None:
        print('ANALYSIS-BROKEN %s: %s' % (prop, broken))
        return 2
    if crash is not None:
        print('UNDECIDED %s: the analysis could not interpret the code (%s)' % (prop, crash))
        return 0
    if not obs:
        print('ANALYSIS-BROKEN %s: the rule found nothing to decide' % prop)
        return 2
    if len(obs) < exp:
        print('UNDECIDED %s: %d rule instances were found, %d were confirmed on the reference tree' % (prop, len(obs), exp))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
