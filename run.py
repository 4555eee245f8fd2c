#!/usr/bin/env python3
"""Decide one property of /repo by static analysis (see DESIGN.md).

usage: run.py PROPERTY [--tier quick|thorough] [--case KEY] [--root DIR] [-v]
exit: 0 the property holds on everything analysed; 1 violation; 2 no answer.
"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))

ASSUME = [
    'the models of the Python standard library in kjsa/models.py and kjsa/stubs '
    '(expat delivers the SAX events of the abstract document; exec/compile follow '
    'the Python grammar of the analysing interpreter)',
    'user expressions are pure and terminate',
]


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)).get('known', []) if os.path.exists(p) else []


def fkey(f):
    return '%s|%s|%s' % (f['case'], f['what'].split(' at 0x')[0],
                         ','.join('%s=%s' % kv for kv in sorted(f['inputs'].items())))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('-j', '--jobs', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--witness', action='store_true',
                    help='analyse with constant texts only (validation of the rules)')
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    ap.add_argument('--fast', type=int, default=0, help='stop early (mutation runs)')
    a = ap.parse_args()
    t0 = time.time()
    from kjsa.check import Checker
    from kjsa.scen import AnalysisError
    from kjsa.interp import PyExc, Unsupported
    mod = importlib.import_module('kjsa.rules.' + a.property.lower())
    scale = importlib.import_module('kjsa.rules.scale')
    try:
        c = Checker(a.property, a.root, a.tier, a.case, a.witness)
        c.variants = getattr(mod, 'VARIANTS', ())
        c.fast = a.fast
        jobs = a.jobs or min(8, os.cpu_count() or 1)

        def check(c):
            mod.check(c)
            scale.check(c, a.property, mod.RULE)
        if a.case or jobs == 1:
            check(c)
        else:
            c.parallel(check, jobs)
    except (AnalysisError, Unsupported, PyExc) as e:
        print('ANALYSIS-BROKEN property=%s %s: %s' % (a.property, type(e).__name__, e))
        return 2
    ip = c.lab.ip
    known = [k for k in load_known() if k['property'] == a.property]
    new, old = [], {}
    for f in c.findings:
        for k in known:
            if k['case'] == f['case'] and k['what'] in f['what'] and \
                    all(f['inputs'].get(n) in v for n, v in k.get('inputs', {}).items()) and \
                    k.get('got', '') in (f['got'] or ''):
                old.setdefault(k['id'], (k, []))[1].append(f)
                break
        else:
            new.append(f)
    evd = a.evidence
    os.makedirs(evd, exist_ok=True)
    fns = sorted(q for q, m in ip.analysed.items() if not m.startswith('<'))
    files = sorted({m for m in ip.analysed.values() if not m.startswith('<')})
    cov = dict(
        explanation='%s Deciding method: abstract interpretation of the source of '
        '/repo (Python ast, no execution) with trace partitioning over abstract '
        'inputs, and structural rules over the syntax tree where stated; every '
        'partition is one obligation: its abstract result must equal the one the '
        'rule requires.' % (mod.__doc__ or '').strip(),
        rules=sorted({x['rule'] for x in c.cases if x['rule']} ),
        cases=len(c.cases), partitions=c.partitions,
        obligations=c.obligations, discharged=c.discharged,
        undecided_partitions=sum(c.undecided.values()),
        undecided_reasons=dict(sorted(c.undecided.items(), key=lambda t: -t[1])[:10]),
        functions_analysed=len(fns), modules=files,
        functions=fns[:200], vacuous_cases=[x['case'] for x in c.cases if x.get('vacuous')],
        known_findings=[k for k in old], samples=c.samples)
    with open(os.path.join(evd, a.property + '.json'), 'w') as fh:
        json.dump(dict(property=a.property, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick',
                       seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                       coverage=cov, assumptions=ASSUME + getattr(mod, 'ASSUME', []),
                       wall_s=round(time.time() - t0, 2), violations=len(new)), fh, indent=1)
    print('%s: %d cases, %d partitions, %d/%d obligations discharged, %d undecided, '
          '%d functions of %d files analysed, %.1fs' % (
              a.property, len(c.cases), c.partitions, c.discharged, c.obligations,
              sum(c.undecided.values()), len(fns), len(files), time.time() - t0))
    if a.v:
        for x in c.cases:
            print('  %-40s parts=%d ok=%d bad=%d und=%d' % (
                x['case'], x['partitions'], x['decided'], x['violated'], x['undecided']))
    for reason, n in list(c.undecided.items())[:8 if not a.v else 40]:
        print('  undecided (%d): %s' % (n, reason[:300]))
    for k, fs in old.values():
        print('KNOWN-FINDING: property=%s %s' % (a.property, k['title']))
    if new:
        rp = os.path.join(evd, a.property + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump(dict(property=a.property,
                           replay='python3 run.py %s --case %s' % (a.property, new[0]['case']),
                           findings=new[:50]), fh, indent=1)
        seen = set()
        for f in new:
            k = fkey(f)
            if k in seen or len(seen) >= (10 if not a.v else 100):
                continue
            seen.add(k)
            print('  [%s] %s' % (f['case'], f['what'][:300]))
            if f['inputs']:
                print('     inputs:   %s' % f['inputs'])
            if f['got'] is not None or f['required'] is not None:
                print('     got:      %s' % f['got'])
                print('     required: %s' % f['required'])
            if f['where']:
                print('     at:       %s' % f['where'])
            for p in f['path'][-4:]:
                print('     path:     %s' % p[:200])
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    minimum = getattr(mod, 'MIN', {}).get(a.tier, getattr(mod, 'MIN', {}).get('quick', 1))
    if not a.case and c.discharged < minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations decided, at least %d '
              'were confirmed' % (a.property, c.discharged, minimum))
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except BrokenPipeError:
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)
