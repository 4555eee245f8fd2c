#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and store them under /verif/seeded.

usage: seed.py [--keep] SPECFILE [ID...]   (SPECFILE defines SEEDS, a list of dicts)
       seed.py --matrix [ID...]   apply each stored bug to /repo, run the checks, undo
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
SCR = '/tmp/w/scratch'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree('/repo', SCR, symlinks=True)
    sh('git checkout -q -- . ; find . -name __pycache__ -prune -exec rm -rf {} +', SCR)


def one(s):
    fresh()
    d = os.path.join(SEEDED, s['id'])
    tmp = '/tmp/w/seed_' + s['id']
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    with open(tmp + '/demo.py', 'w') as f:
        f.write(s['demo'].lstrip('\n'))
    with open(tmp + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# cwd is the repository; exit 0 when the property holds\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(tmp + '/meta.json', 'w') as f:
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1)
    r = sh('bash %s/demo.sh' % tmp, SCR)
    if r.returncode:
        return 'demo fails on the unchanged tree:\n' + r.stdout[-800:]
    for fn, old, new in s['edits']:
        p = os.path.join(SCR, fn)
        t = open(p, encoding='utf-8').read()
        if t.count(old) != 1:
            return 'edit not unique (%d) in %s: %r' % (t.count(old), fn, old)
        open(p, 'w', encoding='utf-8').write(t.replace(old, new))
    # lines that my own commits added do not count
    r = sh(PY + ' -m pytest -q -p no:cacheprovider kajiki/tests 2>&1 | tail -4', SCR)
    if '142 passed' not in r.stdout or 'failed' in r.stdout:
        return 'tests: ' + r.stdout[-600:]
    r = sh('bash %s/demo.sh' % tmp, SCR)
    if r.returncode == 0:
        return 'demo passes with the change'
    diff = sh('git diff', SCR).stdout
    base = sh('git log --format=%H --invert-grep --grep="^fix:" -1', SCR).stdout.strip()
    with open(tmp + '/patch.diff', 'w') as f:
        f.write(diff)
    bad = []
    blame_ok = False
    for fn in {e[0] for e in s['edits']}:
        orig = sh('git show %s:%s' % (base, fn), SCR).stdout.splitlines()
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---'):
                if l[1:] in orig:
                    blame_ok = True
                else:
                    bad.append(l)
    if not blame_ok:
        return 'changes only lines my own commits added: %s' % bad
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    return 'ok: ' + r.stdout.strip().splitlines()[-1][:150]


def matrix(ids):
    out = {}
    props = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    allp = '--all' in ids
    ids = [i for i in ids if i != '--all']
    for i in ids or sorted(os.listdir(SEEDED)):
        m = json.load(open('%s/%s/meta.json' % (SEEDED, i)))
        fresh()
        r = sh('git apply %s/%s/patch.diff' % (SEEDED, i), SCR)
        if r.returncode:
            print(i, 'does not apply')
            continue
        for p in (props if allp else [m['property']]):
            r = sh('python3 run.py %s --root %s' % (p, SCR), VERIF)
            out.setdefault(i, {})[p] = r.returncode
        print(i, m['property'], {p: rc for p, rc in out[i].items() if rc or p == m['property']}, flush=True)
    shutil.rmtree(SCR, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--matrix':
        matrix(sys.argv[2:])
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for s in ns['SEEDS']:
            if sys.argv[2:] and s['id'] not in sys.argv[2:]:
                continue
            print(s['id'], one(s), flush=True)
        shutil.rmtree(SCR, ignore_errors=True)
