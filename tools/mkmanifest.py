#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule modules and the property list."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
 'C30': 'asymptotic cost is a quantity of executions; a static bound would need a cost model of the Python runtime '
        'and of user expressions, which is out of reach of a sound analysis here',
}
TECH = 'static analysis: abstract interpretation of the source (AST) with trace partitioning'
NOTE = ('All partitions of the listed abstract input families were analysed on the current source: symbolic texts, '
        'values of every kind, document shapes up to the depth of the rule. Trusted: the models of the Python '
        'standard library in kjsa/models.py and kjsa/stubs. Partitions the engine cannot decide are reported in the '
        'evidence and never raise an alarm.')
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if os.path.exists('%s/kjsa/rules/%s.py' % (V, i.lower())) and i not in NA:
        m = importlib.import_module('kjsa.rules.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=getattr(m, 'TECH', TECH), level='other',
                           level_note=getattr(m, 'NOTE', NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no rule is built for it yet')))
json.dump(dict(version=1, setup_cmd='python3 -c "import ast, xml.sax"', checks=checks,
               not_applicable=na,
               notes='Pure Python 3 standard library; nothing to build. /repo is only read, never imported.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
