"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def const(src, name):
    m = re.search(r'^%s = (\([^\0]*?^\)|\((?:[^()]|\([^()]*\))*\)|[^\n]*)' % name, src, re.M)
    return eval(m.group(1)) if m else None


checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(V, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    src = open(path).read()
    checks.append({
        'property': pid,
        'quick_cmd': '{0} run.py {1} --tier quick'.format(PY, pid),
        'thorough_cmd': '{0} run.py {1} --tier thorough'.format(PY, pid),
        'evidence_file': 'evidence/{0}.json'.format(pid),
        'technique': const(src, 'TECHNIQUE'),
        'level': 'exploration',
        'level_note': const(src, 'NOTE'),
    })
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': PY + ' run.py setup', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the checks use public extension points (agent factories, agent '
                        'subclasses, time functions). The Cython modules are rebuilt from /repo for every tree.'},
              f, indent=1)
    f.write('\n')
