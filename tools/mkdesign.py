"""Fills the generated parts of DESIGN.md: fixes, planted bugs, mutation results (tools/results.json)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    f = json.load(open(V + '/known_findings.json'))['findings']
    return '\n'.join('* `{0}` ({1}): {2}'.format(x['commit'], x['property'], x['what']) for x in f if x['status'] == 'fixed')


def bugs(res):
    out = ['| planted bug | property | needs | first | caught by |', '|---|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        b = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        r = res['bugs'].get(b, {})
        out.append('| {0} | {1} | {2} | {3} | {4} |'.format(b, m['property'], m['needs'].replace('|', '/'), r.get('first', 'caught'), r.get('by', m['property'])))
    return '\n'.join(out)


res = json.load(open(V + '/tools/results.json'))
p = V + '/DESIGN.md'
s = open(p).read()
for k, v in (('FIXES', fixes()), ('BUGS', bugs(res)), ('MUTATION', res['mutation'])):
    s = re.sub('<!--{0}-->.*<!--/{0}-->'.format(k), lambda m: '<!--{0}-->\n{1}\n<!--/{0}-->'.format(k, v), s, flags=re.S)
open(p, 'w').write(s)
