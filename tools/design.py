#!/usr/bin/env python3
"""appends the per-property part to DESIGN.md (between the markers)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'harness'), os.path.join(V, 'tools')]
from props import PROPS
from mkcfg import T
SPEC = {'kf': 'KF/T_KF', 'lf': 'Filters/T_LF', 'ukf': 'Sigma/T_UKF', 'banks': 'Banks/T_BK', 'gh': 'GH/T_GH', 'discrete': 'Discrete/T_DB',
        'stats': 'Gauss/T_ST', 'common': 'Common/T_CM', 'cross': 'KF/T_XF', 'own': 'Own/T_OWN', 'world': 'World/T_IN'}
out = ['<!-- generated by tools/design.py -->', '## Per property', '',
       '`conformance` names the driver functions and the specification their traces are checked against; `laws` the invariants that',
       'TLC checks on the specification, with the depth of the exploration (quick/thorough).', '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    note = [c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks'] if c['property'] == i][0]['level_note'].split('. Assurance')[0]
    out.append('**%s %s.** %s.' % (i, p['title'], note[0].upper() + note[1:]))
    out.append('conformance: ' + ', '.join('`%s.%s` (%s)' % (m, f, SPEC[m]) for m, f in PROPS[i]['drive']) + '.')
    laws = ['`%s`: %s (depth %d/%d)' % (m, ', '.join((inv + ' ' + pr).split()), q, t) for m, pp, q, t, inv, pr in T if pp == i]
    if laws:
        out.append('laws: ' + '; '.join(laws) + '.')
    out.append('quantified over: ' + p['quantifier']['text'] + '. Beyond the tests: ' + p['why_tests_cant'] + '\n')
out.append('<!-- end -->')
f = os.path.join(V, 'DESIGN.md')
t = open(f).read()
g = '\n'.join(out)
if out[0] in t:
    a, b = t.index(out[0]), t.index(out[-1]) + len(out[-1])
    t = t[:a] + g + t[b:]
else:
    t += g + '\n'
open(f, 'w').write(t)
