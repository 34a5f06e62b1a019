"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA  # noqa

TECH = 'symbolic execution of the real Python code, z3 decides every branch and the property on every path'
NOTE = ('Within the stated bounds every path of the real code is explored and z3 decides the property for all values on '
        'it; counterexamples and sampled path models are replayed on unpatched code. Trusts z3, the symbolic integer '
        'model of Python ints, and the stubs listed in the evidence; nothing is claimed outside the bounds.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'observe_at': p.get('obs', []), 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')

checks = []
na = {x['property'] for x in NA}
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({'property': p['id'], 'quick_cmd': f'./run.py {p["id"]} quick',
                   'thorough_cmd': f'./run.py {p["id"]} thorough', 'evidence_file': f'evidence/{p["id"]}.json',
                   'technique': TECH, 'level': 'model_checking', 'level_note': NOTE})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/'
                        'site-packages\'); import z3, numpy, pandas, sortedcontainers, deap"',
           'checks': checks, 'not_applicable': NA,
           'notes': 'One engine (vt/) executes the real code of /repo symbolically; checks/pNN.py hold the harnesses. '
                    'No hooks in /repo. Known findings: known_findings.jsonl.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')


# DESIGN.md
import ast  # noqa
import subprocess  # noqa
from how import HOW  # noqa


def consts(pid):
    out = {}
    for n in ast.parse(open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


txt = []
for p in PROPS:
    c = consts(p['id'])
    txt.append(f'### {p["id"]} {p["title"]}\n\n{p["statement"]}\n')
    txt.append(f'* Decided by: {HOW[p["id"]]}')
    txt.append(f'* Bounds, quick: {c["BOUNDS"]["quick"]}.')
    txt.append(f'* Bounds, thorough: {c["BOUNDS"]["thorough"]}.')
    if c.get('ASSUMPTIONS'):
        txt.append('* Assumed: ' + '; '.join(c['ASSUMPTIONS']) + '.')
    if c.get('OUTSIDE'):
        txt.append(f'* Outside: {c["OUTSIDE"]}.')
    txt.append(f'* Beyond tests: {p["why"]}.\n')
fixes = []
for line in open(os.path.join(HERE, 'known_findings.jsonl')):
    fixes.append('* ' + json.loads(line)['line'])
seeded = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    seeded.append(f'| {d} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} |')
tab = '| change | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeded)
t = open(os.path.join(HERE, 'tools', 'design.md')).read()
outside = open(os.path.join(HERE, 'tools', 'outside.md')).read()
for k, v in (('PROPERTIES', '\n'.join(txt)), ('FIXES', '\n'.join(fixes)), ('OUTSIDE', outside), ('SEEDED', tab)):
    t = t.replace(f'@{k}@', v.strip())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
