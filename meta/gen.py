"""Regenerates properties.jsonl, MANIFEST.json, checks/config.json and DESIGN.md from meta/."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

TECH = 'property-based testing: '
props, checks, cfg, design = [], [], {}, []
for p in PROPS:
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}})
    if p.get('na'):
        continue
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    assert os.path.exists(os.path.join(V, 'checks', p['module'] + '.py')), p['module']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 vlib/driver.py %s' % p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 vlib/driver.py %s' % p['id'],
                   'technique': TECH + p.get('tech', 'Hypothesis-generated cases against an independent reference, shrunk to a replay file'),
                   'level': 'exploration',
                   'level_note': p.get('note', 'Sampled inputs up to small dimensions; absence of a violation is evidence, not proof. ' + p.get('note_extra', 'QPs inside acados are solved by a compatible re-implementation of HPIPM/BLASFEO in /verif/shim, because the submodules are absent.'))})
    c = {'module': p['module'], 'rule': p['rule'], 'assumptions': p.get('assumptions', [])}
    for t in ('quick', 'thorough'):
        c[t] = {'n': p[t][0], 'budget': p[t][1]}
    for k in ('lib', 'variant', 'env', 'jobs', 'min_cases', 'shrink_budget'):
        if k in p:
            c[k] = p[k]
    cfg[p['id']] = c
    design.append('### %s %s\n\n%s\n\n%s\n\nNon-trivial: %s. Quick: %d cases (time budget %d s); thorough: %d cases (%d s).\n' % (
        p['id'], p['title'], p['statement'], p['design'], p['rule'], p['quick'][0], p['quick'][1], p['thorough'][0], p['thorough'][1]))


def dump(path, obj):
    with open(os.path.join(V, path), 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
dump('MANIFEST.json', {'version': 1, 'setup_cmd': 'python3 vlib/build.py opt', 'checks': checks, 'not_applicable': NOT_APPLICABLE})
dump('checks/config.json', cfg)
head = open(os.path.join(V, 'meta', 'design_head.md')).read()
tail = open(os.path.join(V, 'meta', 'design_tail.md')).read()
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(head + '\n## Properties and how each is decided\n\n' + '\n'.join(design) + '\n' + tail)
    f.write('\n## Planted changes\n\nEach was written from the property text in a scratch clone; "caught by" is the check whose VIOLATION it produced.\n\n'
            '| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n')
    sd = os.path.join(V, 'seeded')
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        f.write('| %s | %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], m['what_it_breaks'], m.get('caught', 'yes, by ' + m['property'])))
import jsonschema  # noqa: E402
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, sch)
print('%d properties, %d checks' % (len(props), len(checks)))
