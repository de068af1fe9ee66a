"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/seismic/'
P = []


def prop(id, title, statement, over, quant, why, files, mechanism,
         observe=(), technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=[S + x for x in p['files']],
                         mechanism=[dict(name=a, where=S + b)
                                    for a, b in p['mechanism']],
                         observe_at=list(p['observe']),
                         hook_needed=None))) + '\n')

checks, na = [], []
for p in P:
    mod = os.path.join(ROOT, 'checks', p['id'].lower() + '.py')
    if p['na'] or not os.path.exists(mod):
        na.append(dict(property=p['id'],
                       reason=p['na'] or 'check not built yet'))
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='bash check.sh %s quick' % p['id'],
        thorough_cmd='bash check.sh %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=p['technique'] or 'property-based testing (Hypothesis) '
        'against a reference model',
        level='exploration',
        level_note=p['note'] or 'Generated-input search with shrinking; '
        'establishes the property on the cases explored, not in general. '
        'Trusts numpy/scipy/obspy/h5py and the oracle in /verif/checks.'))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='bash setup.sh', checks=checks,
        not_applicable=na,
        notes='All checks: bash check.sh <id> <tier>; see DESIGN.md.'),
        f, indent=1)
print(len(checks), 'checks', len(na), 'n/a')
