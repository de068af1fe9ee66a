"""Rewrite the generated part of DESIGN.md (planted bugs, findings)."""
import collections
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = {'C06b', 'C07a', 'C10c', 'C12a', 'C18b', 'C22b', 'C23a'}
MARK = '<!-- generated by tools/design.py -->'
out = [MARK, '', '## Planted bugs', '',
       'Every bug below is a patch in `seeded/` with a demonstration. All are '
       'caught by the quick\ncheck of their property. Those marked with * '
       'were missed when planted; the check was then\nstrengthened (a new '
       'input dimension, never a case of its own).', '',
       '| bug | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    out.append('| %s%s | %s | %s | %s |' % (
        i, '*' if i in LATER else '', m['property'],
        m['what_it_breaks'], m['needs']))
k = json.load(open(V + '/known_findings.json'))
out += ['', '## Known findings', '']
for e in k:
    if e['status'] == 'known':
        out.append('* **%s** (%s): %s' % (e['id'], e['property'], e['what']))
fx = collections.defaultdict(list)
for e in k:
    if e['status'] != 'known':
        fx[e['property']].append(e)
out += ['', '## Repaired defects', '',
        'Genuine defects found by the checks on the original tree and '
        'repaired by one `fix:` commit each\n(%d in total; details and '
        'commits in `known_findings.json`).' % sum(map(len, fx.values())), '']
for p in sorted(fx):
    out.append('* **%s** (%d): %s.' % (p, len(fx[p]), '; '.join(
        ' '.join(str(e['what']).split()).rstrip('.') for e in fx[p])))
p = V + '/DESIGN.md'
s = open(p).read().split(MARK)[0].rstrip() + '\n\n'
open(p, 'w').write(s + '\n'.join(out) + '\n')
