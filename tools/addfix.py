"""addfix.py PROP 'what failed'  -- record HEAD of /repo as a repair."""
import json
import os
import subprocess
import sys
f = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
k = json.load(open(f))
h = subprocess.run('git -C /repo rev-parse --short HEAD', shell=True,
                   capture_output=True, text=True).stdout.strip()
p, what = sys.argv[1:3]
k.append(dict(id='FX-%s-%s' % (p, h), property=p, status='fixed', commit=h,
              what=what, entry='fixed: property=%s %s %s' % (p, h, what)))
json.dump(k, open(f, 'w'), indent=1)
