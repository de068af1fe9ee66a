#!/bin/bash
# run the repo's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
tail -3 /tmp/test.log
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    if isinstance(x, dict):
        for k in ('passed','pass','stable'):
            if k in x and isinstance(x[k], list): return set(x[k])
    raise SystemExit(str(x)[:400])
print('missing:', sorted(passed(b)-passed(o)))
P
