#!/usr/bin/env python3
"""mkseed.py SPEC.py... : write /verif/seeded/<ID>/ from a spec and validate it.

A spec sets ID, PROPERTY, EDITS=[(file under src/seismic, old, new)], NEEDS,
BREAKS and DEMO (python source, exits non-zero when the property is broken).
Validation (all in a scratch copy): the unedited tests pass as before, the
demonstration passes without and fails with the change, and (informative) the
property's quick check reports it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ENV = dict(
    os.environ, LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
    PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
    OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HOME='/root')
PY = '/opt/venv/bin/python'


def passed():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'pass', 'stable'):
        if isinstance(b.get(k), list):
            return set(b[k])


def one(spec, runcheck=True):
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['ID']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_')
    log = []
    try:
        rp = w + '/repo'
        shutil.copytree('/repo', rp, symlinks=True)
        env = dict(ENV, PYTHONPATH=rp + '/src')
        with open(d + '/demo.py', 'w') as f:
            f.write(s['DEMO'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n'
                    'D=$(cd "$(dirname "$0")" && pwd)\n'
                    'export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 '
                    'MPLBACKEND=Agg OMP_NUM_THREADS=1 '
                    'OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore\n'
                    'W=$(mktemp -d) || exit 3\n'
                    'export DEMO_SCRATCH="$W" TMPDIR="$W"\n'
                    'timeout 250 /opt/venv/bin/python "$D/demo.py"\n'
                    'rc=$?\n'
                    'rm -rf "$W"\n'
                    'exit $rc\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'],
                   'what_it_breaks': s['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)

        def demo():
            p = subprocess.run(['bash', d + '/demo.sh'], cwd=rp, env=env,
                               capture_output=True, text=True)
            return p.returncode, (p.stdout + p.stderr)[-600:]
        r0 = demo()
        log.append('demo unchanged rc=%d %s' % (r0[0], r0[1] if r0[0] else ''))
        for f, old, new in s['EDITS']:
            p = rp + '/src/seismic/' + f
            t = open(p).read()
            assert t.count(old) == 1, (spec, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=rp, capture_output=True,
                              text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # only lines of the original repository may be changed
        base = subprocess.run(
            ['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=rp,
            capture_output=True, text=True).stdout.split()[0]
        bad = []
        for f in {e[0] for e in s['EDITS']}:
            orig = set(subprocess.run(
                ['git', 'show', base + ':src/seismic/' + f], cwd=rp,
                capture_output=True, text=True).stdout.split('\n'))
            for ln in subprocess.run(
                    ['git', 'diff', '-U0', '--', 'src/seismic/' + f], cwd=rp,
                    capture_output=True, text=True).stdout.split('\n'):
                if ln[:1] == '-' and ln[:3] != '---' and ln[1:] not in orig:
                    bad.append(ln)
        if bad:
            log.append('NOT ORIGINAL: %s' % bad)
        r1 = demo()
        log.append('demo patched rc=%d %s' % (r1[0], r1[1]))
        x = w + '/junit.xml'
        subprocess.run(
            [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
             '--timeout=300', '--continue-on-collection-errors', '-o',
             'junit_family=xunit2', '--junitxml=' + x, 'tests',
             'formatting_test'], cwd=rp, env=env, capture_output=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py',
                        w + '/out.json', 'junit:' + x], capture_output=True)
        o = json.load(open(w + '/out.json'))
        got = set(o.get('passed') or o.get('pass') or o.get('stable'))
        miss = sorted(passed() - got)
        log.append('tests lost: %s' % miss[:5])
        ok = r0[0] == 0 and r1[0] != 0 and not miss and not bad
        caught = None
        if runcheck:
            p = subprocess.run(
                ['bash', '/verif/check.sh', s['PROPERTY'], 'quick'],
                env=dict(ENV, VERIF_REPO=rp, VERIF_SEED='1',
                         VERIF_TIER='quick', VERIF_NO_EVIDENCE='1'),
                capture_output=True, text=True)
            v = [li for li in p.stdout.split('\n') if 'VIOLATION' in li]
            caught = p.returncode == 1 and bool(v)
            log.append('check rc=%d %s' % (p.returncode, v[:3]))
        return s['ID'], ok, caught, log
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    nocheck = '--nocheck' in sys.argv
    specs = [a for a in sys.argv[1:] if a.endswith('.py')]
    with ThreadPoolExecutor(1 if not nocheck else 4) as ex:
        for i, ok, caught, log in ex.map(
                lambda a: one(a, not nocheck), specs):
            print(i, 'VALID' if ok else 'INVALID', 'caught=%s' % caught)
            for li in log:
                print('    ', li)
