"""python -m vlib.run <property> <tier> : run the check of one property."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    f = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-j', type=int, default=0)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop.upper()
    if a.replay:
        sys.exit(replay(prop, a.replay))
    if a.worker is not None:
        sys.exit(worker(prop, tier, seed, a))
    sys.exit(parent(prop, tier, seed, a))


def load(prop):
    from vlib import core
    mod = importlib.import_module('checks.' + prop.lower())
    return core, mod


def replay(prop, path):
    core, _ = load(prop)
    r = json.load(open(path))
    s = [s for s in core.SUBS if s.name == r['sub']][0]
    try:
        core.run_case(s, r['case'], core.Ctx())
    except core.Violation as e:
        print(e)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except core.Skip:
        pass
    print('replay passes')
    return 0


def worker(prop, tier, seed, a):
    try:
        core, mod = load(prop)
    except BaseException as e:
        from vlib import env  # noqa
        json.dump([dict(name='import', error=traceback.format_exc())],
                  open(a.out, 'w'))
        return 0
    only = a.only.split(',') if a.only else None
    subs = [s for s in core.SUBS if not only or s.name in only]
    # static cost-balanced-ish assignment: "i/n"
    i, n = (int(x) for x in a.worker.split('/'))
    # thorough: every worker runs all sub-checks with its own seed
    res = []
    budget = 130 if tier == 'quick' else 2400
    if tier == 'quick':
        jobs = [(s, k) for s in subs for k in range(s.shards)]
        for s, k in jobs[i::n]:
            res.append(core.run_sub(s, prop, tier, seed, budget, a.scale, k))
            json.dump(res, open(a.out, 'w'), default=core.jdefault)
    else:
        k = i % max(len(subs), 1)
        for s in subs[k:] + subs[:k]:
            res.append(core.run_sub(s, prop, tier, seed*64 + i,
                                    budget/max(1, len(subs)), a.scale))
            json.dump(res, open(a.out, 'w'), default=core.jdefault)
    if i == 0:
        # listed findings: does the listed input still fail?
        for k, fn in getattr(mod, 'PROBES', {}).items():
            with core.quiet():
                res.append(dict(name='probe', probe=k, fails=bool(fn())))
    json.dump(res, open(a.out, 'w'), default=core.jdefault)
    return 0


def parent(prop, tier, seed, a):
    t0 = time.time()
    nw = a.j or 8
    with tempfile.TemporaryDirectory(prefix='verif_') as td:
        def start(i, again=''):
            """Every worker has its own directory (MPI uses it as well)."""
            out = os.path.join(td, 'out%d%s.json' % (i, again))
            tmp = os.path.join(td, 'w%d%s' % (i, again))
            os.mkdir(tmp)
            cmd = [sys.executable, '-m', 'vlib.run', prop, tier, '--worker',
                   '%d/%d' % (i, nw), '--out', out,
                   '--scale', str(a.scale)]
            if a.only:
                cmd += ['--only', a.only]
            return subprocess.Popen(
                cmd, cwd=ROOT, env=dict(os.environ, TMPDIR=tmp),
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(td, 'err%d' % i), 'w')), out, i

        limit = 800 if tier == 'quick' else 6*3600

        def wait(p):
            try:
                return p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return 'timeout'

        procs = [start(i) for i in range(nw)]
        results, errors = [], []
        for p, out, i in procs:
            rc = wait(p)
            if rc not in (0, 'timeout') and not os.path.exists(out):
                # e.g. MPI could not be initialised
                p, out, i = start(i, 'b')
                rc = wait(p)
            if os.path.exists(out):
                try:
                    results += json.load(open(out))
                except ValueError:
                    errors.append('worker %d: unreadable result' % i)
            if rc != 0:
                err = open(os.path.join(td, 'err%d' % i)).read()[-3000:]
                errors.append('worker %d ended with %s\n%s' % (i, rc, err))
    viol = []
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    seen = set()
    for r in results:
        if r.get('violation') and r['name'] not in seen:
            seen.add(r['name'])
            path = os.path.join(ROOT, 'replay', '%s-%s.json' % (
                prop, r['name']))
            json.dump(dict(property=prop, sub=r['name'],
                           case=r['violation']['case'],
                           message=r['violation']['msg']),
                      open(path, 'w'), indent=1)
            viol.append((r['name'], r['violation']['msg'], path))
        if r.get('error'):
            errors.append('%s: %s\ncase: %s' % (
                r['name'], r['error'], json.dumps(
                    r.get('error_case'))[:1500]))
    # known findings: specific inputs that are known to fail on this tree
    kf = []
    for k in known():
        if k.get('property') != prop or k.get('status') != 'known':
            continue
        kf.append(k)
    still = {r['probe'] for r in results if r.get('probe') and r['fails']}
    results = [r for r in results if not r.get('probe')]
    for k in kf:
        if k['id'] in still:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    keys = set()
    for r in results:
        keys |= {r['name'] + x for x in r.get('keys', [])}
    per = {}
    for r in results:
        d = per.setdefault(r['name'], dict(
            evaluations=0, nontrivial=0, skipped=0, wall_s=0, labels={},
            budget_hit=False, rule=r.get('rule', '')))
        d['evaluations'] += r.get('evaluations', 0)
        d['skipped'] += r.get('skipped', 0)
        d['nontrivial'] += len(r.get('keys', []))
        d['wall_s'] = round(d['wall_s'] + r.get('wall', 0), 2)
        d['budget_hit'] |= bool(r.get('budget_hit'))
        for lb, c in r.get('labels', {}).items():
            d['labels'][lb] = d['labels'].get(lb, 0) + c
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in per.values()),
            distinct_nontrivial=len(keys),
            rule='Cases are drawn by Hypothesis from the generators of each '
            'sub-check (see per_sub); a case counts as non-trivial by the '
            'rule of its sub-check and as distinct by the hash of its JSON '
            'form. ' + ' | '.join(
                '%s: %s' % (n, d['rule']) for n, d in per.items()),
            samples=[s for r in results for s in r.get('samples', [])][:12],
            per_sub=per),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, d in per.items():
        print('  %-32s eval=%-6d nontrivial=%-6d skip=%-5d %6.1fs%s %s' % (
            n, d['evaluations'], d['nontrivial'], d['skipped'], d['wall_s'],
            ' BUDGET' if d['budget_hit'] else '',
            d['labels'] if d['labels'] else ''))
    for n, msg, path in viol:
        print('--- %s: %s' % (n, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if viol:
        return 1
    if errors:
        for e in errors:
            print('HARNESS-ERROR', e, file=sys.stderr)
        return 2
    print('OK %s %s %d cases, %d distinct non-trivial, %.1fs' % (
        prop, tier, ev['coverage']['evaluations'], len(keys), ev['wall_s']))
    return 0


if __name__ == '__main__':
    main()
