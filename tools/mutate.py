#!/usr/bin/env python3
"""mutate.py FILE N SEED OUT CHECKS TESTS : generic mutants of a source file.

FILE is relative to src/seismic, CHECKS and TESTS are comma separated.  Every
mutant works in its own copy of the repository under /tmp. Mutants that the
tests kill do not count; for the others the quick checks are run until one
reports a violation.  Appends a line per mutant to OUT.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&'}
NAMES = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil',
         'any': 'all', 'all': 'any', 'argmax': 'argmin', 'nanmax': 'max',
         'nanmean': 'mean', 'nanargmax': 'argmax', 'startswith': 'endswith',
         'zeros': 'ones', 'ones': 'zeros', 'sum': 'mean', 'vstack': 'hstack',
         'median': 'mean', 'mean': 'median', 'round': 'floor',
         'starttime': 'endtime', 'endtime': 'starttime',
         'corr_start': 'corr_end', 'corr_end': 'corr_start',
         'start_lag': 'end_lag', 'network': 'station', 'station': 'network',
         'rfft': 'fft', 'append': 'extend', 'union': 'intersection'}


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n):
        return (offs[n.lineno-1] + n.col_offset,
                offs[n.end_lineno-1] + n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                doc.add(id(n.body[0].value))
                doc.add(id(n.body[0]))
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in n.body:
                for k in ast.walk(m):
                    infun.add(id(k))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) not in infun:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(
                n.ops[0]) in SWAP:
            a, z = pos(n.left)[1], pos(n.comparators[0])[0]
            out.append((a, z, ' ' + SWAP[type(n.ops[0])] + ' ', n.lineno))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and \
                    isinstance(getattr(n.left, 'value', ''), str):
                continue
            a, z = pos(n.left)[1], pos(n.right)[0]
            mid = b[a:z].decode()
            for ch in ('//', '+', '-', '*', '/', '%', '&', '|'):
                if ch in mid:
                    out.append((a, z, mid.replace(ch, OPS[type(n.op)], 1),
                                n.lineno))
                    break
        elif isinstance(n, ast.UnaryOp):
            a, z = pos(n)
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                out.append((a, pos(n.operand)[0], '', n.lineno))
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0])[1], pos(n.values[1])[0]
            mid = b[a:z].decode()
            new = mid.replace('and', 'or') if isinstance(
                n.op, ast.And) else mid.replace('or', 'and')
            out.append((a, z, new, n.lineno))
        elif isinstance(n, ast.Constant):
            a, z = pos(n)
            if n.value is True or n.value is False:
                out.append((a, z, str(not n.value), n.lineno))
            elif isinstance(n.value, int):
                out.append((a, z, str(n.value + 1), n.lineno))
                if n.value:
                    out.append((a, z, str(n.value - 1), n.lineno))
            elif isinstance(n.value, float):
                out.append((a, z, repr(n.value*1.5 + .1), n.lineno))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and \
                n.lineno == n.end_lineno:
            a, z = pos(n)
            if isinstance(n, ast.Expr) and not isinstance(
                    n.value, (ast.Call, ast.Yield)):
                continue
            if isinstance(n, ast.Assign):
                # only where the name exists already: cannot know; try it
                if not isinstance(n.targets[0], (ast.Subscript,
                                                 ast.Attribute)):
                    continue
            out.append((a, z, 'pass', n.lineno))
        elif isinstance(n, (ast.Attribute, ast.Name)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            if nm in NAMES:
                z = pos(n)[1]
                out.append((z - len(nm), z, NAMES[nm], n.lineno))
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'deepcopy', 'sort', 'flatten') and not n.args:
            a, z = pos(n)
            out.append((pos(n.func.value)[1], z, '', n.lineno))
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Name) and n.func.id in (
                    'deepcopy', 'abs', 'sorted', 'int', 'set') and \
                len(n.args) == 1:
            a, z = pos(n)
            x, y = pos(n.args[0])
            out.append((a, z, '(' + b[x:y].decode() + ')', n.lineno))
        elif isinstance(n, ast.If) and not n.orelse:
            x, y = pos(n.test)
            out.append((x, y, 'False', n.lineno))
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, z = pos(n)
            out.append((a, z, 'pass', n.lineno))
    return sorted(set(out)), b


def main():
    rel, num, seed, res, checks, tests = sys.argv[1:7]
    lo, hi = (int(x) for x in (sys.argv[7:9] or (0, 10**9)))
    src = open('/repo/src/seismic/' + rel).read()
    out, b = sites(src)
    out = [x for x in out if lo <= x[3] <= hi]
    random.Random(int(seed)).shuffle(out)
    w = tempfile.mkdtemp(prefix='mut_')
    rp = w + '/repo'
    shutil.copytree('/repo', rp, symlinks=True)
    env = dict(os.environ, PYTHONPATH=rp + '/src', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    done = 0
    try:
        for a, z, new, line in out:
            if done >= int(num):
                break
            m = (b[:a] + new.encode() + b[z:]).decode()
            try:
                ast.parse(m)
            except SyntaxError:
                continue
            p = os.path.join(rp, 'src/seismic', rel)
            open(p, 'w').write(m)
            txt = '%s:%d %r -> %r' % (rel, line, b[a:z].decode(), new)
            try:
                t = subprocess.run(
                    [PY, '-m', 'pytest', '-q', '-x', '-p',
                     'no:cacheprovider'] + [
                         'tests/' + x for x in tests.split(',') if x],
                    cwd=rp, env=env, capture_output=True, text=True,
                    timeout=240).returncode
            except subprocess.TimeoutExpired:
                t = 1
            if t:
                continue
            done += 1
            how = 'SURVIVED'
            for c in checks.split(','):
                e = dict(os.environ, VERIF_REPO=rp, VERIF_SEED='1')
                try:
                    q = subprocess.run(
                        ['bash', '/verif/check.sh', c, 'quick'], env=e,
                        capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    how = 'timeout ' + c
                    break
                if q.returncode:
                    how = 'caught %s (%d)' % (c, q.returncode)
                    break
            with open(res, 'a') as f:
                f.write('%s  %s  | %s\n' % (
                    how, txt, src.splitlines()[line-1].strip()[:90]))
    finally:
        shutil.rmtree(w)


main()
