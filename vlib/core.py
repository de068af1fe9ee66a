"""Small property-testing framework on top of Hypothesis.

A check module (checks/cNN.py) registers sub-checks with @sub(...).  Every
sub-check draws ONE JSON-able `case` and calls the body with it.  The body
raises Violation (usually through `ck`) when the property is broken.  Any other
exception whose traceback passes through the code under test counts as a
violation too (a crash on valid input) unless the body expects it; exceptions
raised by the harness alone are harness errors (exit status 2, never a
violation).
"""
import contextlib
import hashlib
import io
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

from vlib import env

import numpy as np
import hypothesis
from hypothesis import settings, given, Phase, HealthCheck, strategies as st
import hypothesis.internal.conjecture.engine as _engine

SUBS = []


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The generated case does not satisfy a precondition."""


def ck(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def ck_close(a, b, what='', rtol=1e-6, atol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    ck(a.shape == b.shape, what, 'shape', a.shape, '!=', b.shape)
    if not a.size:
        return
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    ck(np.array_equal(na, nb), what, 'missing values differ at',
       np.argwhere(na != nb)[:4].tolist())
    d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    lim = atol + rtol*np.abs(np.where(nb, 0, b))
    if (d > lim).any():
        i = np.unravel_index(np.argmax(d - lim), d.shape)
        raise Violation('%s: got %r expected %r at %s (diff %g, tol %g)' % (
            what, a[i], b[i], tuple(int(k) for k in i), d[i],
            np.broadcast_to(lim, d.shape)[i]))


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.shards = shards
        self.quick, self.thorough, self.rule = quick, thorough, rule


def sub(strategy, quick, thorough=None, rule='', shards=1):
    """Register a sub-check (in quick runs split over shards workers)."""
    def deco(fn):
        SUBS.append(Sub(fn.__name__, strategy, fn, quick,
                        thorough or quick*15, rule, shards))
        return fn
    return deco


class Ctx:
    """Bookkeeping of one case."""
    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name):
        self.labels.append(name)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def in_repo(tb):
    """Does this traceback pass through the code under test?"""
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(env.SRC + os.sep):
            return True
    return False


@contextlib.contextmanager
def quiet():
    """Silence warnings, stdout and stderr chatter of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            with np.errstate(all='ignore'):
                yield


def run_case(s, case, ctx):
    """Run the body on one case; raise Violation / harness error."""
    import random
    np.random.seed(0)
    random.seed(0)
    try:
        with quiet():
            s.fn(case, ctx)
    except (Violation, Skip):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except BaseException as e:
        if in_repo(e.__traceback__):
            raise Violation('unexpected %s in the code under test: %s\n%s' % (
                type(e).__name__, e,
                ''.join(traceback.format_tb(e.__traceback__)[-4:]))) from e
        if isinstance(e, (LookupError, AttributeError, TypeError, ValueError,
                          ArithmeticError, AssertionError)):
            # This does not happen on a tree where the property holds: what
            # the code returned is not of the form it has to be
            raise Violation('the outcome cannot be evaluated, %s: %s\n%s' % (
                type(e).__name__, e,
                ''.join(traceback.format_tb(e.__traceback__)[-4:]))) from e
        raise


def expect_raises(excs, fn, what):
    try:
        fn()
    except excs:
        return
    raise Violation('%s: expected %s' % (what, excs))


def jdefault(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return str(o)


def norm(case):
    return json.loads(json.dumps(case, default=jdefault))


def run_sub(s, prop, tier, seed, budget, scale=1.0, shard=0):
    """Generated search for one sub-check. Returns a result dict."""
    n = int((s.quick if tier == 'quick' else s.thorough)*scale) or 1
    if tier == 'quick':
        n = -(-n//s.shards)
        seed += 7919*shard
    stat = dict(name=s.name, evaluations=0, skipped=0, rule=s.rule,
                samples=[], labels={}, budget_hit=False, keys=set(),
                error=None, violation=None)
    t0 = time.time()
    last = {}
    failing = [False]

    _engine.MAX_SHRINKING_SECONDS = 60 if tier == 'quick' else 200

    def body(case):
        if not failing[0] and time.time() - t0 > budget:
            stat['budget_hit'] = True
            return
        case = norm(case)
        ctx = Ctx()
        try:
            run_case(s, case, ctx)
        except Skip:
            stat['skipped'] += 1
            return
        except Violation as e:
            failing[0] = True
            last['case'], last['msg'] = case, str(e)
            raise
        except BaseException:
            last['herr'] = traceback.format_exc()
            last['case'] = case
            raise
        if failing[0]:
            return
        stat['evaluations'] += 1
        for lb in ctx.labels:
            stat['labels'][lb] = stat['labels'].get(lb, 0) + 1
        if ctx.nontrivial:
            j = json.dumps(case, sort_keys=True)
            k = hashlib.sha1(j.encode()).hexdigest()[:16]
            if k not in stat['keys']:
                stat['keys'].add(k)
                if len(stat['samples']) < 2 and len(j) < 4000:
                    stat['samples'].append(dict(sub=s.name, case=case))

    test = settings(
        max_examples=n, deadline=None, database=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.target, Phase.shrink),
        report_multiple_bugs=False, print_blob=False)(given(s.strategy)(body))
    test = hypothesis.seed(seed*1000003 + int(hashlib.sha1(
        s.name.encode()).hexdigest()[:6], 16))(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except Violation as e:
        stat['violation'] = dict(case=last.get('case'),
                                 msg=last.get('msg', str(e)))
    except BaseException:
        if failing[0] and 'herr' not in last:
            # e.g. Flaky: the failing case did not reproduce identically
            stat['violation'] = dict(case=last.get('case'),
                                     msg=last.get('msg'))
            stat['error'] = traceback.format_exc()
            # confirm by plain re-execution
            try:
                run_case(s, last['case'], Ctx())
                stat['violation'] = None
            except Violation:
                stat['error'] = None
            except BaseException:
                stat['violation'] = None
        else:
            stat['error'] = (last.get('herr') or '') + traceback.format_exc()
            stat['error_case'] = last.get('case')
    stat['wall'] = time.time() - t0
    stat['keys'] = sorted(stat['keys'])
    return stat
