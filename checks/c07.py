"""C07: interrupted, repeated, split and parallel runs converge."""
import copy
import gc
import json
import os
import shutil
import subprocess
import sys
from unittest import mock
import h5py
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.archive import read_db, write_sds
from checks import c06
from checks.c06 import STATIONS, setups, options, launch, setup_archive
from obspy.clients.filesystem.sds import Client as SDS
from seismic.db.corr_hdf5 import DBHandler
from vlib import env

# the sub-checks of C06 are not part of this property
SUBS[:] = [s for s in SUBS if s.fn.__module__ != 'checks.c06']
si = st.integers


class Stop(BaseException):
    """The interruption."""


def release():
    gc.collect()
    for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
        h5py.File(i).close()


def snapshot(folder, o):
    """All correlations: {(tag, file, pair, times): (data, lag, header)}"""
    out = {}
    for tag in ('subdivision', 'stack_%s' % o['co']['read_len']):
        for k, tr in read_db(folder, None, tag).items():
            s = tr.stats
            out[(tag,) + k] = (tr.data.copy(), s.start_lag, s.sampling_rate,
                               s.location)
    return out


def same(a, b, what, tol):
    ck(set(a) == set(b), what, 'missing', sorted(set(b) - set(a))[:3],
       'additional', sorted(set(a) - set(b))[:3])
    for k in a:
        x, y = a[k], b[k]
        ck(x[1:] == y[1:], what, 'header of', k)
        ck_close(x[0], y[0], '%s %s' % (what, k), rtol=0,
                 atol=tol*np.abs(y[0]).max())


def prepared(c, d):
    T = UTCDateTime(T0 + c['offset'])
    segs, root, _, _ = setup_archive(c, d, T)
    if not any(segs.values()) or any(not s for s in segs.values()):
        raise Skip()
    return T, root


def undisturbed(c, d, T, root):
    o = options(c, os.path.join(d, 'ref'), T, c['nread'], False)
    launch(copy.deepcopy(o), root)
    return snapshot(os.path.join(d, 'ref', 'corr'), o)


@sub(st.fixed_dictionaries(dict(
    c=setups(), dict_reused=st.booleans(), phase=st.one_of(
        st.just({}), st.fixed_dictionaries({
            s[1]: st.sampled_from([0, .125, .25, .375])
            for s in STATIONS})))),
    quick=300, shards=3, rule='at least two correlations')
def repeated(case, ctx):
    """A second run on the own output changes nothing."""
    c = dict(case['c'], phase=case['phase'])
    with scratch() as d:
        T, root = prepared(c, d)
        ref = undisturbed(c, d, T, root)
        o = options(c, os.path.join(d, 'p'), T, c['nread'], False)
        real = DBHandler.add_correlation
        for i in range(2):
            added = []

            def add(self, data, *a, **k):
                added.append(data)
                return real(self, data, *a, **k)
            with mock.patch.object(DBHandler, 'add_correlation', add):
                launch(o if case['dict_reused'] else copy.deepcopy(o), root)
            if i and not c['delete'] and ref:
                ck(not added, 'existing correlations are computed again')
            now = snapshot(os.path.join(d, 'p', 'corr'), o)
            same(now, ref, 'run %d' % (i + 1), 1e-5)
    ctx.nt(len(ref) > 1)
    if len(set(case['phase'].values())) > 1:
        ctx.label('fractions of samples')


@sub(st.fixed_dictionaries(dict(
    c=setups(), where=st.sampled_from(['read', 'compute', 'write', 'write']),
    nth=st.lists(si(1, 14), min_size=1, max_size=3))), quick=560, shards=4,
    rule='the run was interrupted after something had been written and '
    'before its end')
def interrupted(case, ctx):
    """Aborted by an error in any step, then started again."""
    c = dict(case['c'])
    where = case['where']
    if where == 'write':
        # a stack that is interrupted half way can not be resumed
        c['recombine'] = False
        c['delete'] = False
    with scratch() as d:
        T, root = prepared(c, d)
        ref = undisturbed(c, d, T, root)
        o = options(c, os.path.join(d, 'p'), T, c['nread'], False)
        folder = os.path.join(d, 'p', 'corr')
        owner, name = {
            'read': (SDS, 'get_waveforms'), 'compute': (np.fft, 'irfft'),
            'write': (h5py.Group, 'create_dataset')}[where]
        real = getattr(owner, name)
        partial = 0
        before = {}
        for n in case['nth']:
            count = [0]

            def faulty(*a, **k):
                count[0] += 1
                if count[0] == n:
                    raise Stop()
                return real(*a, **k)
            with mock.patch.object(owner, name, faulty):
                try:
                    launch(copy.deepcopy(o), root)
                    stopped = False
                except Stop:
                    stopped = True
                    # the process ends here, and with it its open files
                    release()
            now = snapshot(folder, o)
            ck(set(before) <= set(now), 'correlations lost')
            same({k: now[k] for k in before}, before, 'older', 0)
            ck(set(now) <= set(ref), 'invented', sorted(set(now) - set(ref)))
            same(now, {k: ref[k] for k in now}, 'stored before abort', 1e-5)
            before = now
            if stopped and 0 < len(now) < len(ref):
                partial += 1
        launch(copy.deepcopy(o), root)
        now = snapshot(folder, o)
        same({k: now[k] for k in before}, before, 'older', 0)
        same(now, ref, 'after resuming', 1e-5)
    ctx.nt(partial)
    ctx.label(where + (' partial' if partial else ''))


@sub(st.fixed_dictionaries(dict(
    c=setups(subdiv=True), order=st.lists(
        si(0, 2), min_size=1, max_size=3))), quick=240, shards=2,
    rule='several increments have correlations')
def pieces(case, ctx):
    """The period is worked on in several runs, in any order."""
    c = case['c']
    with scratch() as d:
        T, root = prepared(c, d)
        ref = undisturbed(c, d, T, root)
        proj = os.path.join(d, 'p')
        rinc = c['k']*c['inc']
        o = options(c, proj, T, c['nread'], False)
        done = set()
        order = [i % c['nread'] for i in case['order']]
        for i in order + [None]:
            oo = copy.deepcopy(o)
            if i is not None:
                oo['co']['read_start'] = str(T + i*rinc)
                oo['co']['read_end'] = str(T + (i + 1)*rinc)
                done.add(i)
            launch(oo, root)
            now = snapshot(os.path.join(proj, 'corr'), o)
            if i is None:
                same(now, ref, 'all pieces', 1e-5)
            else:
                want = {k: v for k, v in ref.items() if int(
                    (k[5] - T.timestamp + .01)//rinc) in done}
                same(now, want, 'increments %s' % sorted(done), 1e-5)
    ctx.nt(len({int((k[5] - T.timestamp + .01)//rinc) for k in ref}) > 1)


def coarse(root, c, T, which):
    """Data sampled at less than what is asked for."""
    r = rng(c['seed'] + 7)
    n = int(c['nread']*c['k']*c['inc'])
    for code, sr in ((('A', 'A0', '', 'HHZ'), c['sr']/2),
                     (('X', 'Z', '', 'HHZ'), c['sr']/4))[which:]:
        write_sds(root, code, T, r.randn(int(n*sr) + 20).astype(np.float32),
                  sr)


@sub(st.fixed_dictionaries(dict(c=setups(), which=si(0, 1))), quick=120,
     shards=4, rule='at least two correlations')
def too_coarse(case, ctx):
    """Stations that are sampled too coarsely do not disturb the others."""
    c = case['c']
    with scratch() as d:
        T, root = prepared(c, d)
        ref = undisturbed(c, d, T, root)
        coarse(root, c, T, case['which'])
        o = options(c, os.path.join(d, 'p'), T, c['nread'], False)
        launch(o, root)
        now = snapshot(os.path.join(d, 'p', 'corr'), o)
        same(now, ref, 'with coarse stations', 1e-5)
    ctx.nt(len(ref) > 1)


@sub(st.fixed_dictionaries(dict(c=setups(), n=si(2, 4), trouble=st.sampled_from(
    [None, None, 'coarse', 'refused', 'joint', 'joint']))), quick=32,
     shards=4, rule='at least two correlations from at least two traces')
def ranks(case, ctx):
    """The number of processes does not matter."""
    c = case['c']
    trouble = case.get('trouble')
    # times in the options cannot be handed over as JSON
    c['prep'] = [p for p in c['prep'] if p != 'mask']
    if trouble == 'joint':
        # three components of one or two stations, without gaps
        c = dict(c, xc=0, traces=[dict(
            c['traces'][0], id=[*s, h], cuts=[], late=0, early=0)
            for s in STATIONS[:1 + c['seed'] % 2]
            for h in ('HHE', 'HHN', 'HHZ')])
        if c['method'] == 'betweenStations' and not c['seed'] % 2:
            c['method'] = 'betweenComponents'
    with scratch() as d:
        T, root = prepared(c, d)
        o = options(c, os.path.join(d, 'p'), T, c['nread'], False)
        if trouble == 'joint':
            o['co']['corr_args']['FDpreProcessing'] = [dict(
                function='seismic.correlate.preprocessing_fd.'
                'spectralWhitening', args=dict(joint_norm=True))]
        if trouble == 'refused':
            q = c['traces'][c['seed'] % len(c['traces'])]['id']
            o['co']['preProcessing'].append(dict(
                function='vlib.steps.refuse', args=dict(
                    code='%s.%s' % (q[0], q[1]), end=str(
                        T + (c['nread'] - .9)*o['co']['read_inc']))))
        o2 = copy.deepcopy(o)
        o2['proj_dir'] = os.path.join(d, 'ref')
        launch(o2, root)
        ref = snapshot(os.path.join(d, 'ref', 'corr'), o)
        if trouble == 'coarse':
            coarse(root, c, T, 0)
        f = os.path.join(d, 'o.json')
        json.dump(o, open(f, 'w'))
        script = os.path.join(env.ROOT, 'vlib', 'mpi_run.py')
        e = dict(os.environ, TMPDIR=d, OMPI_MCA_btl='self,vader,tcp',
                 OMP_NUM_THREADS='1')
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n']
        if shutil.which('mpirun') is None or subprocess.run(
                cmd + ['2', sys.executable, '-c',
                       'from mpi4py import MPI;'
                       'assert MPI.COMM_WORLD.Get_size() == 2'],
                env=e, capture_output=True, timeout=300).returncode:
            raise Skip()
        try:
            p = subprocess.run(
                cmd + [str(case['n']), sys.executable, script, f, root],
                env=e, capture_output=True, text=True, timeout=180)
        except subprocess.TimeoutExpired:
            raise Violation('run with %d processes does not end' % case['n'])
        ck(p.returncode == 0, 'run with', case['n'], 'processes failed:',
           p.stderr[-2000:])
        now = snapshot(os.path.join(d, 'p', 'corr'), o)
        same(now, ref, '%d processes' % case['n'], 1e-5)
    ctx.nt(len(ref) > 1 and len(c['traces']) > 1)
    ctx.label('%d ranks' % case['n'])
    if trouble:
        ctx.label(trouble)
