"""C23: a monitoring run reports the change contained in the database."""
import contextlib
import copy
import fnmatch
import glob
import io
import logging
import math
import shutil
import subprocess
import sys
import warnings

import yaml

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib import env
from vlib.corr import drop_handlers
from vlib.dvs import naive_mean, naive_max
from seismic.correlate.stream import CorrTrace, CorrStream
from seismic.db.corr_hdf5 import CorrelationDataBase
from obspy.core import AttribDict
from seismic.monitor import monitor as mo
from seismic.monitor.dv import read_dv
from seismic.monitor.wfc import read_wfc

si = st.integers
H = 21600


def quiet(fn):
    with warnings.catch_warnings(), contextlib.redirect_stderr(
            io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        logging.disable(logging.CRITICAL)
        try:
            return fn()
        finally:
            logging.disable(logging.NOTSET)
            logging.captureWarnings(False)
            drop_handlers()


class Base:
    """Band limited random function of lag (in samples)."""
    def __init__(self, seed, fmax=.1, fmin=.03, m=14):
        r = rng(seed)
        self.f = r.uniform(fmin, fmax, m)
        self.a = r.randn(m)
        self.b = r.randn(m)

    def __call__(self, t):
        x = 2*np.pi*np.multiply.outer(t, self.f)
        return np.cos(x) @ self.a + np.sin(x) @ self.b


# ------------------------------------------------------------ configuration
def options(d, **dv):
    o = dict(
        proj_dir=d, save_comps_separately=False, log_subdir='log',
        log_level='CRITICAL', fig_subdir='fig',
        net=dict(network='*', station='*', component='*'),
        co=dict(subdir='corr', read_start='2010-01-01',
                read_end='2010-01-02', read_len=86398, read_inc=86400,
                sampling_rate=4., remove_response=False,
                combination_method='betweenStations', preProcessing=[],
                subdivision=dict(corr_inc=H, corr_len=H,
                                 recombine_subdivision=False,
                                 delete_subdivision=False),
                corr_args=dict(TDpreProcessing=[], FDpreProcessing=[],
                               lengthToSave=40, combinations=[])),
        dv=dict(subdir='vel', plot_vel_change=False, freq_min=.05,
                freq_max=1., tw_start=2., tw_len=20., sides='both',
                compute_tt=False, rayleigh_wave_velocity=1.,
                stretch_range=.03, stretch_steps=101, return_sim_mat=True,
                dt_ref=dict(win_inc=0, method='mean', percentile=50),
                preprocessing=[], postprocessing=[]))
    o['dv'].update(dv)
    o['wfc'] = dict(subdir='wfc', save_comps=True,
                    dt_ref=dict(win_inc=0, method='mean', percentile=50),
                    preprocessing=[])
    return o


def store(d, o, combos, lts=None, order=None):
    """Write correlations [(code0, code1, channels, [(start, data)])]."""
    sr = o['co']['sampling_rate']
    for n0, s0, n1, s1, ca, rows, dist in combos:
        co = copy.deepcopy(o['co'])
        if lts:
            co['corr_args']['lengthToSave'] = lts
        f = os.path.join(d, 'corr')
        os.makedirs(f, exist_ok=True)
        p = os.path.join(f, f'{n0}-{n1}.{s0}-{s1}')
        trs = []
        for t, x in rows:
            h = [raw_stats(n, s, '', c, t, int(H*sr), sr)
                 for n, s, c in ((n0, s0, ca[0]), (n1, s1, ca[1]))]
            if dist is not None:
                h[0]['sac'] = AttribDict(stla=0., stlo=0., stel=dist[1])
                h[1]['sac'] = AttribDict(stla=0., stlo=dist[0],
                                         stel=dist[2])
            half = (len(x) - 1)/2/sr
            trs.append(CorrTrace(np.asarray(x, np.float32), h[0], h[1],
                                 start_lag=-half, end_lag=half))
        if order is not None:
            trs = [trs[i] for i in rng(order).permutation(len(trs))]
        with CorrelationDataBase(p, corr_options=co) as db:
            if trs:
                db.add_correlation(CorrStream(trs), 'subdivision')


STATIONS = [('X', 'A1'), ('X', 'A10'), ('X', 'B'), ('XY', 'A1'), ('Y', 'A1')]
CH = ['HHZ', 'HHN', 'HHE', 'BHZ']

combo = st.tuples(si(0, 4), si(0, 4), si(0, 3), si(0, 3))
hist = st.fixed_dictionaries(dict(
    seed=seeds, nwin=si(3, 8), per=si(1, 2), start=si(-1, 2),
    combos=st.lists(combo, min_size=1, max_size=3, unique=True),
    eps=st.lists(st.lists(st.floats(-.35, .35), min_size=8, max_size=8),
                 min_size=3, max_size=3),
    gaps=st.lists(si(0, 7), max_size=3), noise=st.sampled_from([0, 0, .05]),
    ref=st.sampled_from(['mean', 'mean', 'median', 'norm_mean',
                         'similarity_percentile', 'multi']),
    sides=st.sampled_from(['both', 'both', 'left', 'right']),
    rg=st.sampled_from([.02, .03]), steps=st.sampled_from([61, 101]),
    over=st.booleans(), order=seeds, tw=st.sampled_from(
        [(2., 20.), (2., 20.), (0., 15.), (5.25, 12.5)]),
    outside=st.booleans(), days=si(0, 400), short=si(0, 3).map(
        lambda x: x == 3), frac=st.sampled_from([0, 0, .5])))


def setup(c):
    """Options and the correlations of every combination."""
    t0 = UTCDateTime(T0) + c['days']*86400
    first = t0 + c['start']*H
    inc = c['per']*H
    n = c['nwin']
    o = options('', start_date=str(first), end_date=str(
        first + n*inc - c['frac']*inc), date_inc=inc,
        win_len=inc*(2 if c['over'] else 1), stretch_range=c['rg'],
        stretch_steps=c['steps'], sides=c['sides'], tw_start=c['tw'][0],
        tw_len=c['tw'][1])
    if c['ref'] == 'multi':
        o['dv']['dt_ref'] = dict(win_inc=1, method='mean', percentile=50)
    else:
        o['dv']['dt_ref']['method'] = c['ref']
    combos, eps = [], []
    tt = np.arange(-160, 161)
    g = rng(c['seed'])
    for q, (i, j, a, b) in enumerate(c['combos']):
        i, j = min(i, j), max(i, j)
        if i == j and CH[a] > CH[b]:
            a, b = b, a
        base = Base(c['seed'] + 13*q)
        sd = np.std(base(tt))
        rows, e = [], []
        for w in range(n):
            miss = w in [x % n for x in c['gaps']] and w != (q + 1) % n
            x = c['eps'][q % 3][w]*c['rg']
            e.append(None if miss else x)
            if miss:
                continue
            for k in range(c['per']):
                y = base(tt*np.exp(-x)) + c['noise']*sd*g.randn(len(tt))
                rows.append((first + w*inc + k*H, y*10**g.uniform(-3, 3)))
        if c['outside']:
            for w in (-3, -2, n*c['per'] + c['per'], n*c['per'] + 5):
                rows.append((first + w*H, base(tt*1.4 + 7)))
        combos.append((*STATIONS[i], *STATIONS[j], (CH[a], CH[b]), rows,
                       None))
        eps.append(e)
    keys = [x[:5] for x in combos]
    for q in range(len(keys) - 1, -1, -1):
        if keys[q] in keys[:q]:
            del combos[q], eps[q]
    return o, combos, eps, first, inc


def code(x):
    return f'{x[0]}-{x[2]}.{x[1]}-{x[3]}.{x[4][0]}-{x[4][1]}'


def results(d, sub='vel'):
    out = {}
    for f in sorted(glob.glob(os.path.join(d, sub, '*.npz'))):
        out[os.path.basename(f)[3:-4]] = quiet(lambda: read_dv(f))
    return out


def run(d, o, combos, order=None, short=None):
    o = copy.deepcopy(o)
    o['proj_dir'] = d
    quiet(lambda: store(d, o, combos, order=order))
    if short:
        quiet(lambda: store(d, o, [short], lts=10))
    quiet(lambda: mo.Monitor(o).compute_velocity_change_bulk())
    return results(d)


def same(a, b, what):
    for k in ('corr', 'value', 'sim_mat', 'second_axis'):
        ck_close(getattr(a, k), getattr(b, k), f'{what}: {k}', rtol=1e-9,
                 atol=1e-9)
    ck(list(a.stats.corr_start) == list(b.stats.corr_start)
       and list(a.stats.corr_end) == list(b.stats.corr_end),
       f'{what}: times')


@sub(hist, quick=220, shards=4, rule='several windows with different change '
     'and noise-free data')
def known_change(c, ctx):
    o, combos, eps, first, inc = setup(c)
    n = c['nwin']
    with scratch() as d:
        short = ('X', 'SS', 'X', 'ST', ('HHZ', 'HHZ'), [
            (first, np.arange(321.))], None) if c['short'] else None
        res = run(d, o, combos, c['order'], short)
    names = {code(x) for x in combos}
    ck(set(res) == names, f'results for {sorted(res)}, expected '
       f'{sorted(names)}')
    wl = o['dv']['win_len']
    starts = [first + i*inc for i in range(n)]
    for x, e in zip(combos, eps):
        dv = res[code(x)]
        st_ = list(np.ravel(dv.stats.corr_start))
        en_ = list(np.ravel(dv.stats.corr_end))
        ck(len(st_) == n and all(abs(a - b) < 1e-4 for a, b in zip(
            st_, starts)), f'windows start at {st_}, expected {starts}')
        ck(all(abs(a - b - wl) < 1e-4 for a, b in zip(en_, starts)),
           f'windows end at {en_}, length {wl}')
        ck(len(dv.value) == n == len(dv.corr) and dv.sim_mat.shape == (
            n, c['steps']), 'shapes')
        ck_close(dv.second_axis, np.linspace(-c['rg'], c['rg'], c['steps']),
                 'stretch axis', atol=1e-9)
        # what each window contains
        exp = []
        for w in range(n):
            v = [e[w]]
            if c['over'] and w + 1 < n:
                v.append(e[w+1])
            v = [q for q in v if q is not None]
            exp.append(sum(v)/len(v) if v else None)
        skip = n-1 if c['over'] and c['outside'] else None
        for w in range(n):
            if w == skip:
                continue
            miss = exp[w] is None
            ck(np.isnan(dv.value[w]) == miss and np.isnan(
                dv.corr[w]) == miss, f'window {w} with{"out" * miss} data: '
               f'value {dv.value[w]}, coefficient {dv.corr[w]}')
        ok = [w for w in range(n) if exp[w] is not None and w != skip]
        step = 2*c['rg']/(c['steps'] - 1)
        if c['noise'] or not ok:
            continue
        # the reference is arbitrary up to a constant
        off = np.median([dv.value[w] - exp[w] for w in ok])
        tol = 1.6*step if not c['over'] else 1.6*step + .05*c['rg']
        if c['ref'] == 'multi':
            tol += 1.5*step
        for w in ok:
            ck(abs(dv.value[w] - exp[w] - off) <= tol, 'values '
               f'{np.round(dv.value, 5)} do not follow the change {exp} '
               f'(window {w}, step {step:.5f})')
            ck(dv.corr[w] > .9, f'coefficient {dv.corr[w]}')
        ck(abs(off) <= .36*c['rg'] + tol, f'offset {off}')
        if len(ok) > 1 and np.ptp([exp[w] for w in ok]) > 3*step:
            ctx.nt()
    ctx.label(c['ref'])


@sub(st.fixed_dictionaries(dict(
    seed=seeds, n=si(5, 8), t0=st.sampled_from([0., 2., 5.25, 9., 15.]),
    tl=st.sampled_from([8., 11.5, 15., None]), sides=st.sampled_from(
        ['both', 'both', 'left', 'right']), steps=st.sampled_from([11, 21]),
    flips=st.lists(st.tuples(si(0, 7), st.floats(-40, 38), st.floats(2, 20)),
                   min_size=1, max_size=2, unique_by=lambda x: x[0]))),
    quick=60, shards=2, rule='a part of the lag window differs')
def lag_window(c, ctx):
    """Similarities are those of the configured lags and sides."""
    t0 = UTCDateTime(T0)
    lag = np.arange(-160, 161)/4
    base = Base(c['seed'])(lag*4)
    rows = [base.copy() for _ in range(c['n'])]
    for i, a, ln in c['flips']:
        # smoothly reversed between two lags
        f = np.tanh((lag - a)/.5) - np.tanh((lag - a - ln)/.5)
        rows[i % c['n']] *= 1 - f
    o = options('', start_date=str(t0), end_date=str(t0 + c['n']*H),
                date_inc=H, win_len=H, stretch_range=.02,
                stretch_steps=c['steps'], sides=c['sides'],
                tw_start=c['t0'], tw_len=c['tl'], freq_min=.0005,
                freq_max=1.95)
    o['dv']['dt_ref']['method'] = 'median'
    x = (*STATIONS[0], *STATIONS[2], ('HHZ', 'HHZ'), [
        (t0 + k*H, r) for k, r in enumerate(rows)], None)
    with scratch() as d:
        dv = run(d, o, [x])[code(x)]
    end = c['t0'] + (c['tl'] or 40 - c['t0'])
    k = dict(both=np.abs(lag), left=-lag, right=lag)[c['sides']]
    m = (k >= c['t0'] - 1e-6) & (k < end - 1e-6)
    want = [r[m]@base[m]/np.sqrt(np.sum(r[m]**2)*np.sum(base[m]**2))
            for r in rows]
    ck_close(dv.sim_mat[:, c['steps']//2], np.array(want),
             'similarities without change', atol=.05)
    if min(want) < .9:
        ctx.nt()
    ctx.label(c['sides'])
    if c['tl'] is None:
        ctx.label('no length')


@sub(hist, quick=80, shards=2, rule='several combinations or any order')
def independent(c, ctx):
    """Each result is what the combination alone gives, in any order."""
    o, combos, eps, first, inc = setup(c)
    with scratch() as d:
        res = run(d, o, combos, c['order'])
    with scratch() as d:
        q = c['order'] % len(combos)
        r2 = run(d, o, combos[q:q+1])
    k = code(combos[q])
    ck(set(r2) == {k}, f'results {set(r2)}')
    ck(k in res, f'no result for {k}')
    same(res[k], r2[k], 'alone')
    # a second run of the same database gives the same results
    # time stamps only move the result
    o2 = copy.deepcopy(o)
    for a in ('start_date', 'end_date'):
        o2['dv'][a] = str(UTCDateTime(o['dv'][a]) + 86400*31)
    moved = [(*x[:5], [(t + 86400*31, y) for t, y in x[5]], x[6])
             for x in combos[q:q+1]]
    with scratch() as d:
        r3 = run(d, o2, moved)[k]
    ck_close(r3.value, r2[k].value, 'moved by a month: value', atol=1e-9)
    ck_close(r3.corr, r2[k].corr, 'moved by a month: coefficient',
             atol=1e-9)
    ctx.nt()


@sub(st.fixed_dictionaries(dict(
    h=hist, win=si(1, 5), thr=st.one_of(st.none(), st.floats(0, .9)),
    pop=si(0, 7), kind=st.sampled_from(['post', 'pop', 'time', 'bulk']))),
    quick=60, shards=2, rule='any')
def processing(c, ctx):
    """Configured processing does what the functions do."""
    h = dict(c['h'], outside=False, short=False)
    o, combos, eps, first, inc = setup(h)
    combos = combos[:1]
    k = code(combos[0])
    o2 = copy.deepcopy(o)
    if c['kind'] == 'post':
        o2['dv']['postprocessing'] = [dict(
            function='smooth_sim_mat', args=dict(
                win_len=c['win'], exclude_corr_below=c['thr']))]
        with scratch() as d:
            ref = run(d, o, combos)[k]
        quiet(lambda: ref.smooth_sim_mat(c['win'], c['thr']))
        with scratch() as d:
            got = run(d, o2, combos)[k]
    elif c['kind'] == 'bulk':
        # one side of symmetric correlations is all of them
        o2['dv']['preprocessing'] = [dict(function='mirror', args={})]
        o['dv']['sides'], o2['dv']['sides'] = 'right', 'single'
        x = combos[0]
        sym = [(*x[:5], [(t, y + y[::-1]) for t, y in x[5]], x[6])]
        with scratch() as d:
            got = run(d, o2, sym)
        with scratch() as d:
            ref = run(d, o, sym)[k]
        ck(k in got, 'no result with mirrored correlations')
        got = got[k]
        ck(np.isnan(got.value).tolist() == np.isnan(ref.value).tolist(),
           'mirrored: missing windows')
        if h['ref'] not in ('multi', 'similarity_percentile'):
            step = 2*h['rg']/(h['steps'] - 1)
            ck_close(got.value, ref.value, 'mirrored: value',
                     atol=1.01*step)
            ck_close(got.corr, ref.corr, 'mirrored: coefficient', atol=.02)
        ctx.label('mirror')
        return
    else:
        rows = combos[0][5]
        if c['kind'] == 'pop':
            bad = {c['pop'] % len(rows)}
            ut = np.array([rows[i][0] + 10 for i in bad])
            o2['dv']['preprocessing'] = [dict(
                function='pop_at_utcs', args=dict(utcs=ut))]
        else:
            bad = {i for i, (t, _) in enumerate(rows)
                   if not 0 <= t.hour < 12}
            o2['dv']['preprocessing'] = [dict(
                function='select_time', args=dict(
                    start=(0, 0, 0), end=(18, 0, 1)))]
            # both ends of each correlation have to be inside
            bad = {i for i, (t, _) in enumerate(rows)
                   if t.hour*3600 + H > 18*3600 + 1}
        left = [r for i, r in enumerate(rows) if i not in bad]
        if not left:
            raise Skip()
        with scratch() as d:
            ref = run(d, o, [(*combos[0][:5], left, None)])[k]
        with scratch() as d:
            got = run(d, o2, combos)
            ck(k in got, 'no result')
            got = got[k]
    same(got, ref, c['kind'])
    ctx.nt()
    ctx.label(c['kind'])


comp = st.sampled_from([(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (1, 2),
                        (0, 2)])
avs = st.fixed_dictionaries(dict(
    seed=seeds, combos=st.lists(st.tuples(
        si(0, 4), st.one_of(st.none(), si(0, 4)),
        st.lists(comp, min_size=2, max_size=5, unique=True)),
        min_size=1, max_size=3),
    method=st.sampled_from(['AutoComponents', 'CrossComponents',
                            'StationWide', 'CrossStations',
                            'betweenComponents', 'betweenstations']),
    method2=st.sampled_from([None, 'AutoComponents', 'CrossComponents',
                             'StationWide', 'CrossStations']),
    dir=st.sampled_from(['proj', 'a.b', 'naval-data', 'av']), twice=st.booleans(),
    miss=st.lists(st.tuples(si(0, 8), si(0, 4)), max_size=8)))


def selected(method, x):
    st_same = (x[0], x[1]) == (x[2], x[3])
    comp_same = x[4][0] == x[4][1]
    m = method.lower()
    if m == 'autocomponents':
        return st_same and comp_same
    if m in ('crosscomponents', 'betweencomponents'):
        return st_same and not comp_same
    if m == 'stationwide':
        return st_same
    return not st_same


@sub(avs, quick=200, shards=2, rule='at least one average of two results')
def averages(c, ctx):
    """Averages over components contain exactly the requested results."""
    from vlib.dvs import mkdv
    r = rng(c['seed'])
    axis = np.linspace(-.02, .02, 15)
    ids, dvs = [], []
    for q, (i, j, (a, b)) in enumerate(
            (i, j, k) for i, j, ll in c['combos'] for k in ll):
        j = i if j is None else j
        i, j = min(i, j), max(i, j)
        x = (*STATIONS[i], *STATIONS[j], (CH[a], CH[b]))
        if x in ids:
            continue
        m = r.uniform(0, 1, (5, 15))
        for y, z in c['miss']:
            if y == q:
                m[z] = np.nan
        ids.append(x)
        dvs.append(mkdv(m, axis, codes=(f'{x[0]}-{x[2]}', f'{x[1]}-{x[3]}',
                                        '-'.join(x[4]))))
    with scratch() as d0:
        d = os.path.join(d0, c['dir'])
        o = options(d, start_date='2010-01-01', end_date='2010-01-06',
                    date_inc=86400, win_len=86400)
        os.makedirs(os.path.join(d, 'vel'))
        for x, dv in zip(ids, dvs):
            dv.save(os.path.join(d, 'vel', 'DV-' + code(x)))
        exp = {}
        for meth in (c['method'], c['method2']):
            if not meth:
                continue
            for _ in range(1 + c['twice']):
                quiet(lambda: mo.Monitor(o).compute_components_average(meth))
            suf = {'autocomponents': 'av-auto', 'crosscomponents': 'av-xc',
                   'betweencomponents': 'av-xc'}.get(meth.lower(), 'av')
            groups = {}
            for x, dv in zip(ids, dvs):
                if selected(meth, x):
                    groups.setdefault(x[:4], []).append(dv)
            for g, ll in groups.items():
                if len(ll) > 1:
                    k = f'{g[0]}-{g[2]}.{g[1]}-{g[3]}.{suf}'
                    exp.setdefault(k, ll)
        res = results(d)
    av = {k: v for k, v in res.items() if k.split('.')[-1][:2] == 'av'}
    ck(set(av) == set(exp), f'{c["method"]}, {c["method2"]} in '
       f'{c["dir"]}: averages {sorted(av)}, expected {sorted(exp)} for '
       f'{[code(x) for x in ids]}')
    for k, ll in exp.items():
        m = naive_mean([x.sim_mat for x in ll])
        co, v = naive_max(m, axis)
        ck_close(av[k].sim_mat, m, k + ': similarity', atol=1e-12)
        ck_close(av[k].value, v, k + ': value', atol=1e-12)
        ck_close(av[k].corr, co, k + ': coefficient', atol=1e-12)
        ctx.nt()
    for x, dv in zip(ids, dvs):
        ck_close(res[code(x)].sim_mat, dv.sim_mat, 'single result changed',
                 atol=1e-12)


sel = st.fixed_dictionaries(dict(
    files=st.lists(st.tuples(si(0, 4), si(0, 4), st.booleans()), min_size=1,
                   max_size=8, unique=True),
    net=st.one_of(st.sampled_from(['*', 'X', 'X*', 'Y', '?']), st.lists(
        st.sampled_from(['X', 'X*', 'Y', 'XY', 'Q']), min_size=1,
        max_size=3)),
    sta=st.one_of(st.sampled_from(['*', 'A1', 'A*', 'A?', 'B']), st.lists(
        st.sampled_from(['A1', 'A1?', 'B', 'A10', '*', 'Q']), min_size=1,
        max_size=3))))


@sub(sel, quick=400, rule='some but not all files selected')
def selection(c, ctx):
    """Exactly the combinations of requested stations are monitored."""
    def ok(v, pat):
        return any(fnmatch.fnmatchcase(v, p) for p in (
            [pat] if isinstance(pat, str) else pat))
    with scratch() as d:
        want = set()
        names = set()
        for i, j, sep in c['files']:
            i, j = min(i, j), max(i, j)
            (n0, s0), (n1, s1) = STATIONS[i], STATIONS[j]
            f = f'{n0}-{n1}.{s0}-{s1}' + ('.--.HHZ-HHZ' if sep else '') \
                + '.h5'
            open(os.path.join(d, f), 'w').close()
            names.add(f)
            if all(ok(n, c['net']) for n in (n0, n1)) and all(
                    ok(s, c['sta']) for s in (s0, s1)):
                want.add((f'{n0}-{n1}', f'{s0}-{s1}', f))
        open(os.path.join(d, 'other.txt'), 'w').close()
        n, s, f = mo.corr_find_filter(d, dict(
            network=c['net'], station=c['sta'], component='*'))
        got = set(zip(n, s, [os.path.basename(x) for x in f]))
        ck(all(os.path.exists(x) for x in f), 'paths')
    ck(len(n) == len(s) == len(f) == len(got) and got == want,
       f'{c["net"]} {c["sta"]}: selected {sorted(got)}, expected '
       f'{sorted(want)}')
    if want and len(want) < len(names):
        ctx.nt()


@sub(st.fixed_dictionaries(dict(
    t=si(0, 2*10**9), n=si(1, 400), inc=st.one_of(
        si(1, 10**6), st.sampled_from([.5, .25, 3600, 86400])),
    rest=st.floats(.01, 1), win=st.one_of(si(1, 10**6),
                                          st.sampled_from([.5, 7200])),
    bad=si(0, 5))), quick=400, rule='more than one window')
def windows(c, ctx):
    """Measurement windows start at each increment before the end."""
    a = UTCDateTime(c['t'])
    e = a + (c['n'] - 1 + c['rest'])*c['inc']
    if c['bad'] == 0:
        expect_raises((ValueError,), lambda: mo.make_time_list(
            str(e), str(a), c['inc'], c['win']), 'end before start')
        expect_raises((ValueError,), lambda: mo.make_time_list(
            str(a), str(e), -c['inc'], c['win']), 'negative increment')
        expect_raises((ValueError,), lambda: mo.make_time_list(
            str(a), str(e), c['inc'], 0), 'no length')
    s, t = mo.make_time_list(str(a), str(e), c['inc'], c['win'])
    # the end may lie on an increment up to rounding
    ck(len(s) == len(t) and len(s) in (c['n'], c['n'] + (c['rest'] > .999)),
       f'{len(s)} windows, expected {c["n"]}')
    ck_close(s[:c['n']], a.timestamp + np.arange(c['n'])*c['inc'], 'starts',
             rtol=0, atol=1e-5)
    ck_close(t - s, np.full(len(s), float(c['win'])), 'length', rtol=0,
             atol=1e-5)
    ck(np.all(s < e.timestamp + 1e-5), 'window after the end')
    if c['n'] > 1:
        ctx.nt()


@sub(hist, quick=60, shards=2, rule='any')
def limits(c, ctx):
    """Lag windows longer than the correlations are refused."""
    h = dict(c, outside=False, short=False)
    o, combos, eps, first, inc = setup(h)
    combos = combos[:1]
    x = combos[0]
    net, sta = f'{x[0]}-{x[2]}', f'{x[1]}-{x[3]}'
    cha = '-'.join(x[4])
    args = ('subdivision', net, sta, cha)
    with scratch() as d:
        o['proj_dir'] = d
        quiet(lambda: store(d, o, combos))
        f = glob.glob(os.path.join(d, 'corr', '*.h5'))[0]
        bad = copy.deepcopy(o)
        bad['dv']['tw_start'] = 25.
        bad['dv']['tw_len'] = 16.
        m = quiet(lambda: mo.Monitor(bad))
        expect_raises((ValueError,), lambda: quiet(
            lambda: m.compute_velocity_change(f, *args)),
            'a lag window beyond the end of the correlations')
        ck(not results(d), 'refused, but a result was written')
        # all of the correlation
        whole = copy.deepcopy(o)
        whole['dv']['tw_len'] = None
        m = quiet(lambda: mo.Monitor(whole))
        quiet(lambda: m.compute_velocity_change(f, *args))
        a = results(d)[code(x)]
    ck(a.dv_processing.get('tw_len', 0) is None, 'notes of a window up to '
       f'the end: {a.dv_processing}')
    explicit = copy.deepcopy(o)
    explicit['dv']['tw_len'] = 40. - o['dv']['tw_start']
    with scratch() as d:
        b = run(d, explicit, combos)[code(x)]
    if not c['noise']:
        same(a, b, 'window up to the end of the correlation')
    ctx.nt()


@sub(st.fixed_dictionaries(dict(
    h=hist, lon=st.floats(.01, .2), e=st.tuples(si(-4000, 4000), si(
        -4000, 4000)), v=st.floats(.4, 8), known=si(0, 3))), quick=60,
    shards=2, rule='travel time of at least one second')
def travel_time(c, ctx):
    """The lag window starts after the travel time of the wave."""
    h = dict(c['h'], outside=False, short=False)
    o, combos, eps, first, inc = setup(h)
    o['dv']['tw_start'] = min(o['dv']['tw_start'], 2.)
    x = combos[0]
    pos = (c['lon'], *c['e']) if c['known'] else None
    combos = [(*x[:6], pos)]
    tt = 0
    if pos:
        d = math.hypot(6378.137*math.radians(c['lon']),
                       (c['e'][0] - c['e'][1])/1000)/c['v']
        tt = math.floor(d + .5)
        if abs(d + .5 - round(d + .5)) < 1e-2:
            raise Skip()
    o2 = copy.deepcopy(o)
    o['dv'].update(compute_tt=True, rayleigh_wave_velocity=c['v'])
    o2['dv']['tw_start'] += tt
    with scratch() as d:
        got = run(d, o, combos)
    with scratch() as d:
        ref = run(d, o2, combos)
    fits = o2['dv']['tw_start'] + o['dv']['tw_len'] <= 40
    ck(bool(got) == fits == bool(ref), f'travel time {tt}: results '
       f'{set(got)}, {set(ref)}')
    if fits:
        same(got[code(x)], ref[code(x)], f'travel time {tt}')
        if tt:
            ctx.nt()


wfs = st.fixed_dictionaries(dict(
    h=hist, f=st.sampled_from([(.1, 1.), ([.1, .3], [.4, 1.2]),
                              ([.3, .1, .2], [1.2, .4, .8])]),
    tw=st.sampled_from([(2., 10.), ([0., 5.], 10.), ([1., 8.], [9., 12.])]),
    multi=st.booleans()))


@sub(wfs, quick=60, shards=2, rule='at least two components of a pair')
def coherence(c, ctx):
    """Coherences are averaged over the components of a combination."""
    h = dict(c['h'], outside=False, short=False, steps=61)
    # several components of the first pair
    q = h['combos'][0]
    h['combos'] = h['combos'] + [
        x for x in ((q[0], q[1], 1, 2), (q[0], q[1], 3, 3))
        if x not in h['combos']]
    o, combos, eps, first, inc = setup(h)
    o['wfc'].update({k: o['dv'][k] for k in (
        'start_date', 'end_date', 'win_len', 'date_inc')})
    o['wfc'].update(freq_min=c['f'][0], freq_max=c['f'][1],
                    tw_start=c['tw'][0], tw_len=c['tw'][1])
    if c['multi']:
        o['wfc']['dt_ref'] = dict(win_inc=1, method='mean', percentile=50)

    def ll(x):
        return x if isinstance(x, list) else [x]
    bands = list(zip(ll(c['f'][0]), ll(c['f'][1])))
    tws = ll(c['tw'][0])
    tl = c['tw'][1] if isinstance(c['tw'][1], list) else [c['tw'][1]]*len(
        tws)
    n = h['nwin']
    with scratch() as d:
        o['proj_dir'] = d
        quiet(lambda: store(d, o, combos, order=h['order']))
        quiet(lambda: mo.Monitor(o).compute_waveform_coherence_bulk())
        res = {os.path.basename(f)[4:-4]: read_wfc(f)
               for f in glob.glob(os.path.join(d, 'wfc', '*.npz'))}
        # only the averages
        o['wfc'].update(save_comps=False, subdir='avonly')
        av = None
        if h['seed'] % 3 == 0:
            quiet(lambda: mo.Monitor(o).compute_waveform_coherence_bulk())
            av = coherences(d, 'avonly')
    names, groups = set(), {}
    for x in combos:
        for f0, f1 in bands:
            for t0, t1 in zip(tws, tl):
                suf = 'f%a-%a.tw%a-%a' % (f0, f1, t0, t1)
                names.add(code(x) + '.' + suf)
                groups.setdefault(
                    f'{x[0]}-{x[2]}.{x[1]}-{x[3]}.av.{suf}', []).append(
                        code(x) + '.' + suf)
    ck(set(res) == names | set(groups), f'files {sorted(res)}, expected '
       f'{sorted(names | set(groups))}')
    if av is not None:
        ck(set(av) == set(groups), f'files without single results '
           f'{sorted(av)}, expected {sorted(groups)}')
        for k in groups:
            same_wfc(av[k], res[k], f'{k} without single results')
        ctx.label('averages only')
    for x, e in zip(combos, eps):
        for k in names:
            if not k.startswith(code(x) + '.'):
                continue
            w = res[k]
            for v in w.values():
                ck(v.shape == (1, n), f'{k}: shape {v.shape}')
                miss = [e[i] is None and not (
                    h['over'] and i + 1 < n and e[i+1] is not None)
                    for i in range(n)]
                if not c['multi']:
                    ck(np.isnan(v[0]).tolist() == miss, f'{k}: coherence '
                       f'{v} for missing windows {miss}')
                ck(np.all(np.abs(v[v == v]) <= 1 + 1e-6), 'coherence > 1')
            ck([abs(a - first - i*inc) < 1e-4 for i, a in enumerate(
                w.stats.corr_start)] == [True]*n, f'{k}: times')
    for k, gl in groups.items():
        g = [res[q] for q in gl]
        for r in res[k]:
            ck_close(res[k][r][0], naive_mean([x[r] for x in g])[0],
                     f'{k}: average over components', atol=1e-9)
        ck(set(res[k]) == set(g[0]), 'references')
        if len(g) > 1:
            ctx.nt()


def wfc_options(o, h, f, tw, multi):
    o['wfc'].update({k: o['dv'][k] for k in (
        'start_date', 'end_date', 'win_len', 'date_inc')})
    o['wfc'].update(freq_min=f[0], freq_max=f[1], tw_start=tw[0],
                    tw_len=tw[1])
    if multi:
        o['wfc']['dt_ref'] = dict(win_inc=1, method='mean', percentile=50)


def coherences(d, sub='wfc'):
    return {os.path.basename(f)[4:-4]: read_wfc(f)
            for f in glob.glob(os.path.join(d, sub, '*.npz'))}


def same_wfc(a, b, what, tol=1e-9):
    ck(set(a) == set(b), f'{what}: references {set(a)}, {set(b)}')
    for k in a:
        ck_close(a[k], b[k], f'{what}: {k}', rtol=tol, atol=tol)
    ck(list(a.stats.corr_start) == list(b.stats.corr_start)
       and list(a.stats.corr_end) == list(b.stats.corr_end),
       f'{what}: times')


@sub(st.fixed_dictionaries(dict(
    w=wfs, prep=st.lists(st.sampled_from(['pop', 'time', 'smooth', 'mirror',
                                          'taper', 'envelope', 'trim', 'rate']),
                         max_size=2, unique=True), pop=si(0, 9))), quick=60,
    shards=3, rule='several bands or lag windows, or processing')
def coherence_value(case, ctx):
    """Each coherence is that of its own band, window and processing."""
    c = case['w']
    h = dict(c['h'], outside=False, short=False, steps=61, noise=.3)
    o, combos, eps, first, inc = setup(h)
    wfc_options(o, h, c['f'], c['tw'], c['multi'])
    prep = []
    for p in case['prep']:
        prep.append({
            'pop': dict(function='pop_at_utcs', args=dict(utcs=np.array(
                [combos[0][5][case['pop'] % len(combos[0][5])][0] + 10]))),
            'time': dict(function='select_time', args=dict(
                start=(0, 0, 0), end=(18, 0, 1))),
            'smooth': dict(function='smooth', args=dict(wsize=2*inc + 2,
                                                        wtype='hanning')),
            'mirror': dict(function='mirror', args={}),
            'taper': dict(function='taper', args=dict(width=4.)),
            'trim': dict(function='trim', args=dict(
                starttime=-25 - .25*case['pop'], endtime=29.)),
            'rate': dict(function='resample_time_axis', args=dict(freq=2.)),
            'envelope': dict(function='envelope', args={})}[p])
    prep = [p for p in prep if p['function'] not in ('smooth', 'mirror')]
    o['wfc']['preprocessing'] = prep
    with scratch() as d:
        o['proj_dir'] = d
        quiet(lambda: store(d, o, combos, order=h['order']))
        quiet(lambda: mo.Monitor(o).compute_waveform_coherence_bulk())
        res = coherences(d)
        x = combos[case['pop'] % len(combos)]
        net, sta = f'{x[0]}-{x[2]}', f'{x[1]}-{x[3]}'
        f = os.path.join(d, 'corr', f'{net}.{sta}.h5')

        def data():
            with CorrelationDataBase(f, mode='r') as db:
                return db.get_data(net, sta, '-'.join(x[4]), 'subdivision')
        raw = quiet(data)

    def ll(v):
        return v if isinstance(v, list) else [v]
    w = o['wfc']
    tl = ll(c['tw'][1])*(2 if not isinstance(c['tw'][1], list) else 1)
    for f0, f1 in zip(ll(c['f'][0]), ll(c['f'][1])):
        for t0, tlen in zip(ll(c['tw'][0]), tl):
            def naive():
                cst = raw.copy()
                for p in prep:
                    if p['function'] in ('pop_at_utcs', 'select_time'):
                        cst = getattr(cst, p['function'])(**p['args'])
                if not len(cst):
                    return None
                cb = cst.create_corr_bulk(inplace=False)
                cb.data = cb.data/np.max(np.abs(cb.data), axis=1)[:, None]
                cb.resample(*mo.make_time_list(w['start_date'],
                                               w['end_date'], w['date_inc'],
                                               w['win_len']))
                cb.filter((f0, f1))
                for p in prep:
                    if p['function'] not in ('pop_at_utcs', 'select_time'):
                        cb = getattr(cb, p['function'])(**p['args'])
                cb.trim(-(t0 + tlen), t0 + tlen)
                lag = cb.stats.start_lag + np.arange(
                    cb.data.shape[1])/cb.stats.sampling_rate
                ref = np.atleast_2d(cb.extract_multi_trace(
                    **w['dt_ref']).data)
                out = []
                k = np.abs(lag)
                m = (k >= t0 - 1e-9) & (k < t0 + tlen - 1e-9)
                for rf in ref:
                    a, b = cb.data[:, m], rf[m]
                    with np.errstate(all='ignore'):
                        out.append(a@b/np.sqrt(np.sum(a**2, 1)*np.sum(b**2)))
                return np.array(out)
            want = quiet(naive)
            k = code(x) + '.f%a-%a.tw%a-%a' % (f0, f1, t0, tlen)
            if want is None:
                raise Skip()
            ck(k in res, f'no coherence {k}')
            got = res[k]
            for i, v in enumerate(want):
                ck_close(got[f'reftr_{i}'][0], v, f'{k}, processing '
                         f'{case["prep"]}', rtol=1e-6, atol=1e-6)
    if len(ll(c['f'][0])) > 1 or len(ll(c['tw'][0])) > 1 or prep:
        ctx.nt()
    for p in prep:
        ctx.label(p['function'])


@sub(hist, quick=60, shards=2, rule='any')
def amplitude(c, ctx):
    """Loud and quiet correlations weigh the same, both in any units."""
    h = dict(c, outside=False, short=False, noise=.2)
    o, combos, eps, first, inc = setup(h)
    combos = combos[:1]
    x = combos[0]
    r = rng(c['order'])
    sc = [(*x[:5], [(t, y*10**r.uniform(-4, 4)) for t, y in x[5]], x[6])]
    with scratch() as d:
        a = run(d, o, combos)[code(x)]
    with scratch() as d:
        b = run(d, o, sc)[code(x)]
    step = 2*c['rg']/(c['steps'] - 1)
    ck_close(a.corr, b.corr, 'rescaled correlations: coefficient',
             atol=1e-3, rtol=1e-3)
    ok = np.isfinite(a.value)
    ck(ok.tolist() == np.isfinite(b.value).tolist(), 'missing windows')
    # two values may be equally good up to the rounding of the data
    near = np.abs(a.value - b.value)[ok] > 1.01*step
    ck(np.sum(near) <= (len(near) > 3), f'rescaled correlations: '
       f'{a.value} {b.value}')
    ctx.nt()


@sub(st.fixed_dictionaries(dict(h=hist, n=si(2, 4), dist=si(0, 2))),
     quick=6, shards=3, rule='at least two combinations')
def ranks(case, ctx):
    """The number of processes does not matter; options may be a file."""
    h = dict(case['h'], outside=False, short=False, noise=.1)
    q = h['combos'][0]
    h['combos'] = h['combos'] + [
        x for x in ((q[0], q[1], 1, 2), (q[0], q[1], 3, 3), (0, 2, 0, 0))
        if x not in h['combos']]
    o, combos, eps, first, inc = setup(h)
    wfc_options(o, h, ([.1, .3], [.4, 1.2]), ([0., 5.], 10.), False)
    with scratch() as d:
        o['proj_dir'] = os.path.join(d, 'serial')
        quiet(lambda: store(o['proj_dir'], o, combos, order=h['order']))
        m = quiet(lambda: mo.Monitor(copy.deepcopy(o)))
        quiet(m.compute_velocity_change_bulk)
        quiet(m.compute_waveform_coherence_bulk)
        ref, wref = results(o['proj_dir']), coherences(o['proj_dir'])
        p = os.path.join(d, 'parallel')
        os.makedirs(p)
        shutil.copytree(os.path.join(o['proj_dir'], 'corr'),
                        os.path.join(p, 'corr'))
        o['proj_dir'] = p
        f = os.path.join(d, 'params.yaml')
        with open(f, 'w') as fh:
            yaml.dump(o, fh)
        e = dict(os.environ, TMPDIR=d, OMPI_MCA_btl='self,vader,tcp',
                 OMP_NUM_THREADS='1')
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n']
        if shutil.which('mpirun') is None or subprocess.run(
                cmd + ['2', sys.executable, '-c',
                       'from mpi4py import MPI;'
                       'assert MPI.COMM_WORLD.Get_size() == 2'],
                env=e, capture_output=True, timeout=300).returncode:
            raise Skip()
        try:
            r = subprocess.run(
                cmd + [str(case['n']), sys.executable, os.path.join(
                    env.ROOT, 'vlib', 'mpi_mon.py'), f],
                env=e, capture_output=True, text=True, timeout=180)
        except subprocess.TimeoutExpired:
            raise Violation('run with %d processes does not end' % case['n'])
        ck(r.returncode == 0, 'run with', case['n'], 'processes failed:',
           r.stderr[-2000:])
        now, wnow = results(p), coherences(p)
    ck(set(now) == set(ref), f'{case["n"]} processes: {sorted(now)} instead '
       f'of {sorted(ref)}')
    ck(set(wnow) == set(wref), f'{case["n"]} processes: {sorted(wnow)} '
       f'instead of {sorted(wref)}')
    for k in ref:
        same(now[k], ref[k], f'{case["n"]} processes: {k}')
    for k in wref:
        same_wfc(wnow[k], wref[k], f'{case["n"]} processes: {k}')
    ctx.nt(len(combos) > 1)
    ctx.label('%d ranks' % case['n'])
