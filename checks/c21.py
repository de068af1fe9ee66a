"""C21: results survive being saved and loaded."""
from copy import deepcopy

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.dvs import *  # noqa
from vlib.dvs import build as dvbuild, cases as dvcases
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrBulk
from seismic.monitor import monitor as mo
from seismic.monitor.dv import read_dv
from seismic.monitor.wfc import WFCBulk, read_wfc
from seismic.monitor.spatial import DVGrid

si = st.integers


def same(a, b):
    """Deep equality of plain values, arrays, times and lists."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, UTCDateTime) or isinstance(b, UTCDateTime):
        return isinstance(a, UTCDateTime) and isinstance(b, UTCDateTime) \
            and abs(a - b) < 2e-6
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, dict) or isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(
            b, (bool, np.bool_)) and bool(a) == bool(b)
    aa, bb = np.asarray(a), np.asarray(b)
    if aa.dtype.kind in 'OUS' or bb.dtype.kind in 'OUS':
        return np.shape(a) == np.shape(b) and all(
            same(x, y) for x, y in zip(a, b))
    return aa.shape == bb.shape and np.array_equal(aa, bb, equal_nan=True)


ARR = ('corr', 'value', 'sim_mat', 'second_axis', 'stretches', 'corrs',
       'n_stat', 'avail')


def same_header(a, b, what):
    for k in sorted(set(a) | set(b)):
        ok = k in a and k in b and (same(a[k], b[k]) or k in (
            'sampling_rate', 'delta', 'end_lag') and np.isclose(
                a[k], b[k], rtol=1e-12, atol=1e-12))
        ck(ok, f'{what}: header {k} was '
           f'{a.get(k)!r}, is now {b.get(k)!r}')


def same_dv(a, b, what):
    for k in ARR:
        x, y = getattr(a, k), getattr(b, k)
        ck(same(x, y), f'{what}: {k} was {x!r}, is now {y!r}')
    for k in ('method', 'value_type'):
        x, y = (np.ravel(getattr(d, k)).tolist() for d in (a, b))
        ck(same(x, y), f'{what}: {k} was {x!r}, is now {y!r}')
    pa, pb = a.dv_processing or {}, b.dv_processing or {}
    dft = dict(aligned=False, sides='unknown')
    qa, qb = ({**dft, **p} for p in (pa, pb))
    ck(same(qa, qb), f'{what}: processing notes were {pa!r}, are now '
       f'{pb!r}')
    same_header(a.stats, b.stats, what)


def roundtrip(dv, n=1):
    with scratch() as d:
        for i in range(n):
            p = os.path.join(d, f'DV-{i}.npz')
            dv.save(p)
            dv = read_dv(p)
    return dv


proc = st.one_of(st.just({}), st.none(), st.just(dict(
    aligned=.0123)), st.fixed_dictionaries(dict(
    freq_min=st.sampled_from([.1, .123456789, 1]),
    freq_max=st.sampled_from([2, 4.5]), tw_start=st.sampled_from([0, 5, 3.3]),
    tw_len=st.sampled_from([10, 7.5, None])), optional=dict(
        sides=st.sampled_from(['both', 'left', 'single', 'right']),
        aligned=st.sampled_from([False, 0., .0123]))))
synth = st.fixed_dictionaries(dict(
    base=dvcases, proc=proc, nmat=st.booleans(), scat=st.booleans(),
    nst=st.booleans(), micro=si(0, 999999), year=si(1970, 2060),
    coords=st.booleans(), sr=st.sampled_from([1., 4., 10., 3.7]),
    extra=st.lists(st.sampled_from(
        ['taper: 3', 'normalize: a, b', 'x', 'é']), max_size=3),
    vt=st.sampled_from(['stretch', 'shift']), twice=st.booleans(),
    meth=st.sampled_from(['single_ref', 'multi_ref', 'absolute_shift',
                          'time_shift'])))


def make(c):
    dv = dvbuild(dict(c['base'], dvs=[dict(c['base']['dvs'][0], kind='ok')]))[
        0]
    r = rng(c['base']['seed'] + 1)
    n = len(dv.corr)
    dv.value_type, dv.method = c['vt'], c['meth']
    h = dv.stats
    if not c['coords']:
        for k in ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'):
            del h[k]
    t0 = UTCDateTime(c['year'], 3, 4, 5, 6, 7, c['micro'])
    h['corr_start'] = [t0 + 86400.25*i for i in range(n)]
    h['corr_end'] = [t0 + 86400.25*i + 3600.5 for i in range(n)]
    h['sampling_rate'] = c['sr']
    h['npts'] = 201
    h['start_lag'] = -100/c['sr']
    h['processing_bulk'] = list(c['extra'])
    h['ntrcs'] = n
    dv.dv_processing = deepcopy(c['proc'])
    if c['nmat']:
        dv.sim_mat = np.array([])
    if c['scat']:
        dv.stretches, dv.corrs = r.randn(3, n), r.randn(3, n)
        dv.stretches[1, 0] = np.nan
    if c['nst']:
        dv.n_stat = r.randint(0, 5, n)
    return dv


@sub(synth, quick=500, rule='missing values or a single time or optional '
     'parts')
def velocity(c, ctx):
    dv = make(c)
    keep = deepcopy(dv)
    with scratch() as d:
        p = os.path.join(d, 'DV-a.b')
        dv.save(p + '.npz')
        out = quiet(lambda: read_dv(p + '.npz'))
        same_dv(keep, dv, 'saved object itself')
        same_dv(dv, out, 'loaded')
        # wildcards give all results that match
        dv.save(os.path.join(d, 'DV-c.d.npz'))
        dv.save(os.path.join(d, 'XX-c.d.npz'))
        for pat in ('DV-*.npz', 'DV-?.?.npz'):
            ll = quiet(lambda: read_dv(os.path.join(d, pat)))
            ck(isinstance(ll, list) and len(ll) == 2, f'{pat}: {ll}')
            for x in ll:
                same_dv(dv, x, 'loaded by wildcard')
        expect_raises((FileNotFoundError,), lambda: read_dv(
            os.path.join(d, 'nope*')), 'nothing matches')
        # once more
        out.save(os.path.join(d, 'again.npz'))
        same_dv(out, quiet(lambda: read_dv(os.path.join(d, 'again.npz'))),
                'loaded twice')
        # the file given replaces an earlier one
    if not dv.dv_processing:
        dv.dv_processing = {}
        ck(str(dv) == str(out),
           f'description: {dv}; {out}')
    if np.isnan(dv.corr).any() or len(dv.corr) == 1 or c['scat']:
        ctx.nt()
    ctx.label('single time' if len(dv.corr) == 1 else 'many')


ops = st.fixed_dictionaries(dict(
    base=dvcases, which=si(0, 63), win=si(1, 9),
    thr=st.one_of(st.none(), st.floats(-.5, .9)),
    val=st.sampled_from([0, .01, -.02]), steps=si(1, 4),
    shift=si(-3, 3)))


@sub(ops, quick=350, rule='two or more results or a missing time')
def operations(c, ctx):
    """Whatever is done with the results, loading them changes nothing."""
    for d in c['base']['dvs']:
        if d['kind'] == 'av':
            d['kind'] = 'ok'
    a = dvbuild(c['base'])
    a = [dv for i, dv in enumerate(a)]
    b = [roundtrip(dv) if c['which'] >> (i % 6) & 1 else deepcopy(dv)
         for i, dv in enumerate(a)]
    for nm, fn in (
            ('average', lambda x: mo.average_components(x)),
            ('memory-saving', lambda x: mo.average_components_mem_save(
                iter(x))),
            ('by coordinates', lambda x: mo.average_dvs_by_coords(
                [y for y in x if y.sim_mat.shape == x[0].sim_mat.shape],
                (-1, 9), (-1, 9), return_std=True)),
            ('smoothed', lambda x: deepcopy(x[0]).smooth_sim_mat(
                c['win'], c['thr']))):
        x, y = quiet(lambda: fn(a)), quiet(lambda: fn(b))
        same_dv(x, y, nm)
        same_dv(y, quiet(lambda: roundtrip(y)), nm + ' saved and loaded')
    # aligning to a model
    t = a[0].stats.corr_start[len(a[0].value)//2]
    g = DVGrid(0., 0., 1., 0., 0., .5, 1., 10.)

    def align(dvs):
        dvs = [d for d in deepcopy(dvs) if len(d.value) == len(
            dvs[0].value)]
        for d in dvs:
            d.dv_processing = dict(d.dv_processing)
        g.align_dvs_to_grid(dvs, t, c['steps'], -2.)
        return dvs
    for x, y in zip(quiet(lambda: align(a)), quiet(lambda: align(b))):
        same_dv(x, y, 'aligned')
        z = roundtrip(y)
        same_dv(y, z, 'aligned, saved and loaded')
        if x.dv_processing.get('aligned', False) is not False:
            v = z.value.copy()
            quiet(lambda: g.align_dvs_to_grid([z], t, c['steps'], -2.))
            ck(same(v, z.value), 'a result that had been aligned was aligned '
               'again after loading')
            ctx.label('aligned')
    # shifting relative to each other
    x, y = deepcopy(a[0]), deepcopy(b[0])
    ref = deepcopy(a[0])
    if np.any(ref.avail):
        ref.value = ref.value + c['shift']*(
            ref.second_axis[1] - ref.second_axis[0])
        quiet(lambda: mo.correct_dv_shift(x, ref, 'median'))
        quiet(lambda: mo.correct_dv_shift(y, ref, 'median'))
        same_dv(x, y, 'shifted')
    if len(a) > 1 or np.isnan(a[0].corr).any():
        ctx.nt()


STEPS = {
    'trim': lambda b, r: b.trim(-8., 8.),
    'taper': lambda b, r: b.taper(2.),
    'tcenter': lambda b, r: b.taper_center(3., .3),
    'envelope': lambda b, r: b.envelope(),
    'normalize': lambda b, r: b.normalize(normtype='absmax'),
    'clip': lambda b, r: b.clip(1.),
    'filter': lambda b, r: b.filter((.2, .7)),
    'decay': lambda b, r: b.correct_decay(),
    'smooth': lambda b, r: b.smooth(3, axis=0),
    'mirror': lambda b, r: b.mirror(),
    'resample': lambda b, r: b.resample_time_axis(2.)}

real = st.fixed_dictionaries(dict(
    seed=seeds, n=si(1, 6), nan=st.lists(si(0, 5), max_size=2),
    ops=st.lists(st.sampled_from(sorted(STEPS)), max_size=3),
    kind=st.sampled_from(['stretch', 'multi', 'measure', 'clock', 'wfc',
                          'wfc2', 'wfc11']),
    sim=st.booleans(), proc=proc, coords=st.booleans(), loc=st.sampled_from(
        ['-', '00-10']), cal=st.booleans()))


def bulk_of(c):
    r = rng(c['seed'])
    d = np.array([smooth_noise(c['seed'] % 100000, 81, 3)
                  + .1*r.randn(81) for _ in range(c['n'])])
    for i in c['nan']:
        if i < c['n']-1:
            d[i] = np.nan
    h = []
    for i in range(c['n']):
        t = UTCDateTime(T0) + i*3600 + .5
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location=c['loc'], channel='Z-Z',
            sampling_rate=4., npts=81, start_lag=-10.,
            corr_start=t, corr_end=t + 3600)))
        if c['coords']:
            h[-1].update(dict(stla=1.5, stlo=2.5, stel=0., evla=3.5,
                              evlo=4.5, evel=100., dist=3.3, az=10.,
                              baz=190.))
    b = CorrBulk(d, statlist=h)
    for o in c['ops']:
        STEPS[o](b, r)
    return b


@sub(real, quick=350, rule='at least one processing step')
def computed(c, ctx):
    """Results computed from processed correlations."""
    b = quiet(lambda: bulk_of(c))
    if c['ops']:
        ctx.nt()
    ctx.label(c['kind'])
    k = c['kind']
    mid = b.data.shape[1]//2
    tw = [np.arange(2, mid-2)]
    ref = np.nanmean(b.data, axis=0)
    if not np.any(ref) or np.isnan(ref).any():
        raise Skip()
    refs = np.vstack((ref, ref + .01*np.arange(len(ref))))
    if k in ('wfc', 'wfc2', 'wfc11'):
        if k == 'wfc11':
            refs = np.array([ref + .01*i*np.arange(len(ref))
                             for i in range(11)])
        w = quiet(lambda: b.wfc(ref if k == 'wfc' else refs, tw, 'single',
                                2., 5.5, .1, .7))
        check_wfc(w, c)
        return
    if k == 'stretch' or k == 'multi':
        dv = quiet(lambda: b.stretch(
            ref if k == 'stretch' else refs, tw=tw, stretch_range=.05,
            stretch_steps=11, sides='single', return_sim_mat=c['sim'] or
            k == 'multi', processing=c['proc']))
    elif k == 'measure':
        dv = quiet(lambda: b.measure_shift(
            ref, tw=[(1., 5.)], shift_range=1., shift_steps=11,
            sides='single', return_sim_mat=c['sim']))
    else:
        dv = quiet(lambda: b.find_clock_shift(
            ref, tw=tw, shift_range=3, shift_steps=11, sides='single',
            return_sim_mat=c['sim']))
    dvs = dv if isinstance(dv, list) else [dv]
    for dv in dvs:
        out = quiet(lambda: roundtrip(dv))
        same_dv(dv, out, k)
        if k in ('stretch', 'multi'):
            x, y = b.copy(), b.copy()
            quiet(lambda: x.correct_stretch(dv))
            quiet(lambda: y.correct_stretch(out))
            ck(same(x.data, y.data), 'correction with the loaded result '
               'differs')
        elif k == 'measure':
            x, y = b.copy(), b.copy()
            quiet(lambda: x.correct_shift(dv))
            quiet(lambda: y.correct_shift(out))
            ck(same(x.data, y.data), 'correction with the loaded result '
               'differs')


def check_wfc(w, c):
    if c['cal']:
        quiet(lambda: w.compute_average())
    with scratch() as d:
        w.save(os.path.join(d, 'WFC-a.npz'))
        out = read_wfc(os.path.join(d, 'WFC-a.npz'))
        many = [read_wfc(os.path.join(d, p))[0] for p in (
            'WFC-*.npz', 'WFC-?.npz')]
        ck(len(many) == 2, 'wildcard')
        for o, nm in ((out, 'loaded'), (many[0], 'by wildcard *'), (
                many[1], 'by wildcard ?')):
            same_wfc(w, o, nm)
        out.save(os.path.join(d, 'again.npz'))
        same_wfc(out, read_wfc(os.path.join(d, 'again.npz')), 'loaded twice')
    quiet(lambda: w.compute_average())
    quiet(lambda: out.compute_average())
    same_wfc(w, out, 'averaged')
    x = quiet(lambda: mo.average_components_wfc([w, w]))
    y = quiet(lambda: mo.average_components_wfc([w, out]))
    same_wfc(x, y, 'components averaged')
    x, y = quiet(lambda: WFCBulk([w])), quiet(lambda: WFCBulk([out]))
    for k in ('wfc', 'lw', 'cfreq'):
        ck(same(getattr(x, k), getattr(y, k)), 'coherence grid ' + k)


def same_wfc(a, b, what):
    ck(set(a.keys()) == set(b.keys()) and all(
        same(a[k], b[k]) for k in a.keys()), f'{what}: coherence {dict(a)} '
       f'is now {dict(b)}')
    ck(set(a.av) == set(b.av) and all(same(a.av[k], b.av[k]) for k in a.av),
       f'{what}: averages {a.av} are now {b.av}')
    ck(same(a.mean, b.mean), f'{what}: mean {a.mean} is now {b.mean}')
    ck(same(dict(a.wfc_processing), dict(b.wfc_processing)),
       f'{what}: notes {a.wfc_processing} are now {b.wfc_processing}')
    same_header(a.stats, b.stats, what)
