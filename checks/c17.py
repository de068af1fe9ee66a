"""C17: velocity changes are recovered with the right sign and undone."""
import contextlib
import io
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrBulk
from seismic.correlate.stats import CorrStats
from seismic.monitor.stretch_mod import (
    time_stretch_estimate, time_stretch_apply, time_windows_creation,
    velocity_change_estimate)

si = st.integers


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


class Ref:
    """Band limited random function of lag (in samples)."""
    def __init__(self, seed, fmax=.1, fmin=.02, m=14):
        r = rng(seed)
        self.f = r.uniform(fmin, fmax, m)
        self.a = r.randn(m)
        self.b = r.randn(m)

    def __call__(self, t):
        x = 2*np.pi*np.multiply.outer(t, self.f)
        return np.cos(x) @ self.a + np.sin(x) @ self.b


def stats_of(n, sr, first, k):
    h = []
    for i in range(k):
        t = UTCDateTime(T0) + i*3600
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location='-', channel='Z-Z',
            sampling_rate=sr, npts=n, start_lag=first/sr, corr_start=t,
            corr_end=t + 3600)))
    return h


def bulk(d, sr, first):
    return quiet(lambda: CorrBulk(
        d.copy(), statlist=stats_of(d.shape[1], sr, first, len(d))))


cases = st.fixed_dictionaries(dict(
    seed=seeds, half=si(40, 160), sr=st.sampled_from(
        [1., 2., 4., 10., 12.5, 20., 25., 50.]),
    rg=st.sampled_from([.005, .02, .05, .1]), steps=st.one_of(si(3, 61), st.sampled_from([21, 41, 81, 121])),
    s=st.lists(st.one_of(st.floats(-1, 1), si(0, 60)), min_size=1,
               max_size=5),
    amp=st.lists(st.sampled_from([1, 1, .01, 300]), min_size=5, max_size=5),
    nan=st.lists(si(0, 4), max_size=2), a=st.floats(0, .6),
    b=st.floats(.2, 1), sides=st.sampled_from(
        ['both', 'both', 'left', 'right', 'single']),
    axis=st.sampled_from(['sym', 'sym', 'sym', 'left', 'right']),
    one=st.booleans(), ref=st.sampled_from(['given', 'given', 'stats',
                                            'attr', 'mean']),
    tw=st.sampled_from(['one', 'one', 'none', 'two']), sim=st.booleans(),
    neg=st.booleans()))


def setup(c):
    """Axis (in samples), data and expected similarity."""
    h = c['half']
    grid = np.linspace(-c['rg'], c['rg'], c['steps'])
    s = np.array([x*c['rg'] if isinstance(x, float)
                  else grid[x % c['steps']] for x in c['s']])
    lo, hi = -h, h
    if c['sides'] == 'single' and c['one']:
        lo = 0
    elif c['axis'] == 'left':
        lo = -h - 1 - c['seed'] % 37
    elif c['axis'] == 'right':
        hi = h + 1 + c['seed'] % 37
    t = np.arange(lo, hi + 1)
    ref = Ref(c['seed'])
    d = np.array([a*ref(t*np.exp(-x)) for x, a in zip(s, c['amp'])])
    miss = np.zeros(len(d), bool)
    for i in c['nan']:
        miss[i % len(d)] = True
    d[miss] = np.nan
    return grid, s, t, ref, d, miss


def window(c, hi=None):
    # only lags at which the stretched reference is known
    top = int((hi or c['half'])*np.exp(-c['rg'])) - 2
    a = int(c['a']*top)
    b = min(top, max(a + 12, int(c['b']*top)))
    return np.arange(a, b)


def expected(ref, d, t, grid, win, sides):
    if sides == 'both':
        lag = np.concatenate([-win[::-1], win[win != 0]])
    elif sides == 'left':
        lag = -win[::-1]
    else:
        lag = win
    x = d[:, np.searchsorted(t, lag)]
    y = np.array([ref(lag*np.exp(-g)) for g in grid])
    with np.errstate(all='ignore'):
        return (x @ y.T)/np.sqrt(np.outer((x**2).sum(1), (y**2).sum(1)))


def judge(dv, want, grid, s, miss, win, c, ctx, sim):
    k = len(s)
    corr, value = np.atleast_1d(dv['corr']), np.atleast_1d(dv['value'])
    ck(corr.shape == (k,) and value.shape == (k,), 'shapes', corr.shape,
       value.shape, 'expected', k)
    ck_close(dv['second_axis'], grid, 'axis', 1e-9, 1e-12)
    ck(np.isnan(corr[miss]).all() and np.isnan(value[miss]).all(),
       'missing rows have a value', corr, value)
    ok = ~miss
    ck(np.isfinite(corr[ok]).all() and np.isfinite(value[ok]).all(),
       'value is missing', corr, value)
    ck((np.abs(corr[ok]) <= 1 + 1e-9).all(), 'similarity', corr)
    if sim is not None:
        sim = sim.reshape(k, len(grid))
        ck(np.isnan(sim[miss]).all(), 'missing rows in the matrix')
        ck_close(sim[ok], want[ok], 'similarity matrix', 0, 2e-2)
        ck_close(corr[ok], sim[ok].max(1), 'coefficient', 1e-9, 1e-12)
        ck_close(value[ok], grid[sim[ok].argmax(1)], 'value is not at the '
                 'maximum', 1e-9, 1e-12)
    ck_close(corr[ok], want[ok].max(1), 'coefficient', 0, 2e-2)
    # value: (almost) best one
    for i in np.nonzero(ok)[0]:
        j = np.abs(grid - value[i]).argmin()
        ck(abs(grid[j] - value[i]) < 1e-9, 'value is not on the grid')
        ck(want[i, j] >= want[i].max() - 2e-2, 'value', value[i],
           'of true stretch', s[i])
    # half a step, if the grid is fine compared to the phase change
    step = grid[1] - grid[0]
    ph = 2*np.pi*.1*win[-1]*step
    if ph < .8 and len(win) > 30:
        e = np.abs(value[ok] - s[ok])
        ck((e <= .62*step + 1e-9).all(), 'values', value[ok], 'true stretch',
           s[ok], 'step', step)
        on = ok & (np.abs(s[:, None] - grid).min(1) < 1e-12)
        ck((corr[on] > .98).all(), 'coefficient at the true stretch',
           corr[on])
        ctx.nt(ok.any())
        ctx.label('resolved')


@sub(cases, quick=3000, rule='grid resolves the similarity maximum',
     shards=3)
def stretch_bulk(c, ctx):
    """CorrBulk.stretch and its correction."""
    if c['ref'] == 'mean':
        # reference is the mean of the matrix
        c = dict(c, s=c['s'][:1]*len(c['s']))
    grid, s, t, ref, d, miss = setup(c)
    if c['ref'] == 'mean':
        base, s0 = ref, s[0]
        s = 0*s

        def ref(t):
            return base(t*np.exp(-s0))
    cb = bulk(d, c['sr'], t[0])
    win = window(c)
    kw = {}
    tw = [win]
    if c['tw'] == 'two':
        tw = [win, np.arange(3, 20)]
    elif c['tw'] == 'none':
        tw = None
    r = ref(t)
    if c['neg']:
        r = r*.1
    if c['ref'] == 'attr':
        cb.ref_trc = r
    elif c['ref'] == 'mean':
        if miss.all():
            raise Skip()
        if c['sim']:
            kw['ref_tr_stats'] = cb.stats.copy()
    else:
        kw['ref_trc'] = r
        if c['ref'] == 'stats':
            kw['ref_tr_stats'] = cb.stats.copy()
    before = cb.copy()
    dv = quiet(lambda: cb.stretch(
        tw=tw, stretch_range=c['rg'], stretch_steps=c['steps'],
        sides=c['sides'], return_sim_mat=c['sim'], **kw))
    ck(np.array_equal(cb.data, before.data, equal_nan=True), 'data altered')
    ck(cb.stats == before.stats, 'header of the data altered')
    if c['ref'] != 'mean':
        ck(np.array_equal(r, kw.get('ref_trc', cb.ref_trc)),
           'reference altered')
    if c['tw'] == 'none':
        # full trace incl. the part where the reference is not known
        v = np.atleast_1d(dv.value)
        ck(v.shape == (len(s),) and np.isnan(v[miss]).all(), 'shape', v)
        return
    want = expected(ref, d, t, grid, win, c['sides'])
    ck(dv.value_type == 'stretch', 'type')
    ck(list(dv.stats.corr_start) == list(cb.stats.corr_start)
       and list(dv.stats.corr_end) == list(cb.stats.corr_end), 'times')
    judge(dict(corr=dv.corr, value=dv.value, second_axis=dv.second_axis),
          want, grid, s, miss, win, c, ctx, dv.sim_mat if c['sim'] else None)
    if c['seed'] % 3 == 0:
        # independent of other rows and of amplitude
        i = c['seed'] % len(s)
        one = bulk(7.*d[i:i + 1], c['sr'], t[0])
        dv1 = quiet(lambda: one.stretch(
            ref_trc=r if c['ref'] != 'mean' else sum(
                c['amp'][k]*r for k in np.nonzero(~miss)[0]),
            tw=[win], stretch_range=c['rg'],
            stretch_steps=c['steps'], sides=c['sides']))
        ck_close(np.atleast_1d(dv1.corr), np.atleast_1d(dv.corr)[i:i + 1],
                 'row on its own', 1e-9, 1e-9)
        ck_close(np.atleast_1d(dv1.value), np.atleast_1d(dv.value)[i:i + 1],
                 'row on its own', 1e-9, 1e-9)
    # correction
    on = np.abs(s[:, None] - np.atleast_1d(dv.value)[:, None]).max(1) < 1e-9
    res = quiet(lambda: cb.correct_stretch(dv))
    ck(res is cb and cb.data.shape == d.shape, 'shape after correction')
    ck(cb.stats.npts == d.shape[1], 'header')
    inner = np.abs(t) < min(-t[0] or np.inf, t[-1])*np.exp(-c['rg']) - 3
    for i in range(len(s)):
        if miss[i]:
            ck(np.isnan(cb.data[i]).all() or (cb.data[i] == 0).all(),
               'missing row got data', cb.data[i])
        elif on[i]:
            # rows were extrapolated by no more than they have
            w = c['amp'][i]*ref(t[inner])
            ck_close(cb.data[i][inner], w, 'corrected row of stretch %g'
                     % s[i], 0, 2e-2*np.abs(w).max())
            ctx.label('corrected')


@sub(cases, quick=2000, rule='grid resolves the similarity maximum',
     shards=2)
def estimate(c, ctx):
    """The functions on plain arrays."""
    c = dict(c, axis='sym', one=True)
    grid, s, t, ref, d, miss = setup(c)
    win = window(c)
    keep = d.copy()
    r = ref(t)
    dv = quiet(lambda: time_stretch_estimate(
        d, r, [win], c['rg'], c['steps'], c['sides']))
    ck(np.array_equal(d, keep, equal_nan=True), 'input altered')
    want = expected(ref, d, t, grid, win, c['sides'])
    judge(dv, want, grid, s, miss, win, c, ctx, np.array(dv['sim_mat']))
    # plain comparison with given stretched references
    mat = np.array([ref(t*np.exp(-g)) for g in grid])
    wins = time_windows_creation([win[0], 0], [len(win), 9])
    ck(np.array_equal(wins[0], win) and np.array_equal(
        wins[1], np.arange(9)), 'windows')
    x = quiet(lambda: velocity_change_estimate(
        d, wins, mat, grid, c['sides'], True))
    sim = np.array(x['sim_mat']).reshape(len(d), len(grid), 2)
    for i in range(2):
        w = expected(ref, d, t, grid, wins[i], c['sides'])
        ck_close(sim[~miss, :, i], w[~miss], 'similarity', 0, 1e-6)
        co = np.array(x['corr']).reshape(2, len(d))[i]
        va = np.array(x['value']).reshape(2, len(d))[i]
        ck_close(co[~miss], w[~miss].max(1), 'coefficient', 0, 1e-6)
        ck(np.isnan(co[miss]).all() and np.isnan(va[miss]).all(), 'missing')
        for k in np.nonzero(~miss)[0]:
            j = np.abs(grid - va[k]).argmin()
            ck(w[k, j] > w[k].max() - 1e-6, 'value')
    # undo with the negative stretch
    full = c['sides'] == 'single'
    d = d[~miss]
    keep = d.copy()
    if not len(d):
        return
    out = quiet(lambda: time_stretch_apply(d, -s[~miss], full))
    ck(out.shape == d.shape, 'shape')
    ck(np.array_equal(d, keep), 'input altered by applying the stretch')
    inner = np.abs(t) < t[-1]*(np.exp(-c['rg']) - .06) - 3
    if full:
        inner &= t > t[-1]*.06 + 3  # tapered as well
    for a, o in zip(np.array(c['amp'])[:len(s)][~miss], out):
        w = a*ref(t[inner])
        ck_close(o[inner], w, 'stretch was not undone', 0,
                 3e-2*np.abs(w).max())
