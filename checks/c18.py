"""C18: time shifts are recovered with the right sign and undone."""
import contextlib
import io
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrBulk
from seismic.correlate.stats import CorrStats
from seismic.monitor.stretch_mod import time_shift_estimate, time_shift_apply

si = st.integers


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


class Ref:
    """Band limited random function of lag (in samples)."""
    def __init__(self, seed, fmax=.1, fmin=.02, m=14):
        r = rng(seed)
        self.f = r.uniform(fmin, fmax, m)
        self.a = r.randn(m)
        self.b = r.randn(m)

    def __call__(self, t):
        x = 2*np.pi*np.multiply.outer(t, self.f)
        return np.cos(x) @ self.a + np.sin(x) @ self.b


def bulk(d, sr, first):
    h = []
    for i in range(len(d)):
        t = UTCDateTime(T0) + i*3600
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location='-', channel='Z-Z',
            sampling_rate=sr, npts=d.shape[1], start_lag=first/sr,
            corr_start=t, corr_end=t + 3600)))
    return quiet(lambda: CorrBulk(d.copy(), statlist=h))


cases = st.fixed_dictionaries(dict(
    seed=seeds, half=si(45, 150), sr=st.sampled_from(
        [1., 2., 4., 5., 10., 12.5, 20., 25., 50.]),
    rg=si(1, 12), steps=si(1, 40), frac=st.booleans(),
    s=st.lists(st.one_of(st.floats(-1, 1), si(0, 80)), min_size=1,
               max_size=5),
    amp=st.lists(st.sampled_from([1, 1, .01, 300]), min_size=5, max_size=5),
    nan=st.lists(si(0, 4), max_size=2), a=st.floats(0, .6),
    b=st.floats(.2, 1), sides=st.sampled_from(['both', 'both', 'single']),
    axis=st.sampled_from(['sym', 'sym', 'left', 'right', 'causal']),
    ref=st.sampled_from(['given', 'given', 'mean']),
    tw=st.sampled_from(['one', 'one', 'none', 'two', 'neg']),
    sim=st.booleans(), scale=st.sampled_from([1, .1]),
    hole=st.lists(si(0, 4), max_size=2)))


def setup(c, odd=True):
    h = c['half']
    n = 2*c['steps'] + 1 if odd else c['steps'] + 1
    rg = c['rg'] - (.5 if c['frac'] and c['rg'] > 1 else 0)
    grid = np.linspace(-rg, rg, n)
    s = np.array([x*rg if isinstance(x, float) else grid[x % n]
                  for x in c['s']])
    if c['ref'] == 'mean':
        s[:] = s[0]
    lo, hi = -h, h
    if c['axis'] == 'left':
        lo = -h - 1 - c['seed'] % 37
    elif c['axis'] == 'right':
        hi = h + 1 + c['seed'] % 37
    elif c['axis'] == 'causal':
        lo = 0
    t = np.arange(lo, hi + 1)
    miss = np.zeros(len(s), bool)
    for i in c['nan']:
        miss[i % len(s)] = True
    return rg, grid, s, t, Ref(c['seed']), miss


def sims(x, y):
    with np.errstate(all='ignore'):
        return (x @ y.T)/np.sqrt(np.outer((x**2).sum(1), (y**2).sum(1)))


def judge(dv, want, grid, s, miss, c, ctx, sim, width):
    k = len(s)
    corr, value = np.asarray(dv['corr']), np.asarray(dv['value'])
    ck(corr.shape == (k,) and value.shape == (k,), 'shapes', corr.shape,
       value.shape, 'expected', k)
    ck_close(dv['second_axis'], grid, 'axis', 1e-9, 1e-9)
    ck(np.isnan(corr[miss]).all() and np.isnan(value[miss]).all(),
       'missing rows have a value', corr, value)
    ok = ~miss
    ck(np.isfinite(corr[ok]).all() and np.isfinite(value[ok]).all(),
       'value is missing', corr, value)
    ck((np.abs(corr[ok]) <= 1 + 1e-9).all(), 'similarity', corr)
    if sim is not None:
        sim = np.asarray(sim)
        ck(sim.shape == (k, len(grid)), 'shape of the matrix', sim.shape)
        ck(np.isnan(sim[miss]).all(), 'missing rows in the matrix')
        ck_close(sim[ok], want[ok], 'similarity matrix', 0, 4e-2)
        ck_close(corr[ok], sim[ok].max(1), 'coefficient', 1e-9, 1e-12)
        ck_close(value[ok], grid[sim[ok].argmax(1)], 'value is not at the '
                 'maximum', 1e-9, 1e-9)
    ck_close(corr[ok], want[ok].max(1), 'coefficient', 0, 4e-2)
    for i in np.nonzero(ok)[0]:
        j = np.abs(grid - value[i]).argmin()
        ck(abs(grid[j] - value[i]) < 1e-9*c['rg'], 'value is not on the grid')
        ck(want[i, j] >= want[i].max() - 5e-2, 'value', value[i],
           'of true shift', s[i])
    step = grid[1] - grid[0]
    if step < 1.3 and width > 40:
        e = np.abs(value[ok] - s[ok])
        ck((e <= .65*step + 1e-9).all(), 'values', value[ok], 'true shifts',
           s[ok], 'step', step)
        on = ok & (np.abs(s[:, None] - grid).min(1) < 1e-9)
        ck((corr[on] > .99).all(), 'coefficient at the true shift', corr[on])
        ctx.nt(ok.any())
        ctx.label('resolved')
        return True


@sub(cases, quick=2500, rule='grid resolves the similarity maximum',
     shards=2)
def absolute(c, ctx):
    """CorrBulk.measure_shift (window in seconds) and its correction."""
    sr, sides = c['sr'], c['sides']
    if c['axis'] == 'causal' and sides == 'both':
        c = dict(c, axis='sym')
    rg, grid, s, t, ref, miss = setup(c)
    d = np.array([a*ref(t + x) for x, a in zip(s, c['amp'])])
    d[miss] = np.nan
    if c['ref'] == 'mean' and miss.all():
        raise Skip()
    base = ref
    if c['ref'] == 'mean':
        s0 = s[0]
        s = 0*s

        def ref(t):
            return base(t + s0)
    cb = bulk(d, sr, t[0])
    low = 0
    if sides == 'both':
        top = min(-t[0], t[-1])
    else:
        top = t[-1]
        low = t[0]
    r = int(np.ceil(rg))
    low, top = (low + r if sides == 'single' else 0), top - r
    a = int(low + c['a']*(top - low))
    b = min(top, max(a + 10, int(low + c['b']*(top - low))))
    if b - a < 8:
        raise Skip()
    win = [[a, b]]
    if c['tw'] == 'two':
        m = low + 12
        if m > top:
            raise Skip()
        win.append([low, m])
        if c['ref'] == 'given' and m < a:
            # no data in one of the windows, the other one has to do
            for i in c['hole']:
                d[i % len(s), (np.abs(t) if sides == 'both' else t) < m] = 0
                d[miss] = np.nan
                ctx.label('window without data')
            cb = bulk(d, sr, t[0])
    elif c['tw'] == 'none':
        win = None
        if sides == 'both' and t[0] != -t[-1]:
            raise Skip()
    tw = None if win is None else [[x/sr, y/sr] for x, y in win]
    kw = {}
    rt = c['scale']*ref(t)
    if c['ref'] == 'given':
        kw['ref_trc'] = rt
    before = cb.copy()
    dv = quiet(lambda: cb.measure_shift(
        tw=tw, shift_range=rg/sr, shift_steps=len(grid), sides=sides,
        return_sim_mat=c['sim'], **kw))
    ck(np.array_equal(cb.data, before.data, equal_nan=True), 'data altered')
    ck(cb.stats == before.stats, 'header of the data altered')
    ck(dv.value_type == 'shift', 'type')
    ck(list(dv.stats.corr_start) == list(cb.stats.corr_start)
       and list(dv.stats.corr_end) == list(cb.stats.corr_end), 'times')
    want = []
    if win is None:
        win = [[t[0] + r, t[-1] - r]]
    for x, y in win:
        lag = np.arange(x, y)
        if sides == 'both':
            lag = np.concatenate([-lag[::-1], lag])
        want.append(sims(d[:, np.searchsorted(t, lag)],
                         np.array([ref(lag + g) for g in grid])))
    want = quiet(lambda: np.nanmean(want, 0))
    got = dict(corr=dv.corr, value=dv.value*sr,
               second_axis=dv.second_axis*sr)
    res = judge(got, want, grid, s, miss, c, ctx,
                dv.sim_mat if c['sim'] else None,
                win[0][1] - win[0][0] if len(win) == 1 else 0)
    if not res:
        return
    val = np.asarray(dv.value)*sr
    out = quiet(lambda: cb.correct_shift(dv))
    ck(out is cb and cb.data.shape == d.shape
       and cb.stats.npts == d.shape[1], 'shape after correction')
    edge = int(np.ceil(np.nanmax(np.abs(np.append(0, val))))) + 1
    for i in range(len(s)):
        if miss[i]:
            ck(np.isnan(cb.data[i]).all(), 'missing row got data')
            continue
        w = c['amp'][i]*base(t + setup(c)[2][i] - val[i])
        ck_close(cb.data[i][edge:-edge], w[edge:-edge], 'corrected for a '
                 'shift of %g samples' % val[i], 0, 8e-2*np.abs(w).max())
        ctx.label('corrected')
    again = quiet(lambda: cb.measure_shift(
        tw=[[max(win[0][0], 0)/sr, (win[0][1] - edge)/sr]], shift_range=rg/sr,
        shift_steps=len(grid), sides=sides, ref_trc=rt)) \
        if win[0][1] - edge - max(win[0][0], 0) > 40 and c['sides'] == 'both' else None
    if again is not None:
        v = np.asarray(again.value)[~miss]*sr
        ck((np.abs(v) <= grid[1] - grid[0] + 1e-9).all(),
           'a shift remains after the correction', v)
        ctx.label('again')


@sub(cases, quick=1500, rule='grid resolves the similarity maximum')
def clock(c, ctx):
    """Shifts in samples: matrix and plain arrays, and their correction."""
    rg, grid, s, t, ref, miss = setup(dict(
        c, frac=False, ref='given',
        axis='sym' if c['axis'] == 'causal' and c['sides'] == 'both'
        else c['axis']), c['sim'])
    single = c['sides'] == 'single'
    d = np.array([a*ref(t - x) for x, a in zip(s, c['amp'])])
    d[miss] = np.nan
    rt = ref(t)*c['scale']
    top = min(-t[0], t[-1]) if t[0] else t[-1]
    if single:
        top = t[-1]
    top -= int(rg) + 1
    a = max(int(c['a']*top), int(rg) + 1 if single else 0)
    b = min(top, max(a + 12, int(c['b']*top)))
    win = np.arange(a, b)
    if len(win) < 8:
        raise Skip()
    lag = win
    if not single:
        lag = np.concatenate([-win[::-1], win[win != 0]])
    want = sims(d[:, np.searchsorted(t, lag)],
                np.array([ref(lag - g) for g in grid]))
    if c['tw'] == 'one' or t[0] not in (0, -t[-1]) or (t[0] == 0) != single:
        cb = bulk(d, c['sr'], t[0])
        before = cb.copy()
        r2 = rt.copy()
        dv = quiet(lambda: cb.find_clock_shift(
            rt, [win], rg, len(grid), 'right' if single else 'both',
            c['sim']))
        ck(np.array_equal(cb.data, before.data, equal_nan=True),
           'data altered')
        ck(cb.stats == before.stats, 'header of the data altered')
        ck(np.array_equal(rt, r2), 'reference altered')
        ck(list(dv.stats.corr_start) == list(cb.stats.corr_start), 'times')
        judge(dict(corr=dv.corr, value=dv.value, second_axis=dv.second_axis),
              want, grid, s, miss, c, ctx, dv.sim_mat if c['sim'] else None,
              len(win))
        ctx.label('matrix')
    else:
        keep = d.copy()
        x = quiet(lambda: time_shift_estimate(
            d, rt, [win], rg, len(grid), single, True))
        ck(np.array_equal(d, keep, equal_nan=True), 'input altered')
        judge(x, want, grid, s, miss, c, ctx, x['sim_mat'], len(win))
    # undo with the negative shift
    e = d[~miss]
    if not len(e):
        return
    keep = e.copy()
    out = quiet(lambda: time_shift_apply(e, -s[~miss], single))
    ck(np.array_equal(e, keep), 'input altered by applying the shift')
    inner = slice(int(rg) + 2, -int(rg) - 2)
    for k, o in zip(np.nonzero(~miss)[0], out):
        w = c['amp'][k]*ref(t)
        ck_close(o[inner], w[inner], 'shift was not undone', 0,
                 8e-2*np.abs(w).max())


@sub(st.fixed_dictionaries(dict(
    seed=seeds, n=si(3, 40), k=si(1, 4), two=st.booleans(),
    single=st.booleans(), bad=st.sampled_from(
        [None, None, None, None, 'rows', 'cols']),
    scale=st.sampled_from([.5, 2, 10]))), quick=800,
    rule='shifts vary along the trace')
def apply(c, ctx):
    """time_shift_apply is linear interpolation, zero outside."""
    r = rng(c['seed'])
    n, k = c['n'], c['k']
    d = r.randn(k, n)
    rows = k + 1 if c['bad'] == 'rows' else k
    cols = n + 2 if c['bad'] == 'cols' else n
    sh = r.randn(rows, cols)*c['scale'] if c['two'] or c['bad'] == 'cols' \
        else r.randn(rows)*c['scale']
    if c['seed'] % 2:
        sh = np.round(sh)
    if c['bad']:
        expect_raises(ValueError, lambda: time_shift_apply(
            d, sh, c['single']), 'shift of the wrong shape')
        return
    out = time_shift_apply(d, sh, c['single'])
    x = np.arange(n)
    for i in range(k):
        p = x - sh[i]
        w = np.interp(p, x, d[i], 0, 0)
        ok = (np.abs(p) > 1e-9) & (np.abs(p - n + 1) > 1e-9)
        ck_close(out[i][ok], w[ok], 'shifted', 1e-9, 1e-9)
    ctx.nt(c['two'])
