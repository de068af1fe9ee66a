"""C19: several references give the consistent joint estimate."""
import contextlib
import io
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrBulk
from seismic.correlate.stats import CorrStats
from seismic.monitor.stretch_mod import (
    multi_ref_vchange, estimate_reftr_shifts_from_dt_corr,
    multi_ref_vchange_and_align, est_shift_from_dt_corr)

si = st.integers


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


class Base:
    """Band limited random function of lag (in samples)."""
    def __init__(self, seed, fmax=.1, fmin=.02, m=14):
        r = rng(seed)
        self.f = r.uniform(fmin, fmax, m)
        self.a = r.randn(m)
        self.b = r.randn(m)

    def __call__(self, t):
        x = 2*np.pi*np.multiply.outer(t, self.f)
        return np.cos(x) @ self.a + np.sin(x) @ self.b


def bulk(d, sr, first):
    h = []
    for i in range(len(d)):
        t = UTCDateTime(T0) + i*3600
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location='-', channel='Z-Z',
            sampling_rate=sr, npts=d.shape[1], start_lag=first/sr,
            corr_start=t, corr_end=t + 3600)))
    return quiet(lambda: CorrBulk(d.copy(), statlist=h))


cases = st.fixed_dictionaries(dict(
    seed=seeds, half=si(60, 160), sr=st.sampled_from([1., 4., 10., 25.]),
    rg=st.sampled_from([.01, .02, .05]), steps=st.sampled_from(
        [21, 40, 41, 61, 81]),
    r=st.lists(st.one_of(st.floats(-1, 1), si(-5, 5)), min_size=1,
               max_size=5),
    many=si(0, 9).map(lambda x: x == 9),
    s=st.lists(st.floats(-1, 1), min_size=1, max_size=6),
    amp=st.lists(st.sampled_from([1, .01, 300]), min_size=12, max_size=12),
    noise=st.sampled_from([0, 0, .05, .2]),
    nan=st.lists(si(0, 5), max_size=2), lost=st.sampled_from(
        [None, None, None, 0, 1, 2]),
    sides=st.sampled_from(['both', 'both', 'left', 'right', 'single']),
    axis=st.sampled_from(['sym', 'sym', 'left', 'right']),
    perm=seeds, sim=st.booleans()))


@sub(cases, quick=1600, rule='two or more references that differ, resolved '
     'by the grid', shards=3)
def joint(c, ctx):
    """Estimates with several references that differ by known stretches."""
    h, rg = c['half'], c['rg']
    grid = np.linspace(-rg, rg, c['steps'])
    step = grid[1] - grid[0]
    # changes of data and references: all within half the range
    r_ = np.array([x/2*rg if isinstance(x, float) else x*2*step
                   for x in c['r']])
    if c['many'] and len(r_) > 2:
        r_ = np.resize(r_, 11 + c['seed'] % 2)
    r_ = np.clip(r_, -rg/2, rg/2)
    s = np.array(c['s'])*rg/2
    lo, hi = -h, h
    if c['axis'] == 'left':
        lo = -h - 7
    elif c['axis'] == 'right':
        hi = h + 12
    t = np.arange(lo, hi + 1)
    base = Base(c['seed'])
    g = rng(c['seed'] + 1)
    sd = np.std(base(t))
    d = np.array([a*(base(t*np.exp(-x)) + c['noise']*sd*g.randn(len(t)))
                  for x, a in zip(s, c['amp'])])
    refs = np.array([a*base(t*np.exp(-x))
                     for x, a in zip(r_, c['amp'][::-1])])
    miss = np.zeros(len(s), bool)
    for i in c['nan']:
        miss[i % len(s)] = True
    d[miss] = np.nan
    have = np.ones(len(r_), bool)
    if c['lost'] is not None and len(r_) > 2:
        have[c['lost'] % len(r_)] = False
        refs[~have] = np.nan
    top = int(h*np.exp(-1.5*rg)) - 2
    win = np.arange(3, top)
    cb = bulk(d, c['sr'], t[0])

    def run(x):
        return quiet(lambda: cb.stretch(
            ref_trc=x, tw=[win], stretch_range=rg, stretch_steps=c['steps'],
            sides=c['sides'], return_sim_mat=True))
    dv = run(refs)
    ck(cb.data.shape == d.shape, 'data altered')
    k = len(s)
    corr, value, sim = dv.corr, dv.value, dv.sim_mat
    ck(corr.shape == (k,) and value.shape == (k,)
       and sim.shape == (k, len(grid)), 'shapes', corr.shape, value.shape,
       sim.shape)
    ck_close(dv.second_axis, grid, 'axis', 1e-9, 1e-12)
    ck(np.isnan(corr[miss]).all() and np.isnan(value[miss]).all(),
       'missing rows have a value', corr, value)
    ok = ~miss
    ck(np.isfinite(corr[ok]).all() and np.isfinite(value[ok]).all(),
       'value is missing', corr, value)
    ck((np.abs(value[ok]) <= rg*(1 + 1e-9)).all(), 'outside of the range')
    ck((np.abs(corr[ok]) <= 1 + 1e-9).all(), 'coefficient', corr)
    ck_close(corr[ok], np.nanmax(sim[ok], 1) if ok.any() else corr[ok],
             'coefficient', 1e-9, 1e-12)
    if ok.any():
        ck_close(value[ok], grid[np.nanargmax(sim[ok], 1)], 'value is not '
                 'at the maximum', 1e-9, 1e-12)
    n = len(refs)
    ck(dv.value_type == 'stretch', 'type')
    # known change relative to the mean of the references
    want = s - r_[have].mean()
    fine = 2*np.pi*.1*win[-1]*step < .8
    if fine and not c['noise']:
        e = np.abs(value[ok] - want[ok])
        tol = 1.7*step if n > 1 else .6*step
        ck((e <= tol).all(), 'values', value[ok], 'expected', want[ok],
           'step', step)
        ck((corr[ok] > (.9 if n > 1 else .97)).all(), 'coefficient',
           corr[ok])
        ctx.nt(n > 1 and ok.any() and np.ptp(r_) > 2*step)
    ctx.label('%s references' % ('1' if n == 1 else '2-5' if n < 6
                                 else 'many'))
    # order of the references
    p = rng(c['perm']).permutation(n)
    dv2 = run(refs[p])
    ck(np.array_equal(np.isnan(dv2.value), miss), 'missing in other order')
    # alignment of the references is rounded to the grid
    tol = 1.01*step if n < 3 else 2.01*step
    ck(c['noise'] or not fine
       or (np.abs(dv2.value[ok] - value[ok]) <= tol).all(),
       'other order of the references', value[ok], dv2.value[ok])
    # several copies of one reference and its amplitude do not matter
    i = int(np.nonzero(have)[0][0])
    one = run(refs[i])
    for x in (refs[i:i + 1], np.array([refs[i], 3*refs[i], .1*refs[i]])):
        y = run(x)
        ck_close(y.corr, one.corr, 'copies of a reference', 1e-9, 1e-9)
        ck_close(y.value, one.value, 'copies of a reference', 1e-9, 1e-9)
    e = np.abs(one.value[ok] - (s - r_[i])[ok])
    if fine and not c['noise']:
        ck((e <= .6*step).all(), 'single reference')


@sub(cases, quick=400, rule='two or more references')
def steps(c, ctx):
    """Separate estimates, their combination, and both in one."""
    h, rg = c['half'], c['rg']
    t = np.arange(-h, h + 1)
    base = Base(c['seed'])
    g = rng(c['seed'] + 1)
    s = np.array(c['s'])*rg
    d = np.array([base(t*np.exp(-x)) + c['noise']*g.randn(len(t))
                  for x in s])
    r_ = [x if isinstance(x, float) else x/10 for x in c['r']]
    refs = np.array([base(t*np.exp(-x*rg)) for x in r_])
    tw = [np.arange(2, int(.9*h))]
    kw = dict(tw=tw, stretch_range=rg, stretch_steps=c['steps'],
              sides=c['sides'] if c['sides'] != 'single' else 'both')
    keep = d.copy(), refs.copy()
    panel = quiet(lambda: multi_ref_vchange(d, refs, **kw))
    ck(sorted(panel) == sorted('reftr_%d' % i for i in range(len(refs))),
       'references', list(panel))
    for i in range(len(refs)):
        x = quiet(lambda: multi_ref_vchange(d, refs[i], **kw))['reftr_0']
        for key in ('corr', 'value', 'sim_mat'):
            ck_close(panel['reftr_%d' % i][key], x[key],
                     'reference %d in the panel' % i, 1e-9, 1e-12)
    both = quiet(lambda: multi_ref_vchange_and_align(
        d, refs, return_sim_mat=True, **kw))
    ck(np.array_equal(keep[0], d) and np.array_equal(keep[1], refs),
       'input altered')
    if len(refs) == 1:
        want = panel['reftr_0']
    else:
        want = quiet(lambda: estimate_reftr_shifts_from_dt_corr(panel, True))
    for key in ('corr', 'value', 'sim_mat', 'second_axis'):
        ck_close(both[key], want[key], key, 1e-9, 1e-12)
    ctx.nt(len(refs) > 1)


@sub(st.fixed_dictionaries(dict(
    seed=seeds, half=si(100, 160), rg=st.sampled_from([.02, .05]),
    r=st.lists(si(-3, 3), min_size=2, max_size=4), off=si(-2, 2),
    s=st.lists(st.tuples(si(-6, 6), st.floats(-.4, .4)), min_size=1,
               max_size=5),
    half_steps=st.sampled_from([20, 25, 30]), sides=st.sampled_from(
        ['both', 'left', 'right']))), quick=600, shards=2,
    rule='references that differ by whole steps, resolved by the grid')
def aligned(c, ctx):
    """References apart by whole grid steps give no rounding at all."""
    h, rg = c['half'], c['rg']
    grid = np.linspace(-rg, rg, 2*c['half_steps'] + 1)
    step = grid[1] - grid[0]
    n = len(c['r'])
    # whole steps, the mean as well
    k = np.array(c['r'])
    k[-1] -= (k.sum() - c['off']*n)
    if np.abs(k).max() > c['half_steps']/2:
        raise Skip()
    s = np.array([a + b for a, b in c['s']])*step
    t = np.arange(-h, h + 1)
    base = Base(c['seed'], fmin=.04)
    d = np.array([base(t*np.exp(-x)) for x in s])
    refs = np.array([base(t*np.exp(-x*step)) for x in k])
    win = np.arange(3, int(h*np.exp(-1.5*rg)) - 2)
    if 2*np.pi*.1*win[-1]*step > .8:
        raise Skip()
    dv = quiet(lambda: bulk(d, 4., t[0]).stretch(
        ref_trc=refs, tw=[win], stretch_range=rg, stretch_steps=len(grid),
        sides=c['sides'], return_sim_mat=True))
    want = s - k.mean()*step
    ck((np.abs(dv.value - want) < .56*step).all(), 'values', dv.value,
       'expected', want, 'step', step, 'references', k)
    ck((dv.corr > .97).all(), 'coefficient', dv.corr)
    ctx.nt(len(set(k.tolist())) > 1)


@sub(st.fixed_dictionaries(dict(
    n=si(1, 12), seed=seeds, gaps=st.lists(si(0, 47), max_size=6),
    shift=st.sampled_from([None, 0, .01, -.3]))), quick=2000,
    rule='different coefficients')
def offset(c, ctx):
    """Offset of two curves: differences weighted by inverse variance."""
    r = rng(c['seed'])
    n = c['n']
    x = np.array([r.uniform(-.1, .1, n), r.uniform(-.1, .1, n),
                  r.uniform(.02, .98, n), r.uniform(.02, .98, n)])
    if c['shift'] is not None:
        x[0] = x[1] + c['shift']
    for g in c['gaps']:
        x[g % 2::2, (g // 2) % n] = np.nan
    keep = x.copy()
    comb, off = quiet(lambda: est_shift_from_dt_corr(*x))
    ck(np.array_equal(keep, x, equal_nan=True), 'input altered')
    wd, wc, ws, wcs = 0, 0, 0, 0
    for a, b, p, q in x.T:
        w = 1/((1 - p*p)/(4*p*p) + (1 - q*q)/(4*q*q))
        if np.isnan(w):
            continue
        wcs += w
        if not np.isnan(a - b):
            wd += w*(a - b)
            wc += w
        ws += w*(p + q)
    if wc == 0:
        ck(not np.isfinite(off), 'offset of nothing', off)
        return
    ck_close(off, wd/wc, 'offset', 1e-9, 1e-12)
    ck_close(comb, ws/wcs, 'combined coefficient', 1e-9, 1e-12)
    back = quiet(lambda: est_shift_from_dt_corr(x[1], x[0], x[3], x[2]))
    ck_close(back[1], -off, 'exchanged', 1e-9, 1e-12)
    if c['shift'] is not None:
        ck_close(off, c['shift'], 'constant offset', 1e-9, 1e-12)
    ctx.nt(n > 1)
