"""C15: operations on the lag axis keep every value at its lag time."""
import io
import contextlib
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrBulk
from seismic.correlate.stats import CorrStats

si = st.integers
SR = [1., 2., 4., 10., 12.5, 20., 25., 50., 100., 3., .5]
axes = st.fixed_dictionaries(dict(
    sr=st.sampled_from(SR), first=st.one_of(
        si(-120, -1), si(-120, -1), si(0, 10), si(-200, -150)),
    n=si(2, 300), rows=si(1, 4), seed=seeds, nan=st.booleans(),
    sub=st.sampled_from([0, 0, 0, 0, .25, .5]),
    start=st.sampled_from(['div', 'mul'])))


def fun(seed, row, lag, scale, freqs=(.02, .1), centre=(-.5, .5), wid=.1):
    """Smooth function of lag (asymmetric)."""
    r = rng(seed*31 + row*7 + 5)
    out = np.zeros(len(lag))
    for _ in range(3):
        c = r.uniform(*centre)*scale
        f = r.uniform(*freqs)
        w = wid*scale*r.uniform(.6, 1)
        out += r.uniform(.5, 2)*np.exp(-((lag - c)/w)**2)*np.cos(
            2*np.pi*f*(lag - c) + r.uniform(0, 6))
    return out


def lags(stats):
    return stats.start_lag + np.arange(stats.npts)/stats.sampling_rate


def make(data, sr, first, start='div', notes=False):
    rows, n = data.shape
    h = []
    for i in range(rows):
        t = UTCDateTime(T0) + i*3600
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location='-', channel='Z-Z',
            sampling_rate=sr, npts=n,
            start_lag=first/sr if start == 'div' else first*(1/sr),
            corr_start=t, corr_end=t + 3600)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return CorrBulk(data.copy(), statlist=h)


def white(c):
    d = rng(c['seed']).randn(c['rows'], c['n'])
    if c['nan'] and c['rows'] > 1:
        d[c['seed'] % c['rows']] = np.nan
    return d, make(d, c['sr'], c['first'] + c['sub'], c['start'])


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def consistent(cb, what):
    s = cb.stats
    ck(cb.data.ndim == 2 and s.npts == cb.data.shape[1], what, 'npts', s.npts,
       'shape', cb.data.shape)
    ck(abs(s.end_lag - s.start_lag - (s.npts - 1)/s.sampling_rate) < 1e-6,
       what, 'end of the lag axis')
    ck(len(s.corr_start) == len(s.corr_end) == cb.data.shape[0], what,
       'number of times')


def untouched(a, b, what):
    """The object a copy was made of."""
    ck(np.array_equal(a.data, b.data, equal_nan=True), what, 'changes the '
       'object it was copied from')
    ck(a.stats == b.stats, what, 'changes the header of the object it was '
       'copied from')


def rowwise(cb, op, res, what):
    for i in range(cb.data.shape[0]):
        one = quiet(lambda: op(make(
            cb.data[i:i + 1], cb.stats.sampling_rate,
            cb.stats.start_lag*cb.stats.sampling_rate)))
        ck(one.data.shape[1:] == res.data.shape[1:], what, 'shape of one row')
        ck_close(one.data[0], res.data[i], what + ': row on its own', 1e-9,
                 1e-12*(1 + np.nanmax(np.abs(np.append(0, res.data[i])))))


@sub(st.fixed_dictionaries(dict(
    c=axes, a=si(-30, 330), b=si(-30, 330), rel=st.booleans(),
    off=st.sampled_from([0, 0, 0, .3, .5, .8]),
    offb=st.sampled_from([0, 0, 0, .2, .6]), how=st.sampled_from(
        ['div', 'mul', 'sum']), again=st.booleans())), quick=4000,
    rule='some of the samples are retained')
def trim(case, ctx):
    """Trimming keeps exactly the requested lags."""
    c = case['c']
    d, cb = white(c)
    n, sr = c['n'], c['sr']
    i, j = sorted((case['a'], case['b']))
    if case['rel']:
        i, j = i % n, j % n
        i, j = min(i, j), max(i, j)
    orig = cb.copy()
    x0 = orig.stats.start_lag

    def at(k, off):
        if case['how'] == 'div':
            return (k + off + c['first'] + c['sub'])/sr
        if case['how'] == 'mul':
            return (k + off + c['first'] + c['sub'])*(1/sr)
        return x0 + (k + off)/sr
    a, b = at(i, case['off']), at(j, case['offb'])
    if b < a:
        raise Skip()
    keep = cb.copy()
    quiet(lambda: cb.trim(a, b))
    consistent(cb, 'trimmed')
    untouched(keep, orig, 'trimming')
    inside = i + case['off'] >= 0 and j + case['offb'] <= n - 1
    outside = i + case['off'] < 0 or j + case['offb'] > n
    ck(len(cb.stats.processing_bulk) == 1, 'number of notes')
    got = lags(cb.stats)
    if cb.data.shape[1] == n and (outside or not inside):
        ck(np.array_equal(cb.data, d, equal_nan=True), 'data changed')
        ck(abs(cb.stats.start_lag - x0) < 1e-9*(1 + abs(x0)),
           'lag of the unchanged data', cb.stats.start_lag, x0)
        return
    ck(not outside, 'data trimmed to a range they do not cover')
    # samples belong to their lag
    k0 = (cb.stats.start_lag - x0)*sr
    ck(abs(k0 - round(k0)) < 1e-6, 'the lag axis was moved by a fraction of '
       'a sample:', k0)
    k0 = int(round(k0))
    m = cb.stats.npts
    ck(0 <= k0 and k0 + m <= n, 'range', k0, m, n)
    ck(np.array_equal(cb.data, d[:, k0:k0 + m], equal_nan=True),
       'samples are not those at their lag')
    if case['off'] == 0:
        ck(k0 == i, 'first sample', k0, 'requested', i)
    else:
        ck(abs(k0 - i - case['off']) < 1, 'first sample', k0)
    if case['offb'] == 0:
        ck(k0 + m - 1 == j, 'last sample', k0 + m - 1, 'requested', j)
    else:
        ck(abs(k0 + m - 1 - j - case['offb']) < 1, 'last sample', k0 + m - 1)
    if case['again']:
        # the same range once more changes nothing
        dd = cb.data.copy()
        quiet(lambda: cb.trim(got[0], got[-1]))
        ck(np.array_equal(cb.data, dd, equal_nan=True), 'trimmed twice')
    ctx.nt(0 < m < n)
    ctx.label('on grid' if not case['off'] and not case['offb'] else 'off')


@sub(axes, quick=2500, rule='both sides have samples')
def mirror(case, ctx):
    """The mean of both sides where both exist."""
    c = dict(case, sub=0)
    if c['seed'] % 4:
        c['first'] %= -c['n']
    d, cb = white(c)
    orig, keep = cb.copy(), cb.copy()
    quiet(lambda: cb.mirror())
    consistent(cb, 'mirrored')
    untouched(keep, orig, 'mirroring')
    k = c['first'] + np.arange(c['n'])
    if k[0] >= 0 or k[-1] <= 0:
        ck(np.array_equal(cb.data, d, equal_nan=True) and np.allclose(
            lags(cb.stats), lags(orig.stats)), 'one-sided data changed')
        ctx.label('one-sided')
        return
    m = max(-k[0], k[-1])
    ck(cb.stats.start_lag == 0, 'start lag')
    ck(cb.data.shape[1] == m + 1, 'length', cb.data.shape[1], 'expected',
       m + 1)
    for x in range(m + 1):
        have = [d[:, y - k[0]] for y in {x, -x} if k[0] <= y <= k[-1]]
        ck_close(cb.data[:, x], np.mean(have, 0), 'value at lag %d' % x,
                 1e-12, 1e-14)
    rowwise(orig, lambda b: b.mirror(), cb, 'mirror')
    ctx.nt()
    ctx.label('asym' if k[0] != -k[-1] else 'sym')


@sub(st.fixed_dictionaries(dict(c=axes, w=st.floats(0, .55), centre=st.
                                booleans(), frac=st.sampled_from(
                                    [.05, .05, .2, .5, 1.]),
                                wide=st.sampled_from([1, 1, 4]))),
     quick=3000, rule='some samples are tapered and some not')
def taper(case, ctx):
    """Tapers act on the given lags only."""
    c = case['c']
    d, cb = white(c)
    d = np.where(np.isnan(d), d, np.sign(d)*(np.abs(d) + .1))
    cb.data = d.copy()
    orig, keep = cb.copy(), cb.copy()
    n, sr = c['n'], c['sr']
    lag = lags(cb.stats)
    w = case['w']*n/sr
    if case['centre']:
        w = min(w*case['wide'], n/sr*.999)
        if 0 < w < 2/sr:
            w = 2/sr
        if w > n/sr:
            raise Skip()

        def op(b):
            return b.taper_center(w, case['frac'])
    else:
        if w > .5*n/sr*.999:
            w = .49*n/sr

        def op(b):
            return b.taper(w)
    quiet(lambda: op(cb))
    consistent(cb, 'tapered')
    untouched(keep, orig, 'tapering')
    ck(cb.stats.start_lag == orig.stats.start_lag, 'start lag')
    ok = ~np.isnan(d[:, 0])
    ck(np.isnan(cb.data[~ok]).all(), 'missing rows')
    f = cb.data[ok]/d[ok]
    if not ok.any():
        return
    ck((f >= -1e-12).all() and (f <= 1 + 1e-12).all(), 'factor')
    ck_close(f, np.tile(f[0], (len(f), 1)), 'rows differ', 1e-9, 1e-12)
    f = f[0]
    dt = 1/sr
    if w == 0:
        ck((f == 1).all(), 'changed without taper')
        return
    if case['centre']:
        out = np.abs(lag) > w/2 + 1.6*dt
        slope = max(dt, case['frac']*w/2 + dt)
        inn = np.abs(lag) < w/2 - slope - .6*dt
        ck((f[out] == 1).all(), 'outside the centre', lag[out][f[out] != 1])
        ck((np.abs(f[inn]) < 1e-12).all(), 'inside of the centre',
           lag[inn][np.abs(f[inn]) > 1e-12])
        for s in (-1, 1):
            g = f[s*lag >= 0]
            g = g if s > 0 else g[::-1]
            ck((np.diff(g) >= -1e-9).all(), 'not monotonic', g)
        ctx.nt(inn.any() and out.any())
    else:
        dist = np.minimum(np.arange(n), np.arange(n)[::-1])*dt
        out = dist > w + 1.6*dt
        ck((np.abs(f[out] - 1) < 1e-12).all(), 'inner part altered')
        if w > 3*dt and n > 8:
            ck(f[0] < 1e-9 and f[-1] < 1e-9, 'ends', f[0], f[-1])
            ck((f[dist < .4*w] < .9).all(), 'taper is too short')
        if n > 8:
            ck_close(f, f[::-1], 'symmetry', 1e-9, 1e-9)
        ctx.nt(out.any() and not out.all())
    rowwise(orig, op, cb, 'taper')
    ctx.label('centre' if case['centre'] else 'ends')


@sub(st.fixed_dictionaries(dict(
    sr=st.sampled_from([1., 4., 10., 12.5, 20., 25., 50., 100.]),
    first=si(-700, 40), n=si(700, 1100), rows=si(1, 3), seed=seeds,
    new=st.one_of(si(1, 8), st.floats(1.1, 6), st.sampled_from(
        ['.33', '.49', '.24', '.51', '.34', '.26', '.99'])),
    nan=st.booleans())),
    quick=1200, rule='rate is lowered', shards=2)
def lower_rate(case, ctx):
    """Decimated and resampled correlations keep their shape."""
    sr, n, rows = case['sr'], case['n'], case['rows']
    fac = case['new']
    if isinstance(fac, str):
        # close to an integer factor but not quite; a length that fits
        freq, n = sr*float(fac), n//100*100
    else:
        freq = sr/fac
    if isinstance(fac, float):
        freq = max(.1, round(freq*4/sr, 1)*sr/4)
        if freq >= sr:
            raise Skip()
    lag = (case['first'] + np.arange(n))/sr
    mid = (lag[0] + lag[-1])/2
    scale = n/sr

    def truth(i, x):
        return fun(case['seed'], i, x - mid, scale,
                   (.08*freq, .16*freq), (-.12, .12), .07)
    d = np.array([truth(i, lag) for i in range(rows)])
    if .07*scale*.6*freq < 4:
        raise Skip()
    if case['nan'] and rows > 1:
        d[0] = np.nan
    cb = make(d, sr, case['first'])
    orig, keep = cb.copy(), cb.copy()
    try:
        quiet(lambda: cb.resample_time_axis(freq))
    except TypeError:
        # no common length for both rates
        ck(not isinstance(fac, int), 'decimating failed')
        ctx.label('impossible')
        return
    consistent(cb, 'resampled')
    untouched(keep, orig, 'resampling')
    ck(abs(cb.stats.sampling_rate - freq) < 1e-9*freq, 'rate',
       cb.stats.sampling_rate, freq)
    new = lags(cb.stats)
    ck(new[0] >= lag[0] - 1e-6/sr and new[0] < lag[0] + 2/freq, 'begin')
    ck(lag[-1] - 2/freq - 1/sr < new[-1] < lag[-1] + 2/freq, 'end', new[-1],
       lag[-1])
    for i in range(rows):
        if np.isnan(d[i, 0]):
            ck(np.isnan(cb.data[i]).all(), 'missing row')
            continue
        w = truth(i, new)
        ck_close(cb.data[i], w, 'value at its lag', 0,
                 .03*np.abs(d[i]).max())
    ctx.nt(fac != 1)
    ctx.label('decimate' if isinstance(fac, int) else 'resample')
