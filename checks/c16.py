"""C16: matrix post-processing computes its definitions row by row."""
import contextlib
import io
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrBulk
from seismic.correlate.stats import CorrStats

si = st.integers
SR = [1., 2., 4., 10., 12.5, 20., 25., 50., 3., .5]
mats = st.fixed_dictionaries(dict(
    sr=st.sampled_from(SR), first=si(-60, 5), n=si(1, 90).map(
        lambda k: k + 3), rows=si(1, 8), seed=seeds,
    nan=st.lists(si(0, 7), max_size=3), zero=st.lists(si(0, 7), max_size=2),
    kind=st.sampled_from(['white', 'white', 'smooth', 'alike']),
    times=st.lists(si(0, 40), min_size=8, max_size=8, unique=True),
    sort=st.booleans(), unit=st.sampled_from([3600, 43200, 86400]),
    dur=st.sampled_from([1, 1, 1.5, .5])))


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def build(c, missing=True):
    r = rng(c['seed'])
    n, k = c['n'], c['rows']
    if c['kind'] == 'white':
        d = r.randn(k, n)
    elif c['kind'] == 'smooth':
        d = np.array([smooth_noise(c['seed'] + i, n, 3) for i in range(k)])
    else:
        d = smooth_noise(c['seed'], n, 2) + .3*r.randn(k, n)
    d *= 10.**r.randint(-3, 4)
    if missing:
        for i in c['zero']:
            d[i % k] = 0
        for i in c['nan']:
            d[i % k] = np.nan
    return d


def span(c):
    ts = c['times'][:c['rows']]
    if c['sort']:
        ts = sorted(ts)
    return [(UTCDateTime(T0) + t*c['unit'],
             UTCDateTime(T0) + (t + c['dur'])*c['unit']) for t in ts]


def bulk(c, d):
    h = []
    for i, (a, b) in enumerate(span(c)):
        h.append(CorrStats(dict(
            network='A-A', station='B-C', location='-', channel='Z-Z',
            sampling_rate=c['sr'], npts=c['n'], start_lag=c['first']/c['sr'],
            corr_start=a, corr_end=b)))
    return quiet(lambda: CorrBulk(d.copy(), statlist=h[:len(d)]))


def consistent(cb, what):
    s = cb.stats
    ck(s.npts == cb.data.shape[1], what, 'npts')
    for k in ('corr_start', 'corr_end', 'location', 'channel'):
        ck(not isinstance(s[k], (list, np.ndarray))
           or len(s[k]) == cb.data.shape[0], what, 'as many', k, 'as rows')


def rowwise(c, d, op, res, what, rtol=1e-8):
    """Every row comes out as if it was alone."""
    for i in range(len(d)):
        one = quiet(lambda: op(bulk(c, d[i:i + 1])))
        ck_close(one.data[0], res[i], what + ': row on its own', rtol,
                 1e-12 + rtol*np.nanmax(np.abs(np.append(0, res[i]))))


@sub(st.fixed_dictionaries(dict(
    c=mats, a=st.one_of(st.none(), si(0, 92)), b=st.one_of(
        st.none(), si(0, 92)), off=st.sampled_from([0, 0, 0, .4]),
    how=st.sampled_from(['div', 'sum', 'mul']),
    norm=st.sampled_from(['energy', 'abssum', 'max', 'absmax']))),
    quick=3000, rule='a window shorter than the trace')
def normalize(case, ctx):
    """The norm of the window is one afterwards."""
    c = case['c']
    d = build(c)
    n, sr = c['n'], c['sr']
    i, j = case['a'], case['b']
    if i is not None:
        i %= n
    if j is not None:
        j = j % n
        if j <= (i or 0):
            raise Skip()
    if case['norm'] == 'max':
        d = np.abs(d)
    cb = bulk(c, d)
    x0 = cb.stats.start_lag

    def at(k):
        if k is None:
            return None
        k = k + case['off']
        if case['how'] == 'div':
            return (k + c['first'])/sr
        return x0 + k/sr if case['how'] == 'sum' else (k + c['first'])*(1/sr)
    if j is not None and j + case['off'] > n - 1:
        raise Skip()
    a, b = at(i), at(j)
    quiet(lambda: cb.normalize(a, b, case['norm']))
    consistent(cb, 'normalised')
    out = cb.data
    lo = [i or 0]
    hi = [n] if j is None else [j, j + 1]  # last sample included or not
    if case['off']:
        if i is not None:
            lo.append(i + 1)
        if j is not None:
            hi.append(min(n, j + 2))
    fun = dict(energy=lambda x: np.sqrt(np.mean(x**2)),
               abssum=lambda x: np.mean(np.abs(x)),
               max=np.max, absmax=lambda x: np.max(np.abs(x)))[case['norm']]
    good = []
    for p in lo:
        for q in hi:
            if q <= p:
                continue
            w = [np.nan if np.isnan(r).any() else (fun(r[p:q]) or 1)
                 for r in d]
            want = d/np.array(w)[:, None]
            good.append(np.allclose(out, want, 1e-9, 0, equal_nan=True))
    ck(any(good), 'norm %s of lags %s to %s is not one' % (
        case['norm'], a, b))
    ctx.nt((i or 0) > 0 or hi[-1] < n)
    ctx.label(case['norm'])


@sub(st.fixed_dictionaries(dict(
    c=mats, op=st.sampled_from(['filter', 'envelope', 'clip', 'decay',
                                'decay', 'clip0', 'clipall']),
    lo=st.floats(.03, .5), hi=st.floats(.1, .95), order=si(1, 4),
    thres=st.floats(.2, 3), k=st.floats(.2, 3))), quick=2500,
    rule='several rows', shards=2)
def per_row(case, ctx):
    """Filter, envelope, clipping, decay."""
    c = dict(case['c'])
    what = case['op']
    if what in ('filter', 'decay'):
        c['n'] = 2*c['n'] + 31
        c['first'] = -(c['n']//2)
        if what == 'decay' and case['order'] == 2:
            c['first'] = -c['n'] - c['seed'] % 20
        elif what == 'decay' and case['order'] == 3:
            c['first'] = c['seed'] % 20
    one = c['first'] >= 0 or c['first'] <= -c['n']
    slope = case['k']/2 if one else case['k']
    n, sr = c['n'], c['sr']
    d = build(c)
    miss = np.isnan(d).any(1)
    zero = (d == 0).all(1)
    if what == 'filter':
        lo, hi = case['lo'], case['hi']
        if hi < lo + .05:
            raise Skip()
        fr = (lo*sr/2, hi*sr/2)

        def op(b):
            return b.filter(fr, case['order'])
    elif what == 'envelope':
        def op(b):
            return b.envelope()
    elif what == 'decay':
        if zero.any() or miss.all():
            raise Skip()
        t = np.abs(np.arange(n) + c['first'])
        d = d*np.exp(-slope/n*2*t)

        def op(b):
            return b.correct_decay()
    else:
        ax = dict(clip=1, clip0=0, clipall=None)[what]
        if ax != 1 and miss.any():
            raise Skip()

        def op(b):
            return b.clip(case['thres'], ax)
    cb = bulk(c, d)
    orig = cb.copy()
    quiet(lambda: op(cb))
    consistent(cb, what)
    out = cb.data
    ck(out.shape == d.shape, 'shape')
    ck(cb.stats.corr_start == orig.stats.corr_start, 'times')
    ck(len(cb.stats.processing_bulk) == 1, 'one note')
    ck(np.isnan(out[miss]).all() and np.isfinite(out[~miss]).all(),
       'missing rows', np.isnan(out).any(1), 'expected', miss)
    if what == 'envelope':
        for a, b in zip(d[~miss], out[~miss]):
            s = np.fft.fft(a)
            h = np.zeros(n)
            h[0] = 1
            h[1:(n + 1)//2] = 2
            if n % 2 == 0:
                h[n//2] = 1
            ck_close(b, np.abs(np.fft.ifft(s*h)), 'envelope', 1e-8,
                     1e-10*np.abs(a).max())
        rowwise(c, d, op, out, what)
    elif what == 'filter':
        rowwise(c, d, op, out, what, 1e-6)
        ok = np.nonzero(~miss)[0]
        if len(ok) > 1:
            # linear
            e = np.array([2*d[ok[0]] - 3*d[ok[1]]])
            ck_close(quiet(lambda: op(bulk(c, e))).data[0],
                     2*out[ok[0]] - 3*out[ok[1]], 'not linear', 1e-5,
                     1e-5*np.abs(d[ok]).max())
        # without phase shift: the answer to a peak is symmetric, and is the
        # squared answer of the filter
        m = 801
        e = np.zeros((1, m))
        e[0, m//2] = 1
        cc = dict(c, n=m, first=-(m//2), rows=1)
        g = quiet(lambda: op(bulk(cc, e))).data[0]
        if np.abs(g[:40]).max() + np.abs(g[-40:]).max() < 1e-7:
            ck_close(g, g[::-1], 'phase shift', 0, 1e-5)
            sp = np.abs(np.fft.rfft(g))
            f = np.fft.rfftfreq(m, 1/sr)
            # Butterworth with prewarping, forward and backward
            w0, w1, w = [np.tan(np.pi*x/sr) for x in (fr[0], fr[1], f)]
            with np.errstate(all='ignore'):
                want = 1/(1 + ((w**2 - w0*w1)/(w*(w1 - w0)))**(
                    2*case['order']))
            want[0] = 0
            ck_close(sp[1:], want[1:], 'frequency response', 0, 2e-4)
            ctx.label('response')
    elif what.startswith('clip'):
        for i in range(len(d)):
            if miss[i]:
                continue
            if what == 'clip':
                lim = case['thres']*np.std(d[i])
            elif what == 'clip0':
                lim = case['thres']*np.std(d, axis=0)
            else:
                lim = case['thres']*np.std(d)
            ck_close(out[i], np.minimum(np.maximum(d[i], -lim), lim),
                     'clipped', 1e-9, 1e-12*(1 + np.abs(d[i]).max()))
        if what == 'clip':
            rowwise(c, d, op, out, what)
    else:
        f = d[~miss]/out[~miss]
        ok = np.isfinite(f) & (np.abs(d[~miss]) > 1e-6*np.abs(
            d[~miss]).max())
        f = np.where(ok, f, np.nan)
        ck((f[ok] > 0).all(), 'factor is not positive')
        lf = np.log(f)
        # the same for all rows, exponential in the absolute lag
        m = np.nanmean(lf, 0)
        ck_close(np.where(ok, lf, m), np.tile(m, (len(lf), 1)),
                 'rows are treated differently', 1e-7, 1e-6)
        x = np.isfinite(m)
        p = np.polyfit(t[x], m[x], 1)
        ck_close(np.polyval(p, t[x]), m[x], 'factor is not exponential in '
                 'the absolute lag', 1e-6, 1e-6)
        # ... and with the rate of the decay
        if c['kind'] == 'white' and n > 70 and (~miss).sum() > 2:
            ck(abs(p[0]*n/2 + slope) < 1.2, 'decay', p[0]*n/2, -slope)
            ctx.label('rate')
    ctx.nt((~miss).sum() > 1)
    ctx.label(what)


@sub(st.fixed_dictionaries(dict(
    c=mats, w=si(1, 13), axis=si(0, 1), win=st.sampled_from(
        ['flat', 'flat', 'hanning', 'hamming', 'bartlett', 'blackman']))),
    quick=2500, rule='three or more samples are averaged')
def smooth(case, ctx):
    """Moving averages."""
    c = dict(case['c'])
    w = case['w']
    d = build(c, False)
    if case['axis'] == 1:
        # smoothing along time needs more rows
        d = np.array([smooth_noise(c['seed'] + i, c['n'] + w, 2)
                      for i in range(c['rows'])]).T
        c['n'] = c['rows']
        c['rows'] = len(d)
        c['times'] = list(range(len(d)))
    cb = bulk(c, d)
    size = d.shape[1 - case['axis']]
    if size < w:
        expect_raises(ValueError, lambda: cb.smooth(w, case['win'],
                                                    case['axis']),
                      'window longer than the data')
        return
    try:
        quiet(lambda: cb.smooth(w, case['win'], case['axis']))
    except ValueError:
        ck(size == w, 'raises for a window of', w, 'in', size)
        return
    consistent(cb, 'smoothed')
    x, y = d, cb.data
    ck(x.shape == y.shape, 'shape')
    if case['axis'] == 1:
        x, y = x.T, y.T
    if w < 3:
        ck_close(y, x, 'unchanged', 1e-12, 0)
        return
    win = np.ones(w) if case['win'] == 'flat' else getattr(
        np, case['win'])(w)
    win = win/win.sum()
    mx = np.abs(d).max()
    for i in range(w - 1, size - w + 1):
        # window of w samples around this one
        seg = x[:, i - w//2:i + (w - 1)//2 + 1]
        ck_close(y[:, i], seg @ win[::-1], 'moving average', 1e-9, 1e-10*mx)
    # a straight line has the same average everywhere
    if w % 2:
        e = np.linspace(-3, 5, size)*np.ones((2, 1))
        cc = dict(c, n=size, rows=2, times=[1, 2])
        if case['axis'] == 1:
            e = e.T
            cc = dict(c, n=2, rows=size, times=list(range(size)))
        o = quiet(lambda: bulk(cc, e).smooth(w, case['win'], case['axis']))
        ck_close(o.data, e, 'straight line', 1e-9, 1e-9)
    ctx.nt(w > 2)


@sub(st.fixed_dictionaries(dict(
    c=mats, a=st.floats(-4, 44), grid=st.booleans(), width=st.sampled_from(
        [1, 1, 2, 3.5, 7, 20]), nb=si(1, 9), ends=st.sampled_from(
            ['none', 'none', 'same', 'longer', 'shorter']),
    part=st.booleans(), vary=st.booleans(), skip=si(0, 3))), quick=3000,
    rule='the bins hold different numbers of rows')
def calendar(case, ctx):
    """Resampling in calendar time: mean of exactly the rows in a bin."""
    c = case['c']
    d = build(c)
    r = rng(c['seed'] + 1)
    if case['part']:
        # single samples are missing
        d[r.rand(*d.shape) < .1] = np.nan
    cb = bulk(c, d)
    if case['vary']:
        cb.stats.location = ['%02d-' % (i % 2) for i in range(len(d))]
    else:
        cb.stats.location = ['00-']*len(d)
    u = c['unit']
    a = case['a']
    a = round(a) if case['grid'] else round(a, 3)
    st_ = [UTCDateTime(T0) + (a + i*case['width'])*u
           for i in range(case['nb'])]
    if case.get('skip') and len(st_) > 2:
        # not evenly spaced: the first two give the width of all bins
        k = 1 + case['skip'] % (len(st_) - 1)
        st_ = [s for i, s in enumerate(st_) if i != k]
    f = dict(same=1, longer=1.6, shorter=.5)
    kw = {}
    if case['ends'] == 'none':
        if len(st_) > 1:
            en = [s + (st_[1] - st_[0]) for s in st_]
        else:
            en = None
    else:
        en = [s + f[case['ends']]*case['width']*u for s in st_]
        kw = dict(endtimes=en)
    sp = span(c)
    quiet(lambda: cb.resample(st_, **kw))
    consistent(cb, 'resampled')
    if en is None:
        en = [max(b for _, b in sp)]
    ck(cb.data.shape == (len(st_), c['n']), 'shape', cb.data.shape)
    ck(cb.stats.ntrcs == len(st_), 'number of traces in header',
       cb.stats.ntrcs)
    num = set()
    for i, (s, e) in enumerate(zip(st_, en)):
        ck(abs(cb.stats.corr_start[i] - s) < 1e-3, 'start of a bin')
        ck(abs(cb.stats.corr_end[i] - e) < 1e-3, 'end of a bin',
           cb.stats.corr_end[i], e)
        if any(abs(x[0] - y) < 1e-5 and (y.microsecond or x[0].microsecond)
               for x in sp for y in (s, e)):
            raise Skip()
        sel = [k for k, x in enumerate(sp) if s <= x[0] < e]
        num.add(min(len(sel), 2))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want = np.nanmean(d[sel], 0) if sel else np.full(c['n'], np.nan)
        ck_close(cb.data[i], want, 'bin %d with rows %s' % (i, sel), 1e-9,
                 1e-12*np.nanmax(np.abs(np.append(0, d))))
    if not case['vary']:
        ck(all(str(x) == '00-' for x in (
            cb.stats.location if isinstance(cb.stats.location, list)
            else [cb.stats.location])), 'location')
    # can go on
    tr = cb.create_corr_stream()
    ck(len(tr) == len(st_), 'traces')
    ck(all(isinstance(t.stats.location, str) for t in tr), 'location code')
    sl = quiet(lambda: cb.slice(st_[0], en[-1] if en[-1] > st_[0]
                                else st_[0] + 1))
    consistent(sl, 'slice of the resampled matrix')
    ctx.nt(len(num) > 1)


def refer(d, method, perc):
    ok = ~np.isnan(d).any(1)
    d = d[ok]
    if not len(d):
        return None
    if method == 'mean':
        return [d.mean(0)]
    if method == 'median':
        return [np.sort(d, 0)[[(len(d) - 1)//2, len(d)//2]].mean(0)]
    m = np.abs(d).max(1)
    e = d/np.where(m > 0, m, 1)[:, None]
    mean = e.mean(0)
    if method == 'norm_mean':
        return [mean]
    with np.errstate(all='ignore'):
        cor = (e @ mean)/np.sqrt((e**2).sum(1)*(mean**2).sum())
    e = e[np.isfinite(cor)]
    cor = cor[np.isfinite(cor)]
    if not len(e):
        return None
    t = np.percentile(cor, perc)
    out = []
    tol = 1e-9
    for lim in (t - tol, t + tol):
        if (cor > lim).any():
            out.append(e[cor > lim].mean(0))
    return out or None


@sub(st.fixed_dictionaries(dict(
    c=mats, method=st.sampled_from(
        ['mean', 'median', 'norm_mean', 'similarity_percentile',
         'similarity_percentile']), perc=st.sampled_from(
             [0, 20, 50, 50, 75, 100]),
    inc=st.sampled_from([0, 0, 0, 1, 2, 3, 10, 'list', 'array']),
    incs=st.lists(st.sampled_from([.5, 1, 2, 5]), min_size=1, max_size=4))),
    quick=3000, rule='several rows of which some are missing')
def reference(case, ctx):
    """Reference traces are the statistic of the selected rows."""
    c = case['c']
    d = build(c)
    cb = bulk(c, d)
    sp = span(c)
    inc, m, perc = case['inc'], case['method'], case['perc']
    day = 86400
    groups = []
    t = min(a for a, b in sp)
    if inc == 0:
        groups = [range(len(d))]
        arg = 0
    else:
        if inc == 'list' or inc == 'array':
            arg = case['incs']
            incs = arg
        else:
            arg = inc
            incs = []
            x = t
            while x < max(b for a, b in sp):
                incs.append(inc)
                x += inc*day
        if inc == 'array':
            arg = np.array(arg)
        for x in incs:
            lo, hi = t - x*day/2, t + 1.5*x*day
            groups.append([i for i, (a, b) in enumerate(sp)
                           if b >= lo and a <= hi])
            t += x*day
    before = cb.copy()
    got = quiet(lambda: cb.extract_multi_trace(arg, m, perc))
    ck(np.array_equal(cb.ref_trc, got, equal_nan=True), 'stored reference')
    ck(np.array_equal(cb.data, before.data, equal_nan=True), 'data altered')
    got = np.atleast_2d(got)
    ck(got.shape == (len(groups), c['n']), 'number of references', got.shape,
       'expected', len(groups))
    if inc == 0 and c['seed'] % 2:
        x = quiet(lambda: before.extract_trace(m, perc))
        ck(np.array_equal(x, got[0], equal_nan=True), 'extract_trace')
    for g, o in zip(groups, got):
        w = refer(d[list(g)], m, perc)
        if w is None:
            ck(np.isnan(o).all(), 'reference without data', o)
            continue
        ok = [np.allclose(o, x, 1e-8, 1e-10*np.abs(x).max()) for x in w]
        ck(any(ok), 'reference of rows', list(g), 'is', o, 'expected', w)
    nn = np.isnan(d).any(1).sum()
    ctx.nt(0 < nn < len(d) - 1)
    ctx.label(m + (' multi' if inc else ''))
