"""C11: stream preparation keeps samples at their true time."""
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate import preprocessing_stream as ps
from seismic.correlate.correlate import generate_corr_inc
from seismic.utils import miic_utils as mu

si = st.integers


def pulses(t, at, width, amp=None):
    """A sum of Gaussian pulses."""
    y = np.zeros(len(t))
    for i, a in enumerate(at):
        y += (amp[i] if amp is not None else 1)*np.exp(
            -.5*((t - a)/width)**2)
    return y


@sub(st.fixed_dictionaries(dict(
    new=st.sampled_from([1., 2., 5., 10., 25.]),
    traces=st.lists(st.fixed_dictionaries(dict(
        factor=si(1, 25), late=st.floats(0, 5), n=si(30, 400))), min_size=1,
        max_size=4), same=st.booleans(), seed=seeds, filt=st.booleans(),
    stream=st.booleans(), low=st.sampled_from([None, None, .5]))),
    quick=1200, rule='traces with different factors, or a factor above one')
def decimate(case, ctx):
    """Whole-number factors: exact samples of the (filtered) trace."""
    r = rng(case['seed'])
    new = case['new']
    ts = []
    for i, t in enumerate(case['traces']):
        f = case['traces'][0]['factor'] if case['same'] else t['factor']
        ts.append(Trace(r.randn(t['n']), raw_stats(
            'N', 'S%d' % i, '', 'HHZ', T0 + t['late'], t['n'], new*f)))
    if case['low']:
        ts.append(Trace(r.randn(50), raw_stats(
            'N', 'LOW', '', 'HHZ', T0, 50, new*case['low'])))
    for t in ts:
        if t.stats.sampling_rate/new != round(t.stats.sampling_rate/new) \
                and t.stats.sampling_rate > new:
            # not a whole number due to the rounding of 1/(1/rate) in obspy
            raise Skip()
    s0 = Stream([t.copy() for t in ts])
    if case['stream'] and (case['low'] and len({
            t.stats.sampling_rate for t in ts}) == 1):
        raise Skip()
    if case['stream']:
        out = mu.resample_or_decimate(s0, new, filter=case['filt'])
    else:
        out = []
        for t in s0:
            try:
                out.append(mu.resample_or_decimate(t, new, case['filt']))
            except ValueError:
                ck(t.stats.sampling_rate < new, 'refused', t)
                out.append(t)
    ck(len(out) == len(ts), 'number of traces', len(out), len(ts))
    for o, t in zip(out, ts):
        ck(o.id == t.id and abs(o.stats.starttime - t.stats.starttime)
           < 1e-5, 'start time or code changed', o, t)
        f = t.stats.sampling_rate/new
        if f < 1:
            ck(o.stats.sampling_rate == t.stats.sampling_rate
               and np.array_equal(o.data, t.data), 'upsampled')
            continue
        f = int(round(f))
        ck(abs(o.stats.sampling_rate - new) < 1e-9*new, 'sampling rate',
           o.stats.sampling_rate, new)
        x = t.copy()
        if f > 1 and case['filt']:
            x.filter('lowpass_cheby_2', freq=new*(.5 if f <= 16 else .45),
                     maxorder=12)
        ck_close(o.data, x.data[::f], 'samples at the new times', rtol=1e-6,
                 atol=1e-6)
        ctx.nt(f > 1)


@sub(st.fixed_dictionaries(dict(
    new=st.sampled_from([1., 2., 4., 10.]),
    ratio=st.sampled_from([(3, 2), (5, 2), (5, 3), (7, 3), (5, 4), (25, 4),
                           (25, 10), (2, 1), (4, 1)]),
    k=si(60, 200), at=st.lists(st.floats(.25, .75), min_size=1, max_size=2),
    late=st.floats(0, 3), sign=st.sampled_from([1, -1]),
    filt=st.booleans())), quick=800, rule='not a whole number factor')
def resample(case, ctx):
    """A band-limited signal is found at the same times afterwards."""
    a, b = case['ratio']
    new = case['new']
    sr = new*a/b
    n = case['k']*a
    t = np.arange(n)/sr
    T = n/sr
    w = 4/new
    at = [x*T for x in case['at']]
    tr = Trace(case['sign']*pulses(t, at, w), raw_stats(
        'N', 'S', '', 'HHZ', T0 + case['late'], n, sr))
    if int(tr.stats.npts/(tr.stats.sampling_rate/new)) != n*b//a:
        # obspy's resampling is inaccurate if the record length is not a
        # whole number of new samples, here due to rounding
        raise Skip()
    out = mu.resample_or_decimate(tr.copy(), new, filter=case['filt'])
    ck(abs(out.stats.sampling_rate - new) < 1e-9, 'rate')
    ck(abs(out.stats.starttime - tr.stats.starttime) < 1e-5, 'start')
    ck(abs(out.stats.npts - n*b/a) <= 1, 'number of samples', out.stats.npts)
    tn = np.arange(out.stats.npts)/new
    ref = case['sign']*pulses(tn, at, w)
    if case['filt']:
        # the causal filter delays everything by the same few samples
        best = [np.abs(out.data - case['sign']*pulses(tn - d/new, at, w)
                       ).max() for d in np.arange(0, 8, .1)]
        ck(min(best) < .06*len(at), 'signal changed by resampling',
           min(best))
    else:
        ck_close(out.data, ref, 'signal at the new times', rtol=0,
                 atol=.02*len(at))
    ctx.nt(a % b)


@sub(st.fixed_dictionaries(dict(
    n=si(20, 300), sr=st.sampled_from([1., 2., 10.]), seed=seeds,
    late=st.floats(0, .9), ntr=si(1, 3), wlen=si(2, 80), inc=si(1, 80),
    gaps=st.lists(st.lists(st.tuples(si(0, 300), si(1, 100)), max_size=3),
                  min_size=3, max_size=3))), quick=1500,
    rule='at least two complete windows')
def windows(case, ctx):
    """Division into windows."""
    r = rng(case['seed'])
    n, sr = case['n'], case['sr']
    wl, inc = case['wlen'], case['inc']
    t0 = T0 + case['late']
    X, M, ts = [], [], []
    for i in range(case['ntr']):
        x, m = r.randn(n), np.zeros(n, bool)
        for a, ln in case['gaps'][i]:
            m[a % n:a % n + ln] = True
        X.append(x)
        M.append(m)
        ts.append(Trace(np.ma.array(x.copy(), mask=m) if m.any()
                        else x.copy(), raw_stats(
                            'N', 'S%d' % i, '', 'HHZ', t0, n, sr)))
    got = list(generate_corr_inc(
        Stream(ts), dict(corr_len=wl/sr, corr_inc=inc/sr), n/sr))
    for win in got:
        for tr in win:
            ck(tr.stats.npts == wl == len(tr.data), 'window length',
               tr.stats.npts, wl)
    # every complete window once and in order; partial ones at the end
    full = (n - wl)//inc + 1 if n >= wl else 0
    ck(len(got) >= full, 'windows missing', len(got), full)
    ck(len(got) <= -(-n//inc) + 1, 'too many windows', len(got))
    for k, win in enumerate(got):
        want = {}
        for i in range(case['ntr']):
            d = np.full(wl, np.nan)
            seg = slice(k*inc, min(k*inc + wl, n))
            d[:max(seg.stop - seg.start, 0)] = np.where(
                M[i][seg], np.nan, X[i][seg])
            if np.isfinite(d).any():
                want['S%d' % i] = d
        ck(sorted(tr.stats.station for tr in win) == sorted(want),
           'traces of window', k, sorted(tr.stats.station for tr in win),
           sorted(want))
        for tr in win:
            ck(abs(tr.stats.starttime.timestamp - t0 - k*inc/sr) < 1e-4,
               'time of window', k)
            ck_close(np.ma.filled(tr.data, np.nan), want[tr.stats.station],
                     'samples of window %d' % k)
    ctx.nt(full > 1)


@sub(st.fixed_dictionaries(dict(
    read=si(1, 500), inc=si(1, 100), wl=si(1, 100))), quick=100,
    rule='several windows')
def empty(case, ctx):
    """A process without data goes over as many windows as the others."""
    got = list(generate_corr_inc(Stream(), dict(
        corr_len=case['wl'], corr_inc=case['inc']), case['read']))
    ck(all(len(w) == 0 for w in got), 'data invented')
    tr = Trace(np.ones(case['read']), raw_stats(
        'N', 'S', '', 'HHZ', T0, case['read'], 1.))
    if case['read'] > 1:
        full = list(generate_corr_inc(Stream([tr]), dict(
            corr_len=case['wl'], corr_inc=case['inc']), case['read']))
        if (case['read'] - 1) % case['inc']:
            ck(len(full) == len(got), 'number of windows', len(full),
               len(got))
    ctx.nt(len(got) > 1)


@sub(st.fixed_dictionaries(dict(
    traces=st.lists(st.fixed_dictionaries(dict(
        n=si(1, 200), sr=st.sampled_from([1., 5., 10.]),
        mask=st.sampled_from(['no', 'no', 'part', 'all', 'empty mask']),
        late=si(0, 20))), min_size=1, max_size=6),
    seed=seeds, length=si(0, 60), a=st.floats(0, 10), b=st.floats(0, 10))),
    quick=1200, rule='some traces are discarded and others are kept')
def discarding(case, ctx):
    """Short and empty traces; cutting at both ends."""
    r = rng(case['seed'])
    ts = []
    for i, t in enumerate(case['traces']):
        x = r.randn(t['n'])
        if t['mask'] == 'part':
            x = np.ma.array(x, mask=np.arange(t['n']) % 3 == 1)
        elif t['mask'] == 'all':
            x = np.ma.array(x, mask=True)
        elif t['mask'] == 'empty mask':
            x = np.ma.array(x)
        ts.append(Trace(x, raw_stats(
            'N', 'S', '', 'HHZ', T0 + t['late'], t['n'], t['sr'])))

    def key(tr):
        return (tr.stats.starttime.timestamp, tr.stats.npts,
                tr.stats.sampling_rate, np.ma.filled(tr.data, 9.).tobytes())
    s = Stream([t.copy() for t in ts])
    mu.discard_short_traces(s, case['length'])
    want = [key(t) for t in ts
            if t.stats.npts/t.stats.sampling_rate > case['length']]
    ck([key(t) for t in s] == want, 'short traces', len(want), len(s))
    s = Stream([t.copy() for t in ts])
    mu.get_valid_traces(s)
    valid = [key(t) for t in ts if not np.ma.getmaskarray(t.data).all()]
    ck([key(t) for t in s] == valid, 'traces with data', len(valid), len(s))
    ctx.nt(0 < len(want) < len(ts) and 0 < len(valid) < len(ts))
    # cutting
    a, b = case['a'], case['b']
    s = Stream([t.copy() for t in ts if t.stats.npts/t.stats.sampling_rate
                > a + b + 3])
    old = s.copy()
    mu.trim_stream_delta(s, a, b)
    for o, n in zip(old, s):
        sr = o.stats.sampling_rate
        d0 = n.stats.starttime - o.stats.starttime
        d1 = o.stats.endtime - n.stats.endtime
        ck(abs(d0 - a) <= .5/sr + 1e-4 and abs(d1 - b) <= .5/sr + 1e-4,
           'cut ends', d0, a, d1, b)
        i = int(round(d0*sr))
        ck_close(np.ma.filled(n.data, 9.), np.ma.filled(
            o.data, 9.)[i:i+n.stats.npts], 'samples after cutting')
    # data type
    s = Stream([t.copy() for t in ts])
    mu.stream_require_dtype(s, np.float32)
    for o, n in zip(ts, s):
        ck(n.data.dtype == np.float32, 'data type')
        ck(np.array_equal(np.ma.getmaskarray(o.data), np.ma.getmaskarray(
            n.data)), 'mask lost')
        ck_close(np.ma.filled(n.data, 0), np.ma.filled(o.data, 0),
                 'values', rtol=1e-6, atol=1e-6)


@sub(st.fixed_dictionaries(dict(
    n=st.lists(si(20, 200), min_size=1, max_size=3), seed=seeds,
    sr=st.sampled_from([1., 10., 100.]),
    gaps=st.lists(st.lists(st.tuples(si(0, 300), si(1, 30)), max_size=3),
                  min_size=3, max_size=3),
    kind=st.sampled_from(['bandpass', 'highpass', 'lowpass']),
    zerophase=st.booleans(), single=st.booleans())), quick=800,
    rule='a trace with a gap')
def filtering(case, ctx):
    """Filtering of streams with gaps keeps pieces at their time."""
    r = rng(case['seed'])
    sr = case['sr']
    o = dict(corners=2, zerophase=case['zerophase'])
    if case['kind'] == 'bandpass':
        o.update(freqmin=.05*sr, freqmax=.2*sr)
    else:
        o.update(freq=.1*sr)
    ts, ref = [], {}
    for i, n in enumerate(case['n']):
        x, m = r.randn(n), np.zeros(n, bool)
        for a, ln in case['gaps'][i]:
            m[a % n:a % n + ln] = True
        tr = Trace(np.ma.array(x.copy(), mask=m) if m.any() else x.copy(),
                   raw_stats('N', 'S%d' % i, '', 'HHZ', T0, n, sr))
        ts.append(tr)
        y = np.full(n, np.nan)
        d = np.diff(np.concatenate(([0], (~m).astype(int), [0])))
        for a, b in zip(np.where(d == 1)[0], np.where(d == -1)[0]):
            y[a:b] = Trace(x[a:b].copy(), {'sampling_rate': sr}).filter(
                case['kind'], **o).data
        if not m.all():
            ref['S%d' % i] = y
        ctx.nt(m.any() and not m.all())
        if case['single']:
            break
    if case['single']:
        out = ps.stream_filter(ts[0].copy(), case['kind'], o)
    else:
        out = ps.stream_filter(Stream([t.copy() for t in ts]), case['kind'],
                               o)
    ck([t.stats.station for t in out] == sorted(ref), 'traces', out)
    for tr in out:
        y = ref[tr.stats.station]
        i = int(round((tr.stats.starttime.timestamp - T0)*sr))
        got = np.full(len(y), np.nan)
        ck(0 <= i and i + tr.stats.npts <= len(y), 'time span')
        got[i:i+tr.stats.npts] = np.ma.filled(tr.data, np.nan)
        ck_close(got, y, 'filtered', rtol=0, atol=1e-6)


@sub(st.fixed_dictionaries(dict(
    data=st.lists(st.one_of(st.none(), st.floats(-10, 10)), min_size=1,
                  max_size=60),
    half=si(0, 20), cols=si(1, 3), axis=si(0, 1))), quick=800,
    rule='missing values within a window of several values')
def moving_average(case, ctx):
    """Moving average that disregards missing values."""
    x = np.array([np.nan if v is None else v for v in case['data']])
    X = np.stack([x*(i + 1) for i in range(case['cols'])])
    h = case['half']
    Y = mu.nan_moving_av(X.T.copy() if case['axis'] == 0 else X.copy(), h,
                         axis=case['axis'])
    if case['axis'] == 0:
        Y = Y.T
    for row, y in zip(X, Y):
        for i in range(len(row)):
            w = row[max(0, i-h):i+h+1]
            w = w[np.isfinite(w)]
            if len(w):
                ck(abs(y[i] - w.mean()) < 1e-9, 'average at', i, y[i])
            else:
                ck(np.isnan(y[i]), 'value without data', i)
    ctx.nt(np.isnan(x).any() and np.isfinite(x).any() and h)
