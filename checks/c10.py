"""C10: masking, muting and filling affect exactly the intended samples."""
import copy
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate import preprocessing_td as td
from seismic.correlate import preprocessing_stream as ps
from seismic.utils import miic_utils as mu

si = st.integers
SRS = st.sampled_from([1., 2., 10., 25., 100., .5])


def trace(r, n, sr, start, cha='HHZ', gaps=(), dtype=float):
    x = r.randn(n) + 3
    x = (x*1000).astype(dtype)
    tr = Trace(x.copy(), raw_stats('N', 'S', '00', cha, start, n, sr))
    m = np.zeros(n, bool)
    for a, ln in gaps:
        m[a % n:a % n + ln] = True
    if m.any():
        tr.data = np.ma.array(x.copy(), mask=m)
    return tr, x, m


gaplist = st.lists(st.tuples(si(0, 400), si(1, 40)), max_size=4)


@sub(st.fixed_dictionaries(dict(
    traces=st.lists(st.fixed_dictionaries(dict(
        n=si(2, 200), late=st.floats(0, 30), gaps=gaplist)), min_size=1,
        max_size=3),
    sr=SRS, seed=seeds, reverse=st.booleans(),
    masks=st.lists(st.tuples(st.floats(-60, 230), st.one_of(
        st.floats(0, 60), st.floats(0, 400), st.just('end'))), max_size=4),
    grid=st.booleans(), constant=st.booleans())), quick=2500,
    rule='an interval that ends or begins outside of a trace, or two '
    'intervals')
def mask_utc(case, ctx):
    r = rng(case['seed'])
    sr = case['sr']
    ts = [trace(r, t['n'], sr, T0 + t['late']/sr, c, t['gaps'])
          for t, c in zip(case['traces'], ('HHE', 'HHN', 'HHZ'))]
    stream = Stream([t[0].copy() for t in ts])
    s, e = [], []
    n0 = case['traces'][0]['n']
    t0 = ts[0][0].stats.starttime.timestamp
    for a, b in case['masks']:
        if b == 'end':
            b = max(n0 - 1 - a, 0)
        if case['constant']:
            b = 20.
        if case['grid']:
            a, b = round(a), round(b)
        s.append(t0 + a/sr)
        e.append(t0 + a/sr + b/sr)
    starts = [UTCDateTime(x) for x in s]
    ends = [UTCDateTime(x) for x in e]
    if case['constant']:
        out = ps.stream_mask_at_utc(stream, starts, masklen=20/sr,
                                    reverse=case['reverse'])
    else:
        out = ps.stream_mask_at_utc(stream, starts, ends,
                                    reverse=case['reverse'])
    ck(len(out) == len(ts), 'number of traces')
    for tr, (t, x, m) in zip(out, ts):
        ck(tr.stats.starttime == t.stats.starttime and tr.stats.npts == len(x)
           and tr.id == t.id, 'header changed')
        time = np.round(
            t.stats.starttime.timestamp - t0 + np.arange(len(x))/sr, 7)
        inside = np.zeros(len(x), bool)
        near = np.zeros(len(x), bool)
        for a, b in zip(s, e):
            inside |= (time > a - t0 + 2e-6) & (time < b - t0 - 2e-6)
            # the neighbouring samples may be masked, too
            near |= (time > a - t0 - 1/sr - 2e-6) & \
                (time < b - t0 + 1/sr + 2e-6)
            lo, hi = time[0], time[-1]
            if (a - t0 < lo) != (b - t0 < lo) or (
                    a - t0 < hi) != (b - t0 < hi):
                ctx.nt()
        got = np.ma.getmaskarray(tr.data)
        if case['reverse']:
            must, may = ~near, ~inside
        else:
            must, may = inside, near
        must, may = must | m, may | m
        ck(got[must].all(), 'samples not masked',
           np.where(must & ~got)[0][:5], 'of', len(x))
        ck(not got[~may].any(), 'samples masked', np.where(
            got & ~may)[0][:5], 'of', len(x))
        ck(np.array_equal(np.ma.getdata(tr.data)[~got], x[~got]),
           'samples altered')
    ctx.nt(len(s) > 1)


@sub(st.fixed_dictionaries(dict(
    n=si(20, 300), seed=seeds, sr=st.sampled_from([1., 5., 10., 100.]),
    f32=st.booleans(), ntap=st.one_of(si(2, 12), si(2, 60)),
    rows=st.lists(st.fixed_dictionaries(dict(
        amp=st.sampled_from([1., 1., .1, 50.]),
        drift=st.sampled_from([0, 0, 10., 40.]),
        bursts=st.lists(st.tuples(si(0, 299), si(1, 25)), max_size=3))),
        min_size=1, max_size=4),
    extend=st.booleans(), mode=st.sampled_from(
        ['threshold', 'std_factor', 'default']),
    filt=st.sampled_from([None, None, 'highpass', 'bandpass']))),
    quick=2500, rule='a burst is muted while other samples are not affected')
def mute(case, ctx):
    r = rng(case['seed'])
    n, sr, ntap = case['n'], case['sr'], case['ntap']
    A = []
    for row in case['rows']:
        x = r.uniform(-1, 1, n)
        for a, ln in row['bursts']:
            x[a % n:a % n + ln] += 30*np.sign(x[a % n:a % n + ln])
        x += row['drift']*np.sin(6.*np.arange(n)/n)
        A.append(x*row['amp'])
    A = np.array(A, dtype=np.float32 if case['f32'] else float)
    args = dict(taper_len=(ntap + .5)/sr, extend_gaps=case['extend'])
    fa = None
    if case['filt'] == 'highpass':
        fa = dict(type='highpass', freq=.05*sr)
    elif case['filt'] == 'bandpass':
        fa = dict(type='bandpass', freqmin=.05*sr, freqmax=.3*sr)
    if fa:
        args['filter'] = fa
    p = dict(sampling_rate=sr)
    C = td.TDfilter(A.copy(), fa, p) if fa else A.astype(float)
    std = C.std(axis=1)
    if case['mode'] == 'threshold':
        args['threshold'] = 5.
        thr = np.full(len(A), 5.)
    elif case['mode'] == 'std_factor':
        args['std_factor'] = 2.
        thr = 2*std
    else:
        thr = std
    args0 = copy.deepcopy(args)
    B = td.mute(A.copy(), args, p)
    ck(args == args0, 'arguments altered')
    ck(B.shape == A.shape, 'shape')
    if n <= ntap:
        ck(not B.any(), 'shorter than the taper')
        return
    w = 2*ntap if case['extend'] else ntap
    for i, a in enumerate(A):
        one = td.mute(A[i:i+1].copy(), copy.deepcopy(args), p)
        ck_close(one[0], B[i], 'trace alone', rtol=1e-5,
                 atol=1e-6*np.abs(a).max())
        lim = np.abs(C[i])
        if (np.abs(lim - thr[i]) < 1e-4*thr[i]).any():
            continue  # rounding decides
        loud = np.where(lim > thr[i])[0]
        d = np.full(n, 10**6)
        for k in loud:
            d = np.minimum(d, np.abs(np.arange(n) - k))
        edge = np.minimum(np.arange(n), np.arange(n)[::-1])
        free = (d > w//2 + 2) & (edge > w//2 + 2)
        ck_close(B[i][free], a[free], 'samples far from any muted', rtol=1e-5,
                 atol=1e-30)
        ck((np.abs(B[i]) <= np.abs(a)*(1 + 1e-5)).all(), 'increased')
        ck((B[i]*a >= -1e-12*a**2).all(), 'sign changed')
        if case['extend']:
            ck(np.abs(B[i][loud]).max(initial=0) <= 1e-6*np.abs(a).max(),
               'samples above the threshold are not muted')
        else:
            # long bursts are muted apart from the ends
            deep = np.array([k for k in loud if all(
                x in loud for x in range(
                    max(k - ntap//2 - 1, 0), min(k + ntap//2 + 2, n)))],
                dtype=int)
            ck(np.abs(B[i][deep]).max(initial=0) <= 1e-6*np.abs(a).max(),
               'centre of bursts not muted')
        ctx.nt(len(loud) and free.any())


def gaps_of(m):
    """[(first, length)] of runs of True."""
    d = np.diff(np.concatenate(([0], m.astype(int), [0])))
    return list(zip(np.where(d == 1)[0], np.where(d == -1)[0]
                    - np.where(d == 1)[0]))


def filled(x, m, maxlen):
    """Reference of the gap filling: (values, still missing)"""
    x, left = x.astype(float).copy(), m.copy()
    n = len(x)
    for a, ln in gaps_of(m):
        if (maxlen != -1 and ln > maxlen) or a == 0 or a + ln == n:
            continue
        v0, v1 = x[a - 1], x[a + ln]
        x[a:a+ln] = v0 + (v1 - v0)*np.arange(1, ln + 1)/(ln + 1)
        left[a:a+ln] = False
    return x, left


@sub(st.fixed_dictionaries(dict(
    traces=st.lists(st.fixed_dictionaries(dict(
        n=si(1, 200), gaps=st.lists(st.tuples(si(0, 400), st.one_of(
            si(1, 5), si(1, 40))), max_size=6))), min_size=1, max_size=3),
    seed=seeds, maxlen=st.one_of(st.just(-1), si(0, 12)),
    nans=st.booleans(), f32=st.booleans())), quick=2000,
    rule='gaps of which some are filled and others are not')
def interpolate(case, ctx):
    r = rng(case['seed'])
    ts = [trace(r, t['n'], 1., T0, c, t['gaps'],
                np.float32 if case['f32'] else float)
          for t, c in zip(case['traces'], ('HHE', 'HHN', 'HHZ'))]
    stream = Stream([t[0].copy() for t in ts])
    if case['nans']:
        for tr in stream:
            tr.data = np.ma.filled(tr.data, np.nan)
    out = mu.interpolate_gaps_st(stream, case['maxlen'])
    ck(len(out) == len(ts), 'number of traces')
    for tr, (t, x, m) in zip(out, ts):
        ck(tr.stats.npts == len(x) == len(tr.data), 'number of samples')
        ref, left = filled(x, m, case['maxlen'])
        got = np.ma.getmaskarray(tr.data) | np.isnan(np.ma.filled(
            tr.data, np.nan))
        ck(np.array_equal(got, left), 'gaps after filling', gaps_of(got),
           'expected', gaps_of(left), 'before', gaps_of(m))
        ok = ~m
        ck(np.array_equal(np.ma.getdata(tr.data)[ok], x[ok]),
           'data outside of gaps altered')
        ck_close(np.ma.getdata(tr.data)[~left], ref[~left],
                 'interpolated values', rtol=1e-5)
        ctx.nt(left.any() and (m & ~left).any())


@sub(st.fixed_dictionaries(dict(
    n=si(30, 400), seed=seeds, sr=SRS, f32=st.booleans(),
    gaps=st.lists(st.tuples(si(0, 400), st.one_of(si(1, 4), si(1, 60))),
                  max_size=6),
    split=st.booleans(), shuffle=st.booleans(), two=st.booleans(),
    maxlen=si(0, 6), retain=st.one_of(st.just(0), si(0, 60)),
    ntap=si(1, 20), overlap=si(0, 5))), quick=1500,
    rule='a gap remains and another one is filled or a snippet discarded')
def gap_handler(case, ctx):
    r = rng(case['seed'])
    n, sr = case['n'], case['sr']
    dt = np.float32 if case['f32'] else float
    stream, ref = Stream(), {}
    for cha in ['HHZ', 'HHE'][:1 + case['two']]:
        tr, x, m = trace(r, n, sr, T0, cha, case['gaps'], dt)
        if m.all():
            raise Skip()
        x0 = x.astype(float)
        y, left = filled(x0, m, case['maxlen'] or 0)
        w = np.ones(n)
        for a, ln in gaps_of(~left):
            if ln/sr <= case['retain']/sr + 1e-12:
                left[a:a+ln] = True
                ctx.label('discarded')
                continue
            k = case['ntap']
            if 2*k <= ln:
                tap = np.sin(np.linspace(0, np.pi, 2*k))
                w[a:a+k] = tap[:k]
                w[a+ln-k:a+ln] = tap[k:]
        if not left.all():
            ref[cha] = (y, left, w, m)
        if case['split'] and m.any():
            parts = tr.split()
            # neighbouring files may overlap
            for p in parts:
                if case['overlap'] and p.stats.npts > 2*case['overlap']:
                    q = p.copy()
                    k = p.stats.npts//2
                    p.data = p.data[:k + case['overlap']].copy()
                    q.data = q.data[k:].copy()
                    q.stats.starttime += k/sr
                    stream.append(q)
                stream.append(p)
        else:
            stream.append(tr)
    if case['shuffle']:
        stream.traces = [stream[i] for i in r.permutation(len(stream))]
    out = mu.gap_handler(
        stream, max_interpolation_length=case['maxlen'],
        retain_len=case['retain']/sr, taper_len=case['ntap']/sr)
    ids = [tr.stats.channel for tr in out]
    ck(sorted(ids) == sorted(ref), 'traces', sorted(ids), sorted(ref))
    for tr in out:
        y, left, w, m = ref[tr.stats.channel]
        k = (tr.stats.starttime.timestamp - T0)*sr
        i = int(round(k))
        ck(abs(k - i) < 1e-4, 'start time off the grid')
        got = np.full(n, np.nan)
        d = np.ma.filled(np.ma.masked_array(tr.data, dtype=float), np.nan)
        ck(i >= 0 and i + len(d) <= n, 'more samples than before')
        got[i:i + len(d)] = d
        ck(np.array_equal(np.isnan(got), left), 'gaps', gaps_of(
            np.isnan(got)), 'expected', gaps_of(left), 'before', gaps_of(m))
        ck_close(got[~left], (y*w)[~left], 'samples', rtol=1e-4,
                 atol=1e-5*np.abs(y).max())
        ctx.nt(left.any() and ((m & ~left).any() or (left & ~m).any()))


@sub(st.fixed_dictionaries(dict(
    n=si(4, 300), seed=seeds, sr=SRS, gaps=gaplist, ntap=si(1, 20),
    at_masked=st.booleans(), dtype=st.sampled_from(
        ['f8', 'f4', 'i4']))), quick=1500,
    rule='tapered at the edges of a gap')
def taper(case, ctx):
    """Tapering of streams with and without gaps."""
    r = rng(case['seed'])
    n, k = case['n'], case['ntap']
    tr, x, m = trace(r, n, case['sr'], T0, 'HHZ',
                     case['gaps'] if case['at_masked'] else (),
                     np.dtype(case['dtype']))
    if m.all():
        raise Skip()
    rel = 1e-5
    if case['dtype'] == 'i4':
        # counts on top of a large offset are kept exactly
        x = x + 2**30
        tr.data = tr.data + np.int32(2**30)
        rel = 1e-10
    out = ps.cos_taper_st(Stream([tr.copy()]), k/case['sr'],
                          taper_at_masked=case['at_masked'])
    ck(len(out) == 1, 'number of traces')
    w = np.ones(n)
    for a, ln in gaps_of(~m):
        if 2*k <= ln:
            tap = np.sin(np.linspace(0, np.pi, 2*k))
            w[a:a+k] = tap[:k]
            w[a+ln-k:a+ln] = tap[k:]
            ctx.nt(m.any())
    tr = out[0]
    ck(tr.stats.starttime.timestamp == T0 and tr.stats.npts == n
       == len(tr.data), 'time span changed', tr.stats.npts, n)
    ck(np.array_equal(np.ma.getmaskarray(tr.data), m), 'mask changed')
    ck_close(np.ma.getdata(tr.data)[~m], (x*w)[~m], 'tapered', rtol=0 if rel < 1e-5
             else 1e-4, atol=rel*np.abs(x).max())


@sub(st.fixed_dictionaries(dict(
    n=st.lists(si(2, 200), min_size=1, max_size=3), seed=seeds, sr=SRS,
    gaps=st.lists(gaplist, min_size=3, max_size=3),
    full=st.lists(si(0, 2), max_size=1),
    what=st.sampled_from(['linear', 'constant', 'demean']))), quick=1000,
    rule='a trace with a gap')
def detrend(case, ctx):
    """Detrending of streams treats each piece between gaps on its own."""
    r = rng(case['seed'])
    ts = [trace(r, n, case['sr'], T0, c, g)
          for n, c, g in zip(case['n'], ('HHE', 'HHN', 'HHZ'), case['gaps'])]
    for i in case['full']:
        if i < len(ts):
            ts[i][2][:] = True
            ts[i][0].data = np.ma.array(ts[i][1], mask=True)
    out = ps.detrend_st(Stream([t[0].copy() for t in ts]), case['what'])
    ck(len(out) == len(ts), 'number of traces')
    for tr, (t, x, m) in zip(out, ts):
        ck(tr.stats.starttime.timestamp == T0
           and tr.stats.npts == len(x) == len(tr.data), 'time span')
        ck(np.array_equal(np.ma.getmaskarray(tr.data), m), 'mask changed')
        for a, ln in gaps_of(~m):
            y = x[a:a+ln]
            p = np.arange(ln) - ln/2
            if case['what'] == 'linear':
                if ln == 1:
                    continue
                ref = y - np.polyval(np.polyfit(p, y, 1), p)
            else:
                ref = y - y.mean()
            ck_close(np.ma.getdata(tr.data)[a:a+ln], ref, 'detrended',
                     rtol=0, atol=1e-7*np.abs(x).max())
        ctx.nt(m.any() and not m.all())
