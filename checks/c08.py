"""C08: time-domain preprocessing acts on each trace as defined."""
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import correlator
from obspy.signal import filter as ofilter
from seismic.correlate import preprocessing_td as td

si = st.integers
TD = 'seismic.correlate.preprocessing_td.'


@st.composite
def matrices(draw, nmin=4, nmax=300, kinds=None):
    return dict(
        n=draw(st.one_of(si(nmin, 40), si(nmin, nmax))), seed=draw(seeds),
        f32=draw(st.booleans()),
        rows=draw(st.lists(st.fixed_dictionaries(dict(
            kind=st.sampled_from(kinds or [
                'noise', 'noise', 'noise', 'const', 'zero', 'spike', 'ramp',
                'offset']),
            amp=st.sampled_from([0, 0, 0, 4, -4]), at=si(0, 300))),
            min_size=1, max_size=5)))


def build(m):
    r = rng(m['seed'])
    n = m['n']
    out = []
    for t in m['rows']:
        x = r.randn(n)
        k = t['kind']
        if k == 'const':
            x = np.ones(n)*(1 + r.rand())
        elif k == 'zero':
            x = np.zeros(n)
        elif k == 'spike':
            x[t['at'] % n] += 200
        elif k == 'ramp':
            x = x + 5*np.arange(n)/n*r.randn() + r.randn()
        elif k == 'offset':
            x = x + 20
        elif k == 'quietend':
            x[n//2:] *= 1e-3
        out.append(x*10.**t['amp'])
    return np.array(out, dtype=np.float32 if m['f32'] else float)


def apply(f, A, args, params, pad=False):
    """Call, and the generic part of the property."""
    import copy
    args0 = copy.deepcopy(args)
    B = f(A.copy(), args, params)
    ck(args == args0, 'the arguments are altered', args0, args)
    ck(B.ndim == 2 and B.shape[0] == A.shape[0], 'number of traces',
       A.shape, B.shape)
    if not pad:
        ck(B.shape == A.shape, 'shape', A.shape, B.shape)
    B = np.array(B)
    # every trace on its own, and in the opposite order
    R = f(A[::-1].copy(), copy.deepcopy(args), params)
    for i in range(len(A)):
        one = f(A[i:i+1].copy(), copy.deepcopy(args), params)
        e = 1e-6*np.nanmax(np.abs(B[i])) if np.isfinite(B[i]).any() else 0
        ck_close(one[0], B[i], 'trace alone and with others', rtol=0, atol=e)
        ck_close(R[len(A)-1-i], B[i], 'order of traces', rtol=0, atol=e)
    return B


def tol(x, A):
    return (2e-6 if A.dtype == np.float32 else 1e-11)*x + 1e-30


def eps(A):
    return 5e-6 if A.dtype == np.float32 else 1e-10


@sub(st.fixed_dictionaries(dict(m=matrices(), k=st.floats(.2, 4))),
     quick=1500, rule='some but not all samples are clipped')
def clip(case, ctx):
    A = build(case['m'])
    B = apply(td.clip, A, dict(std_factor=case['k']), {})
    for a, b in zip(A.astype(float), B):
        lim = case['k']*a.std()
        ck(np.abs(b).max() <= lim*(1 + 1e-5) + eps(A)*np.abs(a).max(),
           'beyond the limit')
        ck_close(b, np.clip(a, -lim, lim), 'clipped', rtol=0,
                 atol=eps(A)*np.abs(a).max())
        n = (np.abs(a) > lim).sum()
        ctx.nt(0 < n < len(a))


@sub(st.fixed_dictionaries(dict(
    m=matrices(), kind=st.sampled_from([
        {}, {'method': 'qr'}, {'method': 'qr', 'type': 'linear'},
        {'method': 'qr', 'type': 'constant'}, 'scipy', 'scipy_const']))),
    quick=1500, rule='a trace with noise and a trend or offset')
def detrend(case, ctx):
    A = build(case['m'])
    k = case['kind']
    f, args, const = td.detrend, k, False
    if k == 'scipy':
        f, args = td.detrend_scipy, {}
    elif k == 'scipy_const':
        f, args, const = td.detrend_scipy, {'type': 'constant'}, True
    else:
        const = k.get('type') == 'constant'
    B = apply(f, A, args, {})
    again = f(np.array(B), args, {})
    t = np.arange(A.shape[1])/A.shape[1]
    X = np.stack([t, t*0 + 1]).T[:, 1 if const else 0:]
    for i, a in enumerate(A.astype(float)):
        ref = a - X @ np.linalg.lstsq(X, a, rcond=None)[0]
        # (the time axis in the code has single precision)
        e = 5e-6*np.abs(a).max() + 1e-30
        ck_close(B[i], ref, 'detrended', rtol=0, atol=e)
        ck_close(again[i], B[i], 'detrended twice', rtol=0, atol=e)
        line = X @ np.array([3., -2.])[:X.shape[1]]*np.abs(a).max()
        C = f((A[i:i+1] + line).astype(A.dtype), args, {})
        ck_close(C[0], B[i], 'line added before', rtol=0, atol=8*e)
        ctx.nt(case['m']['rows'][i]['kind'] in ('ramp', 'offset'))


@sub(st.fixed_dictionaries(dict(m=matrices(), pos=st.floats(.01, 100))),
     quick=1000, rule='a trace with both signs')
def amplitudes(case, ctx):
    """One-bit normalisation and division by the standard deviation."""
    A = build(case['m'])
    B = apply(td.signBitNormalization, A, {}, {})
    ck(np.array_equal(B, np.where(A > 0, 1, np.where(A < 0, -1, 0))),
       'signs')
    S = apply(td.normalizeStandardDeviation, A, {}, {})
    for a, s in zip(A.astype(float), S):
        d = a.std()
        if d <= 1e-5*np.abs(a).max():
            # rounding decides
            ck(np.isfinite(s).all(), 'constant trace')
            if not a.any():
                ck(not s.any(), 'dead trace')
            continue
        ck_close(s*d, a, 'divided by the standard deviation', rtol=1e-4,
                 atol=eps(A)*np.abs(a).max())
        ctx.nt(a.min() < 0 < a.max())
    # positive scaling cancels
    S2 = td.normalizeStandardDeviation(
        (A.astype(float)*case['pos']), {}, {})
    S1 = td.normalizeStandardDeviation(A.astype(float), {}, {})
    for a, x, y in zip(A, S1, S2):
        if a.std() > 1e-5*np.abs(a).max():
            ck_close(x, y, 'independent of amplitude', rtol=1e-6)


@sub(st.fixed_dictionaries(dict(m=matrices(nmin=8), p=st.floats(0, 1))),
     quick=800, rule='0 < p < 1')
def taper(case, ctx):
    A = build(case['m'])
    p = case['p']
    B = apply(td.taper, A, dict(type='cosine_taper', p=p), {})
    n = A.shape[1]
    w = int(np.ceil(p*n/2)) + 1
    for a, b in zip(A.astype(float), B):
        ck(np.array_equal(a[w:n-w], b[w:n-w]), 'centre altered')
        ck((np.abs(b) <= np.abs(a)*(1 + 1e-6)).all(), 'increased')
        ck((a*b >= 0).all(), 'sign changed')
    # the weights: from zero rising to one, symmetric, the same for all
    W = td.taper(np.ones((1, n)), dict(type='cosine_taper', p=p), {})[0]
    ck_close(B, A*W, 'not a multiplication by weights', rtol=1e-5)
    h = n//2
    ck((np.diff(W[:h]) >= -1e-9).all() and (np.diff(W[-h:]) <= 1e-9).all(),
       'taper not monotonous')
    ck_close(W, W[::-1], 'taper not symmetric')
    if p*n/2 >= 2:
        ck(abs(W[0]) < 1e-9, 'ends not zero')
        m = int(p*n/4)
        ck(abs(W[m] - .5*(1 - np.cos(np.pi*m/(p*n/2)))) < 8/(p*n) + .02,
           'not a cosine')
    ctx.nt(0 < p < 1)


fargs = st.sampled_from([None, None, 'bandpass', 'highpass', 'lowpass'])


def filt(kind, sr, lo, hi):
    if kind is None:
        return False
    a = {'type': kind}
    if kind == 'bandpass':
        a.update(freqmin=lo*sr, freqmax=hi*sr)
    else:
        a.update(freq=(lo if kind == 'highpass' else hi)*sr)
    return a


@sub(st.fixed_dictionaries(dict(
    m=matrices(nmin=20, kinds=['noise', 'noise', 'noise', 'spike', 'offset',
                               'quietend', 'zero']),
    w=st.floats(0, 1), sr=st.sampled_from([1., 5., 25., 100., .5]),
    kind=fargs)), quick=1000, rule='window of several samples')
def envelope(case, ctx):
    """Temporal normalisation divides by the local (filtered) envelope."""
    A = build(case['m'])
    n, sr = A.shape[1], case['sr']
    w = 1 + int(case['w']*(min(n, 60) - 1))
    fa = filt(case['kind'], sr, .05, .2)
    args = dict(windowLength=(w - .5)/sr, filter=fa)
    B = apply(td.TDnormalization, A, args, dict(sampling_rate=sr))
    for i, a in enumerate(A.astype(float)):
        if not a.any():
            ck(not np.nan_to_num(B[i]).any(), 'signal in a dead trace')
            ck(np.isfinite(B[i]).all(), 'dead trace becomes undefined')
            continue
        x = a
        if fa:
            k = dict(fa)
            x = getattr(ofilter, k.pop('type'))(a, df=sr, **k)
        # running mean, forward and reversed (no net shift)
        k = np.ones(w)/w
        e = np.convolve(x**2, k)[(w-1)//2:(w-1)//2 + n]
        e = np.convolve(e[::-1], k)[(w-1)//2:(w-1)//2 + n][::-1]
        e = np.sqrt(e + 1e-6*e.max())
        ck_close(B[i], a/e, 'normalised by envelope', rtol=2e-3,
                 atol=1e-4*np.abs(a/e).max())
    ctx.nt(w > 1)


@sub(st.fixed_dictionaries(dict(
    m=matrices(nmin=20), sr=st.sampled_from([1., 5., 25., 100.]),
    kind=st.sampled_from(['bandpass', 'highpass', 'lowpass', 'bandstop']),
    zerophase=st.sampled_from([None, False, True]), corners=si(2, 5),
    lo=st.floats(.03, .1), bw=st.floats(.05, .2), c=st.floats(-3, 3))),
    quick=800, rule='at least two traces')
def filters(case, ctx):
    A = build(case['m']).astype(float)
    sr = case['sr']
    args = dict(type=case['kind'], corners=case['corners'])
    if case['zerophase'] is not None:
        args['zerophase'] = case['zerophase']
    if case['kind'] in ('bandpass', 'bandstop'):
        args.update(freqmin=case['lo']*sr, freqmax=(
            case['lo'] + case['bw'])*sr)
    else:
        args.update(freq=case['lo']*sr)
    p = dict(sampling_rate=sr)
    B = apply(td.TDfilter, A, args, p)
    # linear
    X = A[:1] + case['c']*A[-1:]
    e = np.abs(A).max()*1e-7
    ck_close(td.TDfilter(X, args, p)[0], B[0] + case['c']*B[-1], 'linear',
             rtol=0, atol=e)
    for a, b in zip(A, B):
        k = dict(args)
        ref = getattr(ofilter, k.pop('type'))(a.copy(), df=sr, **k)
        ck_close(b, ref, 'filtered trace', rtol=0,
                 atol=1e-7*np.abs(a).max())
    ctx.nt(len(A) > 1)


@sub(st.fixed_dictionaries(dict(
    kind=st.sampled_from(['bandpass', 'highpass', 'lowpass']),
    zerophase=st.booleans(), sr=st.sampled_from([1., 5., 25., 100.]),
    f=st.floats(.03, .2), ph=st.floats(0, 6))), quick=400,
    rule='all: sinusoids inside and outside of the band')
def bands(case, ctx):
    """Sinusoids in the band pass, others do not."""
    sr, f = case['sr'], case['f']
    t = np.arange(3000)/sr
    args = dict(type=case['kind'], corners=4, zerophase=case['zerophase'])
    if case['kind'] == 'bandpass':
        args.update(freqmin=f*sr/1.6, freqmax=f*sr*1.6)
        out = [f/6, min(f*6, .48)]
    elif case['kind'] == 'highpass':
        args['freq'] = f*sr/1.6
        out = [f/6]
    else:
        args['freq'] = f*sr*1.6
        out = [min(f*6, .48)]
    A = np.array([np.sin(2*np.pi*q*sr*t + case['ph']) for q in [f] + out])
    B = td.TDfilter(A.copy(), args, dict(sampling_rate=sr))
    mid = slice(1000, 2000)
    ck(.8 < np.abs(B[0, mid]).max() < 1.05, 'signal in the band',
       np.abs(B[0, mid]).max())
    if case['zerophase']:
        ck(np.dot(B[0, mid], A[0, mid]) > .99*np.sqrt(np.dot(
            A[0, mid], A[0, mid])*np.dot(B[0, mid], B[0, mid])),
           'phase changed')
    for q, b in zip(out, B[1:]):
        if q > .9*f*6 or q < f:
            ck(np.abs(b[mid]).max() < .1, 'signal outside the band', q,
               np.abs(b[mid]).max())
    ctx.nt()


@sub(st.fixed_dictionaries(dict(
    m=matrices(nmin=1), sr=st.sampled_from([1., 2.5, 10., 100.]),
    lag=st.floats(.1, 80), kind=st.sampled_from([
        'nextFastLen', 'avoidWrapAround', 'avoidWrapFastLen']))), quick=800,
    rule='samples are appended')
def padding(case, ctx):
    A = build(case['m'])
    n, sr = A.shape[1], case['sr']
    lag = case['lag']/sr
    B = apply(td.zeroPadding, A, dict(type=case['kind']),
              dict(sampling_rate=sr, lengthToSave=lag), pad=True)
    ck(np.array_equal(B[:, :n], A), 'samples altered')
    ck(not B[:, n:].any(), 'not zeros')
    if case['kind'] == 'nextFastLen':
        ck(n <= B.shape[1] <= 2*n, 'length', n, B.shape)
    else:
        ck(B.shape[1] - n >= lag*sr - 1e-6, 'not long enough', B.shape)
        if case['kind'] == 'avoidWrapAround':
            ck(B.shape[1] - n < lag*sr + 1 + 1e-6, 'too long', B.shape)
    if case['kind'] != 'avoidWrapAround':
        m = B.shape[1]
        for q in (2, 3, 5, 7, 11):
            while m % q == 0:
                m //= q
        ck(m == 1, 'not a fast length', B.shape)
    if A.shape[1] > 1:
        T = td.zeroPadding(A.T.copy(), dict(type=case['kind']), dict(
            sampling_rate=sr, lengthToSave=lag), axis=0)
        ck(np.array_equal(T.T, B), 'padding along the other axis')
    ctx.nt(B.shape[1] > n)


step = st.one_of(
    st.fixed_dictionaries(dict(function=st.just(TD + 'clip'), args=st.
                               fixed_dictionaries(dict(
                                   std_factor=st.sampled_from([1., 2.]))))),
    st.sampled_from([
        dict(function=TD + 'detrend', args={}),
        dict(function=TD + 'detrend', args={'type': 'constant'}),
        dict(function=TD + 'signBitNormalization', args={}),
        dict(function=TD + 'normalizeStandardDeviation', args={}),
        dict(function=TD + 'taper', args=dict(type='cosine_taper', p=.2)),
        dict(function=TD + 'TDfilter', args=dict(
            type='highpass', freq=.1, zerophase=True)),
        dict(function=TD + 'TDnormalization', args=dict(
            windowLength=5, filter=False))]))


@sub(st.fixed_dictionaries(dict(
    m=matrices(nmin=30, kinds=['noise', 'ramp', 'spike']),
    steps=st.lists(step, min_size=1, max_size=4),
    lag=si(2, 20))), quick=400,
    rule='two or more different steps that do not commute')
def chain(case, ctx):
    """The correlator applies the configured steps in the given order."""
    import importlib
    A = build(case['m']).astype(np.float32)
    n = len(A)
    combos = [(i, j) for i in range(n) for j in range(n)]
    res = []
    for pre in (False, True):
        B = A.copy()
        if pre:
            for s in case['steps']:
                mod, f = s['function'].rsplit('.', 1)
                # as in the correlator in single precision
                B = np.array(getattr(importlib.import_module(mod), f)(
                    B.copy(), s['args'], dict(sampling_rate=1.)), np.float32)
        c = correlator(dict(
            lengthToSave=case['lag'], normalize_correlation=False,
            TDpreProcessing=[] if pre else case['steps']), 1.)
        c.options['starttime'] = [UTCDateTime(T0)]*n
        c.options['combinations'] = combos
        res.append(c._pxcorr_matrix(B))
    ck_close(res[0][1], res[1][1], 'lags')
    for k in range(len(combos)):
        i, j = combos[k]
        e = np.sqrt(np.abs(res[1][0][combos.index((i, i))]).max()
                    * np.abs(res[1][0][combos.index((j, j))]).max())
        ck_close(res[0][0][k], res[1][0][k], 'steps %s' % case['steps'],
                 rtol=0, atol=3e-4*e)
    ctx.nt(len({s['function'] for s in case['steps']}) > 1)
