"""C09: frequency-domain preprocessing keeps what it promises."""
import copy
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import correlator
from seismic.correlate import preprocessing_fd as fd

si = st.integers
FD = 'seismic.correlate.preprocessing_fd.'


@st.composite
def spectra(draw, mult=None):
    """Recipe of several traces (in the time domain)."""
    k = mult or 1
    nrow = draw(si(1, 2 if mult else 5))*k
    return dict(
        n=draw(st.one_of(si(8, 40), si(8, 300))), seed=draw(seeds),
        single=draw(st.booleans()),
        rows=draw(st.lists(st.fixed_dictionaries(dict(
            kind=st.sampled_from(['noise'] * 4 + [
                'zero', 'holes', 'line', 'offset']),
            amp=st.sampled_from([0, 0, 0, 4, -4]), at=si(0, 300))),
            min_size=nrow, max_size=nrow)))


def build(m):
    r = rng(m['seed'])
    n = m['n']
    out = []
    for t in m['rows']:
        x = r.randn(n)
        k = t['kind']
        if k == 'zero':
            x = np.zeros(n)
        elif k == 'offset':
            x = x + 20
        B = np.fft.rfft(x)
        if k == 'holes':
            # frequencies without any energy
            B[t['at'] % len(B)] = 0
            B[::3] = 0
        elif k == 'line':
            B[:] = 0
            B[max(1, t['at'] % len(B))] = n
        out.append(B*10.**t['amp'])
    return np.array(out, dtype=np.csingle if m['single'] else complex)


def apply(f, B, args, params, group=1):
    args0 = copy.deepcopy(args)
    C = np.array(f(B.copy(), args, params))
    ck(args == args0, 'the arguments are altered')
    ck(C.shape == B.shape, 'shape', B.shape, C.shape)
    for i in range(0, len(B), group):
        one = f(B[i:i+group].copy(), args, params)
        e = 1e-6*np.nan_to_num(np.abs(C[i:i+group])).max()
        ck_close(one, C[i:i+group], 'trace alone and with others', rtol=0,
                 atol=e)
    R = f(B[::-1].copy(), args, params)
    if group == 1:
        ck_close(R[::-1], C, 'order of traces', rtol=1e-5, atol=1e-9)
    return C


def eps(B):
    return 1e-5 if B.dtype == np.csingle else 1e-10


@sub(spectra(), quick=1500, rule='at least two traces, one of which has '
     'components without energy')
def whitening(case, ctx):
    B = build(case)
    C = apply(fd.spectralWhitening, B, {}, {})
    C2 = fd.spectralWhitening(B.copy(), {'joint_norm': False}, {})
    ck_close(C2, C, 'joint_norm False')
    ck(not C[:, 0].any(), 'mean not removed')
    b, c = B[:, 1:].astype(complex), C[:, 1:]
    on = b != 0
    ck_close(c[on], b[on]/np.abs(b[on]), 'not amplitude one with the phase',
             rtol=0, atol=eps(B))
    ck(not c[~on].any(), 'energy where there was none (or undefined)',
       c[~on][:5])
    ctx.nt(len(B) > 1 and (~on).any() and on.any())


@sub(spectra(3), quick=600, rule='three different components')
def joint(case, ctx):
    """Three traces are normalised by their mean amplitude."""
    B = build(case)
    C = apply(fd.spectralWhitening, B, {'joint_norm': True}, {}, 3)
    ck(not C[:, 0].any(), 'mean not removed')
    for i in range(0, len(B), 3):
        b, c = B[i:i+3, 1:].astype(complex), C[i:i+3, 1:]
        m = np.abs(b).mean(axis=0)
        on = m > 0
        ck_close(c[:, on], b[:, on]/m[on], 'joint normalisation', rtol=1e-4,
                 atol=eps(B))
        ck(not c[:, ~on].any(), 'energy where there was none')
    ctx.nt(len({t['amp'] for t in case['rows']}) > 1)


@sub(st.fixed_dictionaries(dict(
    m=spectra(), sr=st.sampled_from([1., 5., 25., 100.]),
    f=st.lists(st.floats(0, 1), min_size=4, max_size=4, unique=True))),
    quick=1500, rule='pass band, both slopes and both stop bands are '
    'resolved')
def fdfilter(case, ctx):
    B = build(case['m'])
    sr, n = case['sr'], case['m']['n']
    freqs = np.fft.rfftfreq(n, 1/sr)
    df = freqs[1]
    f = sorted(case['f'])
    fl = [x*sr/2 for x in f]
    p = dict(freqs=freqs, sampling_rate=sr)
    if min(np.diff(fl)) < 1.01*df:
        raise Skip()
    C = apply(fd.FDfilter, B, dict(flimit=tuple(fl)), p)
    W = fd.FDfilter(np.ones((1, len(freqs)), dtype=complex),
                    dict(flimit=fl), p)[0]
    ck_close(C, B*W, 'not a multiplication with weights', rtol=1e-5,
             atol=1e-30)
    ck(np.abs(W.imag).max() < 1e-12, 'phase changed')
    W = W.real
    ck(W.min() > -1e-9 and W.max() < 1 + 1e-9, 'weights not in [0, 1]')
    # corners are placed at the closest frequency
    ck(np.abs(W[(freqs < fl[0] - df*.51) | (freqs > fl[3] + df*.51)]).max(
        initial=0) < 1e-9, 'not zero outside')
    if fl[1] - fl[0] < 2*df or fl[3] - fl[2] < 2*df:
        return
    inner = (freqs > fl[1] + df*.51) & (freqs < fl[2] - df*.51)
    ck(np.abs(W[inner] - 1).max(initial=0) < 1e-9, 'not one inside')
    up = W[(freqs > fl[0] - df/2) & (freqs < fl[1] + df/2)]
    ck((np.diff(up) >= -1e-9).all(), 'slope')
    down = W[(freqs > fl[2] - df/2) & (freqs < fl[3] + df/2)]
    ck((np.diff(down) <= 1e-9).all(), 'slope')
    for a, b, s in ((fl[0], fl[1], 1), (fl[3], fl[2], -1)):
        if abs(b - a) > 6*df:
            x = (freqs - a)/(b - a)
            i = (x > .2) & (x < .8)
            ck(np.abs(W[i] - .5*(1 - np.cos(np.pi*x[i]))).max()
               < 1.6*df/abs(b - a)*1.6, 'not a cosine')
    ctx.nt(inner.any() and freqs[0] < fl[0] - df and fl[3] + df < sr/2)


@sub(st.fixed_dictionaries(dict(
    m=spectra(), sr=st.sampled_from([1., 5., 25., 100.]))), quick=1000,
    rule='odd number of samples')
def signbit(case, ctx):
    """One-bit normalisation of the time series behind the spectra."""
    m = case['m']
    B = build(m)
    n = m['n']
    p = dict(freqs=np.fft.rfftfreq(n, 1/case['sr']),
             sampling_rate=case['sr'])
    C = fd.FDsignBitNormalization(B.copy(), {}, p)
    ck(C.shape == B.shape, 'shape')
    x = np.fft.irfft(B, n)
    y = np.fft.irfft(C, n)
    for a, b, t in zip(x, y, m['rows']):
        if not a.any():
            ck(not b.any(), 'signal in a dead trace')
            continue
        clear = np.abs(a) > 1e-4*np.abs(a).max()
        ck_close(b[clear], np.sign(a[clear]), 'sign in time domain', rtol=0,
                 atol=1e-4 if clear.all() else 1e-4)
    one = fd.FDsignBitNormalization(B[:1].copy(), {}, p)
    ck_close(one[0], C[0], 'trace alone', rtol=0,
             atol=1e-6*max(1, np.abs(C[0]).max()))
    ctx.nt(n % 2 and any(t['kind'] == 'noise' for t in m['rows']))


step = st.sampled_from([
    dict(function=FD + 'spectralWhitening', args={}),
    dict(function=FD + 'FDsignBitNormalization', args={}),
    dict(function=FD + 'FDfilter', args=dict(flimit=[.02, .1, .3, .45]))])


@sub(st.fixed_dictionaries(dict(
    n=si(30, 200), seed=seeds, dead=st.lists(si(0, 4), max_size=2),
    ntr=si(2, 5), steps=st.lists(step, min_size=1, max_size=3),
    lag=si(3, 25), norm=st.booleans())), quick=500,
    rule='a dead trace next to two others, or several steps')
def correlations(case, ctx):
    """Correlations with frequency domain steps, dead traces included."""
    n, nt = case['n'], case['ntr']
    A = rng(case['seed']).randn(nt, n).astype(np.float32)
    dead = {i % nt for i in case['dead']}
    for i in dead:
        A[i] = 0
    combos = [(i, j) for i in range(nt) for j in range(i, nt)]
    c = correlator(dict(
        lengthToSave=case['lag'], normalize_correlation=case['norm'],
        FDpreProcessing=case['steps']), 1.)
    c.options['starttime'] = [UTCDateTime(T0)]*nt
    c.options['combinations'] = combos
    C, lags = c._pxcorr_matrix(A.copy())
    # any padded length that avoids wrap around is right for whitening only
    # if there is one choice: take it from the correlator's own padding
    from seismic.correlate.preprocessing_td import zeroPadding
    P = zeroPadding(A.copy(), {'type': 'avoidWrapFastLen'},
                    dict(sampling_rate=1., lengthToSave=case['lag']))
    m = P.shape[1]
    B = np.fft.rfft(P.astype(float), axis=1).astype(np.csingle)
    freqs = np.fft.rfftfreq(m, 1.)
    for s in case['steps']:
        k = s['function'].rsplit('.')[-1]
        if k == 'spectralWhitening':
            a = np.abs(B)
            B = B/np.where(a == 0, 1, a)
            B[:, 0] = 0
        elif k == 'FDsignBitNormalization':
            x = np.fft.irfft(B, m)
            if (np.abs(x) < 1e-5*np.abs(x).max(axis=1, keepdims=True))[
                    [i for i in range(nt) if i not in dead]].any():
                raise Skip()
            B = np.fft.rfft(np.sign(x))
        else:
            B = fd.FDfilter(B.astype(complex), s['args'], dict(freqs=freqs))
        B = B.astype(np.csingle)
    x = np.fft.irfft(B.astype(complex), m)
    L = case['lag']
    for k, (i, j) in enumerate(combos):
        if {i, j} & dead:
            if not case['norm']:
                ck(not C[k].any(), 'dead trace')
            continue
        full = np.fft.irfft(np.fft.rfft(x[i]).conj()*np.fft.rfft(x[j]), m)
        ref = np.concatenate((full[-L:], full[:L+1]))
        e = np.sqrt((x[i]**2).sum()*(x[j]**2).sum())
        if case['norm']:
            ref, e = ref/e, 1
        ck_close(C[k], ref, 'pair %s' % ((i, j),), rtol=0, atol=1e-4*e)
    ctx.nt((dead and nt - len(dead) >= 2) or len(case['steps']) > 1)
