"""C03: correlations equal their time-domain definition."""
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import correlator, naive

si = st.integers
SR = [1., 2., 5., 10., 25., 100., 0.5, 3., 12.5]


def traces(case):
    r = rng(case['seed'])
    n = case['n']
    out = []
    for t in case['traces']:
        kind = t['kind']
        x = r.randn(n)
        if kind == 'pulse':
            x = np.zeros(n)
            x[t['at'] % n] = 1.
        elif kind == 'alt':
            x = np.where(np.arange(n) % 2, -1., 1.)
        elif kind == 'const':
            x = np.ones(n)
        elif kind == 'zero':
            x = np.zeros(n)
        elif kind == 'copy' and out:
            x = np.roll(out[0], t['at'] % n)
        out.append(x*10.**t['amp'])
    return np.array(out)


matrix_case = st.fixed_dictionaries(dict(
    n=st.one_of(si(2, 40), si(2, 400)), seed=seeds,
    sr=st.sampled_from(SR),
    lag=st.floats(0, 1), lagint=st.booleans(),
    traces=st.lists(st.fixed_dictionaries(dict(
        kind=st.sampled_from(['noise', 'noise', 'noise', 'pulse', 'alt',
                              'const', 'copy', 'zero']),
        at=si(0, 400), amp=st.sampled_from([0, 0, 3, -3, 6]))),
        min_size=1, max_size=5),
    combos=st.lists(st.tuples(si(0, 4), si(0, 4)), min_size=1, max_size=6),
    off=st.lists(si(-4, 4), min_size=5, max_size=5), hasoff=st.booleans(),
    center=st.booleans(), norm=st.booleans()))


@sub(matrix_case, quick=2500, rule='a pair of two different noise-like traces '
     'with at least 3 lags')
def definition(case, ctx):
    n, sr = case['n'], case['sr']
    A = traces(case)
    nt = len(A)
    combos = [(i % nt, j % nt) for i, j in case['combos']]
    smax = n - 1
    s = max(1, int(case["lag"]*smax))
    lag = s/sr if case['lagint'] else (s + .4)/sr if s < smax else s/sr
    off = case['off'] if case['hasoff'] else [0]*5
    if case['hasoff']:
        # compensated shifts: keep the signal away from the ends
        A[:, :9] = 0
        A[:, -9:] = 0
    t0 = [UTCDateTime(T0) + o/sr for o in off[:nt]]
    c = correlator(dict(lengthToSave=lag, center_correlation=case['center'],
                        normalize_correlation=case['norm']), sr)
    c.options['starttime'] = t0
    c.options['combinations'] = combos
    A32 = A.astype(np.float32)
    C, lags = c._pxcorr_matrix(A32.copy())
    ck(len(C) == len(combos) == len(lags), 'number of correlations')
    for k, (i, j) in enumerate(combos):
        ax = (np.arange(C.shape[1])/sr + lags[k])*sr  # lags in samples
        # true lag of sample index shift m: m + (t_j - t_i)*sr
        d = off[j] - off[i]
        sh = np.rint(ax - d).astype(int)
        ck(np.abs(ax - d - sh).max() < 1e-3, 'lag axis off the sample grid',
           lags[k], sr)
        if case['center']:
            # zero correlation time is in the centre
            ck(np.abs(ax[0] + ax[-1]) < 1e-3, 'lag axis not centred')
            lo, hi = ax[0], ax[-1]
        else:
            # centred on zero shift (give or take the rounding to a sample)
            lo, hi = ax[0] - d, ax[-1] - d
            m = np.rint((lo + hi)/2)
            ck(abs(m) <= (1 if case['hasoff'] else 0), 'lag range off centre')
            lo, hi = lo - m, hi - m
        ck(lo <= -lag*sr + 1e-3 and hi >= lag*sr - 1e-3,
           'requested lag range not covered', lo, hi, lag*sr)
        ck(lo > -lag*sr - 1.01 and hi < lag*sr + 1.01,
           'more than the requested lag range', lo, hi, lag*sr)
        a, b = A32[i].astype(float), A32[j].astype(float)
        ref = naive(a, b, sh)
        e = np.sqrt(np.sum(a**2)*np.sum(b**2))
        if e == 0:
            if not case['norm']:
                ck_close(C[k], 0*ref, 'dead trace', atol=1e-9)
            continue
        if case['norm']:
            ck(np.nanmax(np.abs(C[k])) <= 1 + 1e-4, 'coefficient above one',
               np.nanmax(np.abs(C[k])))
            ref, e = ref/e, 1.
        ck_close(C[k], ref, 'pair %d-%d (n=%d, %d lags)' % (
            i, j, n, len(sh)), rtol=0, atol=3e-5*e)
        if i == j:
            ck(abs(C[k] - C[k][::-1]).max() < 3e-5*e,
               'autocorrelation not symmetric')
        if i != j and len(sh) >= 3 and case['traces'][i]['kind'] == \
                case['traces'][j]['kind'] == 'noise':
            ctx.nt()


@sub(matrix_case, quick=700, rule='at least three traces and two pairs')
def independence(case, ctx):
    """The value of a pair does not depend on the other traces / pairs."""
    n, sr = case['n'], case['sr']
    A = traces(case).astype(np.float32)
    nt = len(A)
    combos = [(i % nt, j % nt) for i, j in case['combos']]
    lag = max(1, int(case["lag"]*(n - 1)))/sr
    off = case['off'] if case['hasoff'] else [0]*5
    t0 = [UTCDateTime(T0) + o/sr for o in off[:nt]]
    args = dict(lengthToSave=lag, center_correlation=case['center'],
                normalize_correlation=case['norm'])
    c = correlator(args, sr)
    c.options['starttime'] = t0
    c.options['combinations'] = combos
    C, lags = c._pxcorr_matrix(A.copy())
    for k, (i, j) in enumerate(combos):
        c2 = correlator(args, sr)
        c2.options['starttime'] = [t0[i], t0[j]]
        c2.options['combinations'] = [(0, 1)]
        C2, l2 = c2._pxcorr_matrix(A[[i, j]].copy())
        ck(abs(l2[0] - lags[k]) < 1e-6, 'lag axis depends on others')
        e = 1. if case['norm'] else np.sqrt(
            np.sum(A[i].astype(float)**2)*np.sum(A[j].astype(float)**2))
        ck_close(np.nan_to_num(C2[0]), np.nan_to_num(C[k]),
                 'pair alone vs together', rtol=0, atol=1e-5*e + 1e-12)
    ctx.nt(nt >= 3 and len(set(combos)) >= 2)


@sub(st.fixed_dictionaries(dict(
    n=si(150, 400), seed=seeds, sr=st.sampled_from(SR),
    fa=st.floats(-.95, .95), fb=st.floats(-.95, .95), base=si(-3, 3),
    center=st.booleans(), lag=si(5, 40))), quick=700,
    rule='sub-sample start time differences (all)')
def fractional_offset(case, ctx):
    """Band-limited signals sampled at shifted times: the correlation on the
    announced lag axis is the continuous one."""
    n, sr = case['n'], case['sr']
    r = rng(case['seed'])
    # sum of Gaussian-windowed wavelets well inside, known analytically
    ts = (np.arange(3) + .5)*n/4 + n/8
    ph = r.rand(3)*6

    def sig(t, k):
        out = 0
        for i in range(3):
            out = out + np.exp(-.5*((t - ts[i])/6)**2)*np.cos(
                .5*(t - ts[i]) + ph[i] + k)
        return out
    fa, fb = case['fa'] + case['base'], case['fb']
    x = np.arange(n)
    A = np.array([sig(x + fa, 0), sig(x + fb, 1.3)], dtype=np.float32)
    c = correlator(dict(lengthToSave=case['lag']/sr,
                        center_correlation=case['center'],
                        normalize_correlation=False), sr)
    c.options['starttime'] = [UTCDateTime(T0) + f/sr for f in (fa, fb)]
    c.options['combinations'] = [(0, 1)]
    C, lags = c._pxcorr_matrix(A.copy())
    tau = np.arange(C.shape[1]) + lags[0]*sr  # in samples
    fine = np.arange(-20, n + 20, 1.)
    ref = np.array([np.sum(sig(fine, 0)*sig(fine + k, 1.3)) for k in tau])
    e = np.sum(sig(fine, 0)**2)
    # times have microsecond resolution
    ck_close(C[0], ref, 'fractional offset', rtol=0,
             atol=(3e-4 + 2e-6*sr)*e)
    ctx.nt()
