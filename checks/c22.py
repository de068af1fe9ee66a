"""C22: waveform coherence is the declared correlation coefficient."""
import math
import warnings
from copy import deepcopy

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.dvs import quiet
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrBulk
from seismic.monitor.stretch_mod import wfc_multi_reftr
from seismic.monitor.monitor import average_components_wfc
from seismic.monitor.wfc import WFC, WFCBulk

si = st.integers


def header(n, npts, sr, first, cha='Z-Z'):
    return [CorrStats(dict(
        network='A-A', station='B-C', location='-', channel=cha,
        sampling_rate=sr, npts=npts, start_lag=first/sr,
        corr_start=UTCDateTime(T0) + i*3600,
        corr_end=UTCDateTime(T0) + (i+1)*3600)) for i in range(n)]


def naive(row, ref, idx):
    """Zero-lag correlation coefficient of the chosen samples."""
    x = [0. if row[i] != row[i] else float(row[i]) for i in idx]
    y = [0. if ref[i] != ref[i] else float(ref[i]) for i in idx]
    den = math.sqrt(math.fsum(a*a for a in x)*math.fsum(b*b for b in y))
    return math.fsum(a*b for a, b in zip(x, y))/den if den else math.nan


def samples(tw, sides, half):
    """Samples of a symmetric record for a window of lag samples."""
    t = [int(x) for x in tw]
    if sides == 'right':
        return [half + x for x in t]
    if sides == 'left':
        return [half - x for x in t]
    if sides == 'both':
        return sorted({half + x for x in t} | {half - x for x in t})
    return t


cases = st.fixed_dictionaries(dict(
    seed=seeds, half=si(10, 60), n=si(1, 7), nref=si(1, 3),
    flat=st.booleans(), sides=st.sampled_from(
        ['both', 'left', 'right', 'single']), a=st.floats(0, .9),
    b=st.floats(.05, 1), two=st.booleans(), sr=st.sampled_from(
        [1., 4., 10., 12.5, 100.]),
    rows=st.lists(st.sampled_from(
        ['noise', 'noise', 'same', 'neg', 'missing', 'zero', 'gap']),
        min_size=7, max_size=7),
    amp=st.lists(st.sampled_from([1, 1, 1e-12, 3e8]), min_size=7,
                 max_size=7), refnan=st.booleans(),
    dt=st.sampled_from(['f8', 'f8', 'f4']), sc=st.floats(.1, 50)))


def build(c):
    n, half = c['n'], c['half']
    npts = 2*half + 1
    ref = np.array([smooth_noise(c['seed'] % 10**6 + 17*i, npts, 2)
                    for i in range(c['nref'])])
    r = rng(c['seed'])
    d = np.zeros((n, npts))
    for i in range(n):
        k = c['rows'][i]
        d[i] = {'same': ref[0], 'neg': -ref[0], 'zero': 0*ref[0],
                'missing': np.nan*ref[0]}.get(k, r.randn(npts)
                                              + .5*ref[0])
        if k == 'gap':
            d[i, r.rand(npts) < .2] = np.nan
        d[i] *= c['amp'][i]
    if c['refnan']:
        ref[0, r.rand(npts) < .1] = np.nan
    lim = npts - 1 if c['sides'] == 'single' else half
    tws = []
    for f in ((c['a'], c['b']), (c['b']/2, c['a'] + .1))[:1 + c['two']]:
        a = int(f[0]*lim)
        b = min(lim + 1, max(a + 3, int(f[1]*(lim + 1))))
        tws.append(np.arange(a, b))
    return d.astype(c['dt']), ref.astype(c['dt']), tws


@sub(cases, quick=700, shards=2, rule='several references or windows, or '
     'missing correlations')
def coefficient(c, ctx):
    d, ref, tws = build(c)
    half, n = c['half'], c['n']
    rr = ref[0] if c['flat'] and c['nref'] == 1 else ref
    keep = (d.copy(), rr.copy(), [t.copy() for t in tws])
    tol = dict(rtol=1e-9, atol=1e-9) if c['dt'] == 'f8' else dict(
        rtol=1e-4, atol=1e-4)
    cb = quiet(lambda: CorrBulk(d.copy(), statlist=header(
        n, d.shape[1], c['sr'], -half)))
    h0 = deepcopy(dict(cb.stats))
    w = quiet(lambda: cb.wfc(rr, tws, c['sides'], 1., 2., .1, 2.))
    q = quiet(lambda: wfc_multi_reftr(d, rr, tws, c['sides']))
    ck(set(w) == {f'reftr_{i}' for i in range(c['nref'])} == set(q),
       f'references: {set(w)}')
    for i in range(c['nref']):
        got = np.asarray(w[f'reftr_{i}'])
        ck(got.shape == (len(tws), n), f'shape {got.shape}, expected '
           f'{(len(tws), n)}')
        exp = np.array([[naive(d[j], ref[i], samples(t, c['sides'], half))
                         for j in range(n)] for t in tws])
        ck_close(got, exp, 'coherence', **tol)
        ck_close(np.asarray(q[f'reftr_{i}']), exp, 'coherence', **tol)
        v = got[got == got]
        ck(np.all(np.abs(v) <= 1 + tol['atol']), f'coherence {v}')
        if i == 0 and not c['refnan']:
            for j in range(n):
                s = {'same': 1., 'neg': -1.}.get(c['rows'][j])
                if s:
                    ck_close(got[:, j], np.full(len(tws), s),
                             'coherence of a multiple of the reference',
                             **tol)
    ck(same_value(cb.data, keep[0]) and same_value(rr, keep[1]) and all(
        np.array_equal(a, b) for a, b in zip(tws, keep[2]))
        and dict(cb.stats) == h0, 'the input was changed')
    ck(w.wfc_processing == dict(tw_start=1., tw_len=2., freq_min=.1,
                                freq_max=2.), 'notes')
    ck(list(w.stats.corr_start) == [
        x.corr_start for x in header(n, d.shape[1], c['sr'], -half)],
       'times')
    # rescaling
    z = quiet(lambda: CorrBulk(d*np.asarray(c['sc'], d.dtype), statlist=header(
        n, d.shape[1], c['sr'], -half)).wfc(
            rr*np.asarray(3, d.dtype), tws, c['sides'], 1., 2., .1, 2.))
    for k in w:
        ck_close(z[k], w[k], 'coherence of rescaled data', **tol)
    # without removing missing samples these make the coefficient missing
    u = quiet(lambda: wfc_multi_reftr(d, rr, tws, c['sides'],
                                      remove_nans=False))
    for i in range(c['nref']):
        if i == 0 and c['refnan']:
            continue
        for j in range(n):
            if not np.isnan(d[j]).any():
                ck_close(u[f'reftr_{i}'][:, j], w[f'reftr_{i}'][:, j],
                         'coherence without removal', **tol)
    # later processing of the matrix leaves the result alone
    times = list(w.stats.corr_start)
    lag = w.stats.start_lag
    quiet(lambda: cb.trim(-5/c['sr'], 5/c['sr']))
    ck(w.stats.start_lag == lag and list(w.stats.corr_start) == times,
       'the result changed with later processing of the matrix')
    # averages
    quiet(lambda: w.compute_average())
    avs = []
    for k in w:
        v = [x for x in np.ravel(w[k]).tolist() if x == x]
        m = math.fsum(v)/len(v) if v else math.nan
        avs.append(m)
        ck_close(np.array(w.av[k + '_av'], float), np.array(m),
                 'average over times', **tol)
    avs = [m for m in avs if m == m]
    ck_close(np.array(w.mean, float), np.array(
        math.fsum(avs)/len(avs) if avs else math.nan),
        'average over references', **tol)
    if c['nref'] > 1 or c['two'] or 'missing' in c['rows'][:n]:
        ctx.nt()
    ctx.label(c['sides'])


comp = st.fixed_dictionaries(dict(
    seed=seeds, k=si(1, 5), n=si(1, 6), nref=si(1, 3), miss=st.lists(
        st.tuples(si(0, 4), si(0, 5)), max_size=6), perm=seeds,
    bad=st.sampled_from([None]*8 + ['tw_start', 'tw_len', 'freq_min',
                         'freq_max']), calc=st.booleans()))


@sub(comp, quick=600, rule='several components with missing times')
def components(c, ctx):
    r = rng(c['seed'])
    P = dict(tw_start=1., tw_len=5., freq_min=.5, freq_max=2.)
    ws = []
    for i in range(c['k']):
        d = {f'reftr_{j}': r.uniform(-1, 1, (1, c['n']))
             for j in range(c['nref'])}
        for a, b in c['miss']:
            if a == i and b < c['n']:
                for x in d.values():
                    x[0, b] = np.nan
        h = CorrStats(dict(network='A-A', station='B-C', channel=f'Z-{i}',
                           corr_start=[UTCDateTime(T0) + 9*q
                                       for q in range(c['n'])],
                           corr_end=[UTCDateTime(T0) + 9*q + 5
                                     for q in range(c['n'])]))
        ws.append(WFC(d, h, dict(P)))
        if c['calc']:
            quiet(lambda: ws[-1].compute_average())
    before = [({k: v.copy() for k, v in w.items()}, w.stats.channel)
              for w in ws]
    if c['bad']:
        ws[-1].wfc_processing[c['bad']] += .25
        if len(ws) > 1:
            expect_raises((ValueError,), lambda: average_components_wfc(ws),
                          'different windows averaged')
            ctx.label('refused')
            return
    exp = {}
    for k in ws[0]:
        v = [[x[k][0, q] for x in ws if x[k][0, q] == x[k][0, q]]
             for q in range(c['n'])]
        exp[k] = np.array([[math.fsum(x)/len(x) if x else np.nan
                            for x in v]])
    p = [ws[i] for i in rng(c['perm']).permutation(len(ws))]
    for x in (ws, p):
        a = quiet(lambda: average_components_wfc(x))
        ck(set(a) == set(exp), 'references')
        for k in exp:
            ck_close(a[k], exp[k], 'average over components', atol=1e-12)
        ck(a.stats.channel == 'av' and a.stats.network == 'A-A'
           and a.stats.station == 'B-C', 'codes')
        ck(list(a.stats.corr_start) == list(ws[0].stats.corr_start), 'times')
        ck(a.wfc_processing == ws[0].wfc_processing, 'notes')
        quiet(lambda: a.compute_average())
    for w, (d, ch) in zip(ws, before):
        ck(all(same_value(w[k], d[k]) for k in d) and w.stats.channel == ch,
           'averaging changed its input')
    if c['k'] > 1 and c['miss']:
        ctx.nt()


grid = st.fixed_dictionaries(dict(
    seed=seeds, f=st.lists(st.floats(.01, 5), min_size=1, max_size=4,
                           unique_by=lambda x: round(x, 3)),
    t=st.lists(st.floats(0, 90), min_size=1, max_size=4,
               unique_by=lambda x: round(x, 2)),
    drop=st.lists(si(0, 15), max_size=6), calc=si(0, 65535), perm=seeds,
    nref=si(1, 3), len=st.sampled_from([10., 10., 7., 5, .5, 1.25])))


@sub(grid, quick=300, rule='more than one frequency and window')
def coherence_grid(c, ctx):
    """The grid over frequency and lag holds each mean in its cell."""
    r = rng(c['seed'])
    exp, ws = {}, []
    for i, f in enumerate(c['f']):
        for j, t in enumerate(c['t']):
            if 4*i + j in c['drop']:
                continue
            d = {}
            for k in range(c['nref']):
                v = r.uniform(-1, 1, (1, 5))
                # each reference may have its own missing values
                v[0, r.rand(5) < r.choice([.2, .5])] = np.nan
                d[f'reftr_{k}'] = v
            w = WFC(d, CorrStats(), dict(
                freq_min=f, freq_max=2*f, tw_start=t, tw_len=c['len']))
            if c['calc'] >> (4*i + j) & 1:
                quiet(lambda: w.compute_average())
            ws.append(w)
            m = []
            for v in d.values():
                x = [q for q in v[0] if q == q]
                if x:
                    m.append(math.fsum(x)/len(x))
            exp[((f + 2*f)/2, t + c['len']/2)] = math.fsum(m)/len(m) if m \
                else math.nan
    if not ws:
        raise Skip()
    p = [ws[i] for i in rng(c['perm']).permutation(len(ws))]
    g = quiet(lambda: WFCBulk(p))
    fs = sorted({k[0] for k in exp})
    ts = sorted({k[1] for k in exp})
    ck_close(g.cfreq, fs, 'frequencies')
    ck_close(g.lw, ts, 'lag times')
    ck_close(g.wfc, np.array([[exp.get((f, t), math.nan) for t in ts]
                              for f in fs]), 'grid')
    if len(fs) > 1 and len(ts) > 1:
        ctx.nt()
