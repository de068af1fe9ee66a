"""C04: canonical pair orientation."""
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import correlator, naive
from obspy.core.util import AttribDict
from obspy.core.inventory import Inventory, Network, Station
from obspy.geodetics import gps2dist_azimuth
from seismic.correlate.stream import (
    CorrTrace, alphabetical_correlation, combine_stats)
from seismic.correlate.correlate import (
    sort_comb_name_alphabetically, compute_network_station_combinations)

si = st.integers
code = st.tuples(nets, stas, locs, chas)
coord = st.tuples(st.floats(-60, 60), st.floats(-180, 180),
                  st.floats(-500, 6000)).map(
    lambda c: tuple(round(x, 5) for x in c))
pair = st.fixed_dictionaries(dict(
    a=code, b=st.one_of(code, code), same=st.sampled_from(
        ['none', 'none', 'net', 'sta', 'cha']),
    ca=coord, cb=coord, mode=st.sampled_from(
        ['stats', 'sac', 'inv', 'none'])))


def resolve(p):
    a, b = list(p['a']), list(p['b'])
    if p['same'] == 'net':
        b[0] = a[0]
    elif p['same'] == 'sta':
        b[0], b[1] = a[0], a[1]
    elif p['same'] == 'cha':
        b[3] = a[3]
    ca, cb = tuple(p['ca']), tuple(p['cb'])
    if a[:2] == b[:2]:
        cb = ca
    if [a[0], a[1], a[3]] == [b[0], b[1], b[3]]:
        raise Skip()
    # keep away from antipodal points where the geodesic is ill-defined
    if abs(ca[0] + cb[0]) < 5 and abs(abs(ca[1] - cb[1]) - 180) < 5:
        raise Skip()
    return a, b, ca, cb


def header(c, co, mode, start, n, sr):
    s = raw_stats(c[0], c[1], c[2], c[3], start, n, sr,
                  co if mode == 'stats' else None)
    if mode == 'sac':
        s['sac'] = AttribDict(stla=co[0], stlo=co[1], stel=co[2])
    return s


def inventory(p, a, b, ca, cb):
    if p['mode'] != 'inv':
        return None
    nw = []
    done = set()
    for c, co in ((a, ca), (b, cb)):
        if (c[0], c[1]) in done:
            continue
        done.add((c[0], c[1]))
        nw.append(Network(c[0], stations=[Station(c[1], *co)]))
    # others that must not be picked
    nw.insert(0, Network('QQ', stations=[Station(a[1], 1., 2., 3.)]))
    return Inventory(networks=nw)


def check_header(s, first, second, cf, cs, mode):
    for i, k in ((0, 'network'), (1, 'station'), (2, 'location'),
                 (3, 'channel')):
        ck(s[k] == '%s-%s' % (first[i], second[i]), k, s[k], first, second)
    if mode == 'none':
        ck('stla' not in s and 'dist' not in s, 'invented coordinates')
        return
    want = dict(zip(('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'),
                    cf + cs))
    d, az, baz = gps2dist_azimuth(cf[0], cf[1], cs[0], cs[1])
    want.update(dist=d/1000, az=az, baz=baz)
    for k, v in want.items():
        ck(k in s, 'missing', k)
        ck(abs(s[k] - v) < 1e-6*max(1, abs(v)), k, 'is', s[k], 'not', v)


def order(a, b):
    ka, kb = (a[0], a[1], a[3]), (b[0], b[1], b[3])
    return ka <= kb


@sub(st.fixed_dictionaries(dict(
    p=pair, n=si(1, 30), seed=seeds, sr=st.sampled_from([1., 4., 25., .5]),
    lag0=si(-40, 20))), quick=2500,
    rule='different codes given in non-canonical order with an asymmetric '
    'lag axis')
def trace_orientation(case, ctx):
    """Constructing a trace from both orders gives the same thing."""
    a, b, ca, cb = resolve(case['p'])
    mode = case['p']['mode']
    n, sr = case['n'], case['sr']
    data = rng(case['seed']).randn(n)
    l0, l1 = case['lag0']/sr, (case['lag0'] + n - 1)/sr
    inv = inventory(case['p'], a, b, ca, cb)

    def hd():
        return (header(a, ca, mode, T0, 50, sr),
                header(b, cb, mode, T0, 50, sr))
    ha, hb = hd()
    t1 = CorrTrace(data.copy(), ha, hb, inv=inv, start_lag=l0, end_lag=l1)
    ha, hb = hd()
    t2 = CorrTrace(data[::-1].copy(), hb, ha, inv=inv, start_lag=-l1,
                   end_lag=-l0)
    first, second, cf, cs = (a, b, ca, cb) if order(a, b) \
        else (b, a, cb, ca)
    for t in (t1, t2):
        check_header(t.stats, first, second, cf, cs, mode)
        ck(t.stats.npts == n and abs(t.stats.sampling_rate - sr) < 1e-9,
           'npts / rate')
        ck(abs(t.stats.end_lag - t.stats.start_lag - (n - 1)/sr) < 1e-6,
           'end lag')
        want = {round(k*sr): v for k, v in zip(
            np.linspace(l0, l1, n), data)}
        if first is b:
            want = {-k: v for k, v in want.items()}
        got = {round(k*sr): v for k, v in zip(t.times(), t.data)}
        ck(got == want, 'value at lag', sorted(got.items())[:4],
           sorted(want.items())[:4])
    # the same order for names
    nc, sc, cc = sort_comb_name_alphabetically(
        a[0], a[1], b[0], b[1], a[3], b[3])
    ck(['-'.join(nc), '-'.join(sc), '-'.join(cc)] == [
        t1.stats.network, t1.stats.station, t1.stats.channel],
       'combination name', nc, sc, cc, t1.stats.id)
    nc, sc, cc = sort_comb_name_alphabetically(
        b[0], b[1], a[0], a[1], b[3], a[3])
    ck(['-'.join(nc), '-'.join(sc), '-'.join(cc)] == [
        t1.stats.network, t1.stats.station, t1.stats.channel],
       'combination name (swapped)')
    if a[:2] != b[:2]:
        for x, y in ((a, b), (b, a)):
            nl, sl = compute_network_station_combinations(
                [x[0], y[0]], [x[1], y[1]])
            ck(nl == [t1.stats.network] and sl == [t1.stats.station],
               'combination list', nl, sl)
    ctx.nt(first is b and l0 != -l1)


@sub(st.fixed_dictionaries(dict(
    p=pair, n=si(24, 80), seed=seeds, sr=st.sampled_from([1., 4., 25., .5]),
    lag=si(1, 12), off=si(-3, 3), center=st.booleans(),
    norm=st.booleans())), quick=1500,
    rule='different codes supplied in non-canonical order')
def computed_orientation(case, ctx):
    """Correlating a stream in both orders gives the same, correct trace."""
    a, b, ca, cb = resolve(case['p'])
    mode = case['p']['mode']
    n, sr = case['n'], case['sr']
    r = rng(case['seed'])
    xa, xb = r.randn(2, n).astype(np.float32)
    if case['off']:
        for x in (xa, xb):
            x[:4] = 0
            x[-4:] = 0
    xb += np.roll(xa, 3)
    inv = inventory(case['p'], a, b, ca, cb)
    ta, tb = UTCDateTime(T0), UTCDateTime(T0) + case['off']/sr

    def run(swap):
        c = correlator(dict(
            lengthToSave=case['lag']/sr, center_correlation=case['center'],
            normalize_correlation=case['norm']), sr)
        c.options['combinations'] = [(0, 1)]
        st_ = Stream([Trace(xa.copy(), header(a, ca, mode, ta, n, sr)),
                      Trace(xb.copy(), header(b, cb, mode, tb, n, sr))])
        if swap:
            st_ = Stream(st_.traces[::-1])
        return c._pxcorr_inner(st_, inv)
    first, second, cf, cs = (a, b, ca, cb) if order(a, b) \
        else (b, a, cb, ca)
    x1, x2, t1, t2 = (xa, xb, ta, tb) if first is a else (xb, xa, tb, ta)
    e = np.sqrt(np.sum(x1.astype(float)**2)*np.sum(x2.astype(float)**2))
    for swap in (False, True):
        cst = run(swap)
        ck(len(cst) == 1, 'number of traces')
        t = cst[0]
        s = t.stats
        check_header(s, first, second, cf, cs, mode)
        ck(abs(s.corr_start - max(ta, tb)) < 1e-5, 'corr_start')
        ck(abs(s.corr_end - (min(ta, tb) + (n - 1)/sr)) < 1e-5, 'corr_end')
        sh = np.rint((t.times() - (t2 - t1))*sr).astype(int)
        ck(np.abs((t.times() - (t2 - t1))*sr - sh).max() < 1e-3,
           'lag axis off the sample grid')
        ref = naive(x1, x2, sh)
        sc = e if case['norm'] else 1.
        ck_close(t.data, ref/sc, 'correlation of %s' % s.id, rtol=0,
                 atol=3e-5*e/sc)
        if case['center']:
            ck(abs(s.start_lag + s.end_lag) < 1e-3/sr, 'lag axis not centred')
    ctx.nt(True)
    ctx.label('flipped' if first is b else 'kept')
