"""C06: a correlation run produces what the configuration asks for."""
import copy
import fnmatch
import io
import os
import contextlib
import warnings

import yaml

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import BASE, correlate, drop_handlers, naive, want_pair
from vlib.archive import write_sds, write_inventory, read_db
from obspy.signal.filter import bandpass, lowpass_cheby_2
from obspy import Trace, Inventory
from obspy.core.inventory import Network, Station, Channel, Response
from obspy.geodetics import gps2dist_azimuth
from seismic.trace_data.waveform import Store_Client

si = st.integers
METHODS = ['betweenStations', 'betweenStations', 'betweenStations',
           'betweenComponents', 'autoComponents', 'allSimpleCombinations',
           'allCombinations']
STATIONS = [('A', 'B'), ('A', 'BC'), ('AB', 'C'), ('G', 'A')]
CHA = ['HHZ', 'HHN', 'EHZ']
GAPS = [1, 1, 2, 7, 30, 90, 150, 400]


@st.composite
def setups(draw, subdiv=False):
    sr = draw(st.sampled_from([1, 1, 2]))
    cl = draw(st.sampled_from([200, 240, 400]))
    inc = draw(st.sampled_from([1, 1, .5, 1.25]))
    k = draw(si(1, 3))
    nread = draw(si(1 if not subdiv else 2, 3))
    ids = draw(st.lists(st.tuples(
        st.sampled_from(STATIONS), st.sampled_from(CHA)), min_size=1 if
        not subdiv else 2, max_size=4, unique=True))
    xc = draw(st.sampled_from([0, 0, 1, 2]))
    req = []
    if xc == 2:
        # some of the pairs of three stations, in either order
        used = draw(st.permutations(STATIONS))[:3]
        ids = [(s, h) for s in used for h in draw(st.lists(
            st.sampled_from(CHA[:2]), min_size=1, max_size=2, unique=True))]
        for _ in range(draw(si(1, 2))):
            a, b = draw(st.permutations(used))[:2]
            hs = draw(st.sampled_from([None, 'HHZ-HHZ', 'HHZ-HHN', None]))
            req.append('%s-%s.%s-%s' % (a[0], b[0], a[1], b[1]) + (
                '.' + hs if hs else ''))
    n = int(nread*k*inc*cl*sr)
    traces = []
    for i in ids:
        # remove up to three stretches, the first and last may be at the edge
        cuts = draw(st.lists(st.tuples(
            si(0, n), st.sampled_from(GAPS)), max_size=3))
        late = draw(st.sampled_from([0, 0, 0, 37, 150, n//2, n - 120]))
        early = draw(st.sampled_from([0, 0, 0, 51, n//3]))
        traces.append(dict(id=[*i[0], i[1]], cuts=cuts, late=late,
                           early=early, pre=draw(st.sampled_from([0, 100])),
            dec=draw(st.sampled_from([1, 1, 1, 2, 4]))))
    d = dict(
        sr=sr, corr_len=cl, inc=int(inc*cl), k=k, nread=nread, traces=traces,
        short=draw(st.sampled_from([0, 0, 2])), seed=draw(seeds),
        offset=draw(st.sampled_from([0, 0, 86400 - 500, 86400 - 137])),
        lag=draw(st.sampled_from([5, 11, 30])), norm=draw(st.booleans()),
        method=draw(st.sampled_from(METHODS)),
        sep=draw(st.booleans()), recombine=draw(st.booleans()),
        delete=draw(st.sampled_from([False, False, True])),
        sign=draw(st.booleans()), prep=draw(st.lists(
            st.sampled_from(['mask', 'filter']), max_size=2, unique=True)),
        inv=draw(st.sampled_from(['none', 'station', 'flipped'])),
        xc=xc, req=req)
    if xc == 2:
        d['method'] = 'betweenStations'
    d['mask'] = [draw(si(0, n)), draw(si(10, 300))]
    if subdiv:
        d['recombine'] = d['delete'] = False
    return d


def coords_of(ids):
    out = {}
    for j, (n, s) in enumerate(STATIONS):
        if (n, s) in [tuple(i[:2]) for i in ids]:
            out[(n, s)] = (45. + .1*j, 7.25 + .07*j, 100.*j)
    return out


def raw_data(c):
    """{(net, sta, cha): list of (first sample, raw samples, factor)}

    The raw sampling rate is that of the correlation times factor, the first
    sample is given in samples of the correlation, index 0 is T.
    """
    r = rng(c['seed'])
    sr = c['sr']
    n = int(c['nread']*c['k']*c['inc']*sr)
    pre = 100
    common = r.randn(n + 2*pre)
    out = {}
    for t in c['traces']:
        f = t['dec']
        x = (r.randn(f*(n + 2*pre)) + np.repeat(
            np.roll(common, r.randint(-4, 5)), f)).astype(np.float32)
        x += np.float32(5) + (.003*np.arange(len(x))).astype(np.float32)
        valid = np.ones(n + 2*pre, bool)
        if t['late']:
            valid[:pre + t['late']] = False
        elif not t['pre']:
            valid[:pre] = False
        if t['early']:
            valid[-(pre + t['early']):] = False
        elif not t['pre']:
            valid[-pre:] = False
        for a, b in t['cuts']:
            valid[pre + a:pre + a + b] = False
        out[tuple(t['id'])] = [
            (a - pre, x[a*f:(a + len(v))*f], f)
            for a, v in pieces(valid, valid)]
    return out


def pieces(x, valid, off=0):
    d = np.diff(np.r_[0, valid.astype(int), 0])
    return [(int(a) + off, x[a:b]) for a, b in zip(
        np.where(d == 1)[0], np.where(d == -1)[0])]


def detrended(x):
    x = np.asarray(x, float)
    if len(x) < 3:
        return np.zeros(len(x))
    t = np.arange(len(x)) - (len(x) - 1)/2
    return x - x.mean() - t*np.dot(t, x)/np.dot(t, t)


def tapered(x, n):
    w = np.ones(len(x))
    if 2*n <= len(x):
        t = np.sin(np.pi*np.arange(2*n)/(2*n - 1))
        w[:n] = t[:n]
        w[-n:] = t[-n:]
    return x*w


def downsampled(segs, i0, i1, sr):
    """Data in samples i0..i1 (inclusive) at the rate of the correlation."""
    out = []
    for a, x, f in segs:
        lo, hi = max(a, i0), min(a + len(x)//f - 1, i1)
        if hi >= lo:
            # samples at the raw rate up to the end
            last = (hi - a)*f + (1 if hi == i1 else f)
            v = x[(lo - a)*f:last]
            if f > 1:
                v = lowpass_cheby_2(v.astype(float), sr/2, sr*f, maxorder=12)
            out.append((lo, v[::f]))
    return out


def prepare(segs, i0, i1, c, flip):
    """The stream preprocessing of samples i0..i1 (inclusive)."""
    sr = c['sr']
    y = np.full(i1 - i0 + 1, np.nan)
    for a, x in segs:
        lo, hi = max(a, i0), min(a + len(x) - 1, i1)
        if hi >= lo:
            y[lo - i0:hi - i0 + 1] = detrended(x[lo - a:hi - a + 1])
    # fill gaps of one sample
    for i in range(1, len(y) - 1):
        if np.isnan(y[i]) and not np.isnan(y[i-1]) and not np.isnan(y[i+1]):
            y[i] = .5*(y[i-1] + y[i+1])
    jobs = [(80, 'taper'), (c['corr_len']/20, 'flip')]
    if hasattr(flip, 'response'):
        jobs.insert(1, (0, 'response'))
    for minl, job in jobs + [(0, p) for p in c['prep']]:
        z = np.full(len(y), np.nan)
        for a, x in pieces(y, ~np.isnan(y)):
            if len(x)/sr <= minl:
                continue
            if job == 'taper':
                x = tapered(x, 20*sr)
            elif job == 'response':
                x = flip.response(a + i0, x)
            elif job == 'flip' and (flip.turned(a + i0) if hasattr(
                    flip, 'turned') else flip):
                x = -x
            elif job == 'filter':
                x = bandpass(x, .05*sr, .4*sr, sr, corners=2)
            elif job == 'mask':
                k = np.arange(a + i0, a + i0 + len(x))
                m0, m1 = (c['mask'][0], c['mask'][0] + c['mask'][1])
                x = np.where((k >= m0*sr) & (k <= m1*sr), np.nan, x)
            z[a:a + len(x)] = x
        y = z
    return y


def requested(a, b, c, ids):
    """Is the combination within the requested ones?"""
    if c['method'] != 'betweenStations':
        return True
    if c['xc'] == 1 and len(ids) > 1:
        return {a[:2], b[:2]} == {ids[0][:2], ids[-1][:2]}
    if c['xc'] == 2:
        names = []
        for x, y in ((a, b), (b, a)):
            names.append('%s-%s.%s-%s' % (x[0], y[0], x[1], y[1]))
            names.append(names[-1] + '.%s-%s' % (x[2], y[2]))
        return any(r in names for r in c['req'])
    return True


def expected(c, segs, flips, subdiv_from=None):
    """{(first id, second id, start, end): data}, stacks likewise"""
    sr = c['sr']
    nc = int(c['corr_len']*sr)
    sub, stack, used = {}, {}, {}
    ids = sorted(segs)
    rinc = c['k']*c['inc']
    for ir in range(c['nread']):
        t = ir*rinc
        tl = rinc - c['short']
        full = subdiv_from is None or ir < subdiv_from
        raw = {i: downsampled(segs[i], int(t*sr), int((t + tl)*sr), sr)
               for i in ids}
        if full:
            Y = {i: prepare(raw[i], int(t*sr), int((t + tl)*sr), c,
                            flips.get(i)) for i in ids}
        members = {}
        for w in range(0, rinc, c['inc']):
            win, amb = {}, {}
            for i in ids:
                if full:
                    y = Y[i][int(w*sr):int(w*sr) + nc]
                else:
                    y = prepare(
                        raw[i], int((t + w)*sr), min(
                            int((t + w)*sr) + nc - 1, int((t + tl)*sr)), c,
                        flips.get(i))
                x = np.zeros(nc)
                x[:len(y)] = np.nan_to_num(y)
                # has it got valid samples?
                if not np.isnan(y).all():
                    if c['sign']:
                        # rounding decides the sign of tiny samples
                        amb[i] = np.count_nonzero(
                            (np.abs(x) < (1e-3 if c.get('remove') else 3e-5)
                             *np.abs(x).max())
                            & (np.r_[y, np.full(nc - len(y), np.nan)] == x))
                        x = np.sign(x)
                    win[i] = x
            for a in win:
                for b in win:
                    if a > b or not want_pair((*a[:2], '', a[2]),
                                              (*b[:2], '', b[2]),
                                              c['method']):
                        continue
                    if not requested(a, b, c, ids):
                        continue
                    ns = int(np.ceil(c['lag']*sr))
                    d = naive(win[a], win[b], range(-ns, ns + 1))
                    e = np.sqrt((win[a]**2).sum()*(win[b]**2).sum())
                    tol = e + 5e3*(amb.get(a, 0) + amb.get(b, 0))
                    if c['norm']:
                        if e == 0:
                            raise Skip()
                        d /= e
                        tol *= 2/e
                    k = (a, b, t + w, t + w + c['corr_len'])
                    sub[k] = (d, tol)
                    members.setdefault((a, b), []).append(k)
        for (a, b), ks in members.items():
            d = np.mean([sub[k][0] for k in ks], axis=0)
            e = max(sub[k][1] for k in ks)
            m = np.abs(d).max()
            if m <= 1e-3*e:
                # normalisation ill-conditioned
                continue
            stack[(a, b, ks[0][2], ks[-1][3])] = (d/m, e/m)
    return sub, stack


def options(c, d, T, nread, subdiv):
    o = copy.deepcopy(BASE)
    o['proj_dir'] = d
    o['save_comps_separately'] = c['sep']
    co = o['co']
    rinc = c['k']*c['inc']
    pp = []
    for p in c['prep']:
        m = 'seismic.correlate.preprocessing_stream.'
        if p == 'mask':
            pp.append(dict(function=m + 'stream_mask_at_utc', args=dict(
                starts=[T + c['mask'][0]], masklen=c['mask'][1])))
        else:
            pp.append(dict(function=m + 'stream_filter', args=dict(
                ftype='bandpass', filter_option=dict(
                    freqmin=.05*c['sr'], freqmax=.4*c['sr'], corners=2))))
    # a read that begins before the end is done as a whole
    early = (0, 0, .3, .75)[c['seed'] % 4]
    co.update(read_start=str(T), read_end=str(T + (nread - early)*rinc),
              read_len=rinc - c['short'], read_inc=rinc,
              sampling_rate=c['sr'], combination_method=c['method'],
              preProcessing=pp, preprocess_subdiv=subdiv)
    co['subdivision'].update(
        corr_len=c['corr_len'], corr_inc=c['inc'],
        recombine_subdivision=c['recombine'], delete_subdivision=c['delete'])
    co['corr_args'].update(
        lengthToSave=c['lag'], normalize_correlation=c['norm'],
        TDpreProcessing=[dict(
            function='seismic.correlate.preprocessing_td.'
            'signBitNormalization', args={})] if c['sign'] else [])
    ids = sorted(tuple(t['id']) for t in c['traces'])
    if c['xc'] == 2:
        co['xcombinations'] = c['req']
    elif c['xc'] and c['method'] == 'betweenStations' and len(ids) > 1:
        a, b = ids[-1], ids[0]
        co['xcombinations'] = ['%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])]
    return o


def launch(o, root, remote=None):
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        cor = correlate.Correlator(Store_Client(remote, root), o)
        drop_handlers()
        try:
            cor.pxcorr()
        finally:
            drop_handlers()
    return cor


def setup_archive(c, d, T):
    segs = raw_data(c)
    if c['xc'] == 2 and not any(
            v and i[:2] in zip(*[x.split('-') for x in r.split('.')[:2]])
            for i, v in segs.items() for r in c['req']):
        # nothing to correlate, not even a station
        raise Skip()
    root = os.path.join(d, 'store')
    os.makedirs(root)
    os.makedirs(os.path.join(root, 'mseed'))
    for i, ss in segs.items():
        for a, x, f in ss:
            # stations may be sampled at different fractions of a sample
            write_sds(root, (i[0], i[1], '', i[2]), T + a/c['sr']
                      + c.get('phase', {}).get(i[1], 0)/c['sr'], x,
                      c['sr']*f)
    co = coords_of(list(segs))
    flips = {}
    if c['inv'] != 'none':
        chans = {}
        for i in segs:
            chans.setdefault(i[:2], []).append(i[2])
        dips = {}
        if c['inv'] == 'flipped':
            for i in segs:
                if i[2].endswith('Z') and i[1] in ('B', 'C'):
                    dips[i] = 90.
                    flips[i] = True
        write_inventory(root, co, chans, dips)
    return segs, root, co if c['inv'] != 'none' else None, flips


def compare(got, want, c, T, coords, what):
    byk = {}
    for (f, n, s, ch, t0, t1), tr in got.items():
        n, s, ch = n.split('-'), s.split('-'), ch.split('-')
        a, b = (n[0], s[0], ch[0]), (n[1], s[1], ch[1])
        name = '%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])
        if c['sep']:
            name += '.%s-%s' % (a[2], b[2])
        ck(f == name + '.h5', what, 'in file', f, 'not', name)
        byk[(a, b, round(t0 - T.timestamp, 3),
             round(t1 - T.timestamp, 3))] = tr
    ck(set(byk) == set(want), what, 'missing', sorted(
        set(want) - set(byk))[:4], 'extra', sorted(set(byk) - set(want))[:4])
    ns = int(np.ceil(c['lag']*c['sr']))
    for k, (d, e) in want.items():
        tr = byk[k]
        ck_close(tr.data, d, '%s %s' % (what, k), rtol=0, atol=2e-4*e)
        s = tr.stats
        ck(abs(s.start_lag + ns/c['sr']) < 1e-6 and abs(
            s.sampling_rate - c['sr']) < 1e-9, what, 'lag axis')
        if coords:
            a, b = coords[k[0][:2]], coords[k[1][:2]]
            dist = gps2dist_azimuth(a[0], a[1], b[0], b[1])[0]/1000
            ck(abs(s.stla - a[0]) < 1e-6 and abs(s.evlo - b[1]) < 1e-6
               and abs(s.dist - dist) < 1e-6, 'coordinates', k)


@sub(setups(), quick=480, shards=4,
     rule='at least two windows are written, with gaps or several reads')
def run(c, ctx):
    """One run over the whole period."""
    T = UTCDateTime(T0 + c['offset'])
    with scratch() as d:
        segs, root, coords, flips = setup_archive(c, d, T)
        if not any(segs.values()):
            raise Skip()
        if any(not s for s in segs.values()):
            segs = {k: v for k, v in segs.items() if v}
            c = dict(c, traces=[t for t in c['traces']
                                if tuple(t['id']) in segs])
        sub_, stack = expected(c, segs, flips)
        o = options(c, d, T, c['nread'], False)
        ref = copy.deepcopy(o['co'])
        launch(o, root)
        folder = os.path.join(d, 'corr')
        got = read_db(folder, ref, 'subdivision')
        compare(got, {} if c['delete'] else sub_, c, T, coords, 'window')
        got = read_db(folder, ref, 'stack_%s' % ref['read_len'])
        if not c['recombine']:
            ck(not got, 'stacks written although not requested')
        elif len(stack):
            got = {k: v for k, v in got.items() if (
                tuple(x.split('-')[0] for x in k[1:4]),
                tuple(x.split('-')[1] for x in k[1:4]),
                round(k[4] - T.timestamp, 3),
                round(k[5] - T.timestamp, 3)) in stack}
            compare(got, stack, c, T, coords, 'stack')
    ctx.nt(len(sub_) > 1 and (c['nread'] > 1 or any(
        len(s) > 1 for s in segs.values())))
    ctx.label(c['method'])
    if c['recombine']:
        ctx.label('stacks')


@sub(setups(subdiv=True), quick=400, shards=4,
     rule='new windows are written by the second run')
def extended_by_window(c, ctx):
    """Extending a database with preprocessing per window."""
    T = UTCDateTime(T0 + c['offset'])
    with scratch() as d:
        segs, root, coords, flips = setup_archive(c, d, T)
        if any(not s for s in segs.values()):
            raise Skip()
        sub_, _ = expected(c, segs, flips, subdiv_from=1)
        launch(options(c, d, T, 1, False), root)
        o = options(c, d, T, c['nread'], True)
        ref = copy.deepcopy(o['co'])
        folder = os.path.join(d, 'corr')
        n0 = len(read_db(folder, ref, 'subdivision'))
        if not n0:
            raise Skip()
        launch(o, root)
        got = read_db(folder, ref, 'subdivision')
        # windows that were empty in the first run are tried again
        t1 = c['k']*c['inc']
        redo = [k for k in got if k[4] < T.timestamp + t1 - 1e-3]
        ck(len(redo) >= n0, 'windows lost')
        compare(got, sub_, c, T, coords, 'window')
    ctx.nt(len(sub_) > n0)
    ctx.label(c['method'])


# ------------------------------------------------------- station information
PAZ = [([], [], 5.), ([], [], 2000.), ([0j, 0j], [-.2+.2j, -.2-.2j], 1500.),
       ([0j, 0j], [-.05+.04j, -.05-.04j, -5.+0j], -30.)]


class Meta:
    """Response and orientation of one channel, in up to two epochs."""
    def __init__(self, m, i, T, sr, remove):
        self.id, self.T, self.sr, self.m = i, T, sr, m
        # between two samples
        self.t1 = None if m['split'] is None else T + (m['split'] + .5)/sr

    def epochs(self, which='all'):
        ee = [self._epoch(0, None, self.t1)]
        if self.t1 is not None:
            ee.append(self._epoch(1, self.t1, None))
        if which == 'local':
            return [e for e, k in zip(ee, self.m['local']) if k]
        return ee

    def _epoch(self, q, start, end):
        z, p, g = PAZ[self.m['paz'][q]]
        dip = 90. if self.m['dip'][q] else -90.
        if not self.id[2].endswith('Z'):
            dip = 30. if self.m['dip'][q] else 0.
        return Channel(
            self.id[2], '', 45., 7., 0., 0., azimuth=0., dip=dip,
            sample_rate=self.sr, start_date=start, end_date=end,
            response=Response.from_paz(
                z, p, g, input_units='M/S', output_units='COUNTS'))

    def at(self, k):
        q = int(self.m['split'] is not None and k > self.m['split'])
        return q, self.epochs()[q]

    def turned(self, k):
        q, e = self.at(k)
        known = self.m['removed'] or self.m['local'][q]
        return known and self.id[2].endswith('Z') and e.dip > 0

    def inventory(self, epochs):
        return Inventory(networks=[Network(self.id[0], stations=[Station(
            self.id[1], 45., 7., 0., channels=epochs)])])


class Corrected(Meta):
    def response(self, k, x):
        tr = Trace(np.asarray(x, float), dict(
            network=self.id[0], station=self.id[1], channel=self.id[2],
            sampling_rate=self.sr, starttime=self.T + k/self.sr))
        e = self.at(k)[1]
        tr.remove_response(inventory=self.inventory([e]), taper=False)
        return tr.data


class Centre:
    """Data centre that knows all stations."""
    def __init__(self, metas):
        self.metas = metas
        self.asked = []

    def get_stations(self, network, station, channel='*', level='response',
                     **k):
        assert level == 'response'
        self.asked.append((network, station))
        ch = [e for m in self.metas.values() if m.id[:2] == (
            network, station) for e in m.epochs()
            if channel in ('*', m.id[2])]
        return Inventory(networks=[Network(network, stations=[Station(
            station, 45., 7., 0., channels=ch)])])


@st.composite
def described(draw):
    c = draw(setups(subdiv=draw(st.sampled_from([False, False, True]))))
    c['inv'] = 'none'
    c['delete'] = False
    n = int(c['nread']*c['k']*c['inc']*c['sr'])
    for t in c['traces']:
        t['meta'] = dict(
            split=draw(st.sampled_from([None, None, 0, 1]).flatmap(
                lambda v: si(0, n) if v else st.just(None))),
            paz=[draw(si(0, 3)), draw(si(0, 3))],
            dip=[draw(st.sampled_from([1, 1, 0])) for _ in 'ab'])
    ss = sorted({tuple(t['id'][:2]) for t in c['traces']})
    for s in ss:
        # what is known without asking
        loc = draw(st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 0], [0, 0]]))
        for t in c['traces']:
            if tuple(t['id'][:2]) == s:
                t['meta']['local'] = loc
    c['remove'] = draw(st.booleans())
    c['recombine'] = False
    return c


@sub(described(), quick=240, shards=4,
     rule='pieces of data with different station information are combined')
def station_info(c, ctx):
    """Responses and polarities are those of station and time."""
    T = UTCDateTime(T0 + c['offset'])
    subdiv = c['nread'] > 1 and c['seed'] % 3 == 0
    with scratch() as d:
        segs, root, _, _ = setup_archive(c, d, T)
        if any(not s for s in segs.values()):
            raise Skip()
        metas = {}
        for t in c['traces']:
            i = tuple(t['id'])
            metas[i] = (Corrected if c['remove'] else Meta)(
                dict(t['meta'], removed=c['remove']), i, T, c['sr'],
                c['remove'])
        os.makedirs(os.path.join(root, 'inventory'))
        known = 0
        for s in {i[:2] for i in metas}:
            ch = [e for m in metas.values() if m.id[:2] == s
                  for e in m.epochs('local')]
            if ch:
                known += 1
                Inventory(networks=[Network(s[0], stations=[Station(
                    s[1], 45., 7., 0., channels=ch)])]).write(
                        os.path.join(root, 'inventory', '%s.%s.xml' % s),
                        format='STATIONXML')
        if c['remove'] and not known:
            raise Skip()
        sub_, _ = expected(c, segs, metas, 1 if subdiv else None)
        centre = Centre(metas)
        if subdiv:
            o = options(c, d, T, 1, False)
            o['co']['remove_response'] = c['remove']
            launch(o, root, centre)
        o = options(c, d, T, c['nread'], subdiv)
        o['co']['remove_response'] = c['remove']
        ref = copy.deepcopy(o['co'])
        folder = os.path.join(d, 'corr')
        if subdiv and not len(read_db(folder, ref, 'subdivision')):
            raise Skip()
        launch(o, root, centre)
        got = read_db(folder, ref, 'subdivision')
        compare(got, sub_, c, T, None, 'window')
        ck(c['remove'] or not centre.asked, 'asked for responses')
        if c['remove'] and c['seed'] % 2 and not subdiv:
            # by now everything that was needed is stored
            n = len(centre.asked)
            o['co']['subdir'] = 'again'
            launch(o, root, centre)
            ck(len(centre.asked) == n, 'responses fetched again')
    kinds = set()
    for i, m in metas.items():
        for a, x, f in segs[i]:
            q = m.at(a)[0]
            kinds.add((m.m['paz'][q], m.m['dip'][q], m.m['local'][q]))
    ctx.nt(len(sub_) > 0 and len(kinds) > 1)
    ctx.label('response' if c['remove'] else 'polarity')
    if subdiv:
        ctx.label('by window')


# ------------------------------------------------------ choosing the stations
IDS = [('A', 'B', 'HHZ'), ('A', 'B', 'HHN'), ('A', 'BC', 'HHZ'),
       ('AB', 'C', 'HHZ'), ('AB', 'C', 'BHE'), ('AB', 'B', 'HHN'),
       ('G', 'A', 'HHZ'), ('G', 'AB', 'EHE')]
NETS = ['A', 'AB', 'G', 'X']
STAS = ['A', 'AB', 'B', 'BC', 'C', 'X']


@st.composite
def chosen(draw):
    form = draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 3, 4]))
    net = st.sampled_from(NETS[:3]*3 + NETS[3:])
    sta = st.sampled_from(STAS[:5]*3 + STAS[5:])
    if form == 0:
        n = draw(st.sampled_from(NETS[:3] + ['*', 'A*']))
        s = draw(st.sampled_from(STAS[2:4] + ['*', '*', '*', 'B*', '*B']))
    elif form == 1:
        n = draw(st.lists(net, min_size=1, max_size=3, unique=True))
        s = '*'
    elif form == 2:
        k = draw(si(1, 4))
        n = draw(st.lists(net, min_size=k, max_size=k))
        k = draw(st.sampled_from([k]*6 + [k + 1]))
        s = draw(st.lists(sta, min_size=k, max_size=k))
    elif form == 3:
        n = draw(st.sampled_from(NETS + ['*']))
        s = draw(st.lists(sta, min_size=1, max_size=4, unique=True))
    else:
        n = draw(st.lists(net, min_size=2, max_size=3, unique=True))
        s = draw(sta)
    return dict(
        ids=draw(st.lists(si(0, len(IDS) - 1), min_size=4, max_size=8,
                          unique=True)), net=n, sta=s,
        comp=draw(st.sampled_from(['*', '*', '*', '?', 'Z', 'N', '[ZN]',
                                   None, 'None'])), yaml=draw(st.booleans()),
        method=draw(st.sampled_from(METHODS)), seed=draw(seeds))


def glob_(x, p):
    return fnmatch.fnmatchcase(x, p)


@sub(chosen(), quick=400, shards=4,
     rule='a part of the stations is correlated')
def station_choice(c, ctx):
    """The stations of the configuration are correlated, no others."""
    r = rng(c['seed'])
    ids = [IDS[i] for i in c['ids']]
    n, s = c['net'], c['sta']
    bad = False
    # a list of one is that one
    n1 = n[0] if isinstance(n, list) and len(n) == 1 else n
    s1 = s[0] if isinstance(s, list) and len(s) == 1 else s
    if isinstance(n1, list) and isinstance(s1, list) and len(n1) != len(s1):
        bad = True
    if isinstance(n1, list) and isinstance(s1, str) and s1 != '*':
        bad = True
    if n1 == '*' and isinstance(s1, str) and '*' not in s1:
        bad = True
    if isinstance(n1, str):
        pairs = [(n1, x) for x in ([s1] if isinstance(s1, str) else s1)]
    elif isinstance(s1, str):
        pairs = [(x, s1) for x in n1]
    else:
        pairs = list(zip(n1, s1))
    # None (which is a string in YAML) allows all components
    comp = c['comp'] if c['comp'] not in (None, 'None') else '*'
    want = [i for i in ids if any(glob_(i[0], a) and glob_(i[1], b)
                                  for a, b in pairs) and glob_(i[2][2:], comp)]
    if not bad and not want or isinstance(n1, list) and s1 == '*' and any(
            x not in [i[0] for i in ids] for x in n1):
        # nothing to correlate: refused
        raise Skip()
    T = UTCDateTime(T0)
    with scratch() as d:
        root = os.path.join(d, 'store')
        os.makedirs(os.path.join(root, 'mseed'))
        for i in ids:
            write_sds(root, (i[0], i[1], '', i[2]), T, r.randn(201), 1.)
        o = copy.deepcopy(BASE)
        o['proj_dir'] = d
        o['net'] = dict(network=n, station=s, component=c['comp'])
        o['co'].update(
            read_start=str(T), read_end=str(T + 200), read_len=200,
            read_inc=200, combination_method=c['method'])
        o['co']['subdivision'].update(corr_len=200, corr_inc=200)
        ref = copy.deepcopy(o['co'])
        before = copy.deepcopy(o['net'])
        conf = o
        if c['yaml']:
            conf = os.path.join(d, 'params.yaml')
            with open(conf, 'w') as fh:
                yaml.safe_dump(o, fh)
        if bad:
            expect_raises((ValueError,), lambda: launch(conf, root),
                          'stations')
            ctx.label('refused')
            return
        launch(conf, root)
        ck(o['net'] == before, 'configuration changed')
        got = {k[1:4] for k in read_db(
            os.path.join(d, 'corr'), ref, 'subdivision')}
    exp = {tuple('%s-%s' % (a[q], b[q]) for q in range(3))
           for a in want for b in want if a <= b and want_pair(
               (*a[:2], '', a[2]), (*b[:2], '', b[2]), c['method'])}
    ck(got == exp, 'missing', sorted(exp - got)[:4], 'extra',
       sorted(got - exp)[:4])
    ctx.nt(0 < len(exp) and len(want) < len(ids))
    ctx.label(c['method'])
