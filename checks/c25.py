"""C25: the raw data archive returns the waveforms written to it."""
import contextlib
import fnmatch
import functools
import io
import warnings
from unittest import mock

from obspy import Stream, Trace, Inventory, read
from obspy.clients.fdsn.header import FDSNNoDataException
from obspy.core.inventory import Network, Station, Channel, Response
from obspy.core.inventory.response import InstrumentSensitivity

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.trace_data import waveform
from seismic.trace_data.waveform import Store_Client, FS_Client

si = st.integers


def quiet(fn):
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()):
        warnings.simplefilter('ignore')
        return fn()


CODES = [('X', 'ABC', '', 'HHZ'), ('X', 'ABC', '00', 'HHZ'),
         ('X', 'ABC', '', 'HHN'), ('XY', 'ABC', '', 'HHZ'),
         ('X', 'AB', '10', 'BHZ')]
DT = {'i': np.int32, 'f': np.float32, 'd': np.float64}


class Truth:
    """Samples that exist for each channel, on a regular grid of times."""
    def __init__(self, base, sr, dtype, segs):
        self.base, self.sr, self.dtype = base, sr, dtype
        self.segs = segs      # {code: sorted disjoint [(first, last)]}

    def t(self, k):
        return self.base + k/self.sr

    def value(self, code, k):
        q = CODES.index(code)
        k = np.asarray(k, np.int64)
        v = (k*7919 + q*104729 + (k//3)*31) % 20011 - 10000
        return (v if self.dtype == 'i' else v/7.).astype(DT[self.dtype])

    def trace(self, code, a, b):
        tr = Trace(self.value(code, np.arange(a, b + 1)))
        tr.stats.update(dict(
            network=code[0], station=code[1], location=code[2],
            channel=code[3], sampling_rate=self.sr, starttime=self.t(a)))
        return tr

    def have(self, code, a=-10**9, b=10**9):
        out = set()
        for s, e in self.segs.get(code, []):
            out.update(range(max(s, a), min(e, b) + 1))
        return out

    def read(self, st_, what):
        """{(code, index): value} of a stream."""
        out = {}
        for tr in st_:
            code = tuple(tr.id.split('.'))
            ck(code in CODES, f'{what}: unknown {code}')
            if not tr.stats.npts:
                continue
            ck(abs(tr.stats.sampling_rate - self.sr) < 1e-6*self.sr,
               f'{what}: sampling rate {tr.stats.sampling_rate}')
            k0 = (tr.stats.starttime - self.base)*self.sr
            ck(abs(k0 - round(k0)) < 1e-3, f'{what}: starts at {k0}')
            m = np.ma.getmaskarray(tr.data)
            d = np.ma.getdata(tr.data)
            for i in np.flatnonzero(~m):
                k = (code, int(round(k0)) + int(i))
                ck(k not in out, f'{what}: sample {k} twice')
                out[k] = d[i]
        return out

    def check(self, st_, code, a, b, must, what):
        """Stored samples of the span are there, nothing is invented."""
        got = self.read(st_, what)
        codes = {code} if '*' not in code[2] and '?' not in code[2] else {
            c for c in CODES if c[:2] == code[:2] and c[3] == code[3]}
        for c, k in got:
            ck(c in codes, f'{what}: data of {c}, asked for {code}')
            ck(a - .51 <= k <= b + .51, f'{what}: sample {k} outside of '
               f'{a}..{b}')
            ck(k in self.have(c), f'{what}: sample {k} was never measured')
        if got:
            kk = sorted(got)
            v = np.array([got[k] for k in kk])
            w = np.array([self.value(c, k) for c, k in kk])
            ck(np.array_equal(v, w), f'{what}: samples '
               f'{[k for k, x, y in zip(kk, v, w) if x != y][:5]} changed')
        for c in codes:
            need = {k for k in must.get(c, ()) if a <= k <= b}
            lost = need - {k for q, k in got if q == c}
            ck(not lost, f'{what}: {c}: {len(lost)} of {len(need)} samples '
               f'lost: {sorted(lost)[:5]}')
        return got


class Remote:
    """Data centre that serves the truth."""
    def __init__(self, tr, extra, order):
        self.tr, self.extra, self.order = tr, extra, order
        self.calls = 0
        self.sent = {}

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **k):
        self.calls += 1
        code = (network, station, location, channel)
        a = int(np.ceil((starttime - self.tr.base)*self.tr.sr - 1e-3))
        b = int(np.floor((endtime - self.tr.base)*self.tr.sr + 1e-3))
        a, b = a - self.extra, b + self.extra
        s = Stream()
        for p, q in self.tr.segs.get(code, []):
            p, q = max(p, a), min(q, b)
            if p <= q:
                s.append(self.tr.trace(code, p, q))
                self.sent.setdefault(code, set()).update(range(p, q + 1))
        if not len(s):
            raise FDSNNoDataException('nothing')
        if self.order:
            s.traces.reverse()
        return s

    def get_stations(self, network, station, channel='*', **k):
        r = Response(instrument_sensitivity=InstrumentSensitivity(
            1., 1., 'M/S', 'COUNTS'))
        chs = [Channel(c[3], c[2], 0., 0., 0., 0., azimuth=0., dip=0.,
                       sample_rate=1., response=r) for c in CODES
               if c[:2] == (network, station) and channel in (c[3], '*')]
        return Inventory(networks=[Network(network, stations=[
            Station(station, 0., 0., 0., channels=chs)])])


# start of the truth: shortly before a midnight, also of a year or a leap day
BASES = ['2010-01-01', '2011-01-01', '2012-03-01', '2012-12-31',
         '2013-06-15', '1999-12-31', '2016-02-29']
seg = st.tuples(si(0, 60), si(0, 90))
truths = st.fixed_dictionaries(dict(
    base=st.sampled_from(BASES), off=si(0, 30), sr=st.sampled_from(
        ['day20', 'day20', 'day48', '1', '10']), dtype=st.sampled_from('ifd'),
    chans=st.lists(st.tuples(si(0, 4), st.lists(
        seg, min_size=1, max_size=5)), min_size=1, max_size=3,
        unique_by=lambda x: x[0])))


def mktruth(c):
    sr = {'day20': 20/86400, 'day48': 48/86400, '1': 1., '10': 10.}[c['sr']]
    # samples at midnight are on the grid
    base = UTCDateTime(c['base']) - c['off']/sr
    segs = {}
    for q, ll in c['chans']:
        k, out = 0, []
        for gap, n in ll:
            a = k + gap
            # gaps of at least two samples
            out.append((a, a + n))
            k = a + n + 2
        segs[CODES[q]] = out
    return Truth(base, sr, c['dtype'], segs)


req = st.tuples(si(0, 4), si(-5, 260), si(1, 150), si(0, 5))


@sub(st.fixed_dictionaries(dict(
    truth=truths, ops=st.lists(req, min_size=2, max_size=8),
    extra=st.sampled_from([0, 0, 0, 3]), order=st.booleans(),
    ro=si(0, 7), stray=st.sampled_from(['', '', 'info', '20x1']))),
    quick=600, shards=4, rule='something stored in several requests')
def history(c, ctx):
    """Whatever was fetched can be read again, sample by sample."""
    tr = mktruth(c['truth'])
    rem = Remote(tr, c['extra'], c['order'])
    codes = list(tr.segs)
    stored = {}
    writes = 0
    ro = c['ro'] == 0
    with scratch() as d:
        os.makedirs(os.path.join(d, 'mseed'))
        sc = Store_Client(rem, d, read_only=ro)
        if c['stray'] and not ro:
            os.makedirs(os.path.join(d, 'mseed', c['stray'], 'X', 'Q'))
        for q, a, n, kind in c['ops']:
            code = codes[q % len(codes)]
            b = a + n
            before = rem.calls
            if kind == 0:
                # a new session
                sc = quiet(lambda: Store_Client(rem, d, read_only=ro))
            rem.sent = {}
            out = quiet(lambda: sc.get_waveforms(
                *code, tr.t(a), tr.t(b), attach_response=kind % 2 == 1))
            remote = rem.calls > before
            must = {code: set(stored.get(code, ()))}
            if remote:
                must[code] |= tr.have(code, a, b)
                if not ro:
                    stored.setdefault(code, set()).update(
                        rem.sent.get(code, ()))
                    writes += bool(rem.sent)
            if not remote or not c['extra']:
                tr.check(out, code, a, b, must if not remote else {
                    code: tr.have(code, a, b)}, f'request {a}..{b}')
            # as the programs of the package read
            for loc in (code[2], '*'):
                cc = (code[0], code[1], loc, code[3])
                got = quiet(lambda: sc._load_local(
                    *cc, tr.t(a), tr.t(b), False, False))
                tr.check(got, cc, a, b, stored, f'local {a}..{b}')
        # everything, by both clients
        for code in stored:
            if not stored[code]:
                continue
            a, b = min(stored[code]), max(stored[code]) + 1
            calls = rem.calls
            got = quiet(lambda: Store_Client(rem, d, read_only=ro)
                        .get_waveforms(*code, tr.t(a), tr.t(b), not ro))
            ck(ro or all('response' in x.stats for x in got),
               f'{code}: response information lost')
            ck(rem.calls == calls, f'{code}: stored data fetched again')
            got = tr.check(got, code, a, b, stored, 'all')
            ck({k for _, k in got} == stored[code], 'all: more than stored')
            st2 = quiet(lambda: FS_Client(
                os.path.join(d, 'mseed')).get_waveforms(
                    *code, tr.t(a), tr.t(b)))
            g2 = tr.check(st2, code, a, b, stored, 'file system client')
            ck(set(g2) == set(got), 'clients differ')
        real = {k[:2] for k, v in stored.items() if v}
        if ro:
            ck(not os.listdir(os.path.join(d, 'mseed')), 'written')
            return
        if not real:
            if not c['stray']:
                expect_raises((FileNotFoundError,),
                              sc.get_available_stations, 'no data')
            return
        got = [tuple(x) for x in sc.get_available_stations()]
        ck(sorted(got) == sorted(real), f'stations {got}, stored {real}')
        for n in {x[0] for x in real}:
            got = sorted(tuple(x) for x in sc.get_available_stations(n))
            ck(got == sorted(x for x in real if x[0] == n),
               f'stations of {n}: {got}')
        for n, s in real:
            kk = [k for q, v in stored.items() if q[:2] == (n, s) for k in v]
            a, b = quiet(lambda: sc._get_times(n, s))
            t0, t1 = tr.t(min(kk)), tr.t(max(kk))
            ck(a <= t0 and t0 - a < 86400, f'first day {a}, first sample '
               f'{t0}')
            # a sample at midnight may be part of the day before
            ck(b >= t1 and b - t1 <= 86400, f'last day until {b}, last '
               f'sample {t1}')
            w = {tuple(x) for x in sc._translate_wildcards(n, s)}
            ck(w == {(q[0], q[1], q[3]) for q, v in stored.items()
                     if v and q[:2] == (n, s)}, f'channels {w}')
    if writes > 1:
        ctx.nt()
    ctx.label('%d writes' % min(writes, 4))


# ------------------------------------------------------------ user layouts
LAYOUTS = {
    'H': [['%Y', '%m', '%d', '%H'], ['%Y', '%j', '%H'], ['%Y', '%b', '%d',
                                                         '%H'],
          ['%Y', '%j', '%p', '%I']],
    'p': [['%Y', '%m', '%d', '%p'], ['%y', '%j', '%p']],
    'd': [['%Y', '%m', '%d'], ['%Y', '%j'], ['%Y', '%B', '%d'],
          ['%y', '%j']],
    'm': [['%Y', '%m'], ['%Y', '%b'], ['%y', '%B']],
    'Y': [['%Y'], ['%y']], '': [[]]}
PER = dict(H=3600, p=43200, d=86400, m=31*86400, Y=366*86400)


@functools.lru_cache(maxsize=None)
def stable(sr):
    tr = Trace(np.zeros(2, np.int32))
    tr.stats.sampling_rate = sr
    f = io.BytesIO()
    tr.write(f, format='MSEED')
    f.seek(0)
    r = read(f)[0].stats
    return r.sampling_rate == sr == 1/r.delta


def period(t, p):
    d = t.datetime
    return (d.year, d.month, d.day, d.hour//12, d.hour)[:dict(
        H=5, p=4, d=3, m=2, Y=1).get(p, 0)]


@sub(st.fixed_dictionaries(dict(
    p=st.sampled_from(['H', 'd', 'd', 'm', 'm', 'Y', 'Y', '', 'p']), lay=si(0, 3),
    base=st.sampled_from(BASES + ['2010-03-31', '2012-05-31', '2010-10-31']),
    per=si(5, 40), off=st.floats(0, 1), q=st.lists(
        si(0, 4), min_size=1, max_size=3, unique=True),
    segs=st.lists(seg, min_size=1, max_size=4), dtype=st.sampled_from('ifd'),
    ids=st.lists(st.sampled_from(
        ['%NET', '%net', '%STA', '%sta', '%LOC', '%loc', '_', 'data']),
        max_size=4, unique=True), repl=st.sampled_from(
            ['', '', 'HH', 'lower']), over=st.booleans(), flat=st.booleans(),
    ops=st.lists(st.tuples(si(-10, 200), si(1, 120), st.sampled_from(
        [0, 0, 0, .25])), min_size=1, max_size=5), trim=st.booleans())),
    quick=1200, shards=3, rule='data of several files requested')
def layout(c, ctx):
    """Files in any described layout are read completely."""
    p = c['p']
    # obspy compares rates exactly: use one that survives mseed and 1/(1/x)
    step = 60 if p == 'H' else 1800
    d0 = max(round(PER.get(p, 86400)/c['per']/step), 1)
    while not stable(1/(d0*step)):
        d0 += 1
    sr = 1/(d0*step)
    base = UTCDateTime(UTCDateTime(c['base']) - round(c['off']*20)/sr)
    if p == 'Y' and base.year < 2000:
        base += 86400*365*3
    base = UTCDateTime(round(base.timestamp))
    codes = [CODES[q] for q in c['q']]
    k, out = 0, []
    for gap, n in c['segs']:
        out.append((k + gap, k + gap + n))
        k += gap + n + 2
    tr = Truth(base, sr, c['dtype'], {x: out for x in codes})
    times = LAYOUTS[p][c['lay'] % len(LAYOUTS[p])]
    with scratch() as d:
        # station and channel have to be somewhere
        need = [x for x in ('%NET', '%STA', '%LOC') if x not in c['ids'] and
                x.lower() not in c['ids']]
        cha = {'': '%CHA', 'HH': "%CHA('HH','')", 'lower': '%cha'}[
            c['repl']]
        ids = c['ids'] + need
        if c['flat']:
            parts = []
            for x in ids + times + [cha]:
                parts += [x, '.']
            fs = [d, parts + ['mseed']]
        else:
            parts = []
            for x in times + [cha]:
                parts += [x, '_']
            fs = [d, *[x for x in ids if x not in ('%LOC', '%loc')], parts + [
                '%LOC', '.ms']]
        files = {}
        for code in codes:
            for a, b in tr.segs[code]:
                for i in range(a, b + 1):
                    # records may run over the end of the period
                    j = i - (c['over'] and i > a)
                    files.setdefault((code, period(tr.t(j), p)), [
                        tr.t(j).datetime]).append(i)
        for (code, _), (t, *kk) in files.items():
            idv = {'%NET': code[0], '%STA': code[1], '%LOC': code[2],
                   '%net': code[0].lower(), '%sta': code[1].lower(),
                   '%loc': code[2].lower()}

            def name(x):
                if isinstance(x, list):
                    return ''.join(name(y) for y in x)
                if x == cha:
                    return {'': code[3], 'HH': code[3].replace('HH', ''),
                            'lower': code[3].lower()}[c['repl']]
                if x in idv:
                    return idv[x]
                return t.strftime(x) if x.startswith('%') else x
            f = os.path.join(*[name(x) for x in fs])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            s = Stream()
            cut = [0] + [i for i in range(1, len(kk)) if kk[i] != kk[i-1] + 1
                         ] + [len(kk)]
            for x, y in zip(cut[:-1], cut[1:]):
                s.append(tr.trace(code, kk[x], kk[y-1]))
            ck(not os.path.exists(f), 'layout of the check')
            s.write(f, format='MSEED')
        cl = FS_Client(fs)
        for a, n, fr in c['ops']:
            code = codes[a % len(codes)]
            b = a + n
            x, y = a + fr, b + fr
            got = quiet(lambda: cl.get_waveforms(
                *code, tr.t(x), tr.t(y), trim=c['trim']))
            have = tr.have(code)
            if c['trim']:
                tr.check(got, code, x, y, {code: have}, f'{p} span {x}..{y}')
            else:
                tr.check(got, code, -10**6, 10**6, {code: {
                    k for k in have if x <= k <= y}}, f'{p} untrimmed')
            if len({period(tr.t(k), p) for k in have if a <= k <= b}) > 1:
                ctx.nt()
    ctx.label(p or 'one file')


# ------------------------------------------------------- station information
INVS = [('X', 'ABC'), ('X', 'AB'), ('XY', 'ABC')]
CHN = ['HHZ', 'HHN', 'BHZ']


class Stations:
    """Data centre that knows channels and their epochs."""
    def __init__(self, known):
        # {(net, sta, cha): number of epochs}
        self.known = known
        self.asked = []

    def channels(self, network, station, channel='*', epochs=None):
        return [(n, s, h, e) for (n, s, h), k in sorted(self.known.items())
                for e in range(k) if (n, s) == (network, station)
                and channel in ('*', h) and (epochs is None or e in epochs)]

    def make(self, cc):
        out = []
        for n, s in sorted({x[:2] for x in cc}):
            ch = []
            for _, _, h, e in [x for x in cc if x[:2] == (n, s)]:
                g = 100.*(1 + CHN.index(h)) + e
                ch.append(Channel(
                    h, '', 10., 20. + e, 0., 0., azimuth=0., dip=0.,
                    sample_rate=1., start_date=UTCDateTime(2000 + 2*e, 1, 1),
                    end_date=UTCDateTime(2002 + 2*e, 1, 1) - 1,
                    response=Response(
                        instrument_sensitivity=InstrumentSensitivity(
                            g, 1., 'M/S', 'COUNTS'))))
            out.append(Inventory(networks=[Network(n, stations=[
                Station(s, 10., 20., 0., channels=ch)])]))
        return out

    def get_stations(self, network, station, channel='*', starttime=None,
                     endtime=None, level=None):
        assert level == 'response', level
        self.asked.append((network, station))
        ep = None
        if starttime is not None:
            ep = [e for e in range(9) if UTCDateTime(2000 + 2*e, 1, 1) <=
                  endtime and UTCDateTime(2002 + 2*e, 1, 1) > starttime]
        return self.make(self.channels(network, station, channel, ep))[0]

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **k):
        tr = Trace(np.arange(11, dtype=np.int32))
        tr.stats.update(dict(network=network, station=station,
                             channel=channel, starttime=starttime,
                             sampling_rate=10/(endtime - starttime)))
        return Stream([tr])


def contents(inv):
    out = {}
    for n in inv:
        for s in n:
            for h in s:
                e = (h.start_date.year - 2000)//2
                out[(n.code, s.code, h.code, e)] = (
                    h.longitude, h.response.instrument_sensitivity.value)
    return out


@sub(st.fixed_dictionaries(dict(
    known=st.lists(st.tuples(si(0, 2), si(0, 2), si(1, 3)), min_size=2,
                   max_size=6, unique_by=lambda x: x[:2]),
    local=st.lists(st.tuples(si(0, 5), si(0, 2)), max_size=3),
    ro=st.sampled_from([False, False, False, True]),
    ops=st.lists(st.tuples(st.sampled_from(
        ['select', 'select', 'waveform', 'waveform', 'session', 'read']),
        si(0, 5), si(0, 2), st.booleans()), min_size=2, max_size=8))),
    quick=200, shards=2, rule='information added in several steps')
def station_history(c, ctx):
    """Station information once known is never lost nor asked for again."""
    rem = Stations({(*INVS[a], CHN[b]): n for a, b, n in c['known']})
    keys = sorted(rem.known)
    added = 0
    with scratch() as d:
        os.makedirs(os.path.join(d, 'mseed'))
        os.makedirs(os.path.join(d, 'inventory'))
        model = {}
        full = contents(sum(rem.make(
            [x for k in keys for x in rem.channels(*k)]), Inventory()))
        loc = sorted({(*keys[q % len(keys)], e) for q, e in c['local']
                      if e < rem.known[keys[q % len(keys)]]})
        for inv in rem.make(loc):
            inv.write(os.path.join(d, 'inventory', '%s.%s.xml' % (
                inv[0].code, inv[0][0].code)), format='STATIONXML')
        disk = {k: full[k] for k in loc}
        model = dict(disk)
        sc = Store_Client(rem, d, read_only=c['ro'])
        for op, q, e, resp in c['ops']:
            n, s, h = keys[q % len(keys)]
            n0 = len(rem.asked)
            new = {}
            if op == 'session':
                sc = Store_Client(rem, d, read_only=c['ro'])
                model = dict(disk)
            elif op == 'read':
                if not disk:
                    continue
                model = dict(disk)
                inv = sc.read_inventory()
                ck(contents(inv) == model, 'inventory read')
            elif op == 'select':
                inv = quiet(lambda: sc.select_inventory_or_load_remote(n, s))
                mine = {k: v for k, v in model.items() if k[:2] == (n, s)}
                ck((len(rem.asked) > n0) == (not mine),
                   'asked although known' if mine else 'not asked')
                if not mine:
                    mine = new = {k: v for k, v in full.items()
                                  if k[:2] == (n, s)}
                ck(contents(inv) == mine, f'selected {contents(inv)}')
            else:
                e %= rem.known[(n, s, h)]
                t = UTCDateTime(2000 + 2*e, 3, 1) + 7*q
                out = quiet(lambda: sc.get_waveforms(
                    n, s, '', h, t, t + 100, attach_response=resp))
                if (n, s, h, e) not in model and len(rem.asked) > n0:
                    new = {(n, s, h, e): full[n, s, h, e]}
                ck(len(rem.asked) == n0 or (n, s, h, e) not in model,
                   'asked although known')
                if resp:
                    for tr in out:
                        ck(tr.stats.response.instrument_sensitivity.value ==
                           full[n, s, h, e][1], 'response of other channel')
            added += bool(new)
            model.update(new)
            if not c['ro']:
                disk.update(new)
            got = contents(sc.inventory)
            ck(got == model, 'known', sorted(got), 'expected', sorted(model))
        ff = os.listdir(os.path.join(d, 'inventory'))
        ck(sorted(ff) == sorted({'%s.%s.xml' % k[:2] for k in disk}),
           f'files {ff}')
        got = contents(Store_Client(rem, d, read_only=True).inventory)
        ck(got == disk, f'stored {sorted(got)}, expected {sorted(disk)}')
    ctx.nt(added > 1 or (added and loc))


class Bulk:
    """Stands in for obspy's bulk download: same calls, no network."""
    def __init__(self, tr, stored, loc):
        self.tr, self.stored, self.loc = tr, stored, loc
        self.paths = {}
        self.skipped = 0

    def __call__(self, providers=None):
        return self

    def download(self, domain, restrictions, mseed_storage,
                 stationxml_storage, **k):
        tr, r = self.tr, restrictions
        for code in tr.segs:
            if not all(x is None or fnmatch.fnmatchcase(y, x) for x, y in zip(
                    (r.network, r.station, r.channel), (
                        code[0], code[1], code[3]))):
                continue
            for start, end in r:
                a = int(np.ceil((start - tr.base)*tr.sr - 1e-3))
                b = int(np.ceil((end - tr.base)*tr.sr - 1e-3)) - 1
                s = Stream([tr.trace(code, max(x, a), min(y, b))
                            for x, y in tr.segs[code] if x <= b and y >= a])
                if not s:
                    continue
                p = mseed_storage(*code, start, end)
                if p is True:
                    self.skipped += 1
                    continue
                ck(p not in self.paths, f'{p} used twice')
                self.paths[p] = code
                os.makedirs(os.path.dirname(p), exist_ok=True)
                s.write(p, format='MSEED')
                self.stored.setdefault(code, set()).update(tr.have(code, a, b))
            Remote(tr, 0, 0).get_stations(code[0], code[1]).write(
                os.path.join(stationxml_storage, '%s.%s.xml' % code[:2]),
                format='STATIONXML')


@sub(st.fixed_dictionaries(dict(
    truth=truths, ops=st.lists(st.tuples(
        si(0, 5), si(0, 250), si(1, 150), st.booleans()), min_size=1,
        max_size=4))), quick=200, shards=2, rule='several files')
def bulk_download(c, ctx):
    """Bulk downloads go where they are read from, and only once."""
    tr = mktruth(c['truth'])
    codes = list(tr.segs)
    stored = {}
    asked = {}
    bulk = Bulk(tr, stored, None)
    with scratch() as d, mock.patch.object(waveform, 'MassDownloader', bulk):
        sc = Store_Client(None, d)
        for q, k, n, day in c['ops']:
            # all channels or one
            code = codes[q] if q < len(codes) else None
            x, y = tr.t(k), tr.t(k + n)
            if day:
                x = UTCDateTime(x.date)
            sel = {} if code is None else dict(
                network=code[0], station=code[1], channel=code[3])
            mine = [e for e in codes if code is None or (
                e[0], e[1], e[3]) == (code[0], code[1], code[3])]
            a = int(np.ceil((x - tr.base)*tr.sr - 1e-3))
            if not any(tr.have(e, a, k + n - 1) for e in mine):
                continue
            bulk.skipped = 0
            before = {e: set(v) for e, v in stored.items()}
            quiet(lambda: sc.download_waveforms_mdl(x, y, **sel))
            for e in mine:
                asked.setdefault(e, []).append((a, k + n - 1))
                if e not in before:
                    # nothing there before, so everything was asked for
                    ck(tr.have(e, a, k + n - 1) <= stored.get(e, set()),
                       'not everything downloaded')
            if code is not None:
                ck(all(before.get(e) == stored.get(e) for e in codes
                       if e not in mine), 'channels not asked for')
        for code in stored:
            a, b = min(stored[code]), max(stored[code]) + 1
            got = quiet(lambda: sc.get_waveforms(
                *code, tr.t(a), tr.t(b), False))
            tr.check(got, code, a, b, stored, 'stored')
            for a, b in asked.get(code, ()):
                if b <= a:
                    continue
                got = quiet(lambda: sc._load_local(
                    *code, tr.t(a), tr.t(b), False, False))
                tr.check(got, code, a, b, stored, 'asked for')
        if stored:
            got = [tuple(x) for x in sc.get_available_stations()]
            ck(sorted(got) == sorted({x[:2] for x in stored}), 'stations')
            ck({(n.code, x.code) for n in sc.inventory for x in n} >= {
                x[:2] for x in stored}, 'station information')
    ctx.nt(len(bulk.paths) > 1)


@sub(st.fixed_dictionaries(dict(
    ids=st.lists(st.tuples(st.sampled_from(['A', 'AB', 'B']), st.sampled_from(
        ['A', 'AB', 'B1']), st.sampled_from(['HHZ', 'HHN', 'BHZ', 'EH1']),
        si(2009, 2011)), min_size=2, max_size=10, unique=True),
    q=st.lists(st.tuples(st.sampled_from(['A', 'AB', 'B', '*', 'A*', '?']),
                         st.sampled_from(['A', 'AB', '*', '*1', '?', 'A?']),
                         st.sampled_from('ZN1*?')), min_size=1,
               max_size=4))), quick=120,
     rule='a part of the channels matches')
def wildcards(c, ctx):
    """Wildcards stand for exactly the stored channels that match."""
    with scratch() as d:
        sc = Store_Client(None, d)
        for n, s, h, y in c['ids']:
            os.makedirs(os.path.join(d, 'mseed', str(y), n, s, h + '.D'))
        for n, s, x in c['q']:
            got = {tuple(k) for k in sc._translate_wildcards(n, s, x)}
            want = {tuple(k[:3]) for k in c['ids'] if fnmatch.fnmatchcase(k[0], n)
                    and fnmatch.fnmatchcase(k[1], s)
                    and fnmatch.fnmatchcase(k[2][-1], x)}
            ck(got == want, f'{n}.{s}.{x}: {sorted(got)}')
            ctx.nt(0 < len(want) < len(c['ids']))
