"""C01: the correlation database against a dict model."""
import fnmatch
import os

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import CorrTrace, CorrStream
from seismic.db.corr_hdf5 import CorrelationDataBase

CO = dict(subdir='corr', read_start='2010-01-01', read_end='2011-01-01',
          sampling_rate=5, remove_response=False, preProcessing=[],
          combination_method='betweenStations',
          subdivision=dict(corr_inc=3600, corr_len=3600,
                           recombine_subdivision=True,
                           delete_subdivision=False),
          corr_args=dict(TDpreProcessing=[], FDpreProcessing=[],
                         lengthToSave=10, combinations=[]))

# A small universe per case makes collisions, overlaps, prefixes likely.
CODES = ['A.A', 'A.AB', 'AB.A', 'G.ZZ', 'GE.AA', 'X9.KB', 'X9.KBG', 'D0.1',
         'D0.01', 'A.ES', 'A.ESO', 'A.BES', 'AB.ES']
CHAS = ['HHZ', 'HHE', 'BHZ']
TAGS = ['subdivision', 'stack_3600', 'stack_36', 'recombined']
# seconds since 2010-01-01 (day boundaries, year ends, leap day, day 360)
TIMES = [0, 3600, 3601, 86399, 86400, 359*86400, 364*86400 + 3600,
         365*86400, 790*86400, 1154*86400 + 82800, 1520*86400 - 1]
LENS = [3600, 1, 86400, 1800]

si = st.integers


@st.composite
def history(draw):
    stations = draw(st.lists(st.sampled_from(CODES), min_size=1, max_size=4,
                             unique=True))
    times = draw(st.lists(st.sampled_from(TIMES), min_size=1, max_size=4,
                          unique=True))
    frac = draw(st.sampled_from([0, 0, 1, 5000, 9999]))
    tags = draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=2,
                         unique=True))
    sta = st.sampled_from(stations)
    pool = draw(st.lists(st.fixed_dictionaries(dict(
        a=sta, ca=st.sampled_from(CHAS), b=sta, cb=st.sampled_from(CHAS),
        t=st.sampled_from(times), len=st.sampled_from(LENS),
        tag=st.sampled_from(tags))), min_size=1, max_size=5))
    # keys that were used before are likely to come back
    key = st.sampled_from(pool)
    tr = st.fixed_dictionaries(dict(
        key=key, seed=seeds, n=st.sampled_from([1, 2, 7, 50]),
        f32=st.booleans(), sr=st.sampled_from([1., 5., 25., 0.5]),
        lag=st.sampled_from([-10., 0., -3.2, 12.5]),
        coords=st.booleans(), proc=si(0, 3), nan=st.booleans(),
        loc=st.sampled_from(['', '00', '10'])))
    add = st.fixed_dictionaries(dict(
        op=st.just('add'), trs=st.lists(tr, min_size=1, max_size=3),
        single=st.booleans()))
    reopen = st.fixed_dictionaries(dict(
        op=st.just('reopen'), mode=st.sampled_from(['a', 'a', 'r+', 'r']),
        comp=st.sampled_from(['gzip3', 'gzip9', 'gzip1', None])))
    rem = st.fixed_dictionaries(dict(
        op=st.just('remove'), key=key, swap=st.booleans(),
        how=st.sampled_from(['time', 'str', 'all', 'day', 'year'])))
    query = st.fixed_dictionaries(dict(
        op=st.just('query'), key=key, swap=st.booleans(),
        wild=st.lists(st.sampled_from(
            ['net', 'sta', 'cha', 'st', 'et', 'sta_pre', 'cha_pre',
             'net_pre', 'cha_q', 'cha_q', 'cha_a']), max_size=3,
            unique=True)))
    ops = draw(st.lists(st.one_of(add, add, query, query, rem, reopen),
                        min_size=1, max_size=14))
    if draw(si(0, 2)) == 2:
        # a series of one combination, from which a part is removed
        k = draw(key)
        ts = draw(st.lists(st.sampled_from(TIMES), min_size=2, max_size=5,
                           unique=True))
        t = draw(tr)
        at = draw(si(0, len(ops)))
        ops[at:at] = [dict(op='add', single=False, trs=[
            dict(t, seed=t['seed'] + i, key=dict(k, t=x))
            for i, x in enumerate(ts)])]
        rm = draw(rem)
        ops[at + 1:at + 1] = [dict(rm, key=dict(k, t=draw(
            st.sampled_from(ts))), how=draw(st.sampled_from(
                ['all', 'day', 'day', 'year', 'time'])))]
    return dict(frac=frac, ops=ops)


def key_codes(k):
    a = k['a'].split('.') + [k['ca']]
    b = k['b'].split('.') + [k['cb']]
    return a, b


def times_of(k, frac):
    t = grid_time(k['t'], frac)
    return t, t + k['len']


def build(tr, frac):
    a, b = key_codes(tr['key'])
    ts, te = times_of(tr['key'], frac)
    npts_raw = 11
    sr = tr['sr']
    hs = []
    for i, c in enumerate((a, b)):
        co = None
        if tr['coords']:
            i = CODES.index('.'.join(c[:2]))
            co = (10. + i, -170. + 31*i, 100.*i)
        hs.append(raw_stats(
            c[0], c[1], tr['loc'], c[2], ts, 11, sr, co,
            ['step %d (β)' % (i % 2) for i in range(tr['proc'])]
            if tr['proc'] else None))
    data = rng(tr['seed']).randn(tr['n'])
    if tr['nan'] and tr['n'] > 2:
        data[1] = np.nan
    if tr['f32']:
        data = data.astype(np.float32)
    ct = CorrTrace(data, hs[0], hs[1], start_lag=tr['lag'],
                   end_lag=tr['lag'] + (tr['n'] - 1)/sr)
    ct.stats.corr_start = ts
    ct.stats.corr_end = te
    return ct


def check_trace(got, want, what):
    d, s = want
    ck(got.data.dtype == d.dtype and got.data.shape == d.shape and
       np.array_equal(got.data, d, equal_nan=True), what, 'samples changed')
    for k, v in s.items():
        if v is None:
            continue
        ck(k in got.stats, what, 'header entry lost:', k)
        ck(same_value(v, got.stats[k]), what, 'header entry', k, 'was', v,
           'now', got.stats[k])


def get(db, *args, **kw):
    try:
        return list(db.get_data(*args, **kw))
    except KeyError:
        return []


def tkey(tr):
    s = tr.stats
    return (s.network, s.station, s.channel, str(s.corr_start),
            str(s.corr_end))


def compare(db, model, tag, sel, args, kw, what):
    want = {k[1:]: v for k, v in model.items() if k[0] == tag and sel(k)}
    got = get(db, *args, **kw)
    gk = [tkey(t) for t in got]
    ck(sorted(gk) == sorted(want), what, args, kw, 'returned', sorted(gk),
       'expected', sorted(want))
    for t in got:
        check_trace(t, want[tkey(t)], what)
    return len(want)


@sub(history(), quick=700, rule='history with >=1 successful query after an '
     'add, and a removal, duplicate or reopen')
def history_vs_dict(case, ctx):
    frac = case['frac']
    model = {}
    hits = dup = rem = reo = 0
    with scratch() as d:
        path = os.path.join(d, 'x.h5')
        mode, comp = 'a', 'gzip3'
        cdb = CorrelationDataBase(path, corr_options=CO, mode='a',
                                  compression=comp)
        db = cdb.__enter__()
        try:
            for op in case['ops']:
                if op['op'] == 'reopen':
                    cdb.__exit__(None, None, None)
                    mode, comp = op['mode'], op['comp']
                    cdb = CorrelationDataBase(
                        path, corr_options=None if mode == 'r' else CO,
                        mode=mode, compression=comp)
                    db = cdb.__enter__()
                    reo += 1
                elif op['op'] == 'add' and mode != 'r':
                    trs = [build(t, frac) for t in op['trs']]
                    if op['single']:
                        trs = trs[:1]
                        db.add_correlation(trs[0], op['trs'][0]['key']['tag'])
                    else:
                        db.add_correlation(CorrStream(trs), op['trs'][0]['key']['tag'])
                    for t in trs:
                        k = (op['trs'][0]['key']['tag'],) + tkey(t)
                        if k in model:
                            dup += 1
                        else:
                            model[k] = (t.data.copy(), {
                                a: b for a, b in t.stats.items()})
                elif op['op'] == 'remove' and mode != 'r':
                    k = op['key']
                    a, b = key_codes(k)
                    if op['swap']:
                        a, b = b, a
                    ca, cb = canon(a, b)
                    n, s, c = ['-'.join(x) for x in zip(ca, cb)]
                    ts, _ = times_of(k, frac)
                    f = ts.format_fissures()
                    pat = dict(time=f, str=f, all='*', day=f[:7] + '*',
                               year=f[:4] + '*')[op['how']]
                    hit = [m for m in model if m[:4] == (k['tag'], n, s, c)
                           and fnmatch.fnmatch(
                               UTCDateTime(m[4]).format_fissures(), pat)]
                    if op['swap']:
                        # several combinations are not removed at once
                        i = k['t'] % 3
                        q = [n, s, c]
                        q[i] = ['*', q[i][:1] + '*'][k['len'] % 2]
                        expect_raises(ValueError, lambda: db.remove_data(
                            *q, k['tag'], pat), 'removing with wildcards')
                    try:
                        db.remove_data(
                            *['-'.join(x) for x in zip(a, b)], k['tag'],
                            ts if op['how'] == 'time' else pat)
                    except KeyError:
                        ck(not hit, 'remove raised KeyError for existing data')
                    for h in hit:
                        del model[h]
                    rem += bool(hit)
                elif op['op'] == 'query':
                    k = op['key']
                    a, b = key_codes(k)
                    if op['swap']:
                        a, b = b, a
                    ca, cb = canon(a, b)
                    w = op['wild']
                    order = (a, b)
                    if any(x[:3] in ('net', 'sta', 'cha') for x in w):
                        # wildcards replace a whole code pair: only
                        # meaningful in the stored orientation
                        order = (ca, cb)
                    q = ['-'.join(x) for x in zip(*order)]
                    cq = ['-'.join(x) for x in zip(ca, cb)]
                    for i, nm in enumerate(('net', 'sta', 'cha')):
                        if nm in w:
                            q[i] = cq[i] = '*'
                        elif nm + '_pre' in w:
                            q[i] = cq[i] = cq[i][:1] + '*'
                    if 'cha_q' in w and q[2][-1] != '*':
                        q[2] = cq[2] = cq[2][:-1] + '?'
                    if 'cha_a' in w and '-' in q[2]:
                        x, y = cq[2].split('-')
                        q[2] = cq[2] = x[:-1] + '?-' + y
                    ts, te = times_of(k, frac)
                    kw = {}
                    if 'st' not in w:
                        kw['corr_start'] = ts
                    if 'et' not in w:
                        kw['corr_end'] = te

                    def sel(m):
                        return all(fnmatch.fnmatchcase(m[1 + i], cq[i])
                                   for i in range(3)) and (
                            'st' in w or m[4] == str(ts)) and (
                            'et' in w or m[5] == str(te))
                    hits += compare(db, model, k['tag'], sel,
                                    q + [k['tag']], kw, 'query')
            # final: everything, listings
            for tag in TAGS:
                hits += compare(db, model, tag, lambda m: True,
                                ['*', '*', '*', tag], {}, 'read all')
            for (tag, n, s) in {m[:3] for m in model}:
                chans = {m[3] for m in model if m[:3] == (tag, n, s)}
                ck(chans <= set(db.get_available_channels(tag, n, s)),
                   'channel listing incomplete')
                got = db.get_available_starttimes(n, s, tag, '*')
                for c in chans:
                    want = {UTCDateTime(m[4]).format_fissures()
                            for m in model if m[:4] == (tag, n, s, c)}
                    ck(set(got.get(c, [])) == want and
                       len(got[c]) == len(want), 'start time listing', got,
                       want)
                    ck(set(db.get_available_starttimes(n, s, tag, c)[c]) ==
                       want, 'start time listing for one channel')
                    ck(set(db.get_available_starttimes(n, s, tag, [c])[c]) ==
                       want, 'start time listing for list')
                for c, times in got.items():
                    ck(c in chans or not times, 'listing invents channel', c)
                for w in ('HH*', 'B*', '*HHE'):
                    sub_ = db.get_available_starttimes(n, s, tag, [w])
                    ck({c: set(t) for c, t in sub_.items() if len(t)} ==
                       {c: set(t) for c, t in got.items() if len(t)
                        and fnmatch.fnmatchcase(c, w)},
                       'start time listing for', w, sub_, got)
                    ck({c: set(t) for c, t in db.get_available_starttimes(
                        n, s, tag, w).items()} ==
                       {c: set(t) for c, t in sub_.items()},
                       'start time listing for wildcard', w)
            for (tag, n, s, c, ts, te) in model:
                two = [n.split('-'), s.split('-'), c.split('-')]
                for o in (0, 1):
                    q = ['-'.join(x[::-1] if o else x) for x in two]
                    r = get(db, *q, tag, corr_start=UTCDateTime(ts),
                            corr_end=UTCDateTime(te))
                    ck(len(r) == 1, 'stored correlation', q,
                       'not retrievable' if not r else 'returned twice')
                    check_trace(r[0], model[(tag, n, s, c, ts, te)], 'final')
        finally:
            cdb.__exit__(None, None, None)
    ctx.nt(hits and (dup or rem or reo))
    if dup:
        ctx.label('duplicate')
    if rem:
        ctx.label('removal')
    if reo:
        ctx.label('reopen')


@sub(st.fixed_dictionaries(dict(
    day=si(0, 366*8), sec=si(0, 86399), frac=si(0, 9999), dur=si(0, 10**6),
    n=si(1, 9))), quick=1500, rule='every case: a distinct time')
def times_round_trip(case, ctx):
    """Every representable time survives storage."""
    t = UTCDateTime(2008, 1, 1) + case['day']*86400 + case['sec'] \
        + case['frac']*1e-4
    h = raw_stats('A', 'B', '', 'HHZ', t, 5, 1.0)
    ct = CorrTrace(np.arange(case['n'])*1., h, h, start_lag=0, end_lag=1)
    ct.stats.corr_start = t
    ct.stats.corr_end = t + case['dur']
    ctx.nt()
    import h5py
    from seismic.db.corr_hdf5 import DBHandler
    with scratch() as d:
        with CorrelationDataBase(os.path.join(d, 'a'), CO) as db:
            db.add_correlation(ct, 'x')
            r = get(db, 'A-A', 'B-B', 'HHZ-HHZ', 'x')
            ck(len(r) == 1, 'trace not found')
            ck(abs(r[0].stats.corr_start - t) < 5e-5, 'start', t,
               r[0].stats.corr_start)
            ck(abs(r[0].stats.corr_end - t - case['dur']) < 5e-5, 'end',
               t + case['dur'], r[0].stats.corr_end)
            r = get(db, 'A-A', 'B-B', 'HHZ-HHZ', 'x', corr_start=t,
                    corr_end=t + case['dur'])
            ck(len(r) == 1, 'trace not found by time')


def probe_suffix_wildcard():
    """KF-C01-1: '*Z' also returns channels that do not end in Z."""
    h = [raw_stats('A', 'B', '', c, T0, 5, 1.0) for c in ('HHE', 'HHN')]
    ct = CorrTrace(np.arange(3.), h[0], h[1], start_lag=0, end_lag=2)
    with scratch() as d:
        with CorrelationDataBase(os.path.join(d, 'a'), CO) as db:
            db.add_correlation(ct, 'x')
            return len(get(db, 'A-A', 'B-B', '*Z', 'x')) != 0


PROBES = {'KF-C01-1': probe_suffix_wildcard}
