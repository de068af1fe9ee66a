"""C14: stream, matrix and file form of correlations are interchangeable."""
import os
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stream import (
    CorrTrace, CorrStream, CorrBulk, read_corr_bulk)

si = st.integers
specs = st.fixed_dictionaries(dict(
    t=st.lists(st.tuples(si(0, 40), st.sampled_from([1, 1, 2, .5]), seeds),
               min_size=1, max_size=9, unique_by=lambda x: x[0]),
    sort=st.booleans(), unit=st.sampled_from([3600, 60.5, 86400]),
    n=si(2, 15).map(lambda k: 2*k + 1), sr=st.sampled_from([1., 4., 12.5]),
    lag=st.sampled_from(['sym', 'sym', 'pos', 'asym']),
    loc=st.sampled_from(['same', 'vary']), cha=st.sampled_from(
        ['same', 'same', 'vary']), nan=st.lists(si(0, 8), max_size=2),
    coords=st.booleans(), proc=si(0, 3), f32=st.booleans()))


def build(c):
    out = []
    ts = sorted(c['t']) if c['sort'] else c['t']
    lag = dict(sym=-(c['n']//2), pos=2, asym=-3)[c['lag']]/c['sr']
    for i, (t, ln, seed) in enumerate(ts):
        a = UTCDateTime(T0) + t*c['unit']
        h = dict(network='A-B', station='X-Y', location='-', channel='HHZ-HHE',
                 sampling_rate=c['sr'], start_lag=lag, corr_start=a,
                 corr_end=a + ln*c['unit'], _format='hdf5', other='x')
        if c['loc'] == 'vary':
            h['location'] = '%02d-' % (i % 2)
        if c['cha'] == 'vary':
            h['channel'] = ['HHZ-HHE', 'BHZ-BHE'][i % 2]
        if c['coords']:
            h.update(stla=1., stlo=2., stel=3., evla=4., evlo=5., evel=6.,
                     dist=70., az=8., baz=9.)
        if c['proc']:
            h['processing'] = ['p%d' % (k % 2) for k in range(c['proc'])]
        d = smooth_noise(seed, c['n'], 2)
        if i in c['nan']:
            d = d*np.nan
        if c['f32']:
            d = d.astype(np.float32)
        out.append(CorrTrace(d, _header=h))
    return out


def same_trace(a, b, what):
    ck(len(a.data) == len(b.data) and np.array_equal(
        a.data, b.data, equal_nan=True), what, 'samples differ')
    for k, v in a.stats.items():
        ck(k in b.stats, what, 'header entry lost:', k)
        ck(same_value(v, b.stats[k]) or k in ('sampling_rate', 'delta')
           and abs(v - b.stats[k]) < 1e-12*v, what, 'header', k, 'was', v,
           'now', b.stats[k])


def bulk(trs, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return CorrStream([t.copy() for t in trs]).create_corr_bulk(
            inplace=False, **kw)


def rows(cb):
    n = len(cb.data)
    s = cb.stats

    def at(k, i):
        v = s[k]
        return v[i] if isinstance(v, (list, np.ndarray)) else v
    for k in ('corr_start', 'corr_end'):
        ck(len(s[k]) == n, 'as many', k, 'as rows')
    for k in ('location', 'channel'):
        if isinstance(s[k], (list, np.ndarray)):
            ck(len(s[k]) == n, 'as many', k, 'as rows')
    return [(cb.data[i], at('corr_start', i), at('corr_end', i),
             str(at('location', i)), str(at('channel', i)))
            for i in range(n)]


def same_rows(got, want, what):
    ck(len(got) == len(want), what, 'has', len(got), 'rows, expected',
       len(want))
    for a, b in zip(got, want):
        ck(np.array_equal(a[0], b[0], equal_nan=True), what, 'data')
        ck(a[1] == b[1] and a[2] == b[2], what, 'times', a[1:3], b[1:3])
        ck(a[3:] == b[3:], what, 'codes', a[3:], b[3:])


def same_header(a, b, what, skip=()):
    ck(set(a) == set(b), what, 'entries', sorted(set(a) ^ set(b)))
    for k in a:
        if k in skip:
            continue
        v = a[k]
        ck(same_value(v, b[k]) or k in ('sampling_rate', 'delta', 'end_lag')
           and abs(v - b[k]) < 1e-9*(1 + abs(v)), what, 'header entry', k,
           'was', v, 'now', b[k])


def trace_rows(trs):
    return [(t.data.astype(float), t.stats.corr_start, t.stats.corr_end,
             t.stats.location, t.stats.channel) for t in trs]


@sub(st.fixed_dictionaries(dict(
    c=specs, file=st.booleans(), ind=st.lists(si(0, 8), max_size=4),
    select=st.sampled_from(['no', 'no', 'channel', 'times']),
    win=st.tuples(si(0, 30), si(1, 20)),
    other=st.sampled_from([None, None, 'lag', 'end', 'evla', 'network',
                           'station']))),
    quick=900, rule='three or more traces')
def stream_and_back(case, ctx):
    """Stream -> matrix (-> file) -> stream."""
    trs = build(case['c'])
    kw = {}
    want = trs
    if case['select'] == 'channel':
        kw['channel'] = 'HHZ-HHE'
        want = [t for t in trs if t.stats.channel == 'HHZ-HHE']
    elif case['select'] == 'times':
        u = case['c']['unit']
        a = UTCDateTime(T0) + (case['win'][0] - .25)*u
        b = a + (case['win'][1] + .5)*u
        kw['times'] = (a, b)
        want = sorted([t for t in trs if a < t.stats.corr_end <= b],
                      key=lambda t: t.stats.corr_start.timestamp)
    if not want:
        expect_raises(ValueError, lambda: bulk(trs, **kw),
                      'matrix of no traces')
        return
    cb = bulk(trs, **kw)
    same_rows(rows(cb), trace_rows(want), 'matrix')
    ck(cb.stats.ntrcs == len(want), 'ntrcs', cb.stats.ntrcs)
    for k in ('network', 'station', 'npts', 'start_lag', 'sampling_rate',
              'end_lag', 'dist', 'evla'):
        if k in trs[0].stats:
            ck(cb.stats[k] == trs[0].stats[k], k, cb.stats[k])
    if case['file']:
        with scratch() as d:
            p = os.path.join(d, 'x.npz')
            cb.save(p)
            cb = read_corr_bulk(p)
        same_rows(rows(cb), trace_rows(want), 'matrix read from file')
    cst = cb.create_corr_stream()
    ck(isinstance(cst, CorrStream) and len(cst) == len(want), 'number of '
       'traces')
    for a, b in zip(want, cst):
        same_trace(a, b, 'trace')
    ind = [i % len(want) for i in case['ind']]
    if ind:
        for i, b in zip(ind, cb.create_corr_stream(ind)):
            same_trace(want[i], b, 'selected trace')
    # a matrix that is not made in place leaves the stream as it was
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kept = CorrStream([t.copy() for t in trs])
        kept.create_corr_bulk(inplace=False, **kw)
    ck(len(kept) == len(trs), 'traces of the stream gone')
    for a, b in zip(trs, kept):
        same_trace(a, b, 'trace the matrix was made of')
    # correlations of something else are refused rather than mixed in
    if case['other']:
        odd = [t.copy() for t in trs]
        t = odd[case['win'][0] % len(odd)]
        o = case['other']
        if o == 'lag':
            t.stats.start_lag += 3
        elif o == 'end':
            t.data = np.append(t.data, 0.)
        elif o == 'evla':
            t.stats.evla = 12.25
        else:
            t.stats[o] = 'XX-YY'
        if len(odd) > 1 and (o != 'evla' or case['c']['coords']):
            expect_raises(ValueError, lambda: bulk(odd),
                          'matrix of traces that differ by ' + o)
    # and on to a matrix once more
    cb2 = cst.create_corr_bulk(inplace=True)
    same_rows(rows(cb2), trace_rows(want), 'second matrix')
    ctx.nt(len(want) > 2)
    ctx.label(('file ' if case['file'] else '') + (
        'one' if len(want) == 1 else 'many'))


@sub(st.fixed_dictionaries(dict(
    c=specs, a=st.floats(-3, 45), d=st.floats(.2, 40), grid=st.booleans(),
    partial=st.booleans(), file=st.booleans(),
    item=st.sampled_from(['int', 'slice', 'list', 'mask', 'array']),
    i=si(-9, 8), j=si(-9, 9), step=st.sampled_from([1, 1, 2, -1]),
    idx=st.lists(si(0, 8), min_size=1, max_size=5), seed=seeds)),
    quick=1500, rule='some but not all rows are selected')
def select_rows(case, ctx):
    """Slicing by time and indexing choose exactly the rows."""
    trs = build(case['c'])
    n = len(trs)
    cb = bulk(trs)
    cb.stats.processing_bulk += ['something']
    if case['file']:
        with scratch() as d:
            p = os.path.join(d, 'x.npz')
            cb.save(p)
            cb = read_corr_bulk(p)
    before = cb.copy()
    allr = trace_rows(trs)
    u = case['c']['unit']
    a, d = case['a'], case['d']
    if case['grid']:
        a, d = round(a), max(1, round(d))
    a = UTCDateTime(T0) + a*u
    b = a + d*u
    if case['partial']:
        sel = [t.stats.corr_end >= a and t.stats.corr_start <= b
               for t in trs]
    else:
        sel = [t.stats.corr_start >= a and t.stats.corr_end <= b
               for t in trs]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = cb.slice(a, b, case['partial'])
    same_rows(rows(got), [r for r, s in zip(allr, sel) if s], 'slice')
    same_header(before.stats, got.stats, 'slice', (
        'corr_start', 'corr_end', 'location', 'channel', 'starttime',
        'endtime', 'ntrcs'))
    # by time through the stream
    sel2 = [t for t in trs if (
        a < t.stats.corr_end <= b if case['partial'] else
        t.stats.corr_start >= a and t.stats.corr_end <= b)]
    sel2.sort(key=lambda t: t.stats.corr_start.timestamp)
    if sel2:
        got = cb.select_corr_time(a, b, case['partial'])
        same_rows(rows(got), trace_rows(sel2), 'select_corr_time')
    # index
    it = case['item']
    if it == 'int':
        i = case['i']
        if not -n <= i < n:
            i = 0
        same_trace(trs[i], cb[i], 'row %d' % i)
    else:
        if it == 'slice':
            item = slice(case['i'], case['j'], case['step'])
        elif it in ('list', 'array'):
            item = [i % n for i in case['idx']]
            if it == 'array':
                item = np.array(item)
        else:
            item = rng(case['seed']).rand(n) < .6
        want = [allr[i] for i in np.arange(n)[item]]
        got = cb[item]
        same_rows(rows(got), want, 'index by ' + it)
        same_header(before.stats, got.stats, 'index', (
            'corr_start', 'corr_end', 'location', 'channel', 'starttime',
            'endtime', 'ntrcs'))
        ck(got.stats.ntrcs == len(want), 'ntrcs of the selection')
        # independent of the original
        if len(want):
            got.stats.corr_start[0] += 1
            got.stats.processing_bulk += ['y']
    same_rows(rows(cb), allr, 'original')
    same_header(before.stats, cb.stats, 'original')
    ctx.nt(0 < sum(sel) < n)
    ctx.label(it)


OPS = {
    'normalize': lambda b, r: b.normalize(normtype='absmax'),
    'clip': lambda b, r: b.clip(1.1),
    'envelope': lambda b, r: b.envelope(),
    'filter': lambda b, r: b.filter((.1*b.stats.sampling_rate,
                                     .3*b.stats.sampling_rate)),
    'mirror': lambda b, r: b.mirror(),
    'resample': lambda b, r: b.resample(
        [UTCDateTime(T0) + 3*i*r['unit'] for i in range(12)]),
    'smooth': lambda b, r: b.smooth(3),
    'taper': lambda b, r: b.taper(1.),
    'trim': lambda b, r: b.trim(b.stats.start_lag + 2/b.stats.sampling_rate,
                                b.stats.end_lag - 2/b.stats.sampling_rate),
    'decay': lambda b, r: b.correct_decay(),
    'slice': lambda b, r: b.slice(UTCDateTime(T0), UTCDateTime(T0)
                                  + 20*r['unit']),
    'item': lambda b, r: b[:2],
    'extract': lambda b, r: (b.extract_trace(), b)[1],
    'reread': None,
    'copy': None,
}


@sub(st.fixed_dictionaries(dict(
    c=specs, ops=st.lists(st.sampled_from(sorted(OPS)), min_size=1,
                          max_size=4), pre=st.lists(st.sampled_from(
                              ['normalize', 'smooth', 'taper']), max_size=2),
    stretch=st.booleans())), quick=700,
    rule='two or more operations')
def same_results(case, ctx):
    """Operations give the same on a loaded object as on the original."""
    c = dict(case['c'], lag='sym', n=case['c']['n'] + 8)
    trs = build(c)
    if case['stretch'] or 'decay' in case['ops']:
        trs = [t for t in trs if not np.isnan(t.data).any()]
    if not trs:
        raise Skip()
    a = bulk(trs)
    for o in case['pre']:
        try:
            a = OPS[o](a, c)
        except ValueError:  # e.g. window longer than the data
            raise Skip()
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = os.path.join(d, 'x.npz')

        def reread(x):
            x.save(p)
            y = read_corr_bulk(p)
            y.ref_trc = x.ref_trc
            return y
        b = reread(a)
        same_header(a.stats, b.stats, 'loaded object')
        ck(np.array_equal(a.data, b.data, equal_nan=True), 'loaded data')
        ck(isinstance(b.stats.corr_start, list), 'kind of the times')
        for o in case['ops']:
            if o == 'reread':
                b = reread(b)
            elif o == 'copy':
                b = b.copy()
            else:
                res = []
                for x in (a, b):
                    try:
                        res.append(OPS[o](x, c))
                    except Exception as e:
                        res.append(e)
                if isinstance(res[0], Exception):
                    ck(type(res[0]) is type(res[1]), o, 'raises', res[0],
                       'on the original, loaded:', res[1])
                    return
                ck(not isinstance(res[1], Exception), o, 'fails on the '
                   'loaded object:', res[1])
                a, b = res
            same_header(a.stats, b.stats, 'after ' + o)
            ck(a.data.shape == b.data.shape, 'shape after', o)
            ck_close(b.data, a.data, 'data after ' + o, 1e-9, 1e-12)
            if a.ref_trc is not None:
                ck_close(b.ref_trc, a.ref_trc, 'reference', 1e-9, 1e-12)
        if case['stretch'] and a.data.shape[0] and not np.isnan(
                a.data).any() and abs(a.stats.start_lag
                                      + a.stats.end_lag) < 1e-6:
            tw = [(0, a.stats.end_lag)]
            ra, rb = [x.stretch(
                np.nanmean(a.data, 0), tw, .05, 11, return_sim_mat=True)
                for x in (a, b)]
            ck_close(rb.value, ra.value, 'stretch', 1e-9, 1e-12)
            ck_close(rb.sim_mat, ra.sim_mat, 'similarity', 1e-9, 1e-9)
            same_header(ra.stats, rb.stats, 'stretch')
    ctx.nt(len(case['ops']) > 1)
    for o in case['ops']:
        ctx.label(o)
