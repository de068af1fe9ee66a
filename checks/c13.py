"""C13: stacking and selecting correlation traces."""
import fnmatch

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrTrace, CorrStream

si = st.integers
IDS = [('A-B', 'X-Y', '-', 'HHZ-HHZ'), ('A-B', 'X-Y', '00-', 'HHZ-HHZ'),
       ('A-B', 'X-YZ', '-', 'HHZ-HHZ'), ('A-A', 'X-Y', '-', 'HHZ-HHE'),
       ('A-B', 'X-Y', '-', 'HHE-HHZ'), ('AA-B', 'X-Y', '-10', 'HHZ-HHZ')]
tracespec = st.fixed_dictionaries(dict(
    id=si(0, 5), t=si(0, 60), len=st.sampled_from([1, 2, 2, 2, 3, 5, 6]),
    seed=si(0, 5), kind=st.sampled_from(
        ['', '', '', '', '', 'nan', 'zero', 'short'])))


def make(spec, unit, off, n=11):
    t = UTCDateTime(T0) + off + spec['t']*unit
    i = IDS[spec['id']]
    lag = -5.
    d = rng(spec['seed'] + 10*spec['id']).randn(n)
    if spec['kind'] == 'nan':
        d[:] = np.nan
    elif spec['kind'] == 'zero':
        d[:] = 0
    elif spec['kind'] == 'short':
        d = d[2:-1]
        lag = -3.
    return CorrTrace(d, _header=dict(
        network=i[0], station=i[1], location=i[2], channel=i[3],
        sampling_rate=1., start_lag=lag, corr_start=t,
        corr_end=t + spec['len']*unit - (unit/4 if spec['seed'] % 2 else 0),
        dist=2.5, processing=['x']))


streams = st.fixed_dictionaries(dict(
    tr=st.lists(tracespec, min_size=1, max_size=14),
    unit=st.sampled_from([60, 3600, 900, 7200]),
    off=st.sampled_from([0, 3600*23, 1800, 86399, .5]),
    ids=si(1, 6)))


def build(c):
    trs = [dict(t, id=t['id'] % c['ids']) for t in c['tr']]
    return [make(t, c['unit'], c['off']) for t in trs]


def key(tr, loc=True):
    s = tr.stats
    return (s.network, s.station, s.channel) + ((s.location,) if loc else ())


def ident(tr):
    return key(tr) + (str(tr.stats.corr_start), str(tr.stats.corr_end),
                      tr.data.tobytes())


def idents(x):
    return sorted(ident(t) for t in x)


def model_stack(trs, weight, loc):
    """One stack per combination: {key: (start, end, lag, data up to scale)}"""
    out = {}
    groups = {}
    for t in trs:
        groups.setdefault(key(t, loc), []).append(t)
    for k, g in groups.items():
        n = max(len(t.data) for t in g)
        g = [t for t in g if len(t.data) == n]
        w = [t.stats.corr_end - t.stats.corr_start if weight == 'by_length'
             else 1. for t in g]
        ok = [i for i, t in enumerate(g) if not np.isnan(t.data).any()]
        data = sum(w[i]*g[i].data for i in ok) if ok else np.full(n, np.nan)
        if ok:
            m = np.abs(data).max()
            data = data/m if m > 0 else data
        out[k] = (min(t.stats.corr_start for t in g),
                  max(t.stats.corr_end for t in g), g[0].stats.start_lag,
                  data, len(g))
    return out


def compare(got, want, loc, what):
    gk = sorted(key(t, loc) for t in got)
    ck(gk == sorted(want), what, 'stacks for', gk, 'expected', sorted(want))
    for t in got:
        s, e, lag, d, _ = want[key(t, loc)]
        ck(t.stats.corr_start == s and t.stats.corr_end == e, what,
           key(t, loc), 'labelled', t.stats.corr_start, t.stats.corr_end,
           'members span', s, e)
        ck(t.stats.start_lag == lag and t.stats.npts == len(d) == len(t.data),
           what, 'lag axis')
        ck(t.stats.sampling_rate == 1. and t.stats.dist == 2.5, what,
           'header lost')
        if np.isnan(d).all():
            ck(np.isnan(t.data).all(), what, 'value without data')
        else:
            ck_close(t.data, d, what + ' %s' % (key(t, loc),), 1e-7, 1e-9)


@sub(st.fixed_dictionaries(dict(
    s=streams, weight=st.sampled_from(['mean', 'by_length', 'average']),
    loc=st.booleans(), perm=seeds)), quick=1500,
    rule='a group with two or more members in an input of several groups')
def stack_all(case, ctx):
    """A single stack per combination."""
    trs = build(case['s'])
    if case['weight'] == 'by_length' and any(
            t['kind'] == 'nan' for t in case['s']['tr']):
        trs = [t for t in trs if not np.isnan(t.data).any()]
        if not trs:
            raise Skip()
    want = model_stack(trs, case['weight'], case['loc'])
    before = idents(trs)
    cst = CorrStream(trs)
    got = cst.stack(weight=case['weight'], regard_location=case['loc'])
    compare(got, want, case['loc'], 'stack')
    ck(idents(cst) == before, 'stacking alters the stream')
    p = rng(case['perm']).permutation(len(trs))
    got = CorrStream([trs[i] for i in p]).stack(
        weight=case['weight'], regard_location=case['loc'])
    compare(got, want, case['loc'], 'stack of permuted stream')
    ctx.nt(len(want) > 1 and max(w[4] for w in want.values()) > 1)


def in_window(t, a, b, partial):
    s, e = t.stats.corr_start, t.stats.corr_end
    return a < e <= b if partial else (a <= s and e <= b)


def windows(trs, length, step, start, end):
    s = start if start is not None else min(t.stats.corr_start for t in trs)
    e = end if end is not None else max(t.stats.corr_end for t in trs)
    i = 0
    while s + i*step < e:
        yield s + i*step, s + i*step + length
        i += 1


@sub(st.fixed_dictionaries(dict(
    s=streams, weight=st.sampled_from(['mean', 'by_length']),
    loc=st.booleans(), len=st.sampled_from([6, 6, 7, 9, 12, 24, 'daily']),
    perm=seeds, start=st.sampled_from([None, None, -3, 0, 5, 20]),
    end=st.sampled_from([None, None, 10, 40, 90]))), quick=1500,
    rule='stacks in two or more windows, one of two or more members')
def stack_windows(case, ctx):
    """One stack per combination and window."""
    trs = [t for t in build(case['s']) if not np.isnan(t.data).any()]
    if not trs:
        raise Skip()
    u = case['s']['unit']
    t0 = UTCDateTime(T0) + case['s']['off']
    start, end = [x if x is None else t0 + x*u for x in (
        case['start'], case['end'])]
    if start is not None and end is not None and end <= start:
        raise Skip()
    length = case['len']
    ws = start if start is not None else min(t.stats.corr_start for t in trs)
    if length == 'daily':
        sec = 86400
        ws = UTCDateTime(ws.year, ws.month, ws.day)
    else:
        length = sec = length*u
    if sec < max(t.stats.corr_end - t.stats.corr_start for t in trs):
        raise Skip()
    want = []
    for a, b in windows(trs, sec, sec, ws, end):
        sel = [t for t in trs if in_window(t, a, b, True)]
        m = model_stack(sel, case['weight'], case['loc'])
        want += [(k, m[k]) for k in sorted(m)]
    p = rng(case['perm']).permutation(len(trs))
    got = CorrStream([trs[i] for i in p]).stack(
        weight=case['weight'], starttime=start, endtime=end,
        stack_len=length, regard_location=case['loc'])
    gk = sorted((key(t, case['loc']), str(t.stats.corr_start),
                 str(t.stats.corr_end)) for t in got)
    wk = sorted((k, str(m[0]), str(m[1])) for k, m in want)
    ck(gk == wk, 'stacks', gk, 'expected', wk)
    # (by construction the windows are disjoint)
    used = {}
    for k, m in want:
        kk = (k, str(m[0]), str(m[1]))
        used.setdefault(kk, []).append(m)
    for t in got:
        kk = (key(t, case['loc']), str(t.stats.corr_start),
              str(t.stats.corr_end))
        ok = False
        for m in used[kk]:
            if len(m[3]) == len(t.data) and np.allclose(
                    t.data, m[3], 1e-7, 1e-9):
                ok = True
        ck(ok, 'stack', kk, 'is not the (weighted) mean of its members',
           t.data[:4], used[kk][0][3][:4])
    ctx.nt(len({str(m[0]) for k, m in want}) > 1 and max(
        [m[4] for _, m in want] + [0]) > 1)
    ctx.label(str(case['len']))


@sub(st.fixed_dictionaries(dict(
    s=streams, a=st.floats(-5, 60), d=st.floats(.1, 40), grid=st.booleans(),
    partial=st.booleans(), perm=seeds)), quick=1200,
    rule='some but not all traces are selected')
def select_times(case, ctx):
    """Selecting by correlation time is a filter on the list of traces."""
    trs = build(case['s'])
    u = case['s']['unit']
    a, d = case['a'], case['d']
    if case['grid']:
        a, d = round(a), max(1, round(d))
    a = UTCDateTime(T0) + case['s']['off'] + a*u
    b = a + d*u
    p = rng(case['perm']).permutation(len(trs))
    cst = CorrStream([trs[i] for i in p])
    got = cst.select_corr_time(a, b, case['partial'])
    want = [t for t in trs if in_window(t, a, b, case['partial'])]
    ck(idents(got) == idents(want), 'selected', len(got), 'expected',
       len(want), 'in', a, b, 'partial', case['partial'])
    ck(idents(cst) == idents(trs), 'selecting alters the stream')
    ctx.nt(0 < len(want) < len(trs))


@sub(st.fixed_dictionaries(dict(
    s=streams, len=st.sampled_from([6, 6.5, 8, 12, 30]),
    step=st.sampled_from([1, 2, 3.25, 6, 12, 15]), partial=st.booleans(),
    start=st.sampled_from([None, None, -3, 0, 5]),
    end=st.sampled_from([None, None, 10, 40, 90]))), quick=800,
    rule='three or more non-empty windows')
def moving_windows(case, ctx):
    """Iterating over windows gives each window's traces, in order."""
    trs = build(case['s'])
    u = case['s']['unit']
    t0 = UTCDateTime(T0) + case['s']['off']
    start, end = [x if x is None else t0 + x*u for x in (
        case['start'], case['end'])]
    want = []
    for a, b in windows(trs, case['len']*u, case['step']*u, start, end):
        sel = [t for t in trs if in_window(t, a, b, case['partial'])]
        if sel:
            want.append(idents(sel))
    got = [idents(w) for w in CorrStream(list(trs)).slide(
        case['len']*u, case['step']*u,
        include_partially_selected=case['partial'], starttime=start,
        endtime=end)]
    ck(got == want, 'windows', [len(x) for x in got], 'expected',
       [len(x) for x in want])
    ctx.nt(len(want) > 2)


pat = st.sampled_from([None, None, '*', 'exact', 'pre', 'q'])


@sub(st.fixed_dictionaries(dict(
    s=streams, which=si(0, 13), pats=st.tuples(pat, pat, pat, pat))),
    quick=800, rule='some but not all traces are selected')
def select_codes(case, ctx):
    """Selecting by codes is a filter on the list of traces."""
    trs = build(case['s'])
    s = trs[case['which'] % len(trs)].stats
    kw = {}
    for k, p in zip(('network', 'station', 'location', 'channel'),
                    case['pats']):
        if p is None:
            continue
        kw[k] = {'*': '*', 'exact': s[k], 'pre': s[k][:1] + '*',
                 'q': s[k][:-1] + '?'}[p]
    want = [t for t in trs if all(
        fnmatch.fnmatchcase(t.stats[k], v) for k, v in kw.items())]
    got = CorrStream(trs).select(**kw)
    ck(isinstance(got, CorrStream), 'type of selection')
    ck(idents(got) == idents(want), kw, 'selected', idents(got))
    ctx.nt(0 < len(want) < len(trs))


@sub(st.fixed_dictionaries(dict(
    s=streams, h=st.tuples(si(0, 23), si(0, 23)),
    m=st.tuples(si(0, 59), si(0, 59)), sec=st.tuples(
        st.sampled_from([0, 0, 30]), st.sampled_from([0, 59])),
    exclude=st.booleans())), quick=800,
    rule='some but not all traces are selected')
def select_time_of_day(case, ctx):
    """Selecting by time of day, for traces that lie within one day."""
    trs = [t for t in build(case['s'])
           if t.stats.corr_start.date == t.stats.corr_end.date]
    if not trs:
        raise Skip()
    a, b = sorted(zip(case['h'], case['m'], case['sec']))
    day = 3600

    def sec(t):
        return (t - UTCDateTime(t.year, t.month, t.day))
    lo, hi = [x[0]*day + x[1]*60 + x[2] for x in (a, b)]
    want = [t for t in trs if (
        sec(t.stats.corr_start) >= lo and sec(t.stats.corr_end) <= hi)
        != case['exclude']]
    got = CorrStream(trs).select_time(a, b, exclude=case['exclude'])
    ck(idents(got) == idents(want), 'selected', len(got), 'expected',
       len(want), 'between', a, b, 'exclude', case['exclude'])
    ctx.nt(0 < len(want) < len(trs))


@sub(st.fixed_dictionaries(dict(
    s=streams, t=st.lists(st.floats(-2, 70), max_size=6),
    mid=st.lists(si(0, 13), max_size=2))), quick=800,
    rule='some but not all traces are removed')
def pop_times(case, ctx):
    """Traces containing any of the given times are left out."""
    trs = build(case['s'])
    u = case['s']['unit']
    ts = [UTCDateTime(T0) + case['s']['off'] + x*u for x in case['t']]
    for i in case['mid']:
        s = trs[i % len(trs)].stats
        ts.append(s.corr_start + .3*(s.corr_end - s.corr_start))
    for t in ts:
        for x in trs:
            if min(abs(t - x.stats.corr_start),
                   abs(t - x.stats.corr_end)) < 1e-3:
                raise Skip()
    want = [x for x in trs if not any(
        x.stats.corr_start < t < x.stats.corr_end for t in ts)]
    cst = CorrStream(list(trs))
    got = cst.pop_at_utcs(np.array(ts))
    ck(idents(got) == idents(want), 'kept', len(got), 'expected', len(want))
    ck(idents(cst) == idents(trs), 'stream altered')
    ctx.nt(0 < len(want) < len(trs))


@sub(st.fixed_dictionaries(dict(
    s=streams, dup=st.lists(st.tuples(si(0, 13), st.sampled_from(
        ['copy', 'same', 'data', 'header', 'time'])), max_size=6))),
    quick=800, rule='with duplicates and near duplicates')
def duplicates(case, ctx):
    """Exactly the repeated traces are removed."""
    trs = [t for t in build(case['s']) if not np.isnan(t.data).any()]
    if not trs:
        raise Skip()
    kinds = set()
    for i, how in case['dup']:
        t = trs[i % len(trs)]
        if how != 'same':
            t = t.copy()
        if how == 'data':
            t.data[-1] += 1e-3
        elif how == 'header':
            t.stats['other'] = 'x'
        elif how == 'time':
            t.stats.corr_end += 1
        kinds.add(how in ('copy', 'same'))
        trs.append(t)
    seen, want = [], []
    for t in trs:
        k = (ident(t), t.stats.get('other'))
        if k not in seen:
            seen.append(k)
            want.append(k)
    cst = CorrStream(list(trs))
    cst.remove_duplicates()
    got = [(ident(t), t.stats.get('other')) for t in cst]
    ck(got == want, 'kept', len(got), 'expected', len(want))
    ctx.nt(len(kinds) == 2)
