"""C12: correlation headers are self-consistent and combine losslessly."""
import copy
import os
import pickle

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from obspy.core import AttribDict
from obspy.core.inventory import Inventory, Network, Station
from obspy.geodetics import gps2dist_azimuth
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrTrace, combine_stats
from seismic.utils import miic_utils as mu

si = st.integers
rates = st.sampled_from([1., 2., 5., 12.5, 25., 100., .5, .1, 1/3, 3])
deltas = st.sampled_from([1., .5, .04, .01, 2, 10., 1/3, .1, .125])
lags = st.sampled_from([0, -10, -12.5, 3, 7.25, -.04, 100., -1/3])
op = st.one_of(
    st.tuples(st.just('sampling_rate'), rates),
    st.tuples(st.just('delta'), deltas),
    st.tuples(st.just('npts'), si(0, 2000)),
    st.tuples(st.just('npts'), st.sampled_from([0, 1, 2, 1.0, 51.0])),
    st.tuples(st.just('start_lag'), lags),
    st.tuples(st.just('corr_start'), si(0, 10**6)),
    st.tuples(st.just('corr_end'), si(0, 10**6)),
    st.tuples(st.just('component'), st.sampled_from(
        ['E-Z', 'Z-Z', '1-2', 'N-E'])),
    st.tuples(st.just('channel'), st.sampled_from(
        ['HHZ-HHZ', 'BHE-EHZ', 'EH1-HHN'])),
    st.tuples(st.sampled_from(['network', 'station', 'location', 'extra',
                               'sac2']), st.sampled_from(
        ['A-B', 'XN-XN', '-', 'KB-KBG', '01-']),),
    st.tuples(st.sampled_from(['dist', 'az', 'evla']),
              st.floats(-90, 90)),
    st.tuples(st.sampled_from(['processing', 'extra']),
              st.lists(st.sampled_from(['a', 'b', 'c']), max_size=3)),
    st.tuples(st.just('readonly'), st.sampled_from(
        ['endtime', 'starttime', 'end_lag'])),
    st.tuples(st.just('bulk'), st.tuples(rates, si(0, 99), lags)),
    st.tuples(st.just('clone'), st.sampled_from(
        ['copy', 'deepcopy', 'copy.copy', 'ctor', 'dict', 'pickle'])),
    st.tuples(st.just('del'), st.sampled_from(['dist', 'extra', 'az'])),
    st.tuples(st.just('data'), si(0, 40)),
)


def consistent(s, m, what):
    """Header against the model of primary values."""
    d = 1/m['sampling_rate']
    ck(abs(s.sampling_rate - m['sampling_rate'])
       <= 1e-9*m['sampling_rate'], what, 'sampling rate', s.sampling_rate,
       'instead of', m['sampling_rate'])
    ck(abs(s.delta*s.sampling_rate - 1) < 1e-12, what, 'delta', s.delta,
       'at rate', s.sampling_rate)
    ck(s.npts == m['npts'] and isinstance(s.npts, int), what, 'npts', s.npts,
       'instead of', m['npts'])
    ck(abs(s.start_lag - m['start_lag']) < 1e-9, what, 'start_lag',
       s.start_lag, m['start_lag'])
    el = m['start_lag'] + max(m['npts'] - 1, 0)*d
    ck(abs(s.end_lag - el) <= 1e-9*max(1, abs(el)), what, 'end_lag',
       s.end_lag, 'instead of', el)
    for a, b in (('corr_start', 'starttime'), ('corr_end', 'endtime')):
        ck(s[a] == m[a] and s[b] == m[a], what, a, s[a], s[b],
           'instead of', m[a])
    for k in ('network', 'station', 'location', 'channel', 'dist', 'az',
              'evla', 'extra', 'sac2', 'processing'):
        ck((k in s) == (k in m), what, 'presence of', k)
        if k in m:
            ck(s[k] == m[k] and getattr(s, k) == m[k], what, k, s[k],
               'instead of', m[k])
    ck(s['id'] == s.id == '.'.join((m['network'], m['station'],
                                    m['channel'])), what, 'id', s.id)
    a, b = m['channel'].split('-')
    ck(s.component == a[-1] + '-' + b[-1], what, 'component', s.component)


@sub(st.fixed_dictionaries(dict(
    ops=st.lists(st.tuples(op, st.booleans()), min_size=1, max_size=14),
    trace=st.booleans())), quick=2500,
    rule='at least two primary quantities of the axes are changed')
def header_history(case, ctx):
    """Any sequence of changes leaves the header consistent."""
    m = dict(sampling_rate=1., npts=0, start_lag=0., network='', station='',
             location='', channel='HHZ-HHZ', corr_start=UTCDateTime(0),
             corr_end=UTCDateTime(0))
    tr = None
    if case['trace']:
        tr = CorrTrace(np.zeros(0))
        s = tr.stats
    else:
        s = CorrStats()
    s.channel = 'HHZ-HHZ'
    axes = set()
    for (k, v), attr in case['ops']:
        if k in ('corr_start', 'corr_end'):
            v = UTCDateTime(T0) + v
        if k == 'readonly':
            before = s[v]
            for f in (lambda: setattr(s, v, 3.), lambda: s.__setitem__(v, 3.)):
                try:
                    f()
                except (AttributeError, KeyError):
                    pass
                else:
                    raise Violation('derived entry %s can be set' % v)
            ck(s[v] == before, 'refused assignment changed', v)
        elif k == 'bulk':
            # derived entries in a set of entries are not taken over
            d = dict(end_lag=-5555., sampling_rate=v[0], endtime=UTCDateTime(
                5), npts=v[1], start_lag=v[2], starttime=UTCDateTime(9))
            if attr:
                d = dict(reversed(list(d.items())))
            s.update(d)
            m.update(sampling_rate=v[0], npts=v[1], start_lag=v[2])
            axes |= {'sampling_rate', 'npts', 'start_lag'}
        elif k == 'clone':
            old = s
            s = dict(
                copy=lambda: s.copy(), deepcopy=lambda: copy.deepcopy(s),
                ctor=lambda: CorrStats(s), dict=lambda: CorrStats(dict(s)),
                pickle=lambda: pickle.loads(pickle.dumps(s))).get(
                v, lambda: copy.copy(s))()
            ck(isinstance(s, CorrStats), 'type of clone')
            if v in ('copy', 'deepcopy', 'pickle'):
                # independent of the original
                old.npts = 12345
                old.channel = 'QQQ-QQQ'
                if isinstance(old.get('processing'), list):
                    old['processing'].append('other')
            if tr is not None:
                tr.stats = s
        elif k == 'del':
            if k in m:
                del m[v]
                if attr:
                    delattr(s, v)
                else:
                    del s[v]
        elif k == 'data':
            if tr is not None:
                tr.data = np.arange(float(v))
                m['npts'] = v
                axes.add('npts')
                ck(len(tr.times()) == v, 'lag axis length')
                if v:
                    ck_close(tr.times(), m['start_lag'] + np.arange(
                        v)/m['sampling_rate'], 'lag axis', 0, 1e-8)
        else:
            w = copy.copy(v)
            if attr:
                setattr(s, k, w)
            else:
                s[k] = w
            if k == 'delta':
                m['sampling_rate'] = 1/v
            elif k == 'component':
                a, b = m['channel'].split('-')
                m['channel'] = a[:-1] + v[0] + '-' + b[:-1] + v[2]
            else:
                m[k] = v
            axes |= {k} & {'delta', 'sampling_rate', 'npts', 'start_lag'}
        consistent(s, m, 'after %s %s:' % (k, v))
    ctx.nt(len(axes) > 1)


extra = st.dictionaries(
    st.sampled_from(['mykey', 'calib', '_format', 'processing', 'back',
                     'flag', 'num']),
    st.sampled_from(['a', 'b', 1, 2.5, True, ['x'], ['x', 'y'], 0, 0., '',
                     False, []]), max_size=4)


@sub(st.fixed_dictionaries(dict(
    ids=st.tuples(*[st.tuples(nets, stas, locs, chas)]*2),
    t=st.tuples(si(0, 50), si(0, 50)), n=st.tuples(si(60, 90), si(60, 90)),
    sr=st.tuples(*[st.sampled_from([1., 1., 5., 25.])]*2),
    ex=st.tuples(extra, extra), both=extra, share=st.booleans(),
    coords=st.tuples(*[st.tuples(
        st.floats(-60, 60), st.floats(-179, 179), st.floats(-100, 4000))]*2),
    mode=st.sampled_from(['stats', 'sac', 'inv', 'none']), lag=lags,
    filesac=st.booleans(), before=st.booleans())),
    quick=1500, rule='both different codes and different time spans')
def combine(case, ctx):
    """Combining two raw headers keeps all they have to say."""
    mode = case['mode']
    co = [tuple(round(x, 4) for x in c) for c in case['coords']]
    if case['ids'][0][:2] == case['ids'][1][:2]:
        co[1] = co[0]
    if abs(co[0][0] + co[1][0]) < 5 and abs(
            abs(co[0][1] - co[1][1]) - 180) < 5:
        raise Skip()
    hs = []
    for i in (0, 1):
        sr = case['sr'][0 if case['share'] else i]
        h = raw_stats(*case['ids'][i], T0 + case['t'][i], case['n'][i], sr,
                      co[i] if mode == 'stats' else None)
        for k, v in dict(case['ex'][i], **case['both']).items():
            if k == 'calib' and not isinstance(v, float):
                continue
            if k == '_format' and not isinstance(v, str):
                continue
            h[k] = copy.copy(v)
        if mode == 'sac':
            h['sac'] = AttribDict(zip(('stla', 'stlo', 'stel'), co[i]))
            if case['filesac']:
                # as read from a longer file
                h['sac'].update(dict(delta=np.float32(1/sr), npts=h.npts + 50,
                                b=0., e=100., kstnm='X', nzyear=2010))
        hs.append(h)
    inv = None
    if mode == 'inv':
        done = {}
        for i in (0, 1):
            n, s = case['ids'][i][:2]
            done[(n, s)] = Network(n, stations=[Station(s, *co[i])])
        inv = Inventory(networks=[Network('ZZ', stations=[
            Station(case['ids'][0][1], 1., 2., 3.)])] + list(done.values()))
    ref = copy.deepcopy(hs)
    if case['before']:
        # the same header may be used in several combinations
        combine_stats(hs[0], copy.deepcopy(hs[1]), case['lag'], inv=inv)
    s = combine_stats(hs[0], hs[1], case['lag'], inv=inv)
    for h, r in zip(hs, ref):
        ck({k: v for k, v in h.items() if k != 'asdf'} ==
           {k: v for k, v in r.items() if k != 'asdf'},
           'input header altered', r, h)
    for i, k in enumerate(('network', 'station', 'location', 'channel')):
        ck(s[k] == '-'.join(x[i] for x in case['ids']), k, s[k])
    ck(s.corr_start == max(h.starttime for h in ref), 'start', s.corr_start)
    ck(s.corr_end == min(h.endtime for h in ref), 'end', s.corr_end)
    ck(abs(s.start_lag - case['lag']) < 1e-9, 'start_lag', s.start_lag)
    for k in ref[0]:
        if k in ('network', 'station', 'location', 'channel', 'starttime',
                 'endtime', 'sac', 'stla', 'stlo', 'stel', 'delta', 'asdf',
                 '_format', 'response'):
            continue
        if k in ref[1] and ref[0][k] == ref[1][k]:
            ck(k in s, 'entry common to both headers lost:', k)
            ck(s[k] == ref[0][k], k, s[k], 'instead of', ref[0][k])
        elif k not in ('npts', 'sampling_rate', 'calib'):
            ck(k not in s, 'entry', k, 'is not common but kept as',
               s.get(k))
    ck(s.delta*s.sampling_rate - 1 < 1e-9, 'delta')
    ck(abs(s.end_lag - s.start_lag - max(s.npts - 1, 0)*s.delta) < 1e-9,
       'end lag')
    if mode == 'none':
        ck('dist' not in s and 'stla' not in s, 'coordinates invented')
    else:
        d, az, baz = gps2dist_azimuth(*co[0][:2], *co[1][:2])
        want = dict(zip(('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'),
                        co[0] + co[1]), dist=d/1000, az=az, baz=baz)
        for k, v in want.items():
            ck(k in s, 'missing', k)
            ck(abs(s[k] - v) < 1e-6*max(1, abs(v)), k, s[k], 'instead of', v)
    ctx.nt(case['ids'][0] != case['ids'][1] and case['t'][0] != case['t'][1])
    ctx.label(mode)


txt = st.text(st.characters(codec='utf-8', exclude_categories=[
    'Cs', 'Cc']), min_size=1, max_size=12).filter(
        lambda x: x == x.rstrip('\0'))
vals = st.one_of(
    st.floats(allow_nan=False), si(-2**40, 2**40), txt, st.booleans(),
    st.lists(txt, max_size=5), st.lists(st.floats(-1e9, 1e9), max_size=4))


@sub(st.fixed_dictionaries(dict(
    keys=st.dictionaries(st.sampled_from(
        ['dist', 'az', 'foo', 'processing', 'processing_bulk', '_format',
         'ntrcs', 'stla', 'evla', 'x-y']), vals, max_size=6),
    n=si(0, 6), kind=st.sampled_from(['list', 'list', 'single']),
    t=si(0, 10**9), frac=si(0, 999999), inc=si(1, 10**5), npts=si(0, 50),
    sr=rates, lag=lags, loc=st.booleans(), cha=st.booleans(),
    file=st.booleans())), quick=1200,
    rule='header with a list of times or of codes')
def array_form(case, ctx):
    """Headers survive the conversion to arrays (and a file) and back."""
    s = CorrStats(dict(network='A-B', station='C-D', location='00-',
                       channel='HHZ-HHE'))
    s.sampling_rate, s.npts, s.start_lag = case['sr'], case['npts'], \
        case['lag']
    n = max(case['n'], 1)
    t = [UTCDateTime(case['t']) + case['frac']*1e-6 + i*case['inc']
         for i in range(n)]
    te = [x + 3600 for x in t]
    if case['kind'] == 'list':
        s.corr_start, s.corr_end = t, te
        if case['loc']:
            s.location = ['%02d-' % i for i in range(n)]
        if case['cha']:
            s.channel = ['HH%s-HHE' % 'ENZ12R'[i] for i in range(n)]
    else:
        s.corr_start, s.corr_end = t[0], te[0]
    for k, v in case['keys'].items():
        s[k] = copy.copy(v)
    ref = copy.deepcopy(dict(s))
    d = mu.save_header_to_np_array(s)
    # arrays of the objects the headers belong to
    d['corr'] = np.zeros(3)
    d['reftr_0'] = np.zeros(3)
    if case['file']:
        with scratch() as w:
            np.savez_compressed(os.path.join(w, 'x.npz'), **d)
            out = mu.load_header_from_np_array(
                np.load(os.path.join(w, 'x.npz')))
    else:
        out = mu.load_header_from_np_array(d)
    ck(dict(s) == ref, 'conversion alters the header')
    ck(set(out) == set(ref), 'entries', sorted(set(out) ^ set(ref)))
    for k, v in ref.items():
        ck(same_value(v, out[k]), k, 'was', v, 'now', out[k])
        ck(isinstance(v, list) == isinstance(out[k], (list, np.ndarray)),
           'kind of', k, 'was', v, 'now', out[k])
    full = CorrStats(out)
    for k in ('npts', 'start_lag', 'end_lag', 'sampling_rate', 'delta',
              'starttime', 'endtime'):
        ck(same_value(full[k], ref[k]) or abs(full[k] - ref[k]) < 1e-9, k,
           full[k], ref[k])
    ctx.nt(case['kind'] == 'list')
    ctx.label(case['kind'] + ('1' if n == 1 else ''))
