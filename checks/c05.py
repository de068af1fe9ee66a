"""C05: exactly the requested combinations are formed."""
from unittest import mock
import warnings
import tempfile
import copy
from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.corr import BASE, drop_handlers, want_pair
from obspy.core.inventory import Inventory, Network, Station
from obspy.geodetics import gps2dist_azimuth
from seismic.correlate import correlate
from seismic.correlate.correlate import (
    calc_cross_combis, compute_network_station_combinations, is_in_xcombis,
    sort_comb_name_alphabetically)
from seismic.trace_data.waveform import Store_Client

si = st.integers
METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']
ids = st.lists(st.tuples(netsta, st.just(''), chas).map(
    lambda c: (*c[0], *c[1:])), min_size=1, max_size=9, unique=True)
# few codes so that stations share components often
few = st.lists(st.tuples(
    st.sampled_from(['A', 'AB']), st.sampled_from(
        ['A', 'AB', 'B', 'ABC', 'BB']),
    st.sampled_from(['', '', '00']),
    st.sampled_from(['HHZ', 'HHN', 'BHZ', 'EH1'])),
    min_size=1, max_size=9, unique_by=lambda c: (c[0], c[1], c[3]))
anyids = st.one_of(ids, few)
# a request: indices of two traces, orientation, with channel?, existing?
reqs = st.lists(st.tuples(si(0, 8), si(0, 8), st.booleans(),
                          st.sampled_from([True, True, False])), max_size=4)


def reqname(a, b, cha):
    r = '%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])
    return r + '.%s-%s' % (a[3], b[3]) if cha else r


def requests(codes, rq):
    """Names of the requests and the predicate telling what they select."""
    names, sel = [], []
    for i, j, cha, present in rq:
        a, b = codes[i % len(codes)], codes[j % len(codes)]
        if not present:
            # station that only shares the beginning of its code
            b = (b[0], b[1] + 'X', b[2], b[3])
        names.append(reqname(a, b, cha))
        sel.append((a, b, cha))

    def key(c, cha):
        return (c[0], c[1], c[3]) if cha else (c[0], c[1])

    def ok(a, b):
        for x, y, cha in sel:
            if (key(a, cha), key(b, cha)) in (
                    (key(x, cha), key(y, cha)), (key(y, cha), key(x, cha))):
                return True
        return False
    return names, ok


def model(codes, method, ok):
    out = []
    for i, a in enumerate(codes):
        for b in codes[i:]:
            if want_pair(a, b, method):
                if method == 'betweenStations' and ok and not ok(a, b):
                    continue
                out.append((a, b))
    return out


@sub(st.fixed_dictionaries(dict(
    codes=anyids, perm=seeds, method=st.sampled_from(METHODS),
    late=st.lists(st.sampled_from([0, 0, 0, 0, 1, 5]), min_size=9, max_size=9),
    rq=st.one_of(st.none(), reqs), exist=st.lists(
        st.tuples(si(0, 8), si(0, 8), st.sampled_from([0, 0, 0, 1, 5, 6])), max_size=8))),
    quick=2500, rule='at least two pairs formed and a restriction or '
    'existing data in effect')
def pairs(case, ctx):
    """Indices returned refer to exactly the pairs of the definition."""
    codes = [tuple(c) for c in case['codes']]
    start = {c: T0 + k for c, k in zip(codes, case['late'])}
    order = rng(case['perm']).permutation(len(codes))
    s = Stream([Trace(np.zeros(3, np.float32), raw_stats(
        *codes[i], start[codes[i]], 3)) for i in order])
    names, ok = (None, None)
    if case['rq'] is not None:
        names, ok = requests(codes, case['rq'])
    method = case['method']
    allp = model(codes, method, ok)
    ex, gone = {}, set()
    for i, j, k in case['exist']:
        a, b = codes[i % len(codes)], codes[j % len(codes)]
        t = T0 + k
        if i < 6 and allp:
            # mostly what would be computed otherwise
            a, b = allp[(i*9 + j) % len(allp)]
            t = max(start[a], start[b]) + (k == 6)
        nc, sc, cc = sort_comb_name_alphabetically(
            a[0], a[1], b[0], b[1], a[3], b[3])
        ex.setdefault('%s.%s' % (nc[0], sc[0]), {}).setdefault(
            '%s.%s' % (nc[1], sc[1]), {}).setdefault(
            '-'.join(cc), []).append(UTCDateTime(t).format_fissures())
        if max(start[a], start[b]) == t:
            gone.add(frozenset((a, b)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = calc_cross_combis(s, ex, method, rcombis=names)
    byid = {'%s.%s.%s.%s' % c: c for c in codes}
    ck(len(s) == len(codes), 'traces lost')
    gp = [(byid[s[i].id], byid[s[j].id]) for i, j in got]
    want = [p for p in allp if frozenset(p) not in gone]
    if method == 'allCombinations':
        want = want + [(b, a) for a, b in want if a != b]
        ck(sorted(gp) == sorted(want), 'pairs', method, 'got', sorted(gp),
           'expected', sorted(want))
    else:
        ck(sorted(map(sorted, gp)) == sorted(map(sorted, want)), 'pairs',
           method, 'got', sorted(gp), 'expected', sorted(want))
    ctx.label(method)
    ctx.nt(len(allp) > 1 and bool(
        len(want) < len(allp) or (ok and method == METHODS[0])))


@sub(st.fixed_dictionaries(dict(
    codes=anyids, perm=seeds, method=st.sampled_from(METHODS),
    rq=st.one_of(st.none(), reqs))), quick=1500,
    rule='more than one station')
def station_pairs(case, ctx):
    """Names of the station pairs whose existing data are looked up."""
    codes = [tuple(c) for c in case['codes']]
    stations = sorted(set(c[:2] for c in codes))
    stations = [stations[i] for i in rng(case['perm']).permutation(
        len(stations))]
    names, ok = None, None
    if case['rq'] is not None:
        # only station level matters here
        names, ok = requests(codes, case['rq'])
        _, ok = requests(codes, [(i, j, False, p) for i, j, _, p in
                                 case['rq']])
    method = case['method']
    fake = [(n, s, '', 'HHZ') for n, s in stations] + [
        (n, s, '', 'HHN') for n, s in stations]
    want = set()
    for a, b in model(fake, method, ok):
        nc, sc, _ = sort_comb_name_alphabetically(a[0], a[1], b[0], b[1])
        want.add(('-'.join(nc), '-'.join(sc)))
    got = compute_network_station_combinations(
        [s[0] for s in stations], [s[1] for s in stations], method, names)
    ck(len(got[0]) == len(got[1]), 'lists of different length')
    ck(set(zip(*got)) == want, method, 'got', sorted(zip(*got)), 'expected',
       sorted(want))
    if method != 'allCombinations':
        ck(len(got[0]) == len(want), 'pairs listed twice')
    ctx.nt(len(stations) > 1)
    ctx.label(method)


@sub(st.fixed_dictionaries(dict(
    a=st.tuples(nets, stas, locs, chas), b=st.tuples(nets, stas, locs, chas),
    others=st.lists(st.tuples(nets, stas, locs, chas), min_size=1,
                    max_size=3),
    rq=reqs)), quick=1500, rule='at least one request')
def requested(case, ctx):
    """The predicate on a pair of traces is symmetric and exact."""
    a, b = tuple(case['a']), tuple(case['b'])
    codes = [a, b] + [tuple(c) for c in case['others']]
    names, ok = requests(codes, case['rq'])
    ia, ib = '%s.%s.%s.%s' % a, '%s.%s.%s.%s' % b
    for x, y in ((ia, ib), (ib, ia)):
        ck(bool(is_in_xcombis(x, y, names)) == ok(a, b), 'pair', x, y,
           'requests', names, 'selected:', not ok(a, b))
    ctx.nt(len(names) > 0)
    ctx.label(str(ok(a, b)))


def build(codes, method, names):
    o = copy.deepcopy(BASE)
    o['net'] = dict(network='*', station='*', component='*')
    o['co']['combination_method'] = method
    if names is not None:
        o['co']['xcombinations'] = names
    sc = mock.Mock(Store_Client)
    sc._translate_wildcards.return_value = [
        [c[0], c[1], c[3]] for c in codes]
    with tempfile.TemporaryDirectory(prefix='verif_') as d:
        o['proj_dir'] = d
        c = correlate.Correlator(sc, o)
        drop_handlers()
    return c


@sub(st.fixed_dictionaries(dict(
    codes=anyids, rq=reqs, method=st.sampled_from(METHODS))), quick=250,
    rule='a requested pair is available')
def data_read(case, ctx):
    """All data needed for the requested combinations are read."""
    codes = [tuple(c) for c in case['codes']]
    names, ok = requests(codes, case['rq'])
    if not names:
        names, ok = None, None
    method = case['method']
    want = model(codes, method, ok)
    if not want:
        raise Skip()
    c = build(codes, method, names)
    for p in want:
        for n, s, _, cha in p:
            ck([n, s] in [list(x) for x in c.station], 'station', n, s,
               'dropped with requests', names)
            ck([n, s, cha] in [list(x) for x in c.avail_raw_data],
               'data of', n, s, cha, 'dropped with requests', names)
    ctx.nt(ok is not None)
    ctx.label(method)


@sub(st.fixed_dictionaries(dict(
    stations=st.lists(netsta, min_size=2, max_size=5,
                      unique=True),
    seed=seeds, dis=st.floats(0.02, 1.))), quick=200,
    rule='some but not all pairs are close')
def by_distance(case, ctx):
    """Requests by distance select exactly the close station pairs."""
    stations = [tuple(s) for s in case['stations']]
    r = rng(case['seed'])
    pos = {s: (round(40 + .5*r.rand(), 4), round(10 + .5*r.rand(), 4))
           for s in stations}
    dis = 60000*case['dis']
    codes = [(n, s, '', 'HHZ') for n, s in stations]
    c = build(codes, 'betweenStations', None)
    c.store_client.select_inventory_or_load_remote.side_effect = \
        lambda n, s: Inventory(networks=[Network(n, stations=[
            Station(s, *pos[(n, s)], 0)])])
    c.find_interstat_dist(dis)
    want, amb = [], 0
    for i, a in enumerate(codes):
        for b in codes[i+1:]:
            d = gps2dist_azimuth(*pos[a[:2]], *pos[b[:2]])[0]
            amb += abs(d - dis) < 10
            if d <= dis:
                want.append(sorted((a, b)))
    if amb:
        raise Skip()
    s = Stream([Trace(np.zeros(3, np.float32), raw_stats(*x, T0, 3))
                for x in codes])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = calc_cross_combis(
            s, {}, 'betweenStations', rcombis=c.rcombis)
    byid = {'%s.%s.%s.%s' % x: x for x in codes}
    gp = [sorted((byid[s[i].id], byid[s[j].id])) for i, j in got]
    ck(sorted(gp) == sorted(want), 'pairs closer than', dis, 'got', gp,
       'expected', want)
    ctx.nt(0 < len(want) < len(codes)*(len(codes) - 1)/2)
