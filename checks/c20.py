"""C20: averaging and smoothing of velocity changes is consistent."""
from copy import deepcopy

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.dvs import *  # noqa
from seismic.monitor import monitor as mo

si = st.integers


def same_dv(a, ref, what, ax=None):
    mat = ref[0]
    ck(a.sim_mat.shape == mat.shape, f'{what}: matrix {a.sim_mat.shape}, '
       f'expected {mat.shape}')
    ck_close(a.sim_mat, mat, f'{what}: averaged similarity', atol=1e-12)
    ck_close(a.corr, ref[1], f'{what}: coefficient', atol=1e-12)
    ck_close(a.value, ref[2], f'{what}: value', atol=1e-12)
    ck(np.array_equal(np.asarray(a.avail, bool), ref[1] == ref[1]),
       f'{what}: availability {a.avail} for coefficients {ref[1]}')


@sub(cases, quick=700, shards=2, rule='at least two usable inputs with '
     'different availability, or an incompatible input')
def average(c, ctx):
    dvs = build(c)
    # the first input that is no average decides about the axes
    base = [i for i, d in enumerate(c['dvs']) if d['kind'] != 'av']
    if not base:
        raise Skip()
    # an averaged first input decides about the axes just the same
    b = dvs[base[0]]
    use = [dv for dv, d in zip(dvs, c['dvs']) if d['kind'] != 'av'
           and dv.sim_mat.shape == b.sim_mat.shape
           and np.array_equal(dv.second_axis, b.second_axis)]
    if c['dvs'][0]['kind'] == 'av':
        ctx.label('averaged first')
    mats = [dv.sim_mat for dv in use]
    ref = naive_mean(mats)
    cor, val = naive_max(ref, b.second_axis)
    full = (ref, cor, val)
    before = [(dv.sim_mat.copy(), dv.corr.copy(), dv.value.copy(),
               dv.stats.station) for dv in dvs]
    ns = sum((~np.isnan(dv.corr)).astype(int) for dv in use)
    for nm, fn in (('average', lambda: mo.average_components(
            dvs, save_scatter=c['scatter'])),
            ('memory-saving average', lambda: mo.average_components_mem_save(
                (x for x in dvs), save_scatter=c['scatter']))):
        a = quiet(fn)
        same_dv(a, full, nm)
        ck(np.array_equal(a.n_stat, ns), f'{nm}: number of results per time '
           f'{a.n_stat}, expected {ns}')
        ck(np.array_equal(a.second_axis, b.second_axis), f'{nm}: axis')
        ck(a.method == c['method'] and a.value_type == 'stretch'
           and a.dv_processing == b.dv_processing, f'{nm}: parameters')
        if c['scatter']:
            ck_close(a.stretches, [d.value for d in use],
                     f'{nm}: scatter of values')
            ck_close(a.corrs, [d.corr for d in use],
                     f'{nm}: scatter of coefficients')
        else:
            ck(a.stretches is None and a.corrs is None, f'{nm}: scatter')
        s = a.stats
        for k in ('network', 'station', 'channel'):
            v = [d.stats[k] for d in use]
            e = v[0] if len(set(v)) == 1 else 'av'
            ck(s[k] == e, f'{nm}: {k} is {s[k]}, expected {e}')
        ck(s.corr_start == use[0].stats.corr_start, f'{nm}: times')
    for dv, q in zip(dvs, before):
        ck(same_value(dv.sim_mat, q[0]) and same_value(dv.corr, q[1])
           and same_value(dv.value, q[2]) and dv.stats.station == q[3],
           'averaging changed its input')
    # order of compatible inputs
    p = [use[i] for i in rng(c['perm']).permutation(len(use))]
    same_dv(quiet(lambda: mo.average_components(p)), full, 'reordered')
    same_dv(quiet(lambda: mo.average_components_mem_save(iter(p))), full,
            'reordered, memory-saving')
    av = [(d.corr == d.corr).tolist() for d in use]
    if len(use) > 1 and any(x != av[0] for x in av) or len(use) < len(dvs):
        ctx.nt()
    if len(use) < len(dvs):
        ctx.label('left out')
    if np.any(cor != cor):
        ctx.label('missing time')
    if len(use) < 6:
        other = deepcopy(use[0])
        other.method = 'absolute'
        expect_raises((TypeError,), lambda: quiet(
            lambda: mo.average_components(use + [other])),
            'methods mixed')
        expect_raises((TypeError,), lambda: quiet(
            lambda: mo.average_components_mem_save(iter(use + [other]))),
            'methods mixed')


box = st.fixed_dictionaries(dict(
    base=cases, lat=st.tuples(si(-1, 1), si(2, 5)),
    lon=st.tuples(si(-1, 1), si(2, 5)),
    el=st.one_of(st.none(), st.tuples(si(-1, 3), si(0, 5)))))


@sub(box, quick=500, rule='some but not all results inside')
def bycoords(c, ctx):
    for d in c['base']['dvs']:
        if d['kind'] not in ('ok', 'av'):
            d['kind'] = 'ok'
    dvs = build(c['base'])
    lat, lon = tuple(sorted(c['lat'])), tuple(sorted(c['lon']))
    el = None if c['el'] is None else tuple(100.*x for x in sorted(c['el']))

    def inside(d):
        co = d['co']
        ok = all(lat[0] <= x <= lat[1] for x in (co[0], co[2])) and all(
            lon[0] <= x <= lon[1] for x in (co[1], co[3]))
        if el is not None:
            ok &= all(el[0] <= 100.*x <= el[1] for x in (co[0], co[2]))
        return ok and d['kind'] == 'ok'
    use = [v for v, d in zip(dvs, c['base']['dvs']) if inside(d)]
    kw = {} if el is None else dict(el=el)

    def run():
        return quiet(lambda: mo.average_dvs_by_coords(
            dvs, lat, lon, return_std=c['base']['scatter'], **kw))
    if not use:
        expect_raises((ValueError,), run, 'nothing inside the area')
        return
    a = run()
    ref = naive_mean([d.sim_mat for d in use])
    same_dv(a, (ref, *naive_max(ref, use[0].second_axis)), 'by coordinates')
    ck(np.array_equal(a.n_stat, sum((d.corr == d.corr).astype(int)
                                    for d in use)), 'number of results')
    s = a.stats
    ck(tuple(s.stla) == lat and tuple(s.evla) == lat and tuple(s.stlo) == lon
       and tuple(s.evlo) == lon, f'area of the average: {s}')
    ck(el is None or tuple(s.stel) == el == tuple(s.evel), 'elevations')
    ck((a.stretches is not None) == c['base']['scatter'], 'scatter')
    if 0 < len(use) < len(dvs):
        ctx.nt()
    # an average by coordinates is never averaged again
    b = quiet(lambda: mo.average_dvs_by_coords(use + [a], lat, lon, **kw))
    same_dv(b, (ref, *naive_max(ref, use[0].second_axis)),
            'with an average among the inputs')


smooth = st.fixed_dictionaries(dict(
    base=cases, win=si(1, 14), thr=st.one_of(
        st.none(), st.floats(-.5, .9), si(0, 500)), twice=st.booleans()))


@sub(smooth, quick=500, rule='a window longer than one with a missing time')
def smoothing(c, ctx):
    c['base']['dvs'] = c['base']['dvs'][:1]
    c['base']['dvs'][0]['kind'] = 'ok'
    dv = build(c['base'])[0]
    m0 = dv.sim_mat.copy()
    if isinstance(c['thr'], int):
        # one of the values itself, which is not below
        v = m0[m0 == m0]
        c['thr'] = float(np.sort(v)[c['thr'] % len(v)]) if len(v) else None
    if c['thr'] is not None:
        m0[m0 < c['thr']] = np.nan
    n, h = len(m0), int(c['win']//2)
    ref = np.full(m0.shape, np.nan)
    for i in range(n):
        for j in range(m0.shape[1]):
            v = [m0[k, j] for k in range(max(0, i-h), min(n, i+h+1))
                 if m0[k, j] == m0[k, j]]
            if v:
                ref[i, j] = math.fsum(v)/len(v)
    axis = dv.second_axis.copy()
    out = quiet(lambda: dv.smooth_sim_mat(
        c['win'], exclude_corr_below=c['thr']))
    ck(out is dv, 'smoothing is in-place and returns the object')
    same_dv(dv, (ref, *naive_max(ref, axis)), 'smoothed')
    ck(same_value(dv.second_axis, axis), 'axis')
    ck(len(dv.stats.corr_start) == n, 'times')
    if h and np.any(np.isnan(m0).all(axis=1)):
        ctx.nt()
    if np.isnan(dv.corr).any():
        ctx.label('time stays missing')


shifts = st.fixed_dictionaries(dict(
    seed=seeds, n=si(4, 25), m=si(41, 101), k=si(-8, 8), lo0=si(0, 10),
    len0=si(2, 25), lo1=si(0, 10), len1=si(2, 25), gap=si(0, 25),
    method=st.sampled_from(['mean', 'median']), over=si(0, 4),
    step=st.sampled_from([.001, .01, 1.])))


def peaks(pos, height, m, r):
    """Similarity matrix with one clear maximum per time."""
    x = np.arange(m)
    mat = height[:, None]*np.exp(-.5*((x - pos[:, None])/3.)**2)
    return mat - .002*np.abs(x - pos[:, None])


def history(c):
    r = rng(c['seed'])
    n = c['n']
    if c['over']:
        pos = np.full(n, c['m']//2)
    else:
        pos = c['m']//2 + r.randint(-4, 5, n)
    if c['method'] == 'mean':
        h = r.uniform(.3, 1, n)
        h = (h, h)
    else:
        h = (r.uniform(.3, 1, n), r.uniform(.3, 1, n))
    return r, pos, h


def blank(mat, lo, ln, gap=None):
    mat = mat.copy()
    mat[:lo] = np.nan
    mat[lo+ln:] = np.nan
    if gap is not None:
        mat[gap:gap+1] = np.nan
    return mat


def avl(mat):
    return [i for i in range(len(mat)) if mat[i, 0] == mat[i, 0]]


@sub(shifts, quick=500, rule='a non-zero shift and different availability')
def shift(c, ctx):
    r, pos, h = history(c)
    n, m, k = c['n'], c['m'], c['k']
    axis = (np.arange(m) - m//2)*c['step']
    m1 = blank(peaks(pos, h[1], m, r), c['lo1'], c['len1'], c['gap'])
    m0 = blank(peaks(pos + k, h[0], m, r), c['lo0'], c['len0'], c['gap'])
    a0, a1 = avl(m0), avl(m1)
    if not a0 or not a1:
        raise Skip()
    dv0, dv1 = mkdv(m0, axis), mkdv(m1, axis)
    v0 = dv0.value.copy()
    o1 = (dv1.sim_mat.copy(), dv1.value.copy())

    def run():
        return quiet(lambda: mo.correct_dv_shift(
            dv0, dv1, method=c['method'], n_overlap=c['over']))
    both = sorted(set(a0) & set(a1))
    if not both:
        gap = max(a0[0] - a1[-1], a1[0] - a0[-1])
        if gap > c['over']:
            expect_raises((ValueError,), run, 'no common times')
            ck(same_value(dv0.value, v0), 'refused, but shifted')
            return
    x, y = run()
    ck(x is dv0 and y is dv1, 'the objects are changed in place')
    ck(same_value(dv1.sim_mat, o1[0]) and same_value(dv1.value, o1[1]),
       'the reference was shifted')
    ck_close(dv0.value, v0 - k*c['step'], 'values after a shift of '
             f'{k} steps', atol=1e-9)
    for i in both:
        ck(abs(dv0.value[i] - dv1.value[i]) < 1e-9, 'values at common times '
           f'differ after the shift: {dv0.value[i]}, {dv1.value[i]}')
    lo, hi = max(0, -k), m - max(0, k)
    ck_close(dv0.sim_mat[:, lo:hi], m0[:, lo+k:hi+k],
             'similarity after the shift', atol=1e-12)
    if k and a0 != a1:
        ctx.nt()
    if not both:
        ctx.label('no common time')
    elif len(both) == 1:
        ctx.label('one common time')


beyond = st.fixed_dictionaries(dict(
    seed=seeds, n=si(8, 30), m=si(81, 121), k=si(-6, 6), a=si(0, 12),
    la=si(3, 14), b=si(0, 12), lb=si(3, 14), over=si(0, 5),
    method=st.sampled_from(['mean', 'median'])))


@sub(beyond, quick=500, rule='times beyond the common ones matter')
def compared(c, ctx):
    """n_overlap times around the common times are compared as well."""
    r = rng(c['seed'])
    n, m = c['n'], c['m']
    axis = (np.arange(m) - m//2)*.01
    p = [m//2 + r.randint(-9, 10, n) + k for k in (c['k'], 0)]
    lo, ln = (c['a'], c['b']), (c['la'], c['lb'])
    av = [[i for i in range(x, min(n, x + y))] for x, y in zip(lo, ln)]
    if not av[0] or not av[1]:
        raise Skip()
    mats = [blank(peaks(q, r.uniform(.3, 1, n), m, r), x, y)
            for q, x, y in zip(p, lo, ln)]
    dv0, dv1 = (mkdv(x, axis) for x in mats)
    both = sorted(set(av[0]) & set(av[1]))
    if both:
        first, last = both[0], both[-1]
    else:
        first = min(av[0][-1], av[1][-1])
        last = max(av[0][0], av[1][0])
        if last - first > c['over']:
            raise Skip()

    def level(dv, q, e):
        i = [i for i in q if first - e <= i <= last + e]
        if c['method'] == 'median':
            return np.median(dv.value[i])
        return np.sum(dv.value[i]*dv.corr[i])/np.sum(dv.corr[i])
    k, k0 = ((level(dv0, av[0], e) - level(dv1, av[1], e))/.01
             for e in (c['over'], 0 if both else c['over']))
    if abs(k % 1 - .5) < 1e-3:
        raise Skip()
    want = dv0.value - round(k)*.01
    quiet(lambda: mo.correct_dv_shift(
        dv0, dv1, method=c['method'], n_overlap=c['over']))
    ck_close(dv0.value, want, f'values shifted by {k:.3f} steps', atol=1e-9)
    if round(k0) != round(k) or not both:
        ctx.nt()


several = st.fixed_dictionaries(dict(
    seed=seeds, m=si(61, 101), lens=st.lists(si(3, 8), min_size=2,
                                             max_size=4),
    ov=st.lists(si(1, 2), min_size=4, max_size=4),
    ks=st.lists(si(-5, 5), min_size=4, max_size=4), perm=seeds,
    method=st.sampled_from(['mean', 'median']), never=st.booleans()))


@sub(several, quick=400, rule='at least one non-zero shift')
def stitched(c, ctx):
    """Stations that replace each other are stitched to one history."""
    r = rng(c['seed'])
    spans, t = [], 0
    for ln, ov in zip(c['lens'], c['ov']):
        spans.append((t, ln + ov))
        t += ln
    n = spans[-1][0] + spans[-1][1]
    m = c['m']
    axis = (np.arange(m) - m//2)*.001
    pos = m//2 + r.randint(-4, 5, n)
    hgt = r.uniform(.3, 1, n)
    ks = [0] + c['ks'][:len(spans)-1]
    dvs = [mkdv(blank(peaks(pos + k, hgt, m, r), lo, ln), axis,
                codes=('A-A', f'S{i}-S{i}', 'Z-Z'))
           for i, (k, (lo, ln)) in enumerate(zip(ks, spans))]
    if c['never']:
        dvs.append(mkdv(np.full((n, m), np.nan), axis))
    order = [int(i) for i in rng(c['perm']).permutation(len(dvs))]
    a = quiet(lambda: mo.average_components(
        [dvs[i] for i in order], correct_shift=True,
        correct_shift_method=c['method']))
    ck_close(a.value, axis[pos], 'stitched history', atol=1e-9)
    for dv, (lo, ln) in zip(dvs, spans):
        ck_close(dv.value[lo:lo+ln], axis[pos[lo:lo+ln]],
                 'corrected values', atol=1e-9)
    if any(ks):
        ctx.nt()


def probe_roll():
    """KF-C20-1: edge values of a shifted matrix belong to other times."""
    m = 11
    mat = np.arange(3*m, dtype=float).reshape(3, m)/100
    mat[:, 5] = .9
    dv1 = mkdv(mat, np.arange(m)*1.)
    dv0 = deepcopy(dv1)
    dv0.value = dv0.value + 1
    mo.correct_dv_shift(dv0, dv1)
    return 'the edge of each shifted row holds the value of the next time' \
        if dv0.sim_mat[0, -1] == mat[1, 0] else None


PROBES = {'KF-C20-1': probe_roll}
