"""C27: figures show the data they were made from."""
from datetime import datetime
import locale
import math
import os

import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt  # noqa
from matplotlib.collections import QuadMesh, PathCollection  # noqa
from matplotlib.dates import date2num  # noqa

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.dvs import quiet, mkdv  # noqa
from seismic.correlate.stats import CorrStats  # noqa
from seismic.correlate.stream import CorrTrace, CorrStream, CorrBulk  # noqa
from seismic.monitor.wfc import WFC, WFCBulk  # noqa
from seismic.monitor.spatial import DVGrid  # noqa
from seismic.plot.plot_multidv import plot_multiple_dv  # noqa
from seismic.plot.plot_spectrum import plot_spct_series  # noqa

TU = UTCDateTime(T0)
# only for names of months; the locale is not installed everywhere
locale.setlocale = lambda *a: None

si = st.integers


def num(x):
    """matplotlib's number of some times."""
    return np.array([date2num(getattr(t, 'datetime', t)) for t in x])


def same(a, b, what, rtol=1e-6, atol=1e-9):
    a = np.ma.filled(np.ma.asarray(a, float), np.nan).ravel()
    b = np.ma.filled(np.ma.asarray(b, float), np.nan).ravel()
    ck(a.shape == b.shape, f'{what}: {a.shape} instead of {b.shape}')
    ck(np.array_equal(np.isnan(a), np.isnan(b)), f'{what}: missing values')
    ck_close(np.nan_to_num(a), np.nan_to_num(b), what, rtol, atol)


def given(own):
    """Axes to draw into and ones that are the current ones instead."""
    if not own:
        return {}, None
    mine = plt.figure(figsize=(4, 3)).add_subplot(2, 1, own % 2 + 1)
    other = plt.figure(figsize=(4, 3)).add_subplot(111) if own > 1 \
        else mine.figure.add_subplot(2, 1, 2 - own % 2)
    other.set_title('other')
    plt.sca(other)
    return dict(ax=mine), (other, other.get_xlim(), other.get_ylim())


def drawn_in(ax, kw, other):
    """The figure is in the axes given, others are as they were."""
    if other is None:
        return
    ck(ax is kw['ax'], 'drawn into other axes')
    o, x, y = other
    ck(not o.lines and not o.collections and not o.images,
       'drawn into the current axes')
    ck(o.get_title() == 'other' and not o.get_xlabel()
       and not o.get_ylabel(), 'labels in the current axes')
    ck(o.get_xlim() == x and o.get_ylim() == y, 'limits of other axes')


def points(ax):
    """All line data of axes, dates as numbers."""
    out = []
    for ln in ax.lines:
        x = ln.get_xdata(orig=False)
        y = ln.get_ydata(orig=False)
        out.append((np.asarray(x, float), np.ma.filled(
            np.ma.asarray(y, float), np.nan)))
    return out


def has_line(ax, x, y, what):
    best = None
    for p, q in points(ax):
        if len(p) == len(x):
            try:
                same(p, x, what, 0, 1e-7)
                same(q, y, what)
                return
            except Violation as e:
                best = e
    raise best or Violation(f'{what}: not drawn')


def frozen(o):
    """Arrays and header, to see whether drawing changes them."""
    out = {}
    for k, v in vars(o).items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif k == 'stats':
            out[k] = {a: (list(b) if isinstance(b, list) else b)
                      for a, b in v.items()}
    return out


def unchanged(o, before):
    now = frozen(o)
    ck(set(now) == set(before), 'attributes changed')
    for k, v in before.items():
        if k == 'stats':
            for a in v:
                ck(same_value(now[k][a], v[a]), f'header {a} changed')
        elif v.dtype.kind in 'fc':
            ck(np.array_equal(v, now[k], equal_nan=True), f'{k} changed')
        else:
            ck(np.array_equal(v, now[k]), f'{k} changed')


@sub(st.fixed_dictionaries(dict(
    seed=seeds, n=si(2, 30), m=si(3, 40), lo=st.floats(-.1, -.001),
    hi=st.one_of(st.none(), st.floats(.001, .1)), miss=st.lists(
        si(0, 29), max_size=6), kind=st.sampled_from(
            ['single_ref', 'multi_ref', 'time_shift', 'absolute_shift']),
    norm=st.booleans(), sim=st.sampled_from([True, True, False, None]),
    style=st.booleans(), xlim=st.one_of(st.none(), st.tuples(
        si(0, 29), si(1, 29))), ylim=st.booleans(), mark=st.booleans(),
    clim=st.booleans(), scatter=si(0, 2), title=st.booleans(),
    save=si(0, 4), own=st.sampled_from([0, 0, 1, 2, 3]))),
    quick=120, shards=4,
    rule='values and missing values are drawn')
def changes(c, ctx):
    """Velocity changes are drawn at their times with the sign of dv/v."""
    r = rng(c['seed'])
    n, m = c['n'], c['m']
    ax = np.linspace(c['lo'], c['hi'] or -c['lo'], m)
    mat = r.uniform(0.05, 1, (n, m))
    for i in c['miss']:
        if i < n - 2:
            mat[i] = np.nan
    stretch = c['kind'].endswith('ref')
    dv = mkdv(mat, ax, c['kind'], vt='stretch' if stretch else 'shift')
    full = dv.sim_mat.copy()
    if c['sim'] is False:
        dv.sim_mat = np.array([])
    elif c['sim'] is None:
        dv.sim_mat = None
    kw = {}
    if c['scatter'] and c['sim'] and n >= 10 and m >= 10:
        dv.stretches = np.array([dv.value, dv.value[::-1]])
        dv.corrs = np.array([dv.corr, dv.corr[::-1]])
        if c['scatter'] > 1:
            dv.n_stat = np.full(n, 2)
        kw['plot_scatter'] = True
    t = dv.stats.corr_start
    if c['xlim'] and c['xlim'][0] + c['xlim'][1] < n:
        a = c['xlim'][0]
        kw['xlim'] = (t[a].datetime, t[a + c['xlim'][1]].datetime)
    if c['ylim']:
        kw['ylim'] = (-.07, .06)
    if c['mark']:
        kw['mark_time'] = t[n//2].datetime
    if c['clim']:
        kw['sim_mat_Clim'] = [.2, .7]
    if c['title']:
        kw['title'] = 'My title'
    before = frozen(dv)
    try:
        if c['style']:
            f, aa = quiet(lambda: dv.plot(
                return_ax=True, style='technical', dpi=40,
                normalize_simmat=c['norm'], **kw))
            unchanged(dv, before)
            has_line(aa[1], num(t), -dv.value, 'values')
            has_line(aa[2], num(t), dv.corr, 'coefficients')
            has_line(aa[0], np.arange(n), -dv.value, 'values on matrix')
            if c['sim']:
                im, = aa[0].images
                A = np.ma.filled(np.ma.asarray(
                    im.get_array(), float), np.nan)
                x0, x1, y0, y1 = im.get_extent()
                ck(A.shape == (m, n), f'image {A.shape}')
                if c['norm']:
                    full = full/full.max(1)[:, None]
                # y of the centres of the rows of pixels, first row on top
                top = y1 + (np.arange(m) + .5)*(y0 - y1)/m
                want = -ax[::-1]
                step = (ax[-1] - ax[0])/(m - 1)
                for k in range(m):
                    j = np.argmin(np.abs(want - top[k]))
                    ck(abs(want[j] - top[k]) < .51*step + 1e-9,
                       f'row of pixels at {top[k]}')
                for k, v in enumerate(want):
                    j = int(np.argmin(np.abs(top - v)))
                    col = [full[:, m - 1 - k]]
                    # half a pixel of the axis is lost at both ends
                    for q in (k - 1, k + 1):
                        if 0 <= q < m:
                            col.append(full[:, m - 1 - q])
                    ok = any(np.allclose(A[j], x, equal_nan=True)
                             for x in col)
                    ck(ok, f'similarity of {v} not drawn there')
                same(np.sort(A, 0), np.sort(full.T, 0), 'matrix')
                if c['clim']:
                    ck(tuple(im.get_clim()) == (.2, .7), 'colour limits')
            else:
                ck(not len(aa[0].images), 'image of nothing')
            lo, hi = sorted(aa[1].get_ylim())
            if c['ylim']:
                ck_close((lo, hi), (-.07, .06), 'limits')
            else:
                v = -dv.value[~np.isnan(dv.value)]
                ck(lo - 1e-9 <= v.min() and v.max() <= hi + 1e-9,
                   f'values {v.min()}..{v.max()} outside of {lo}..{hi}')
            want = num(kw['xlim']) if 'xlim' in kw else num([t[0], t[-1]])
            for q in aa[1:3]:
                ck_close(q.get_xlim(), want, 'time limits', 0, 1e-6)
            if 'xlim' in kw:
                ck_close(aa[0].get_xlim(), (a, a + c['xlim'][1] + 1),
                         'columns of the matrix')
            if c['mark']:
                ck(any(len(p) == 2 and np.allclose(
                    p, num([t[n//2]])[0], 0, 1e-6)
                    for p, _ in points(aa[1])), 'mark')
            ck('My title' in aa[0].get_title() or not c['title'], 'title')
        else:
            kw.pop('mark_time', None)
            own, other = given(c['own'])
            f, a = quiet(lambda: dv.plot(
                return_ax=True, style='publication', **own, **kw))
            unchanged(dv, before)
            drawn_in(a, own, other)
            ck(f is a.figure, 'figure')
            ck(a.get_title() == ('My title' if c['title'] else ''), 'title')
            if c['ylim']:
                ck_close(a.get_ylim(), (-.07, .06), 'limits')
            s, = [x for x in a.collections if isinstance(x, PathCollection)]
            ok = ~np.isnan(dv.corr)
            off = np.ma.filled(np.ma.asarray(s.get_offsets()), np.nan)
            same(off[:, 0], num(t)[ok], 'times', 0, 1e-6)
            same(off[:, 1], -100*dv.value[ok], 'values')
            same(s.get_array(), dv.corr[ok], 'coefficients')
            want = num(kw['xlim']) if 'xlim' in kw else num(
                [np.array(t)[ok].min(), np.array(t)[ok].max()])
            if want[0] != want[1]:
                ck_close(a.get_xlim(), want, 'time limits', 0, 1e-6)
    finally:
        plt.close('all')
    if c['save'] == 0 and c['style'] and n < 12:
        with scratch() as d:
            d = os.path.join(d, 'new', 'folder')
            for k in range(1, 4):
                quiet(lambda: dv.plot(
                    save_dir=d, figure_file_name='plot_default', dpi=20,
                    figsize=(3, 3)))
                plt.close('all')
                ck(len(os.listdir(d)) == k, 'figures overwritten:',
                   os.listdir(d))
            quiet(lambda: dv.plot(save_dir=d, figure_file_name='x.svg',
                                  dpi=20, figsize=(3, 3)))
            plt.close('all')
            ck('x.svg' in os.listdir(d), os.listdir(d))
        ctx.label('saved')
    ctx.nt(np.isnan(dv.value).any())


@sub(st.fixed_dictionaries(dict(
    seed=seeds, dvs=st.lists(st.tuples(si(0, 5), st.lists(
        si(0, 9), max_size=4)), min_size=1, max_size=5,
        unique_by=lambda x: x[0]), n=si(2, 10), mean=st.booleans(),
    corrupt=st.sampled_from([False, False, True]), median=st.booleans(),
    ab=st.booleans(), filt=st.lists(st.sampled_from(
        ['A-A.S-S.*', '*.Z-Z', 'A-B*', 'A-A.*']), max_size=2, unique=True),
    legend=st.booleans(), shift=st.sampled_from([0, 0, 1]),
    xlim=st.booleans(), ylim=st.booleans())), quick=60, shards=2,
    rule='several results drawn')
def several(c, ctx):
    """Every result of the folder is drawn once."""
    NETS = ['A-A', 'A-B', 'A-A', 'B-B', 'A-A', 'C-C']
    STAS = ['S-S', 'S-T', 'T-T', 'U-U', 'S-S', 'W-X']
    # channels of averages as the monitor names them
    CHAS = ['Z-Z', 'av-xc', 'Z-Z', 'E-Z', 'av', 'av-auto']
    import fnmatch
    r = rng(c['seed'])
    want = []
    codes = []
    with scratch() as d:
        for k, miss in c['dvs']:
            # results may cover different times
            n = c['n'] + k % 3*c['shift']
            t0 = k // 2*c['shift']
            mat = r.uniform(-1, 1, (n, 7))
            for i in miss:
                if i < n:
                    mat[i] = np.nan
            dv = mkdv(mat, np.linspace(-.05, .05, 7), t0=T0 + 86400*t0,
                      codes=(NETS[k], STAS[k], CHAS[k][:2] if CHAS[k][0] == 'a'
                             else CHAS[k]))
            name = f'DV-{NETS[k]}.{STAS[k]}.{CHAS[k]}.npz'
            quiet(lambda: dv.save(os.path.join(d, name)))
            if c['mean'] and not CHAS[k].startswith('av'):
                continue
            if not c['filt'] or any(fnmatch.fnmatch(
                    name, '*%s*' % q) for q in c['filt']):
                want.append(([t0 + i for i in range(n)], -dv.value))
                codes.append(STAS[k])
        if c['corrupt'] and want:
            f = os.path.join(d, 'DV-A-A.T-T.av-auto.npz')
            open(f, 'wb').write(b'PK nothing')
        if not want:
            raise Skip()
        if c['ab']:
            want = [(t, np.abs(v)) for t, v in want]
        lims = {}
        if c['xlim']:
            lims['xlim'] = (datetime(1999, 12, 30), datetime(2000, 2, 1))
        if c['ylim']:
            lims['ylim'] = (-.07, .06)
        try:
            quiet(lambda: plot_multiple_dv(
                d, only_mean=c['mean'], outfile=os.path.join(d, 'out'),
                fmt='png', dpi=20, plot_median=c['median'],
                statfilter=c['filt'] or None, plt_abs=c['ab'],
                legend=c['legend'], **lims))
            ax = plt.gca()

            def when(t):
                return num([UTCDateTime(T0) + 86400*i for i in t])
            got = points(ax)
            if c['xlim']:
                same(ax.get_xlim(), num(lims['xlim']), 'time limits', 0, 1e-6)
            if c['ylim']:
                ck_close(ax.get_ylim(), lims['ylim'], 'limits')
            leg = ax.get_legend()
            ck((leg is not None) == c['legend'], 'legend')
            if leg is not None:
                texts = [x.get_text() for x in leg.get_texts()]
                ck(sorted(texts) == sorted(
                    codes + ['median']*c['median']), 'legend', texts, codes)
            if c['median']:
                at = {}
                for t, v in want:
                    for i, x in zip(t, v):
                        at.setdefault(i, []).append(x)
                x, v = got.pop()
                same(x, when(sorted(at)), 'times of the median', 0, 1e-6)
                mid = np.array([np.nan if not len(z) else np.median(z)
                                for z in ([w for w in at[i] if
                                           not math.isnan(w)]
                                          for i in sorted(at))])
                same(v, mid, 'median')
            ck(len(got) == len(want), f'{len(got)} results drawn instead of '
               f'{len(want)}')
            left = list(got)
            for t, w in want:
                k = [i for i, (x, g) in enumerate(left) if len(g) == len(w)
                     and np.allclose(g, w, equal_nan=True)
                     and np.allclose(x, when(t), rtol=0, atol=1e-6)]
                ck(k, 'result not drawn')
                left.pop(k[0])
            ck(os.path.isfile(os.path.join(d, 'out.png')), 'not saved')
        finally:
            plt.close('all')
    ctx.nt(len(want) > 1)


@sub(st.fixed_dictionaries(dict(
    seed=seeds, n=si(2, 8), m=si(3, 40), start=st.floats(-10, 5),
    by=st.sampled_from(['corr_start', 'distance']), perm=seeds,
    kind=st.sampled_from(['heatmap', 'section']), lim=st.booleans(),
    scale=st.sampled_from([None, 2.]), ref=st.booleans(),
    step=si(1, 5), own=st.sampled_from([0, 0, 1, 2, 3]),
    title=st.booleans())), quick=80, shards=2, rule='several correlations')
def correlations(c, ctx):
    """Correlations are drawn at their lags and times or distances."""
    r = rng(c['seed'])
    sr = 4.
    ll = []
    for i in range(c['n']):
        h = CorrStats(dict(
            network='A-B', station='S-T', location='-', channel='Z-Z',
            sampling_rate=sr, start_lag=c['start'],
            corr_start=TU + 3600*i*c['step'],
            corr_end=TU + 3600*(i + 1)*c['step'],
            stla=0., stlo=0., stel=0., evla=float(r.uniform(-9, 9)),
            evlo=float(r.uniform(-9, 9)), evel=0.))
        tr = CorrTrace(r.uniform(-1, 1, c['m']), _header=h)
        # as the correlator writes it
        from obspy.geodetics import gps2dist_azimuth
        dist, az, baz = gps2dist_azimuth(0, 0, h.evla, h.evlo)
        tr.stats.dist = dist/1000
        tr.stats.az, tr.stats.baz = az, baz
        ll.append(tr)
    order = list(range(c['n']))
    rng(c['perm']).shuffle(order)
    cst = CorrStream([ll[i] for i in order])
    data = [tr.data.copy() for tr in ll]
    lag = c['start'] + np.arange(c['m'])/sr
    kw = dict(timelimits=(-2., 3.)) if c['lim'] else {}
    if c['by'] == 'distance' and c['ref']:
        kw['plot_reference_v'] = True
    try:
        own, other = given(c['own'])
        if c['title']:
            kw['title'] = 'My title'
        ax = quiet(lambda: cst.plot(
            sort_by=c['by'], type=c['kind'], scalingfactor=c['scale'],
            **own, **kw))
        drawn_in(ax, own, other)
        ck(ax.get_title() == ('My title' if c['title'] else ''), 'title')
        for tr, x in zip(ll, data):
            ck(np.array_equal(tr.data, x), 'data changed')
        ck(sorted(map(id, cst)) == sorted(map(id, ll)), 'stream changed')
        if c['lim']:
            ck_close(ax.get_xlim(), (-2, 3), 'lag limits')
        elif c['by'] == 'corr_start':
            ck_close(ax.get_xlim(), (lag[0], lag[-1]), 'lag limits')
        if c['by'] == 'distance':
            pos = np.array([tr.stats.dist for tr in ll])
            flip = [tr.stats.az >= 180 for tr in ll]
        else:
            pos = num([tr.stats.corr_start for tr in ll])
            flip = [False]*c['n']
        if c['kind'] == 'heatmap':
            q, = [x for x in ax.collections if isinstance(x, QuadMesh)]
            A = np.asarray(q.get_array()).reshape(c['n'], c['m'])
            idx = np.argsort(pos, kind='stable')
            same(A, [data[i][::-1] if flip[i] else data[i] for i in idx],
                 'values')
            xy = q.get_coordinates()
            # edges are half way between the samples
            same(xy[0, 1:-1, 0], (lag[1:] + lag[:-1])/2, 'lags', 1e-6, 1e-6)
            p = pos[idx]
            same(xy[1:-1, 0, 1], (p[1:] + p[:-1])/2, 'positions', 1e-6,
                 1e-6)
        else:
            for i in range(c['n']):
                s = c['scale'] or 1
                if c['by'] == 'distance':
                    y = data[i]*s*4 + pos[i]
                else:
                    y = num([ll[i].stats.corr_start + float(v)*s*1e5
                             for v in data[i]])
                has_line(ax, -lag if flip[i] else lag, y, f'trace {i}')
        if c['by'] == 'corr_start':
            y0, y1 = ax.get_ylim()
            ck(y0 > y1, 'time has to increase downwards')
    finally:
        plt.close('all')
    # single trace
    try:
        own, other = given(c['own'])
        if c['title']:
            ax = quiet(lambda: CorrStream([ll[0]]).plot(
                sort_by=c['by'], timelimits=(-1., 2.) if c['lim'] else None,
                **own))
        else:
            ax = quiet(lambda: ll[0].plot(
                tlim=(-1., 2.) if c['lim'] else None, **own))
        drawn_in(ax, own, other)
        has_line(ax, lag, data[0], 'single trace')
        ck_close(ax.get_xlim(), (-1, 2) if c['lim'] else (lag[0], lag[-1]),
                 'lag limits')
    finally:
        plt.close('all')
    # matrix
    h = CorrStats(dict(
        network='A-B', station='S-T', location='-', channel='Z-Z',
        sampling_rate=sr, start_lag=c['start'], npts=c['m'],
        corr_start=[tr.stats.corr_start for tr in ll],
        corr_end=[tr.stats.corr_end for tr in ll]))
    cb = CorrBulk(np.array(data), h)
    before = frozen(cb)
    try:
        own, other = given(c['own'])
        ax = quiet(lambda: cb.plot(
            clim=(-.5, .5), plot_colorbar=c['ref'], title='My title', **own,
            **(dict(timelimits=(-2., 3.)) if c['lim'] else {})))
        unchanged(cb, before)
        drawn_in(ax, own, other)
        im, = ax.images
        same(im.get_array(), data, 'matrix')
        x0, x1, y0, y1 = im.get_extent()
        t = num(h.corr_start)
        ck_close((x0, x1), (lag[0], lag[-1]), 'lags of the matrix')
        # first row on top
        ck_close((y0, y1), (t[-1], t[0]), 'times of the matrix', 0, 1e-6)
        ck(tuple(im.get_clim()) == (-.5, .5), 'colour limits')
        ck(ax.get_title() == 'My title', 'title')
    finally:
        plt.close('all')
    if c['n'] > 2:
        h2 = CorrStats(dict(h))
        h2['corr_start'] = list(h['corr_start'])
        h2['corr_start'][-1] += 60
        expect_raises((NotImplementedError,), lambda: CorrBulk(
            np.array(data), h2).plot(), 'irregular times')
        plt.close('all')
    ctx.nt()
    ctx.label(c['kind'] + ' ' + c['by'])


@sub(st.fixed_dictionaries(dict(
    seed=seeds, nf=si(5, 40), nt=si(3, 15), norm=st.sampled_from(
        [None, 't', 'f']), meth=st.sampled_from(
            ['linalg', 'mean', 'median']), flim=st.booleans(),
    tlim=st.booleans(), cmap=st.sampled_from(['batlow', 'viridis']),
    log=st.booleans(), v=st.sampled_from([None, None, 1e-3]),
    nan=st.booleans(), freqs=st.lists(si(1, 9), min_size=1, max_size=4,
                                      unique=True),
    wins=st.lists(si(1, 9), min_size=1, max_size=4, unique=True),
    perm=seeds)), quick=80, shards=2, rule='normalised spectrogram')
def spectra(c, ctx):
    """Spectrograms and coherences."""
    r = rng(c['seed'])
    f = np.logspace(-1, 1, c['nf'])
    t = np.array([TU + 600*i for i in range(c['nt'])])
    S = r.uniform(.1, 5, (c['nf'], c['nt']))
    if c['nan']:
        S[:, c['nt']//2] = np.nan
    S0, f0 = S.copy(), f.copy()
    kw = {}
    fi = ti = slice(None)
    if c['flim']:
        i, j = c['nf']//4, 3*c['nf']//4
        kw['flim'] = (f[i], f[j])
        fi = slice(i, j + 1)
    if c['tlim']:
        i, j = (0, len(t) - 1) if c['seed'] % 2 else (
            len(t)//4, len(t)//4 + len(t)//2)
        kw['tlim'] = (t[i].datetime, t[j].datetime)
        ti = slice(i, j + 1)
    if c['v']:
        kw['vmin'] = c['v']
    try:
        ax = quiet(lambda: plot_spct_series(
            S, f, t, norm=c['norm'], norm_method=c['meth'], cmap=c['cmap'],
            log_scale=c['log'], **kw))
        ck(np.array_equal(S, S0, equal_nan=True) and np.array_equal(f, f0),
           'input changed')
        q, = [x for x in ax.collections if isinstance(x, QuadMesh)]
        W = S0[fi, ti]
        if c['norm']:
            a = 1 if c['norm'] == 'f' else 0
            # of what is available
            W = quiet(lambda: W/dict(
                linalg=lambda x: np.sqrt(np.nansum(x**2, a, keepdims=True)),
                mean=lambda x: np.nanmean(x, a, keepdims=True),
                median=lambda x: np.nanmedian(x, a, keepdims=True)
                )[c['meth']](W))
        W = W/np.nanmax(W)
        A = np.ma.filled(np.ma.asarray(q.get_array(), float), np.nan)
        ck(A.size == W.size, f'{A.size} values drawn instead of {W.size}')
        same(A.reshape(W.shape), W, 'energy')
        xy = q.get_coordinates()
        same(xy[:, 0, 1], f[fi], 'frequencies')
        same(xy[0, :, 0], num(t)[ti], 'times', 0, 1e-6)
        ck(ax.get_yscale() == ('log' if c['log'] else 'linear'),
           'scale of frequencies')
        if c['v']:
            ck_close(q.get_clim()[0], c['v'], 'colour limit')
    finally:
        plt.close('all')
    # waveform coherence
    ll = []
    for i in c['freqs']:
        for w in c['wins']:
            if r.rand() < .8 or not ll:
                ll.append((i, w, float(r.uniform(-1, 1))))
    order = list(range(len(ll)))
    rng(c['perm']).shuffle(order)
    objs = []
    for k in order:
        i, w, v = ll[k]
        objs.append(WFC(
            {'corr_r0': np.array([v, v])}, CorrStats(dict(
                corr_start=[TU, TU+1], corr_end=[TU+1, TU+2])),
            dict(freq_min=i*1., freq_max=i*2., tw_start=w*1., tw_len=5.)))
    b = quiet(lambda: WFCBulk(objs))
    ff, ww = sorted({x[0] for x in ll}), sorted({x[1] for x in ll})
    want = np.full((len(ff), len(ww)), np.nan)
    for i, w, v in ll:
        want[ff.index(i), ww.index(w)] = v
    try:
        title = 'My title' if c['flim'] else None
        ax = quiet(lambda: b.plot(title=title, log=c['log'],
                                  cmap=c['cmap']))
        ck(ax.get_title() == (title or ''), 'title')
        ck(ax.get_yscale() == ('log' if c['log'] else 'linear'),
           'scale of frequencies')
        q, = [x for x in ax.collections if isinstance(x, QuadMesh)]
        same(q.get_array(), want, 'coherence')
        xy = q.get_coordinates()
        lw, cf = np.array(ww) + 2.5, np.array(ff)*1.5
        if len(ww) > 1:
            same(xy[0, 1:-1, 0], (lw[1:] + lw[:-1])/2, 'lapse times')
        if len(ff) > 1:
            same(xy[1:-1, 0, 1], (cf[1:] + cf[:-1])/2, 'frequencies')
    finally:
        plt.close('all')
    ctx.nt(c['norm'] is not None)


@sub(st.fixed_dictionaries(dict(
    seed=seeds, nx=si(1, 7), ny=si(1, 7), res=st.sampled_from([.5, 1., 2.]),
    lat=st.floats(-60, 60), lon=st.floats(-150, 150), ns=si(1, 5),
    own=st.sampled_from([None, 'current', 'other']), stations=st.booleans(),
    sign=si(-1, 1), repeat=st.booleans())), quick=120, shards=2,
    rule='map with several rows and columns')
def velocity_map(c, ctx):
    """Maps of the inversion show every cell and station in its place."""
    r = rng(c['seed'])
    res = c['res']
    g = DVGrid(c['lat'], c['lon'], res, c['nx']*res, c['ny']*res, .05, 1., 5.)
    xy, dvs = set(), []
    R = 6371.
    for i in range(c['ns']):
        p = []
        for _ in range(2):
            x, y = r.uniform(.1, .9, 2)*[c['nx']*res, c['ny']*res]
            xy.add((x, y))
            p += [c['lat'] + np.degrees(y/R),
                  c['lon'] + np.degrees(2*np.arcsin(np.sin(x/R/2)/np.cos(
                      np.radians(c['lat'])))), 0.]
        if c['repeat'] and i:
            p = old
            xy.discard((x, y))
        old = p
        dvs.append(mkdv(r.uniform(.1, .9, (2, 5)), np.linspace(-.1, .1, 5),
                        coords=p))
    if c['repeat']:
        xy = set(list(xy)[:0])
        # only those of the first
        want = {tuple(old[:2]), tuple(old[3:5])}
        xy = {(2*R*np.arcsin(np.cos(np.radians(c['lat']))*np.sin(np.radians(
            b - c['lon'])/2)), np.radians(a - c['lat'])*R) for a, b in want}
    quiet(lambda: g.compute_dv_tsvd(dvs, TU + 100, tw=(1., 2.), freq0=.1,
                                    freq1=1.))
    v = r.randn(*g.xgrid.shape)
    if c['sign']:
        v = c['sign']*np.abs(v)
    g.vel_change = v.copy()
    try:
        kw = {}
        if c['own']:
            _, (a0, a1) = plt.subplots(1, 2)
            plt.sca(a0 if c['own'] == 'current' else a1)
            kw['ax'] = a0
        ax = quiet(lambda: g.plot(plot_stations=c['stations'], **kw))
        ck(np.array_equal(g.vel_change, v), 'input changed')
        if c['own']:
            ck(ax is a0, 'axes')
            ck(not a1.images and not a1.collections, 'other axes')
            ck(a1.get_xlabel() == '' and a1.get_ylabel() == '',
               'labels in the other axes')
        ck('asting' in ax.get_xlabel() and 'orthing' in ax.get_ylabel(),
           'labels', ax.get_xlabel(), ax.get_ylabel())
        im, = ax.images
        A = np.asarray(im.get_array(), float)
        if im.origin == 'upper':
            A = A[::-1]
        x0, x1, y0, y1 = im.get_extent()
        ck(x0 < x1 and y0 < y1, 'extent')
        for a, b, w in ((x0, x1, g.xaxis), (y0, y1, g.yaxis)):
            ck(abs(a - w[0]) < .51*res and abs(b - w[-1]) < .51*res,
               'extent', a, b, w)
        same(A, -100*v, 'velocity change')
        lim = im.get_clim()
        ck(lim[0] <= min(0, -100*v.max()) + 1e-9 and lim[1] >= max(
            0, -100*v.min()) - 1e-9, 'colours are cut off', lim)
        if v.min() < 0 < v.max():
            ck_close(float(im.norm(0)), .5, 'no change is not white')
        pts = [q for q in ax.collections if isinstance(q, PathCollection)]
        ck(bool(pts) == c['stations'], 'stations')
        if pts:
            got = np.concatenate([q.get_offsets() for q in pts])
            for p in xy:
                ck(np.min(np.hypot(*(got - p).T)) < .01*res,
                   'station is missing', p, got)
            for p in got:
                ck(min(np.hypot(*(p - np.array(q))) for q in xy) < .01*res,
                   'station that is not there', p, xy)
    finally:
        plt.close('all')
    ctx.nt(min(v.shape) > 1)
