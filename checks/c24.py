"""C24: spatial inversion follows linear least-squares theory."""
import math
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from vlib.dvs import mkdv
from seismic.monitor import spatial as sp
from seismic.monitor.dv import read_dv

si = st.integers
fl = st.floats
R = 6371.


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return fn()


def prob(r, t, v, ml, atol):
    """Intensity at distance r and time t (Paasschens, 1997), 2D."""
    d = v*t
    out = 0.
    if abs(r - d) <= atol + 1e-5*abs(d):
        out += math.exp(-d/ml)/(2*math.pi*r) if r > 0 else 1.
    if d - r - atol > 0:
        out += math.exp((math.sqrt(d*d - r*r) - d)/ml)/(
            2*math.pi*ml*d*math.sqrt(1 - r*r/d/d))
    return out


def hav(lat0, lon0, lat1, lon1):
    p0, p1 = math.radians(lat0), math.radians(lat1)
    a = math.sin((p1 - p0)/2)**2 + math.cos(p0)*math.cos(p1)*math.sin(
        math.radians(lon1 - lon0)/2)**2
    return 2*R*math.asin(math.sqrt(a))


def cart(lat, lon, lat0, lon0):
    """Easting and northing in km."""
    return hav(lat0, lon0, lat0, lon), hav(lat0, lon0, lat, lon0)


phys = dict(v=fl(.3, 6), ml=fl(.5, 60), seed=seeds)


# --------------------------------------------------------------- intensity
@sub(st.fixed_dictionaries(dict(
    phys, t=fl(.05, 60), atol=fl(1e-3, .2), shape=st.sampled_from(
        ['scalar', '1d', '2d', 'times']), n=si(1, 6))), quick=400,
    rule='positions on both sides of the front')
def intensity(c, ctx):
    """Ballistic and scattered intensity, conserving energy."""
    r = rng(c['seed'])
    v, ml, t, atol = c['v'], c['ml'], c['t'], c['atol']
    d = v*t
    # inside, at and outside of the front
    pos = np.concatenate((r.uniform(0, d, 6), d + atol*r.uniform(
        -.9, .9, 3), d + atol*1.1 + r.uniform(1e-3, 10, 3)*(1+d), [0.]))
    edge = np.abs(np.abs(pos - d) - atol)
    pos = pos[(pos >= 0) & (edge > 1e-6 + 3e-5*d)]

    def f(x, tt=t):
        return quiet(lambda: sp.probability(x, tt, v, ml, atol))
    want = [prob(x, t, v, ml, atol) for x in pos]
    if c['shape'] == 'scalar':
        got = [f(float(x)) for x in pos]
    elif c['shape'] == '1d':
        got = f(pos)
    elif c['shape'] == '2d':
        got = np.array([f(pos[None, :]), f(np.tile(pos, (c['n'], 1)))[-1:]])
        ck(got.shape == (2, 1, len(pos)), 'shape')
        ck_close(got[0], got[1], 'rows')
        got = got[0, 0]
    else:
        ts = t*np.sort(r.uniform(0, 2, c['n']))
        g = np.tile(pos, (2, 1))
        got = f(g, ts)
        ck(got.shape == (c['n'], 2, len(pos)), f'shape {got.shape}')
        for k, tt in enumerate(ts):
            ck_close(got[k], f(g, float(tt)), 'several times at once',
                     rtol=1e-12)
        got = f(pos)
    ck_close(got, want, f'intensity at {pos}, front at {d}, v {v} path {ml}',
             rtol=1e-9, atol=1e-300)
    ck(np.all(np.asarray(got) >= 0), 'negative')
    # what was scattered has left the direct wave
    u = (np.arange(4000) + .5)/4000*d
    small = 1e-7*d
    p = quiet(lambda: sp.probability(
        np.sqrt(d*d - u*u), t, v, ml, small))
    tot = np.sum(p*2*np.pi*u)*d/4000
    ck(abs(tot - (1 - math.exp(-d/ml))) < 2e-3, f'scattered energy {tot}, '
       f'expected {1 - math.exp(-d/ml)} (front {d}, path {ml})')
    expect_raises((ValueError,), lambda: f(-1.), 'negative distance')
    expect_raises((ValueError,), lambda: f(1., -2*atol/v), 'negative time')
    if np.any(pos < d - atol) and np.any(pos > d + atol):
        ctx.nt()
    ctx.label(c['shape'])


# ----------------------------------------------------------------- kernels
grids = dict(nx=si(2, 9), ny=si(2, 9), res=st.one_of(
    st.sampled_from([.1, .2, .3, .7, 1., 1.5]), fl(.1, 2)))


@sub(st.fixed_dictionaries(dict(
    phys, **grids, nt=fl(5, 150), nmul=st.sampled_from([0, 1, 1]),
    dtf=fl(.2, .99), same=st.booleans(), far=si(0, 9),
    move=fl(-50, 50))), quick=300, shards=2, rule='kernel not zero')
def kernel(c, ctx):
    """Kernels follow the formula and do not know station order."""
    r = rng(c['seed'])
    v, ml, res = c['v'], c['ml'], c['res']
    dt = c['dtf']*res/(2*v)
    t = dt*(round(c['nt']) if c['nmul'] else c['nt'])
    x = np.arange(0, c['nx'])*res
    y = np.arange(0, c['ny'])*res
    s1 = r.uniform(0, 1, 2)*[x[-1], y[-1]]
    s2 = s1.copy() if c['same'] else r.uniform(0, 1, 2)*[x[-1], y[-1]]
    if c['far'] == 0:
        s2 = s1 + v*t*1.5
    args = (t, dt, v, ml)
    K = quiet(lambda: sp.sensitivity_kernel(s1, s2, x, y, *args))
    ck(K.shape == (c['ny'], c['nx']), f'shape {K.shape}')
    ck(np.all(K >= 0) and np.all(np.isfinite(K)), 'negative or infinite')
    atol = v*dt/2
    T = [i*dt for i in range(int(math.floor(t/dt + .5 - 1e-9)) + 1)]
    den = prob(math.hypot(*(s1 - s2)), t, v, ml, atol)
    risky = False
    for _ in range(8):
        i, j = r.randint(c['ny']), r.randint(c['nx'])
        r1 = math.hypot(x[j] - s1[0], y[i] - s1[1])
        r2 = math.hypot(x[j] - s2[0], y[i] - s2[1])
        # the front must not be within rounding errors of a limit
        for rr in (r1, r2):
            for tt in T:
                for ta in (tt, t - tt):
                    e = abs(abs(rr - v*ta) - atol)
                    if e < 1e-5*v*ta*1.5 + 1e-9:
                        risky = True
        if risky:
            break
        w = [prob(r1, tt, v, ml, atol)*prob(r2, t-tt, v, ml, atol)
             for tt in T]
        val = dt*(math.fsum(w) - (w[0] + w[-1])/2)
        val = val/den if den else 0.
        ck(abs(K[i, j] - val) <= 1e-7*max(val, 1e-12), f'kernel {K[i, j]}, '
           f'expected {val}')
    if risky:
        raise Skip()
    if den == 0:
        ck(not K.any(), 'kernel for unreachable stations')
    tol = dict(rtol=1e-6, atol=1e-9*(1 + K.max()))
    if c['nmul']:
        K2 = quiet(lambda: sp.sensitivity_kernel(s2, s1, x, y, *args))
        if np.sum(~np.isclose(K, K2, **tol)) > 1 or np.max(
                np.abs(K - K2)) > .2*(1 + K.max()):
            # a single cell may lie exactly on a front
            ck_close(K2, K, 'stations exchanged', **tol)
    Kt = quiet(lambda: sp.sensitivity_kernel(
        s1[::-1], s2[::-1], y, x, *args))
    ck_close(Kt.T, K, 'axes exchanged', **tol)
    if K.any():
        ctx.nt()
    expect_raises((ValueError,), lambda: quiet(
        lambda: sp.sensitivity_kernel(s1, s2, x, y, t, -dt, v, ml)),
        'negative sampling interval')
    if len(x) > 2:
        expect_raises((ValueError,), lambda: quiet(
            lambda: sp.sensitivity_kernel(s1, s2, x**1.5, y, t, dt, v, ml)),
            'uneven axis')


# --------------------------------------------------------------- variances
@sub(st.fixed_dictionaries(dict(
    seed=seeds, bw=fl(.01, 5), t0=fl(0, 50), tl=fl(.1, 50), fc=fl(.05, 10),
    sf=fl(.1, 10), cl=fl(.1, 20), sd=fl(1e-4, .1), n=si(1, 12))), quick=300,
    rule='any')
def variances(c, ctx):
    """Data and model covariance."""
    r = rng(c['seed'])
    x = np.sort(r.uniform(.01, .999, c['n']))
    tw = (c['t0'], c['t0'] + c['tl'])

    def f(x, bw=c['bw'], tw=tw, fc=c['fc']):
        return sp.data_variance(x, bw, tw, fc)
    got = f(x)
    w = 2*math.pi*c['fc']
    want = [math.sqrt(1 - q*q)/2/q*math.sqrt(
        6*math.sqrt(math.pi/2)/c['bw']/(w*w*(tw[1]**3 - tw[0]**3)))
        for q in x]
    ck_close(got, want, 'deviation of the data', rtol=1e-9)
    ck_close(f(float(x[0])), want[0], 'scalar', rtol=1e-9)
    ck(np.all(np.diff(got) <= 0), 'more coherent, less reliable')
    for bad in (dict(bw=0), dict(bw=-1.), dict(tw=(tw[1], tw[0])),
                dict(tw=(-1., 4.)), dict(tw=(3., 3.)), dict(fc=0),
                dict(fc=-1.)):
        expect_raises((ValueError,), lambda: f(x, **bad), str(bad))
    p = r.uniform(0, 20, (c['n'], 2))
    d = np.sqrt(((p[:, None] - p[None])**2).sum(-1))
    cm = sp.compute_cm(c['sf'], c['cl'], c['sd'], d)
    for i in range(c['n']):
        for j in range(c['n']):
            v = (c['sd']*c['sf']/c['cl'])**2*math.exp(-d[i, j]/c['cl'])
            ck(abs(cm[i, j] - v) <= 1e-9*v + 1e-300, 'model covariance '
               f'{cm[i, j]}, expected {v}')
    ck(np.array_equal(cm, cm.T), 'not symmetric')
    ck(np.min(np.linalg.eigvalsh(cm)) >= -1e-9*cm.max(), 'not positive')
    ctx.nt()


# -------------------------------------------------------------------- grid
world = dict(
    **grids, seed=seeds, lat0=fl(-80, 75), lon0=fl(-179, 170), v=fl(1., 4),
    ml=fl(2, 60), nd=si(1, 7), tw=fl(0, 4), tl=fl(1, 6), dtf=fl(.6, .95),
    auto=si(0, 2), fx=si(0, 8))


class World:
    """Grid, stations and velocity changes."""
    def __init__(self, c, ndv=None):
        self.c = c
        r = self.r = rng(c['seed'])
        res = c['res']
        self.dt = c['dtf']*res/(2*c['v'])
        self.ex, self.ey = (c['nx'] - 1)*res, (c['ny'] - 1)*res
        if c['fx']:
            # no multiple of the resolution
            self.ex -= .3*res
            self.ey -= .3*res
        self.lat0, self.lon0 = c['lat0'], c['lon0']
        ns = max(2, c['nd'])
        self.lat = self.lat0 + np.degrees(r.uniform(.02, .98, ns)*self.ey/R)
        # easting is measured along the southern border
        q = np.sin(r.uniform(.02, .98, ns)*self.ex/R/2)/np.cos(
            np.radians(self.lat0))
        self.lon = self.lon0 + np.degrees(2*np.arcsin(q))
        self.pairs = []
        for i in range(c['nd']):
            a = r.randint(ns)
            b = a if c['auto'] == 0 or r.rand() < .2 else r.randint(ns)
            self.pairs.append((a, b))
        self.tw = (c['tw'], c['tw'] + c['tl'])
        self.stat0 = [(self.lat[a], self.lon[a]) for a, _ in self.pairs]
        self.stat1 = [(self.lat[b], self.lon[b]) for _, b in self.pairs]
        self.xy = [cart(a, o, self.lat0, self.lon0)
                   for a, o in zip(self.lat, self.lon)]

    def grid(self):
        c = self.c
        return sp.DVGrid(self.lat0, self.lon0, c['res'], self.ex, self.ey,
                         self.dt, c['v'], c['ml'])

    def kernels(self, g, tw=None, pairs=None):
        """Rows of the forward problem."""
        tw = tw or self.tw
        t = (tw[0] + tw[1])/2
        rows = []
        for a, b in (self.pairs if pairs is None else pairs):
            K = sp.sensitivity_kernel(
                np.array(self.xy[a]), np.array(self.xy[b]), g.xaxis, g.yaxis,
                t, self.dt, self.c['v'], self.c['ml'])
            rows.append(self.c['res']**2/t*K.ravel())
        return np.array(rows)


def near(a, b, what, tol=1e-6):
    """Equal but for elements on a wave front."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    ck(a.shape == b.shape, f'{what}: shape {a.shape}, expected {b.shape}')
    s = max(np.max(np.abs(b)), 1e-300)
    ck_close(a, b, what, rtol=0, atol=tol*s)


@sub(st.fixed_dictionaries(dict(world, w2=fl(.5, 8))), quick=200, shards=2,
     rule='model and data not zero')
def forward(c, ctx):
    """Predicted data are kernels times model, whatever else is asked."""
    w = World(c)
    g = w.grid()
    res = c['res']
    for ax, n in ((g.xaxis, w.ex), (g.yaxis, w.ey)):
        ck(ax[0] == 0 and np.allclose(np.diff(ax), res) and
           ax[-1] >= n - 1e-9 and ax[-1] <= n + 1.01*res, f'axis {ax} for '
           f'{n} km')
    ck(g.xgrid.shape == (len(g.yaxis), len(g.xaxis)), 'grid shape')
    r = w.r
    m = r.randn(*g.xgrid.shape)
    m2 = r.randn(*g.xgrid.shape)
    f = lambda mm, gg=g, tw=w.tw, a=w.stat0, b=w.stat1: quiet(  # noqa
        lambda: gg.forward_model(mm, tw=tw, stat0=a, stat1=b))
    G = quiet(lambda: w.kernels(g))
    want = G @ m.ravel()
    got = f(m)
    ck(got.shape == (len(w.pairs),), f'shape {got.shape}')
    s = max(np.abs(G).sum(), 1e-12)
    # positions differ by rounding, a front may just reach another cell
    bad = np.abs(got - want) > 1e-6*s
    if bad.any():
        near(got[bad], want[bad], 'predicted data', .02)
    ck_close(f(2*m - 3*m2), 2*got - 3*f(m2), 'linear', atol=1e-9*s)
    ck_close(f(0*m), np.zeros(len(got)), 'zero model', atol=0)
    # one cell
    i, j = r.randint(m.shape[0]), r.randint(m.shape[1])
    one = np.zeros_like(m)
    one[i, j] = 1.
    k = G[:, i*m.shape[1] + j]
    ok = np.abs(f(one) - k) <= 1e-6*s
    ck(np.mean(ok) >= .5 or len(ok) == 1, f'cell {i, j}: {f(one)}, expected '
       f'{k}')
    # order of pairs, one by one, in a fresh grid
    p = r.permutation(len(w.pairs))
    g2 = w.grid()
    ck_close(f(m, g2, a=[w.stat0[q] for q in p],
               b=[w.stat1[q] for q in p]), got[p], 'order', atol=1e-9*s)
    ck_close(f(m, w.grid(), a=w.stat0[:1], b=w.stat1[:1]), got[:1],
             'alone', atol=1e-9*s)
    # another window in between
    tw2 = (w.tw[0], w.tw[0] + c['w2'])
    f(m, tw=tw2)
    ck_close(f(m), got, 'repeated', atol=0)
    ck_close(f(m, tw=tw2), f(m, w.grid(), tw=tw2), 'another window',
             atol=1e-9*s)
    expect_raises((ValueError,), lambda: f(m[:, :-1]), 'wrong shape')
    expect_raises((TypeError,), lambda: g.forward_model(m, tw=w.tw),
                  'no stations')
    if np.any(got):
        ctx.nt()


# --------------------------------------------------------------- inversion
inv = st.fixed_dictionaries(dict(
    world, n=si(1, 9), at=fl(0, 1), miss=st.lists(si(0, 6), max_size=3),
    sf=fl(.5, 3), cl=fl(.5, 3), sd=fl(.001, .1), noproc=st.sampled_from(
        ['no', 'no', 'none', 'empty', 'aligned']), f0=fl(.1, 2),
    bw=fl(.1, 2), other=st.booleans(), cut=fl(.01, .9)))
AX = np.linspace(-.05, .05, 11)


def velocity(c, w):
    """Velocity-change results with some missing at the time."""
    r = w.r
    n = c['n']
    ii = int(c['at']*(n - 1) + .5)
    dvs, use = [], []
    for q, (a, b) in enumerate(w.pairs):
        dv = mkdv(r.uniform(.05, .95, (n, 11)), AX, codes=(
            'A-B', f'S{q}-T', 'Z-Z'), coords=(
                w.lat[a], w.lon[a], 0., w.lat[b], w.lon[b], 0.))
        dv.value = r.uniform(-.05, .05, n)
        if q in c['miss']:
            dv.value[ii] = dv.corr[ii] = np.nan
            dv.sim_mat[ii] = np.nan
            dv.avail = ~np.isnan(dv.corr)
        else:
            use.append(q)
        pr = dict(freq_min=c['f0'], freq_max=c['f0'] + c['bw'],
                  tw_start=w.tw[0], tw_len=c['tl'])
        dv.dv_processing = dict(no=pr, none=None, empty={}, aligned=dict(
            aligned=.01))[c['noproc']]
        dvs.append(dv)
    t0 = UTCDateTime(T0) + 86400*ii
    utc = t0 + 86400*(r.uniform(-.4, .4) if n > 1 else r.uniform(0, .9))
    if utc < dvs[0].stats.corr_start[0]:
        utc = t0
    return dvs, use, utc, ii


@sub(inv, quick=300, shards=4, rule='at least two pairs in the inversion')
def inversion(c, ctx):
    """The model is the solution of the regularised problem."""
    w = World(c)
    dvs, use, utc, ii = velocity(c, w)
    fr = (c['f0'], c['f0'] + c['bw'])
    extra = {} if c['noproc'] == 'no' else dict(
        tw=w.tw, freq0=fr[0], freq1=fr[1])
    tw = w.tw
    if c['other']:
        tw = (w.tw[0] + .5, w.tw[1] + 1.7)
        fr = (fr[0]*1.1, fr[1]*1.2)
        extra = dict(tw=tw, freq0=fr[0], freq1=fr[1])
    a = (c['sf'], c['cl'], c['sd'])

    def run(x, g=None, k=extra):
        g = g or w.grid()
        return quiet(lambda: g.compute_dv_grid(x, utc, *a, **k))
    g = w.grid()
    if not use:
        expect_raises((IndexError,), lambda: run(dvs), 'no data')
        raise Skip()
    if c['noproc'] != 'no':
        expect_raises((AttributeError,), lambda: run(dvs, k={}),
                      'no window given')
    m = run(dvs, g)
    ck(m.shape == g.xgrid.shape, 'shape')
    ck(np.all(np.isfinite(m)), 'not finite')
    ck_close(g.vel_change, m, 'kept model')
    # closed form with the kernels of the program
    G = quiet(lambda: np.array([g.forward_model(
        e.reshape(m.shape), tw=tw, stat0=[w.stat0[q] for q in use],
        stat1=[w.stat1[q] for q in use]) for e in np.eye(m.size)]).T)
    # the data predicted for the results themselves, in the window given
    if extra:
        r1 = np.cos(np.arange(m.size)).reshape(m.shape)
        ck_close(quiet(lambda: g.forward_model(r1, dvs, utc, tw=tw)),
                 G @ r1.ravel(), 'predicted for results',
                 atol=1e-9*max(np.abs(G).sum(), 1e-12))
    d = np.array([dvs[q].value[ii] for q in use])
    co = np.array([dvs[q].corr[ii] for q in use])
    om = math.pi*(fr[0] + fr[1])
    sd = np.sqrt(1 - co**2)/2/co*np.sqrt(
        6*math.sqrt(math.pi/2)/(fr[1] - fr[0])/om**2/(tw[1]**3 - tw[0]**3))
    pos = np.array([(x, y) for y in g.yaxis for x in g.xaxis])
    dist = np.sqrt(((pos[:, None] - pos[None])**2).sum(-1))
    cm = (c['sd']*c['sf']/c['cl'])**2*np.exp(-dist/c['cl'])
    A = G.T @ (G/sd[:, None]**2) + np.linalg.inv(cm)
    cond = np.linalg.cond(A)
    if cond > 1e9:
        raise Skip()

    def solve(data):
        return np.linalg.solve(A, G.T @ (data/sd**2)).reshape(m.shape)
    want = solve(d)
    tol = 1e-6 + cond*1e-13
    near(m, want, 'model', tol)
    # scales, is independent of order and of results without data
    for x in dvs:
        x.value = 3*x.value
    near(run(dvs), 3*want, 'three times the data', tol)
    p = w.r.permutation(len(dvs))
    near(run(iter([dvs[q] for q in p])), 3*want, 'order', tol)
    near(run([dvs[q] for q in use]), 3*want, 'only available', tol)
    for x in dvs:
        x.value = 0*x.value
    ck(np.nanmax(np.abs(run(dvs))) == 0, 'zero data')
    # what the data of a uniform model would give
    k = dict(extra)
    res = quiet(lambda: w.grid().compute_resolution(dvs, utc, *a, **k))
    want = solve(G.sum(1))
    near(res, want, 'resolution', tol)
    g2 = w.grid()
    run(dvs, g2, dict(k, compute_resolution=True))
    near(g2.resolution, want, 'resolution with the inversion', tol)
    cov = quiet(lambda: w.grid().compute_posterior_covariance(
        dvs, utc, *a, **k))
    near(cov, np.linalg.inv(A), 'posterior covariance', 1e-5 + cond*1e-12)
    ck(np.all(np.diag(cov) <= np.diag(cm)*(1 + 1e-6) + 1e-300), 'data make '
       'the model less certain')
    # truncated singular values
    for q, x in enumerate(dvs):
        x.value[ii] = np.nan if q in c['miss'] else w.r.uniform(-.05, .05)
    d = np.array([dvs[q].value[ii] for q in use])
    U, S, V = np.linalg.svd(G, full_matrices=False)
    cut = c['cut']
    if S[0] > 0 and np.min(np.abs(S/S[0] - cut)) > 1e-6:
        keep = S > cut*S[0]
        want = V[keep].T @ ((U[:, keep].T @ d)/S[keep])
        k2 = {q: v for q, v in k.items()}
        got = quiet(lambda: w.grid().compute_dv_tsvd(
            dvs, utc, cutoff=cut, **k2))
        near(got, want.reshape(m.shape), 'truncated inversion', 1e-6)
    if len(use) > 1:
        ctx.nt()
    ctx.label(c['noproc'])


# ----------------------------------------------------------------- mapping
@sub(st.fixed_dictionaries(dict(
    world, n=si(1, 6), where=st.lists(st.sampled_from(
        ['in', 'in', 'in', 'north', 'east']), min_size=6, max_size=6),
    form=st.sampled_from(['scalar', 'array', 'lats', 'lons']))), quick=400,
    rule='several cells, points inside')
def mapping(c, ctx):
    """Points belong to the nearest cell, unless they are outside."""
    w = World(c)
    g = w.grid()
    r = w.r
    n = 1 if c['form'] == 'scalar' else c['n']
    where = c['where'][:n]
    if c['form'] == 'lats':
        where = ['in' if q == 'east' else q for q in where]
    if c['form'] == 'lons':
        where = ['in' if q == 'north' else q for q in where]
    x = r.uniform(0, 1, n)*w.ex
    y = r.uniform(0, 1, n)*w.ey
    top, right = g.yaxis[-1], g.xaxis[-1]
    for i, q in enumerate(where):
        if q == 'north':
            y[i] = top + c['res']*r.uniform(1.01, 20)
        if q == 'east':
            x[i] = right + c['res']*r.uniform(1.01, 20)
    if c['form'] == 'lats':
        x[:] = x[0]
    if c['form'] == 'lons':
        y[:] = y[0]
    lat = w.lat0 + np.degrees(y/R)
    q = np.sin(x/R/2)/np.cos(np.radians(w.lat0))
    lon = w.lon0 + np.degrees(2*np.arcsin(q))
    gx, gy = sp.geo2cart(lat, lon, w.lat0, w.lon0)
    for i in range(n):
        a, b = cart(lat[i], lon[i], w.lat0, w.lon0)
        ck(abs(gx[i] - a) < 1e-3 + 1e-4*a and abs(gy[i] - b) < 1e-3 + 1e-4*b,
           f'easting and northing {gx[i], gy[i]}, expected {a, b}')
    expect_raises((ValueError,), lambda: sp.geo2cart(
        w.lat0 - .1, lon, w.lat0, w.lon0), 'south of the grid')
    expect_raises((ValueError,), lambda: sp.geo2cart(
        lat, np.append(lon[1:], w.lon0 - .1), w.lat0, w.lon0),
        'west of the grid')
    la, lo = lat, lon
    if c['form'] in ('scalar', 'lons'):
        la = float(lat[0])
    if c['form'] in ('scalar', 'lats'):
        lo = float(lon[0])

    def f():
        return g._find_coord(la, lo)
    if any(q != 'in' for q in where):
        expect_raises((ValueError,), f, f'points {where} of the grid')
        ctx.label('outside')
        return
    ii = np.atleast_1d(f())
    ck(len(ii) == n, f'{len(ii)} cells for {n} points')
    for k in range(n):
        d = np.hypot(g.xf - x[k], g.yf - y[k])
        ck(d[ii[k]] <= d.min() + 1e-3*c['res'], f'cell {ii[k]} at distance '
           f'{d[ii[k]]}, nearest {d.min()}')
    ctx.nt()


# ------------------------------------------------------------------- align
@sub(st.fixed_dictionaries(dict(
    world, n=si(4, 16), at=fl(0, 1), miss=st.lists(st.tuples(
        si(0, 6), si(0, 15)), max_size=12), here=st.lists(
            si(0, 6), max_size=3), perfect=st.lists(si(0, 6), max_size=2),
    steps=si(0, 5), thr=st.sampled_from([0, .1, .5, .9]),
    model=st.sampled_from([True, True, False]), save=st.booleans(),
    done=st.lists(si(0, 6), max_size=2), f0=st.just(.1), bw=st.just(1.),
    noproc=st.just('no'), odd=st.sampled_from([1., 1.0000001, 5e-4]))), quick=250, shards=2,
    rule='some but not all results aligned')
def align(c, ctx):
    """Aligning moves a result to the predicted value, once."""
    w = World(c)
    dvs, _, utc, ii = velocity(dict(c, miss=c['here']), w)
    for q, dv in enumerate(dvs):
        for a, b in c['miss']:
            if a == q and b < c['n'] and b != ii:
                dv.value[b] = dv.corr[b] = np.nan
        if q in c['perfect'] and q not in c['here']:
            dv.corr[ii] = c['odd']
        dv.avail = ~np.isnan(dv.corr)
        if q in c['done']:
            dv.dv_processing['aligned'] = 0.
    g = w.grid()
    m = w.r.uniform(-.05, .05, g.xgrid.shape)
    if c['model']:
        g.vel_change = m
    want, exp = [], {}
    for q, dv in enumerate(dvs):
        x = dv.value.copy()
        ok = bool(q not in c['done'] and np.sum(dv.avail) >= 6 and not
                  np.isnan(dv.corr[ii]) and dv.corr[ii] >= c['thr'])
        if ok and not 1e-3 < dv.corr[ii] < 1:
            # such a coefficient counts as no data
            ok = None
        if ok:
            a, b = max(0, ii - c['steps']), ii + c['steps'] + 1
            vv, cc = dv.value[a:b], dv.corr[a:b]
            j = ~np.isnan(vv)
            if np.isnan(vv).any() and c['steps'] and not j.any():
                ok = False
            mean = np.sum(vv[j]*cc[j])/np.sum(cc[j])
            pred = quiet(lambda: w.grid().forward_model(
                m, tw=w.tw, stat0=[w.stat0[q]], stat1=[w.stat1[q]]))[0] \
                if c['model'] else 0.
            x = x - mean + pred
            exp[q] = pred
        want.append((ok, x))
    before = [d.value.copy() for d in dvs]
    with scratch() as d:
        out = quiet(lambda: g.align_dvs_to_grid(
            dvs, utc, c['steps'], c['thr'], d if c['save'] else False))
        files = {f: read_dv(os.path.join(d, f)) for f in os.listdir(d)}
    ids = [id(o) for o in out]
    for q, (dv, (ok, x)) in enumerate(zip(dvs, want)):
        got = dv.value
        if ok is None:
            # either left alone or aligned, but nothing else
            moved = got - before[q]
            ck(np.ptp(moved[~np.isnan(moved)]) < 1e-12, 'not a constant')
            continue
        ck((id(dv) in ids) == ok, f'result {q}: returned {id(dv) in ids}, '
           f'expected {ok}')
        ck_close(got, x, f'result {q}: values', atol=1e-9)
        al = dv.dv_processing.get('aligned', False)
        if ok:
            ck(al is not False and abs(al - exp[q]) < 1e-9, f'noted {al}')
        elif q not in c['done']:
            ck(al is False, f'result {q} is noted as aligned to {al}')
        if c['save'] and ok:
            f = f'DV-{dv.stats.id}.npz'
            ck(f in files, f'{f} was not saved: {sorted(files)}')
            ck_close(files[f].value, x, 'saved values', atol=1e-9)
            v = files[f].value.copy()
            quiet(lambda: g.align_dvs_to_grid(
                [files[f]], utc, c['steps'], c['thr']))
            ck_close(files[f].value, v, 'aligned again after loading',
                     atol=0)
    if c['save']:
        ck(len(files) >= sum(o is True for o, _ in want), 'files')
    v = [d.value.copy() for d in dvs if d.dv_processing.get(
        'aligned', False) is not False]
    quiet(lambda: g.align_dvs_to_grid(dvs, utc, c['steps'], c['thr']))
    v2 = [d.value for d in dvs if d.dv_processing.get(
        'aligned', False) is not False]
    for a, b in zip(v, v2):
        ck_close(a, b, 'aligned twice', atol=0)
    k = sum(o is True for o, _ in want)
    if 0 < k < len(want):
        ctx.nt()


@sub(st.fixed_dictionaries(dict(
    n=si(6, 9), how=st.sampled_from(['default', 'shared', 'none']),
    seed=seeds)), quick=60, rule='any')
def separate(c, ctx):
    """Aligning one result leaves the notes of others alone."""
    from seismic.monitor.dv import DV
    r = rng(c['seed'])
    common = dict(freq_min=1., freq_max=2., tw_start=1., tw_len=3.)
    k = dict(default={}, shared=dict(dv_processing=common),
             none=dict(dv_processing=None))[c['how']]
    b = mkdv(r.uniform(.1, .9, (c['n'], 11)), AX)
    ll = [DV(b.corr.copy(), b.value.copy(), 'stretch', b.sim_mat.copy(),
             AX, 'single', b.stats, **k) for _ in range(2)]
    g = sp.DVGrid(0., 0., 1., 2., 2., .1, 1., 10.)
    t = b.stats.corr_start[2]
    for x in ll:
        o = x.value.copy()
        n = g.align_dvs_to_grid([x], t, 0, 0.)
        ck(len(n) == 1 and abs(x.value[2]) < 1e-12, 'not aligned')
        ck_close(x.value, o - o[2], 'shift', atol=1e-12)
    ck('aligned' not in common, 'options changed')
    ctx.nt()
