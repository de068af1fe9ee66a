"""Velocity-change results for the checks C20, C21 and C23."""
import math
import warnings

from vlib.core import *  # noqa
from vlib.gen import *  # noqa
from seismic.correlate.stats import CorrStats
from seismic.monitor.dv import DV

si = st.integers


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def naive_mean(mats):
    """Mean of the available values per element, missing where none is."""
    n, m = mats[0].shape
    out = np.full((n, m), np.nan)
    for i in range(n):
        for j in range(m):
            v = [x[i, j] for x in mats if x[i, j] == x[i, j]]
            if v:
                out[i, j] = math.fsum(v)/len(v)
    return out


def naive_max(mat, axis):
    """Maximum and its position per time, missing for times without data."""
    c = np.full(len(mat), np.nan)
    v = np.full(len(mat), np.nan)
    for i, row in enumerate(mat):
        jj = [j for j in range(len(row)) if row[j] == row[j]]
        if jj:
            j = max(jj, key=lambda j: row[j])
            c[i], v[i] = row[j], axis[j]
    return c, v


def mkdv(mat, axis, method='single', codes=('A-A', 'S-S', 'HHZ-HHN'),
         coords=None, vt='stretch', t0=T0):
    c, v = naive_max(mat, axis)
    n = len(mat)
    co = coords or (10., 20., 30., 40., 50., 60.)
    h = CorrStats(dict(
        network=codes[0], station=codes[1], location='-', channel=codes[2],
        corr_start=[UTCDateTime(t0) + 86400*i for i in range(n)],
        corr_end=[UTCDateTime(t0) + 86400*(i+1) for i in range(n)],
        stla=co[0], stlo=co[1], stel=co[2], evla=co[3], evlo=co[4],
        evel=co[5]))
    return DV(c, v, vt, mat.copy(), np.array(axis), method, h,
              dv_processing=dict(freq_min=.1, freq_max=1., tw_start=1.,
                                 tw_len=5., sides='both'))


one = st.fixed_dictionaries(dict(
    miss=st.lists(si(0, 11), max_size=5), part=st.booleans(),
    off=st.sampled_from([0, 0, -.5, -1.2]),
    kind=st.sampled_from(['ok']*7 + ['axis', 'rows', 'cols', 'av']),
    code=si(0, 5), co=st.lists(si(0, 4), min_size=4, max_size=4)))
cases = st.fixed_dictionaries(dict(
    seed=seeds, n=si(1, 12), m=si(3, 25), dvs=st.lists(
        one, min_size=1, max_size=6), perm=seeds, scatter=st.booleans(),
    method=st.sampled_from(['single', 'joint', 'time_shift'])))
NETS = ['A-A', 'A-B', 'A-A', 'B-B', 'A-A', 'C-C']
STAS = ['S-S', 'S-T', 'T-T', 'U-U', 'S-S', 'W-X']
CHAS = ['Z-Z', 'Z-Z', 'Z-Z', 'E-Z', 'N-Z', 'Z-Z']


def build(c):
    r = rng(c['seed'])
    axis = np.linspace(-.05, .05, c['m'])
    out = []
    for d in c['dvs']:
        n, m = c['n'], c['m']
        k = d['kind']
        ax = axis
        if k == 'rows':
            n += 1
        if k == 'cols':
            m += 2
            ax = np.linspace(-.05, .05, m)
        if k == 'axis':
            ax = axis*1.1
        mat = r.uniform(-1, 1, (n, m)) + d['off']
        if d['part']:
            mat[r.rand(n, m) < .3] = np.nan
        for i in d['miss']:
            if i < n:
                mat[i] = np.nan
        q = d['code']
        dv = mkdv(mat, ax, c['method'], (NETS[q], STAS[q], CHAS[q]),
                  coords=(d['co'][0], d['co'][1], d['co'][0]*100.,
                          d['co'][2], d['co'][3], d['co'][2]*100.))
        if k == 'av':
            w = d['code'] % 3
            dv.stats[('channel', 'station', 'network')[w]] = \
                'geoav' if w else 'av'
        out.append(dv)
    return out
