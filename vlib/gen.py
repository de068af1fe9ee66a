"""Generators and small helpers shared by the checks."""
import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime, Stream, Trace
from obspy.core import Stats

T0 = 1262304000  # 2010-01-01


def rng(seed):
    return np.random.RandomState(seed % (2**32))


seeds = st.integers(0, 2**31 - 1)
# codes incl. ones that are prefixes of each other / sort differently when
# concatenated
nets = st.sampled_from(['A', 'AB', 'G', 'GE', 'X9', 'D0', '8K'])
stas = st.sampled_from(['A', 'AB', 'ABC', 'KB', 'KBG', 'ES1', 'ES', '01', '1',
                        'ZZZZ', 'B'])
# different stations whose codes concatenate to the same string, or whose
# order depends on how the codes are joined
netsta = st.one_of(st.tuples(nets, stas), st.sampled_from(
    [('A', 'BC'), ('AB', 'C'), ('A', 'BCD'), ('G', 'ES1'), ('GE', 'S1'),
     ('A', 'A'), ('AB', 'A')]))
locs = st.sampled_from(['', '00', '10'])
chas = st.sampled_from(['HHZ', 'HHN', 'HHE', 'BHZ', 'EH1', 'EHZ'])


def raw_stats(net, sta, loc, cha, start=T0, npts=100, sr=1.0, coords=None,
              processing=None):
    s = Stats()
    s.network, s.station, s.location, s.channel = net, sta, loc, cha
    s.sampling_rate = sr
    s.starttime = UTCDateTime(start)
    s.npts = npts
    if coords:
        s['stla'], s['stlo'], s['stel'] = coords
    if processing is not None:
        s['processing'] = list(processing)
    return s


def smooth_noise(seed, n, width=4):
    """Band limited noise of unit variance."""
    r = rng(seed)
    x = r.randn(n + 8*width)
    k = np.exp(-.5*(np.arange(-3*width, 3*width + 1)/width)**2)
    y = np.convolve(x, k/np.sqrt((k**2).sum()), 'same')[4*width:4*width + n]
    return y


def same_value(a, b):
    """Header values equal (numpy vs python types, lists vs arrays, times)."""
    if isinstance(a, UTCDateTime) or isinstance(b, UTCDateTime):
        return isinstance(a, UTCDateTime) and isinstance(b, UTCDateTime) \
            and abs(a - b) < 1e-5
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(
            b, (list, tuple, np.ndarray)):
        try:
            if len(a) != len(b):
                return False
        except TypeError:
            return False
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    try:
        if np.isnan(a) and np.isnan(b):
            return True
    except TypeError:
        pass
    return bool(a == b)


def canon(a, b):
    """Canonical order of two (net, sta, cha, ...) code tuples."""
    return (a, b) if '.'.join(a[:3]) <= '.'.join(b[:3]) else (b, a)


def grid_time(sec, frac=0):
    """A time on the 0.1 ms grid that file keys can represent."""
    return UTCDateTime(T0 + sec) + frac*1e-4
