"""Write raw-data archives and read correlation databases."""
import os
import glob

import h5py
import numpy as np
from obspy import Stream, Trace, UTCDateTime, read
from obspy.core.inventory import (
    Inventory, Network, Station, Channel)

from seismic.db.corr_hdf5 import CorrelationDataBase


def write_sds(root, code, start, x, sr):
    """Write contiguous samples to the daily files of an SDS archive."""
    net, sta, loc, cha = code
    tr = Trace(np.asarray(x, np.float32))
    tr.stats.update(dict(network=net, station=sta, location=loc, channel=cha,
                         sampling_rate=sr, starttime=UTCDateTime(start)))
    end = tr.stats.endtime
    day = UTCDateTime(tr.stats.starttime.date)
    while day <= end:
        s = tr.slice(day, day + 86400 - .5/sr)
        if s.stats.npts:
            p = os.path.join(
                root, 'mseed', str(day.year), net, sta, cha + '.D')
            os.makedirs(p, exist_ok=True)
            f = os.path.join(p, '%s.%s.%s.%s.D.%d.%03d' % (
                net, sta, loc, cha, day.year, day.julday))
            st = read(f) if os.path.exists(f) else Stream()
            st.append(s)
            st.write(f, format='MSEED')
        day += 86400


def write_inventory(root, coords, chans=None, dips=None):
    """coords: {(net, sta): (lat, lon, elev)}"""
    p = os.path.join(root, 'inventory')
    os.makedirs(p, exist_ok=True)
    for (n, s), (la, lo, el) in coords.items():
        cl = []
        for c in (chans or {}).get((n, s), []):
            dip = {'Z': -90., 'N': 0., 'E': 0.}.get(c[-1], 0.)
            dip = (dips or {}).get((n, s, c), dip)
            cl.append(Channel(c, '', la, lo, el, 0., azimuth=0., dip=dip,
                              sample_rate=1.))
        inv = Inventory(networks=[Network(n, stations=[
            Station(s, la, lo, el, channels=cl)])])
        inv.write(os.path.join(p, '%s.%s.xml' % (n, s)), format='STATIONXML')


def read_db(folder, options, tag):
    """{(file, net, sta, cha, start, end): trace} of everything under tag"""
    out = {}
    for f in sorted(glob.glob(os.path.join(folder, '*.h5'))):
        with h5py.File(f, 'r') as h:
            if tag not in h:
                continue
        with CorrelationDataBase(f, corr_options=options, mode='r') as cdb:
            st = cdb.get_data('*', '*', '*', tag)
        for tr in st:
            s = tr.stats
            k = (os.path.basename(f), s.network, s.station, s.channel,
                 round(s.corr_start.timestamp, 4),
                 round(s.corr_end.timestamp, 4))
            assert k not in out, 'twice the same key %s' % (k,)
            out[k] = tr
    return out
