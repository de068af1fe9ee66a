"""Build Correlator objects and naive reference correlations."""
import copy
import logging
import tempfile
from unittest import mock

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from seismic.correlate import correlate
from seismic.trace_data.waveform import Store_Client

BASE = dict(
    proj_dir=None, save_comps_separately=False, log_subdir='log',
    log_level='CRITICAL', fig_subdir='fig',
    net=dict(network='*', station='*', component='*'),
    co=dict(subdir='corr', read_start='2010-01-01', read_end='2010-01-02',
            read_len=86398, read_inc=86400, sampling_rate=1.,
            remove_response=False, combination_method='betweenStations',
            preProcessing=[], preprocess_subdiv=False,
            subdivision=dict(corr_inc=3600, corr_len=3600,
                             recombine_subdivision=False,
                             delete_subdivision=False),
            corr_args=dict(TDpreProcessing=[], FDpreProcessing=[],
                           lengthToSave=10, center_correlation=True,
                           normalize_correlation=True, combinations=[])))


def drop_handlers(c=None):
    for name in ['py.warnings'] + [
            n for n in list(logging.Logger.manager.loggerDict)
            if n.startswith('seismic')]:
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()


def correlator(corr_args, sr, td=None):
    """A Correlator whose store is not needed (direct calls)."""
    o = copy.deepcopy(BASE)
    sc = mock.Mock(Store_Client)
    sc._translate_wildcards.return_value = [['N', 'S', 'HHZ']]
    o['net'] = dict(network='N', station='S', component='HHZ')
    o['co']['sampling_rate'] = sr
    o['co']['corr_args'].update(corr_args)
    with tempfile.TemporaryDirectory(prefix='verif_') as d:
        o['proj_dir'] = d
        c = correlate.Correlator(sc, o)
        drop_handlers()
    return c


def naive(a, b, shifts):
    """sum_n a[n] b[n+k] for every integer k in shifts."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    out = np.zeros(len(shifts))
    for i, k in enumerate(shifts):
        k = int(k)
        lo, hi = max(0, -k), min(len(a), len(b) - k)
        if hi > lo:
            out[i] = np.dot(a[lo:hi], b[lo + k:hi + k])
    return out


def want_pair(a, b, method):
    """Is the unordered pair of ids (a, b) formed? (a may equal b)"""
    sta = a[:2] == b[:2]
    if method == 'betweenStations':
        return not sta
    if method == 'betweenComponents':
        return sta and a[3][-1] != b[3][-1]
    if method == 'autoComponents':
        return a == b
    return True
