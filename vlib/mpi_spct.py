"""mpirun -n N python vlib/mpi_spct.py in.pkl out.pkl : spectrograms."""
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa
import warnings  # noqa
warnings.simplefilter('ignore')
from mpi4py import MPI  # noqa
from seismic.utils.raw_analysis import spct_series_welch  # noqa

out = []
for streams, win, fmax in pickle.load(open(sys.argv[1], 'rb')):
    try:
        out.append(spct_series_welch(streams, win, fmax, False))
    except ValueError:
        out.append(None)
    if MPI.COMM_WORLD.Get_rank():
        assert out[-1] is None or all(x is None for x in out[-1])
if MPI.COMM_WORLD.Get_rank() == 0:
    pickle.dump(out, open(sys.argv[2], 'wb'))
