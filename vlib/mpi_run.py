"""mpirun -n N python vlib/mpi_run.py options.json store : one run."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa
import warnings  # noqa
warnings.simplefilter('ignore')
from seismic.correlate.correlate import Correlator  # noqa
from seismic.trace_data.waveform import Store_Client  # noqa

o = json.load(open(sys.argv[1]))
Correlator(Store_Client(None, sys.argv[2], read_only=True), o).pxcorr()
