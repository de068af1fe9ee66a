"""mpirun -n N python vlib/mpi_mon.py params.yaml : monitoring and coherence."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa
import warnings  # noqa
warnings.simplefilter('ignore')
from seismic.monitor.monitor import Monitor  # noqa

m = Monitor(sys.argv[1])
m.compute_velocity_change_bulk()
m.compute_waveform_coherence_bulk()
