"""Interpreter set-up shared by all checks.

* the code under test is imported from $VERIF_REPO/src (default /repo/src);
* Hypothesis is not part of the project's environment: only it (and its one
  dependency) is resolved from the pre-installed tool environment, everything
  else (numpy, obspy...) stays the project's own.
"""
import importlib.machinery as _m
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_NAMES = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
          'sortedcontainers', 'attr', 'attrs'}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _NAMES:
            return _m.PathFinder.find_spec(name, [SITE])
        return None


if _Finder not in sys.meta_path:
    sys.meta_path.append(_Finder)
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
# the editable install may map `seismic` elsewhere (other checkout):
import seismic  # noqa: E402
import seismic.correlate  # noqa: E402
_p = os.path.join(SRC, 'seismic')
if list(seismic.__path__)[0] != _p:
    raise ImportError('seismic resolved to %s, not %s' % (
        list(seismic.__path__), _p))
