"""Process environment for every check: must be imported before numpy or any repository module.

The checks run on the interpreter the repository is built for (/opt/venv/bin/python) and import the code under test
from /repo's working tree.  Hypothesis is not installed there, so the directory (or wheel files) that carries it is
*appended* to sys.path: numpy, scipy, pandas and dateutil always come from the repository's own environment.
"""
import os
import sys
import tempfile
import warnings

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _name in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_name] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), f'vp-mpl-{os.getuid()}'))
os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
sys.dont_write_bytecode = True


def _add_hypothesis() -> None:
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    site = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    wheels = '/opt/veriftools/wheels'
    if os.path.isdir(os.path.join(site, 'hypothesis')):
        sys.path.append(site)
    elif os.path.isdir(wheels):
        for entry in sorted(os.listdir(wheels)):
            if entry.startswith(('sortedcontainers-', 'attrs-')) or \
                    (entry.startswith('hypothesis-') and 'cp312' in entry):
                sys.path.append(os.path.join(wheels, entry))
    import hypothesis  # noqa: F401


if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy  # noqa: E402,F401  (from the repository's environment, before the path is extended)
import scipy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import dateutil  # noqa: E402,F401
_add_hypothesis()
warnings.simplefilter('ignore')
numpy.seterr(all='ignore')
