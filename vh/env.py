"""Process environment shared by every check: where the code under test and the
stand-in for lenstronomy live, single-threaded numerics, no byte code in /repo."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


def setup_paths():
    for p in (os.path.join(VERIF, 'stubs'), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.filterwarnings('ignore')
