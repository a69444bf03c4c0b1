"""Bootstrap: pin the numerical environment and import onepower from /repo's working tree.

Nothing is built or copied: Python imports the sources directly from REPO/src, so
every run of every check judges the current working tree.
"""

import os
import sys
import tempfile

REPO = os.environ.get('ONEPOWER_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _v in (
    'OMP_NUM_THREADS',
    'OPENBLAS_NUM_THREADS',
    'MKL_NUM_THREADS',
    'NUMEXPR_NUM_THREADS',
    'NUMBA_NUM_THREADS',
):
    os.environ[_v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

SCRATCH = tempfile.mkdtemp(prefix='onepower_verif_')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
_owner = os.getpid()


def cleanup():
    if os.getpid() == _owner:
        import shutil

        shutil.rmtree(SCRATCH, ignore_errors=True)


import atexit  # noqa: E402

atexit.register(cleanup)

sys.path.insert(0, os.path.join(REPO, 'src'))

import warnings  # noqa: E402

warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

np.seterr(all='ignore')


def load():
    """Import onepower from REPO and check that it is really that tree."""
    import onepower

    where = os.path.realpath(onepower.__file__)
    want = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
    if not where.startswith(want):
        raise SystemExit(f'onepower imported from {where}, not from {want}')
    try:
        from colossus import settings

        settings.BASE_DIR = SCRATCH  # its cache folder
    except ImportError:
        pass
    warnings.simplefilter('ignore')
    return onepower
