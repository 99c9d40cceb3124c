"""Process set-up: must be imported before numpy and before doatools.

Installs the seams that have to exist before the library is imported and puts
the checked-out repository on the import path.
"""
import os
import sys

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))
LIB = os.path.join(REPO, 'doatools') + os.sep
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

if 'MPLCONFIGDIR' not in os.environ and os.path.isdir('/opt/venv/mplconfig'):
    os.environ['MPLCONFIGDIR'] = '/opt/venv/mplconfig'

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.append(VERIF)

import warnings  # noqa: E402
warnings.simplefilter('ignore')
