"""Import order matters: seams first, then numpy, then dg1d from the working tree."""
import os
import sys
import warnings

for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from . import seams
seams.install()
import numpy as np
seams.install_numpy()
np.seterr(all='ignore')
from .life import REPO
sys.path.insert(0, REPO)
import dg1d
import dg1d.solution, dg1d.rk, dg1d.dg, dg1d.limiting, dg1d.deck, dg1d.helpers
assert os.path.realpath(dg1d.solution.__file__).startswith(REPO + os.sep), dg1d.solution.__file__
