"""Imports melodist from /repo's current working tree (never from stale bytecode)."""
import os
import shutil
import sys
import tempfile
import warnings

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')

REPO = os.environ.get('MC_REPO', '/repo')

import numpy as np          # noqa: E402
import pandas as pd         # noqa: E402
import scipy.optimize       # noqa: E402
import scipy.stats          # noqa: E402

warnings.simplefilter('ignore')
np.seterr(all='ignore')


def load():
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix='mc-pyc-')
    old = sys.pycache_prefix
    sys.pycache_prefix = scratch
    sys.path.insert(0, REPO)
    try:
        import melodist
        import melodist.util.util
    finally:
        sys.pycache_prefix = old
        shutil.rmtree(scratch, ignore_errors=True)
    assert os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO) + os.sep), \
        melodist.__file__
    return melodist


melodist = load()
