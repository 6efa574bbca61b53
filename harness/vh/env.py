# Prepares a process so that the code under test is the working tree of the repository (VERIF_REPO, /repo by default).
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


def prepare_environment(env, scratch):
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
        env[k] = '1'
    env['MPLBACKEND'] = 'Agg'
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    env['TMPDIR'] = scratch
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONWARNINGS'] = 'ignore'
    env['VERIF_SCRATCH'] = scratch
    env['PYTHONUTF8'] = '1'
    return env


def load():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    import numpy as np
    import pydtmc
    real = os.path.realpath(pydtmc.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'the package under test was imported from {real} and not from {REPO}')
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    return pydtmc
