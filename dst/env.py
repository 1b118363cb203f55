"""Process environment of a simulation worker.  Must be imported before jax.

Everything that could make two executions of the same seed differ is pinned here: the device (CPU), the number of
compute threads, the hash seed of dictionaries used by scenario generators is *not* relied on (tools/selftest.py varies it),
locale/clock are never read by scenario code.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


FAST_COMPILE = ('C24',)      # many shapes, each run a few times: compile fast


def pin(prop=''):
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['JAX_PLATFORM_NAME'] = 'cpu'
    os.environ['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    if prop in FAST_COMPILE:
        os.environ['JAX_DISABLE_MOST_OPTIMIZATIONS'] = '1'
    else:
        os.environ.pop('JAX_DISABLE_MOST_OPTIMIZATIONS', None)
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.environ['MKL_NUM_THREADS'] = '1'
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ.pop('JAX_ENABLE_X64', None)
    os.environ.pop('JAX_COMPILATION_CACHE_DIR', None)
    os.environ.pop('JAX_DISABLE_JIT', None)
    os.environ.pop('JAX_DEBUG_NANS', None)
    sys.dont_write_bytecode = True
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def budget(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick
