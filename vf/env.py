"""Process set-up: environment variables and sys.path. Imported before jax, numpy or hypothesis."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
THREADS = ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS')
if not os.environ.get('VERIF_PLAIN'):
    # one thread per worker
    os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    for k in THREADS:
        os.environ[k] = '1'
os.environ.pop('JAX_ENABLE_X64', None)
sys.dont_write_bytecode = True


def setup_path():
    # the code under test always comes from the working tree
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # hypothesis: wherever it is; appended at the end so that nothing else is shadowed
    try:
        import hypothesis  # noqa
    except ImportError:
        for cand in (os.path.join(VERIF, '.deps'), '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
            if os.path.isdir(os.path.join(cand, 'hypothesis')):
                sys.path.append(cand)
                break
        import hypothesis  # noqa


setup_path()
