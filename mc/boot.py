"""Bootstrap shared by every check process.

Imports the code under test from /repo's working tree (VERIF_REPO overrides the
location for experiments), never through a stale byte-code cache: third-party modules
are imported first with the ordinary caches, then the cache prefix is pointed at a
private scratch directory before anything of the repository is imported.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k, _v in dict(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   MPLBACKEND='Agg').items():
    os.environ[_k] = _v

_SCRATCH = None
_OWNER = os.getpid()


def scratch():
    """A private scratch directory, removed when the owning process ends."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix='occuprob-mc-')
    return _SCRATCH


def _cleanup():
    if _SCRATCH and os.getpid() == _OWNER:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.environ['MPLCONFIGDIR'] = os.path.join(scratch(), 'mpl')
os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def load(instrument=False):
    """Import the package under test and return it."""
    if 'occuprob' in sys.modules:
        return sys.modules['occuprob']
    import numpy  # noqa: F401
    import ase.io  # noqa: F401
    import ase.data  # noqa: F401
    import ase.io.extxyz  # noqa: F401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401
    import pymatgen.symmetry.analyzer  # noqa: F401
    import pymatgen.core.structure  # noqa: F401
    sys.pycache_prefix = os.path.join(scratch(), 'pyc')
    for p in list(sys.path):
        if os.path.abspath(p or '.') == os.path.abspath(REPO):
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    import sched
    sched.install()
    if instrument:
        sched.instrument()
    import occuprob
    import occuprob.cli  # noqa: F401
    here = os.path.realpath(occuprob.__file__)
    want = os.path.realpath(os.path.join(REPO, 'occuprob')) + os.sep
    if not here.startswith(want):
        raise SystemExit(f'harness error: occuprob imported from {here}, not {want}')
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    return occuprob
