"""Process set-up shared by every worker: where the code under test is, scratch space, JAX settings."""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("HXSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("HXSIM_PYTHON", "/opt/venv/bin/python")

_scratch = None


def scratch():
    """Scratch directory of this process, removed when it ends."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("HXSIM_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="hxsim-", dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def child_env(scratch_dir, xla=""):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
             HXSIM_SCRATCH=scratch_dir, TMPDIR=scratch_dir, PYTHONPATH=VERIF,
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 " + xla,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             TF_CPP_MIN_LOG_LEVEL="3", VTK_SMP_BACKEND_IN_USE="Sequential", VTK_SMP_MAX_THREADS="1")
    e.setdefault("PYTHONHASHSEED", "0")
    e.pop("JAX_COMPILATION_CACHE_DIR", None)
    return e


def load_repo():
    """Import the library from /repo's working tree."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import jax  # noqa: F401
    import hydraxmpm  # noqa: F401
    f = os.path.realpath(hydraxmpm.__file__)
    assert f.startswith(os.path.realpath(REPO) + "/"), f
    return hydraxmpm
