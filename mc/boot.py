"""Start-up of every harness process: interpreter settings, the controllable random generators, the library.

Must be imported before anything of the library, so that names it takes from `random` and `numpy.random`
are the dispatchers of `mc.rnd`.
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def reexec():
    """Restart under the library's interpreter with a fixed hash seed, no bytecode of the library, one BLAS thread."""
    if os.environ.get("MC_BOOTED") == "1":
        return
    import tempfile
    env = dict(os.environ)
    scratch = tempfile.mkdtemp(prefix="mc-")
    env.update(MC_BOOTED="1", MC_SCRATCH=scratch, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1")
    for k in ("PYTHONPATH", "PYTHONHOME"):
        env.pop(k, None)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    import shutil
    import signal
    import subprocess
    p = subprocess.Popen([PY] + sys.argv, env=env)
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, lambda n, f: p.send_signal(n))
    rc = p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 128 - rc)


def load():
    warnings.filterwarnings("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"
    from . import rnd
    rnd.install()
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    import PyCTBN
    assert os.path.abspath(PyCTBN.__file__).startswith(os.path.abspath(REPO) + "/"), PyCTBN.__file__


def scratch():
    """A fresh directory inside this run's own scratch directory (removed when the run ends)."""
    import tempfile
    return tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
