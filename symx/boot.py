"""Import JAX (64-bit) from the repo's venv and z3 from the verification venv."""
import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("XLA_FLAGS",
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
_src = os.path.join(REPO, "src")
import warnings
warnings.filterwarnings("ignore")
import numpy  # the repo venv's numpy, before the other site-packages is visible
os.environ.setdefault("JAX_TRACEBACK_FILTERING", "off")
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import scipy
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)
import z3
z3.set_param("model_evaluator.completion", True)


def load_repo():
    """Import cr.sparse from /repo's working tree (never from a stale copy)."""
    import importlib
    import cr.sparse as crs
    path = os.path.abspath(crs.__file__)
    if not path.startswith(os.path.abspath(_src) + os.sep):
        raise RuntimeError("cr.sparse was imported from %s, not %s" % (path, _src))
    return crs
