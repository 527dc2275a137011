"""
Process bootstrap: fixed environment, third-party imports, then the code under test from /repo's working tree.

The code under test is always compiled from source (no byte code cache is consulted or written for it), so a check
sees exactly what is in /repo at the moment it runs.
"""
import os
import sys
import warnings

REPO = os.environ.get("VEROKU_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "TQDM_DISABLE": "1",
    "LANG": "C.UTF-8",
}


def ensure_env(hash_seed="0"):
    """Re-execute this interpreter once with the fixed environment (hash seed included)."""
    want = dict(FIXED_ENV)
    want.setdefault("PYTHONHASHSEED", hash_seed)
    if os.environ.get("VEROKU_SIM_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["VEROKU_SIM_BOOTED"] = "1"
    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "sim.main"] + sys.argv[1:], env)


def load():
    """Import third-party libraries (cached byte code), then veroku from source."""
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import numpy, scipy.special, scipy.linalg, scipy.stats, scipy.optimize  # noqa
    import pandas, networkx, graphviz, tqdm.auto, PIL.Image, PIL.GifImagePlugin, PIL.PngImagePlugin  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, IPython, IPython.core.display, seaborn  # noqa
    PIL.Image.preinit()
    PIL.Image.init()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/veroku-sim-no-cache"
    try:
        import veroku.cluster_graph
        import veroku._cg_helpers._cluster
        import veroku._cg_helpers._animation
        import veroku.factors.categorical
        import veroku.factors.sparse_categorical
        import veroku.factors.gaussian
        import veroku.factors.experimental.gaussian_mixture
        import veroku.factors.experimental.nonlinear_gaussian
        import veroku.factors.experimental.factorised_factor
    finally:
        sys.pycache_prefix = old
    got = os.path.realpath(veroku.cluster_graph.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"veroku imported from {got}, not from {REPO}")
    warnings.simplefilter("ignore")
    from . import monitor
    monitor.codes()   # collected once, before any process is forked
