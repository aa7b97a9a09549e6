"""Make hypothesis and the code under test importable."""
import glob
import os
import sys
import zipfile

WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _unpack(here):
    """Unpack the hypothesis wheels into /verif/.deps (git-ignored)."""
    target = os.path.join(here, ".deps")
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    pats = [f"hypothesis-*-{tag}-*.whl", "sortedcontainers-*.whl"]
    if not os.path.isdir(os.path.join(target, "hypothesis")):
        tmp = target + f".tmp{os.getpid()}"
        for p in pats:
            hits = sorted(glob.glob(os.path.join(WHEELS, p)))
            if not hits:
                return None
            with zipfile.ZipFile(hits[-1]) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, target)
        except OSError:  # somebody else was faster
            import shutil

            shutil.rmtree(tmp, ignore_errors=True)
    return target


def prepare(here):
    try:
        target = _unpack(here)
    except OSError:
        target = None
    for cand in (target, None):
        if cand:
            sys.path.append(cand)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(FALLBACK)
        import hypothesis  # noqa: F401

    # third-party imports first: they may use their byte code caches ...
    import numba  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import polars  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.base  # noqa: F401
    import sklearn.utils.validation  # noqa: F401

    # ... the code under test is always compiled from its source text.
    src = os.path.abspath(os.environ.get("ONDIL_SRC", "/repo/src"))
    sys.path.insert(0, src)
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(here, ".nopyc")
    try:
        import ondil
        import ondil.coordinate_descent
        import ondil.distributions
        import ondil.error
        import ondil.estimators
        import ondil.gram
        import ondil.information_criteria
        import ondil.links
        import ondil.methods
        import ondil.scaler
        import ondil.utils
        import ondil.warnings  # noqa: F401
    finally:
        sys.pycache_prefix = old
    if not os.path.abspath(ondil.__file__).startswith(src + os.sep):
        raise RuntimeError(f"imported {ondil.__file__}, wanted the tree {src}")
