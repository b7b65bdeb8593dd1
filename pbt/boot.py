"""Process bootstrap: environment, import paths, scratch directory.

The code under test runs on the interpreter of its own virtual environment.
Hypothesis is not installed there, so the tooling environment's site-packages
are appended at the END of sys.path (never shadowing numpy/scipy), with the
offline wheelhouse as a fallback.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
    "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX "
    "AVX512_CNL AVX512_ICL AVX512_SPR",
    "MPLBACKEND": "Agg",
    "LANG": "C.UTF-8",
}


def worker_env(scratch):
    env = dict(os.environ)
    env.update(ENV)
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    env["TMPDIR"] = scratch
    env["PYTHONPATH"] = REPO + os.pathsep + VERIF
    env["VERIF_REPO"] = REPO
    return env


def import_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(TOOL_SITE, "hypothesis")):
        sys.path.append(TOOL_SITE)
    else:
        import glob
        import zipfile

        dest = os.path.join(os.environ.get("TMPDIR", "/tmp"), "hyp_wheels")
        pats = ("hypothesis-[0-9]*cp312*.whl", "sortedcontainers*.whl")
        for pat in pats:
            for wheel in glob.glob(os.path.join(WHEELS, pat)):
                zipfile.ZipFile(wheel).extractall(dest)
        sys.path.append(dest)
    import hypothesis  # noqa: F401


def import_target():
    """Import the code under test and make sure it is the working tree's."""
    import warnings

    warnings.filterwarnings("ignore")
    import numpy as np
    import pyvbmc

    here = os.path.dirname(os.path.abspath(pyvbmc.__file__))
    if here != os.path.join(REPO, "pyvbmc"):
        raise RuntimeError(f"imported {here}, not {REPO}/pyvbmc")
    np.seterr(all="ignore")
    warnings.filterwarnings("ignore")
    return here
