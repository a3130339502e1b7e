"""Process set-up: environment, import of Hypothesis, import of the code under test.

Hypothesis is not installed next to torch, but in the tooling venv.  Only the
names it needs are taken from there, so that numpy/scipy/... of the tooling venv
can never shadow the ones the code under test uses.
"""
from __future__ import annotations

import importlib.machinery
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"

_HYP_DIRS = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    os.path.join(VERIF, "vendor"),
]
_HYP_NAMES = ("hypothesis", "_hypothesis_", "sortedcontainers", "attr", "attrs")


class _HypFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is not None or not name.startswith(_HYP_NAMES):
            return None
        for d in _HYP_DIRS:
            spec = importlib.machinery.PathFinder.find_spec(name, [d])
            if spec is not None:
                return spec
        return None


def env() -> dict:
    e = dict(os.environ)
    e.update(
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        CUDA_VISIBLE_DEVICES="",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
    )
    return e


def setup() -> None:
    """Import path for a process that runs code under test."""
    sys.dont_write_bytecode = True
    sys.meta_path.append(_HypFinder)
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import warnings

    warnings.filterwarnings("ignore")
    import torch
    import hypothesis.strategies  # noqa: F401
    import tad_mctc.data  # noqa: F401
    import tad_multicharge  # noqa: F401

    torch.set_num_threads(1)
    # never trust byte code left over from another state of the tree
    sys.pycache_prefix = f"/nonexistent/vp-{os.getpid()}"
    import tad_dftd4

    got = os.path.realpath(os.path.dirname(tad_dftd4.__file__))
    want = os.path.realpath(os.path.join(src, "tad_dftd4"))
    if got != want:
        raise RuntimeError(f"tad_dftd4 imported from {got}, expected {want}")
