"""Bridge between cases and the code under test."""
from __future__ import annotations

import json
import os

import numpy as np
import torch

import tad_dftd4 as d4
from . import gen, ref
from .engine import Discard, Violation

F64 = torch.double
F32 = torch.float
TOL = 1e-8
ABS = 1e-16


RATIO = None
if os.environ.get("VP_RATIO"):  # how much of each tolerance is used (development)
    import atexit

    RATIO = {}

    def _dump():
        with open(os.environ["VP_RATIO"], "a") as f:
            f.write(json.dumps(RATIO) + "\n")

    atexit.register(_dump)


def T(v, dtype=F64):
    return torch.tensor(v, dtype=dtype)


def Z(z):
    return torch.tensor(z, dtype=torch.long)


def guard(z, x, cuts=(60.0, 40.0, 30.0, 25.0), charges=True, dmin=1.2, ctol=1e-6):
    """Discard cases outside the common domain."""
    if gen.min_dist(x) < dmin:
        raise Discard("colliding atoms")
    if gen.near_cutoff(x, cuts, ctol):
        raise Discard("distance at a cutoff")
    if charges and len(z) > 1 and ref.eeq_margin(z, np.asarray(x, float)) < 0.02:
        raise Discard("EEQ matrix not safely positive definite")


def npa(t) -> np.ndarray:
    return t.detach().cpu().double().numpy()


def finite(t, what):
    if not bool(torch.isfinite(t).all()):
        raise Violation(f"{what}: non-finite values {t.tolist()}")


def close(got, want, scale, what, tol=TOL, atol=ABS):
    """|got - want| <= tol * scale + atol, elementwise with broadcasting."""
    g = npa(got) if isinstance(got, torch.Tensor) else np.asarray(got, float)
    w = npa(want) if isinstance(want, torch.Tensor) else np.asarray(want, float)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    s = npa(scale) if isinstance(scale, torch.Tensor) else np.asarray(scale, float)
    err = np.abs(g - w)
    lim = tol * np.abs(s) + atol
    bad = ~(err <= lim)
    if RATIO is not None and err.size:
        k = what if len(what) < 40 else what[:40]
        r = float(np.max(err / np.maximum(lim, 1e-300)))
        RATIO[k] = max(RATIO.get(k, 0.0), r)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        raise Violation(
            f"{what}: got {g[i]!r}, expected {w[i]!r} at index {i} "
            f"(|diff| {err[i]:.3e}, allowed {np.broadcast_to(lim, g.shape)[i]:.3e})"
        )


def grad(out, inputs, create_graph=False, retain_graph=None):
    """Gradients of ``out``; an input the graph does not reach has gradient zero,
    so that the comparison with numbers decides, not an autograd exception."""
    many = isinstance(inputs, (list, tuple))
    ins = list(inputs) if many else [inputs]
    if out.requires_grad:
        try:
            gs = torch.autograd.grad(
                out, ins, create_graph=create_graph, retain_graph=retain_graph,
                allow_unused=True,
            )
        except RuntimeError as exc:
            raise Violation(f"backward pass failed: {str(exc)[:200]}") from exc
    else:
        gs = [None] * len(ins)
    gs = tuple(torch.zeros_like(i) if g is None else g for g, i in zip(gs, ins))
    return gs if many else gs[:1]


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def tags_z(z):
    return [f"Z{int(v)}" for v in set(z)]


def run(mol, charge, p, **kw):
    return d4.dftd4(Z(mol["z"]), T(mol["x"]), charge, dict(p), **kw)


def mk_model(kind, numbers, dtype=F64, **kw):
    cls = d4.D4Model if kind == "d4" else d4.D4SModel
    return cls(numbers, dtype=dtype, **kw)


def fixed_cn(cn):
    """A coordination-number function that returns prescribed values."""

    def fn(numbers, positions, **_):
        return torch.as_tensor(cn, dtype=positions.dtype)

    return fn


def pad(mols, dtype=F64, extra=0):
    n = max(len(m["z"]) for m in mols) + extra
    num = torch.zeros((len(mols), n), dtype=torch.long)
    pos = torch.zeros((len(mols), n, 3), dtype=dtype)
    for i, m in enumerate(mols):
        k = len(m["z"])
        if not k:
            continue
        num[i, :k] = Z(m["z"])
        pos[i, :k] = T(m["x"], dtype)
    return num, pos


EPS32 = float(np.finfo(np.float32).eps)


def f32_budget(fn, factor=20.0):
    """Reference values as float32 arithmetic sees the input, with error budgets.

    ``fn()`` evaluates the reference model and returns a list of arrays. The
    budget of each entry is its sensitivity to rounding errors of distances and
    of the charge model's coordination number."""
    with ref.precision(EPS32):
        base = fn()
    dev = [np.zeros_like(b) for b in base]
    for s in range(4):
        with ref.precision(EPS32, s):
            dev = [np.maximum(d, np.abs(a - b)) for d, a, b in zip(dev, fn(), base)]
    return base, [factor * d for d in dev]


def dyadic(x, den=256):
    """Coordinates that are exact in single precision."""
    return [[round(v * den) / den for v in r] for r in x]


_WARM = []


def process_state(start=False):
    """Process-wide settings that a calculation has no business changing.

    ``start``: before the calculation; the random generators are moved on, so
    that a calculation that reseeds them is seen."""
    import gc
    import random
    import sys
    import warnings

    if not _WARM:  # imports on first use may change some of them
        _WARM.append(1)
        from tad_dftd4.dispersion.d4 import DispD4Exact

        num, pos = Z([6, 8, 1]), T([[0.0, 0.0, 0.0], [0.0, 0.0, 2.3], [0.0, 2.1, 0.3]])
        p = {"s8": 1.0, "a1": 0.4, "a2": 5.0}
        for kind in ("d4", "d4s"):
            DispD4Exact(model=kind, dtype=F64).calculate(num, pos, T(0.0), p)
            d4.dftd4(num, pos, T(0.0), p, model=kind)
        d4.get_properties(num, pos, T(0.0))
        if torch.get_num_threads() == 1:
            torch.set_num_threads(2)
    if start:
        torch.rand(3)
        np.random.random(3)
        random.random()
    return {
        "default device": str(torch.get_default_device()),
        "grad mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "anomaly mode": torch.is_anomaly_enabled(),
        "number of threads": torch.get_num_threads(),
        "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
        "matmul precision": torch.get_float32_matmul_precision(),
        "flush denormals": float(torch.tensor(5e-324, dtype=F64) * 1.0) == 0.0,
        "torch random state": hash(torch.get_rng_state().numpy().tobytes()),
        "numpy random state": hash(np.random.get_state()[1].tobytes()) + np.random.get_state()[2],
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "random state": hash(random.getstate()),
        "warning filters": tuple(map(str, warnings.filters)),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "module path": tuple(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collector": gc.isenabled(),
    }


def same_process(a, b, what):
    for k in a:
        if a[k] != b[k]:
            raise Violation(f"{what} changed process-wide state: {k} ({str(a[k])[:100]} became {str(b[k])[:100]})")
