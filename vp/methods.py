"""The ways of computing an energy that the checks share."""
from __future__ import annotations

from hypothesis import strategies as st
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from . import gen
from .util import F64

WHAT = ("dftd4", "dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm")
DAMP = {"bj": RationalDamping, "zero": ZeroDamping, "mzero": MZeroDamping, "op": OptimisedPowerDamping}


@st.composite
def param(draw, what):
    """Parameters that suit a method."""
    p = draw(gen.bj_param(s10=what not in ("zero", "mzero", "op")))
    if what in ("zero", "mzero"):
        p.update(rs6=draw(gen.fl(0.6, 1.5)), rs8=draw(gen.fl(0.6, 1.3)))
    if what == "mzero":
        p["bet"] = draw(gen.pick(0.0, 0.05, 0.1, 0.01))
    if what == "op":
        p["bet"] = draw(gen.pick(0.0, 2.0, 4.0, 6.0, 1.5))
    if what == "d3atm":
        p["rs9"] = draw(gen.fl(0.8, 1.6))
    return p


def disp_of(what, kind, dtype=F64, **kw):
    """Method object for a label; the label 'dftd4' has none."""
    if what == "exact":
        return DispD4Exact(model=kind, dtype=dtype, **kw)
    disp = Disp(model=kind, dtype=dtype, **kw)
    if what in DAMP:
        disp.register(TwoBodyTerm(damping_fn=DAMP[what]()))
        disp.register(D4ATMApprox())
    elif what == "d3atm":
        disp.register(TwoBodyTerm())
        disp.register(D3ATM(charge_dependent=True))
    else:
        raise KeyError(what)
    return disp


def evaluator(what, kind, dtype=F64):
    """f(numbers, positions, charge, param, q=None) -> atomic energies."""
    if what == "dftd4":
        return lambda n, x, c, p, q=None, **kw: d4.dftd4(n, x, c, p, model=kind, q=q, **kw)
    disp = disp_of(what, kind, dtype)
    return lambda n, x, c, p, q=None, **kw: disp.calculate(n, x, c, p, q=q, **kw)


def fd(f, h):
    """Central difference of f: R -> array at 0, sixth order by extrapolation.

    Returns the estimate and an error estimate (truncation)."""

    def c4(s):
        return (8.0 * (f(s) - f(-s)) - (f(2 * s) - f(-2 * s))) / (12.0 * s)

    a, b = c4(h), c4(0.5 * h)
    return b + (b - a) / 15.0, abs(b - a)
