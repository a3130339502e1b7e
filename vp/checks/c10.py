"""C10: scaling parameters enter linearly, defaults and value forms."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from .. import gen, ref
from ..engine import Sub
from ..methods import WHAT, evaluator, param
from ..util import F32, F64, T, Z, close, expect, finite, guard, npa

RULE = (
    "Cases: Hypothesis molecules of 2-9 (rarely 40) atoms with seven energy methods and generated scaling parameters (negative, zero, fractional, large), and "
    "generated ways to pass each parameter (int, float, double / single precision / integer tensor, omitted when at its default). Oracle: metamorphic: "
    "the energy equals the linear combination of the energies with one scaling parameter at one and the others at zero; omission equals the documented default; "
    "every value form gives the same energy. Non-trivial: at least two orders contribute."
)
ASSUMPTIONS = ["values passed in single precision are exactly representable in it (dyadic), so that no rounding is involved"]


@st.composite
def case(draw):
    what = draw(gen.pick(*WHAT))
    m = draw(gen.molecule(2, 9, rare=40))
    p = draw(param(what))
    keys = ["s6", "s8", "s9"] + ([] if what in ("zero", "mzero", "op") else ["s10"])
    c = {
        **m,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": {k: v for k, v in p.items() if k not in ("s6", "s8", "s9", "s10")},
        "s": {k: draw(st.one_of(gen.fl(-3.0, 3.0), gen.pick(0.0, 1.0, 2.0, -1.0, 1000.0, 1e-6))) for k in keys},
        "charge": draw(gen.total_charge()),
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = draw(gen.charges(m["z"]))
    return c


def linear_check(case):
    z, x = case["z"], case["x"]
    guard(z, x, charges="q" not in case)
    ev0 = evaluator(case["what"], case["model"])
    q = T(case["q"]) if "q" in case else None
    ev = lambda s: ev0(Z(z), T(x), T(case["charge"]), {**case["p"], **s}, q)
    keys = sorted(case["s"])
    zero = {k: 0.0 for k in keys}
    base = ev(zero)
    expect(bool((base == 0).all()), f"all scaling parameters zero, but energy {base.tolist()}")
    parts = {k: ev({**zero, k: 1.0}) for k in keys}
    total = sum(case["s"][k] * parts[k] for k in keys)
    mag = sum(abs(case["s"][k]) * parts[k].abs() for k in keys)
    got = ev(case["s"])
    finite(got, "energy")
    close(got, total, mag, "energy is not the linear combination of its terms", tol=1e-11)
    if "s10" in case["s"]:
        close(ev({k: v for k, v in case["s"].items() if k != "s10"}), ev({**case["s"], "s10": 0.0}), mag, "omitted s10", tol=1e-12)
    for k in ("s6", "s9"):
        close(ev({a: v for a, v in case["s"].items() if a != k}), ev({**case["s"], k: 1.0}), mag + parts[k].abs(), f"omitted {k}", tol=1e-12)
    # each parameter scales its own order only: the parts against the reference
    kw = {"dftd4": {}, "exact": {"exact": True}, "d3atm": {"radii": "vdw", "three_charge": True}}.get(case["what"], {"damping": case["what"]})
    for k in keys:
        r, m = ref.energy(z, x, case["charge"], {**case["p"], **zero, k: 1.0}, kind=case["model"], q=case.get("q"), **kw)
        close(parts[k], r, m, f"energy contribution of {k}")
    return {"nontrivial": sum(bool((v != 0).any()) for v in parts.values()) > 1, "tags": [case["what"], case["model"]]}


@st.composite
def form_case(draw):
    m = draw(gen.molecule(2, 7, rare=40))
    what = draw(gen.pick(*WHAT))
    dy = lambda a, b: gen.ints(int(a * 32), int(b * 32)).map(lambda v: v / 32)
    p = {"s8": draw(dy(0, 3)), "a1": draw(dy(0.1, 0.8)), "a2": draw(dy(1, 7)), "s6": draw(dy(0.5, 2)), "s9": draw(dy(0, 2)), "alp": draw(gen.pick(16.0, 14.0, 12.0))}
    if what in ("zero", "mzero"):
        p.update(rs6=draw(dy(0.75, 1.5)), rs8=draw(dy(0.75, 1.25)))
    if what in ("mzero",):
        p["bet"] = draw(dy(0.0, 0.25))
    if what == "op":
        p["bet"] = draw(gen.pick(0.0, 2.0, 4.0))
    if what == "d3atm":
        p["rs9"] = draw(dy(0.8, 1.6))
    if what in ("dftd4", "exact", "d3atm"):
        p["s10"] = draw(dy(0, 2))
    for k in p:
        if draw(gen.ints(0, 3)) == 0 and k not in ("a1",):
            p[k] = float(max(1, round(p[k])))
    c = {**m, "what": what, "model": draw(gen.pick("d4", "d4s")), "p": p, "charge": draw(gen.pick(0, 1, -1, 0.5))}
    c["forms"] = {k: draw(gen.pick("int", "float", "t64", "t32", "tint", "omit", "np")) for k in sorted(p)}
    c["cform"] = draw(gen.pick("float", "t64", "t32", "int"))
    c["batch"] = draw(st.booleans())
    return c


DEFAULTS = {"s6": 1.0, "s9": 1.0, "s10": 0.0, "alp": 16.0}


def conv(v, form):
    if form in ("int", "tint") and v != int(v):
        form = "float"
    return {
        "int": lambda: int(v),
        "float": lambda: float(v),
        "np": lambda: np.float64(v),
        "t64": lambda: T(v),
        "t32": lambda: T(v, F32),
        "tint": lambda: torch.tensor(int(v)),
        "omit": lambda: float(v),
    }[form]()


def form_check(case):
    z, x = case["z"], case["x"]
    guard(z, x)
    num, pos = Z(z), T(x)
    ev = evaluator(case["what"], case["model"])
    p = dict(case["p"])
    for k, f in case["forms"].items():
        if f == "omit" and k in DEFAULTS:
            p[k] = DEFAULTS[k]
    given = {k: conv(v, case["forms"][k]) for k, v in p.items() if not (case["forms"][k] == "omit" and k in DEFAULTS)}
    chg = conv(case["charge"], case["cform"])
    want = ev(num, pos, T(case["charge"]), {k: T(v) for k, v in p.items()})
    if case["batch"]:
        got = ev(num[None], pos[None], T([case["charge"]]), given)
        want = want[None]
    else:
        got = ev(num, pos, chg, given)
    expect(got.dtype == F64, f"energy has dtype {got.dtype}")
    close(got, want, want.abs() + 1e-9, f"parameters given as {({k: type(v).__name__ for k, v in given.items()})}", tol=1e-11)
    return {"tags": sorted(set(case["forms"].values())) + [case["what"]]}


SUBS = [
    Sub("linear", case, linear_check, quick=1500, thorough=40000),
    Sub("form", form_case, form_check, quick=1500, thorough=30000),
]
