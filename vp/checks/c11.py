"""C11: damping functions."""
import numpy as np
import torch
from hypothesis import strategies as st

from tad_dftd4.dispersion.twobody import dispersion2
from .. import gen, ref
from ..engine import Sub
from ..methods import DAMP
from ..util import F32, F64, T, Z, close, expect, finite, guard, npa

RULE = (
    "Cases: (value) Hypothesis arrays of distances (0.05-300 bohr, log-uniform), radii, orders and parameters for the four damping functions, "
    "parameters as float or tensor, any shape, the damped inverse power or only the damping factor, instances reused in generated call sequences; (error) generated calls with a required parameter missing or an unsupported order; "
    "(energy) the pair energy under each damping. Oracle: numpy closed forms, bounds (positive, not above the undamped value, long-range and short-range limits), an "
    "exception for the error cases, independent pair sums. Non-trivial: the damping factor lies between 1e-6 and 1-1e-9 for some entry (value), always otherwise."
)
ASSUMPTIONS = ["double precision; values below 1e-290 are not compared relatively"]

ORDERS = {"bj": (6, 8, 10), "zero": (6, 8, 9), "mzero": (6, 8), "op": (6, 8)}
NEED = {"bj": ("a1", "a2"), "zero": ("rs", "alp"), "mzero": ("rs", "alp", "bet"), "op": ("a1", "a2", "bet")}


@st.composite
def params(draw, kind):
    p = {"s6": 1.0, "s8": draw(gen.fl(0.0, 3.0)), "s10": 1.0}
    if kind in ("bj", "op"):
        p.update(a1=draw(gen.fl(0.0, 0.9)), a2=draw(gen.fl(0.3, 7.0)))
    if kind in ("zero", "mzero"):
        p.update(rs6=draw(gen.fl(0.3, 2.0)), rs8=draw(gen.fl(0.3, 2.0)), alp=draw(gen.pick(16.0, 14.0, 12.5, 8.0, 20.0)))
        if kind == "zero":
            p["rs9"] = draw(gen.fl(0.5, 2.0))
    if kind == "mzero":
        p["bet"] = draw(gen.fl(0.0, 0.3))
    if kind == "op":
        p["bet"] = draw(gen.pick(0.0, 0.5, 1.0, 2.0, 3.7, 4.0, 6.0))
    return p


@st.composite
def case(draw):
    calls = []
    for _ in range(draw(gen.ints(1, 4))):
        kind = draw(gen.pick("bj", "zero", "mzero", "op"))
        calls.append(
            {
                "kind": kind,
                "order": draw(st.sampled_from(ORDERS[kind])),
                "p": draw(params(kind)),
                "n": draw(gen.ints(1, 6)),
                "batch": draw(gen.pick(0, 0, 2)),
                "seed": draw(gen.ints(0, 10**6)),
                "tensor": draw(st.booleans()),
                "doi": draw(gen.pick(None, None, "10.0/x")),
                "only": draw(st.booleans()),
                "alpdef": draw(gen.ints(0, 3)) == 0,
            }
        )
    return {"calls": calls}


def formula(kind, r, rad, order, p, only):
    alp = p.get("alp", 16.0)
    if kind == "bj":
        v = ref.damp_bj(r, rad, order, p["a1"], p["a2"])
    elif kind == "op":
        v = ref.damp_op(r, rad, order, p["a1"], p["a2"], p["bet"])
    elif kind == "mzero":
        with np.errstate(over="ignore", divide="ignore"):
            v = ref.damp_mzero(r, rad, order, p["rs6"] if order == 6 else p["rs8"], alp, p["bet"])
    elif order == 9:
        v = 1.0 / (1.0 + 6.0 * (p.get("rs9", 4.0 / 3.0) * rad / r) ** alp) / r**9
    else:
        v = ref.damp_zero(r, rad, order, p["rs6"] if order == 6 else p["rs8"], alp)
    return v * r**order if only else v


def check(case):
    inst = {k: c() for k, c in DAMP.items()}
    nt = False
    for c in case["calls"]:
        rng = np.random.default_rng(c["seed"])
        kind, order, p = c["kind"], c["order"], dict(c["p"])
        shape = ((c["batch"],) if c["batch"] else ()) + (c["n"], c["n"])
        r = np.exp(rng.uniform(np.log(0.05), np.log(300.0), shape))
        rad = rng.uniform(1.0, 400.0, shape) if kind in ("bj", "op") else rng.uniform(2.0, 13.0, shape)
        if c["alpdef"]:
            p.pop("alp", None)
        only = c["only"]
        kw = {k: (T(v) if c["tensor"] else v) for k, v in p.items()}
        if c["doi"]:
            kw["doi"] = c["doi"]
        rt, radt = T(r), T(rad)
        got = inst[kind](rt, radt, order, only, **kw) if only else inst[kind](rt, radt, order, **kw)
        finite(got, f"{kind} damping")
        want = formula(kind, r, rad, order, p, only)
        close(got, want, np.abs(want), f"{kind} damping of order {order}", tol=1e-10, atol=1e-290)
        expect(bool((rt == T(r)).all()) and bool((radt == T(rad)).all()), "damping changed its input")
        g = npa(got)
        und = np.ones_like(r) if only else r ** (-float(order))
        expect(bool(np.all(g[want > 1e-290] > 0)), "damping not positive")
        expect(bool(np.all(g <= und * (1 + 1e-12))), f"{kind} damping exceeds the undamped value")
        fac = g / und
        nt |= bool(((fac > 1e-6) & (fac < 1 - 1e-9)).any())
        # interchangeable instances
        again = DAMP[kind]()(rt, radt, order, only, **kw)
        expect(bool((again == got).all()), f"two instances of {kind} damping disagree")
        # limits
        far = DAMP[kind]()(T([[1.0e4]]), T(rad[..., :1, :1].reshape(-1)[:1])[None], order, **kw)
        close(far * 1.0e4**order, np.ones((1, 1)), 1.0, f"{kind} damping at long range", tol=1e-3 if kind != "mzero" else 1e-2)
        if kind == "bj":
            R0 = p["a1"] * np.sqrt(rad) + p["a2"]
            short = DAMP[kind]()(torch.zeros_like(rt), radt, order, **kw)
            close(short, R0 ** (-float(order)), R0 ** (-float(order)), "rational damping at zero distance", tol=1e-10)
    for a in DAMP:
        for b in DAMP:
            expect((inst[a] == DAMP[b]()) == (a == b), f"equality of {a} and {b} damping instances")
    expect(inst["bj"] != "RationalDamping", "damping equals a string")
    return {"nontrivial": nt, "tags": [c["kind"] + str(c["order"]) for c in case["calls"]]}


@st.composite
def err_case(draw):
    kind = draw(gen.pick("bj", "zero", "mzero", "op"))
    c = {"kind": kind, "p": draw(params(kind)), "tensor": draw(st.booleans()), "n": draw(gen.ints(1, 4))}
    if kind != "bj" and draw(st.booleans()):
        c["order"] = draw(st.sampled_from([o for o in (5, 7, 9, 10, 12) if o not in ORDERS[kind]]))
        c["drop"] = None
    else:
        c["order"] = draw(st.sampled_from(ORDERS[kind]))
        need = [f"rs{c['order']}" if k == "rs" else k for k in NEED[kind]]
        c["drop"] = draw(st.sampled_from([k for k in need if k not in ("alp", "rs9")]or ["alp"]))
        c["none"] = draw(st.booleans())
    return c


def err_check(case):
    kind, p = case["kind"], dict(case["p"])
    p["s10"], p["s8"] = 1.0, 1.0
    kw = {k: (T(v) if case["tensor"] else v) for k, v in p.items()}
    d = case["drop"]
    if d is not None:
        if case["none"] or d == "alp":
            kw[d] = None
        else:
            kw.pop(d)
    r = torch.full((case["n"], case["n"]), 5.0, dtype=F64)
    damp = DAMP[kind]()
    try:
        v = damp(r, r, case["order"], **kw)
    except (TypeError, ValueError, AssertionError):
        # and the instance stays usable
        o = ORDERS[kind][0]
        full = {k: T(v) for k, v in p.items()}
        close(damp(r, r, o, **full), formula(kind, npa(r), npa(r), o, p, False), 1.0, "damping after a rejected call", tol=1e-10)
        return {"tags": [kind, "order" if d is None else d]}
    expect(False, f"{kind} damping of order {case['order']} without {d} returned {v.flatten()[0].item()}")


@st.composite
def energy_case(draw):
    kind = draw(gen.pick("bj", "zero", "mzero", "op"))
    m = draw(gen.molecule(2, 8, rare=40))
    p = draw(params(kind))
    p["s6"] = draw(gen.fl(0.0, 2.0))
    if kind != "bj":
        p.pop("s10")
    return {**m, "kind": kind, "p": p, "seed": draw(gen.ints(0, 10**6))}


def energy_check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x, charges=False)
    rng = np.random.default_rng(case["seed"])
    n = len(z)
    c6 = rng.uniform(1.0, 500.0, (n, n))
    c6 = c6 + c6.T
    r4, rv = rng.uniform(1.0, 12.0, n), rng.uniform(3.0, 10.0, (n, n))
    rv = rv + rv.T
    p = {k: T(v) for k, v in case["p"].items()}
    e = dispersion2(Z(z), T(x), p, T(c6), T(r4), T(rv), DAMP[case["kind"]]())
    want, mag = ref.two_body(x, c6, r4, case["p"], 60.0, case["kind"], rv)
    close(e, want, mag, f"pair energy under {case['kind']} damping", tol=1e-10)
    return {"tags": [case["kind"]]}


SUBS = [
    Sub("value", case, check, quick=3000, thorough=80000),
    Sub("error", err_case, err_check, quick=600, thorough=6000),
    Sub("energy", energy_case, energy_check, quick=1500, thorough=30000),
]
