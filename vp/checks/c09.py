"""C09: real-space cutoffs."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from .. import gen, ref
from ..engine import Discard, Known, Sub
from ..methods import evaluator, param
from ..util import F32, F64, T, Z, close, expect, finite, grad, guard, npa

RULE = (
    "Cases: (energy) Hypothesis molecules of 2-10 atoms with two-body, three-body, charge-model and CN cutoffs placed inside the gaps "
    "of the sorted distance list or at 0, far outside of it or infinite; (equal) integer coordinates with cutoffs exactly equal to a distance, which is inside; (fragments) 2-3 generated fragments further apart than all cutoffs with fixed charges; (form) the same cutoffs as "
    "int, float, tensors of several types; (properties) get_properties under charge-model cutoffs. Oracle: the reference model with explicit masks over "
    "pairs and triples; exact additivity of energies and forces. Non-trivial: at least one pair or triple is inside and one outside of a cutoff (energy), or all (others)."
)
ASSUMPTIONS = ["no distance within 1e-6 relative of a cutoff unless coordinates and cutoff are integers", "EEQ matrix safely positive definite where EEQ charges are used"]


@st.composite
def case(draw, nmin=2, nmax=10):
    m = draw(gen.molecule(nmin, nmax, styles=("cluster", "linear", "planar", "wide", "frag")))
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm"))
    c = {
        **m,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": draw(param(what)),
        "charge": draw(gen.total_charge()),
        # each cutoff: gap index (fraction of the sorted distances) or absolute
        "cut": [draw(st.one_of(gen.fl(0.0, 1.0), gen.fl(0.0, 1.0), gen.pick(-1.0, -1.0, -2.0, -3.0, -4.0, -5.0))) for _ in range(4)],
        # where in the gap: the middle, or just above / below a distance
        "edge": [draw(gen.pick(0, 0, 1, 2, 3, 4, 6, 8, -1, -2, -3, -4, -6, -8)) for _ in range(4)],
        "grad": draw(gen.ints(0, 3)) == 0,
    }
    if draw(st.booleans()):
        c["q"] = draw(gen.charges(m["z"]))
    return c


def place(d, f, default, edge=0):
    """A cutoff inside a gap between sorted distances: in the middle, or 10**-k
    above (edge > 0) or below (edge < 0) a distance."""
    if f < 0.0:
        return {-1: default, -2: 0.0, -3: float("inf"), -4: 1.0e6, -5: 1.0e-3}[int(f)]
    if abs(edge) > 4:  # a relative distance of 10**-edge
        v = np.sort(d)[min(int(f * len(d)), len(d) - 1)]
        return float(v * (1.0 + (1.0 if edge > 0 else -1.0) * 10.0 ** -abs(edge)))
    d = np.concatenate([[0.5], np.unique(np.round(d, 6)), [d.max() + 4.0]])
    i = min(int(f * (len(d) - 1)), len(d) - 2)
    off = 10.0 ** -abs(edge)
    if edge and off < 0.5 * (d[i + 1] - d[i]):
        return float(round(d[i] + off if edge > 0 else d[i + 1] - off, 6))
    return float(round(0.5 * (d[i] + d[i + 1]), 6))


def ref_kw(what):
    if what == "dftd4":
        return {}
    if what == "exact":
        return {"exact": True}
    if what == "d3atm":
        return {"radii": "vdw", "three_charge": True}
    return {"damping": what}


def energy_check(case):
    z, x = case["z"], np.array(case["x"], float)
    d = ref.dist(x)[np.triu_indices(len(z), 1)]
    c2, c3, ce, cc = (place(d, f, v, k) for f, v, k in zip(case["cut"], (60.0, 40.0, 25.0, 30.0), case["edge"]))
    guard(z, x, (c2, c3, ce, cc, 30.0), charges="q" not in case, ctol=2e-9)
    q = T(case["q"]) if "q" in case else None
    cut = d4.Cutoff(disp2=c2, disp3=c3, cn=cc, cn_eeq=ce, dtype=F64)
    xt = T(x).requires_grad_(case["grad"])
    e = evaluator(case["what"], case["model"])(Z(z), xt, T(case["charge"]), case["p"], q, cutoff=cut)
    finite(e, "energy")
    kw = dict(kind=case["model"], q=case.get("q"), disp2=c2, disp3=c3, cn_eeq=ce, **ref_kw(case["what"]))
    r, mag = ref.energy(z, x, case["charge"], case["p"], **kw)
    known = False
    got = npa(e)
    tol = 1e-10 if "q" in case else 1e-8
    if not np.all(np.abs(got - r) <= tol * mag + 1e-16) and cc != 30.0:
        # a CN cutoff that is honoured is right as well
        r2, mag2 = ref.energy(z, x, case["charge"], case["p"], cn=ref.cn_d4(np.asarray(z), x, cutoff=cc), **kw)
        close(e, r2, mag2, f"energy with cutoffs {c2, c3, ce, cc}", tol=tol)
    else:
        close(e, r, mag, f"energy with cutoffs {c2, c3, ce, cc}", tol=tol)
        if cc != 30.0 and not np.allclose(ref.cn_d4(np.asarray(z), x, cutoff=cc), ref.cn_d4(np.asarray(z), x), rtol=0, atol=1e-3):
            r2, _ = ref.energy(z, x, case["charge"], case["p"], cn=ref.cn_d4(np.asarray(z), x, cutoff=cc), **kw)
            known = bool(np.any(np.abs(got - r2) > 1e-6 * mag + 1e-12))
    if case["grad"]:
        (g,) = grad(e.sum(), xt)
        finite(g, "force")
    if known:
        raise Known("cn-cutoff-ignored")
    nt = bool(((d < c2).any() and (d > c2).any()) or ((d < c3).any() and (d > c3).any()) or ((d < ce).any() and (d > ce).any()))
    return {"nontrivial": nt, "tags": [case["what"], case["model"]]}


@st.composite
def exact_case(draw):
    """Integer coordinates: distances and their comparison with a cutoff are
    exact however they are computed."""
    n = draw(gen.ints(2, 7))
    u = draw(gen.pick(1, 2))
    pts = draw(st.lists(st.tuples(*[gen.ints(-6, 6)] * 3), min_size=n, max_size=n, unique=True))
    x = [[3 * u * a for a in p] for p in pts]
    z = draw(gen.elements(n))
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm"))
    return {
        "z": z,
        "x": x,
        "q": draw(gen.charges(z)),
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": draw(param(what)),
        "pick": [draw(gen.ints(0, 30)), draw(gen.ints(0, 30))],
        "single": draw(gen.ints(0, 3)) == 0,
    }


def exact_check(case):
    z, x = case["z"], np.array(case["x"], float)
    d = ref.dist(x)[np.triu_indices(len(z), 1)]
    on = sorted({int(round(v)) for v in d if abs(v - round(v)) < 1e-9})
    if not on or 30 in on:
        raise Discard("no distance is an integer, or one equals the CN cutoff")
    c2, c3 = (float(on[i % len(on)]) for i in case["pick"])
    dt = torch.float32 if case["single"] else F64
    cut = d4.Cutoff(disp2=c2, disp3=c3, dtype=dt)
    e = evaluator(case["what"], case["model"], dt)(Z(z), T(x).to(dt), T(0.0).to(dt), case["p"], T(case["q"]).to(dt), cutoff=cut)
    r, mag = ref.energy(z, x, 0.0, case["p"], kind=case["model"], q=case["q"], disp2=c2, disp3=c3, **ref_kw(case["what"]))
    close(e, r, mag, f"energy with cutoffs {c2, c3} equal to distances", **({"tol": 2e-3, "atol": 1e-9} if case["single"] else {}))
    return {"tags": [case["what"]]}


@st.composite
def frag_case(draw):
    frags = [draw(gen.molecule(1, 5, styles=("cluster", "linear"))) for _ in range(draw(gen.ints(2, 3)))]
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "op", "d3atm"))
    return {
        "frags": frags,
        "qs": [draw(gen.charges(f["z"])) for f in frags],
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "p": draw(param(what)),
        "cut": [draw(gen.fl(8.0, 60.0, 1)), draw(gen.fl(8.0, 40.0, 1))] if draw(st.booleans()) else [],
        "sep": draw(gen.fl(1.0, 30.0, 1)),
        "axis": draw(gen.ints(0, 2)),
    }


def frag_check(case):
    frags = case["frags"]
    for f in frags:
        guard(f["z"], f["x"], charges=False)
    cut = case["cut"]
    kw = {"cutoff": d4.Cutoff(*cut, dtype=F64)} if cut else {}
    far = max(*(cut or [60.0, 40.0]), 30.0) + case["sep"]
    zs, xs, qs = [], [], []
    off = 0.0
    for f, q in zip(frags, case["qs"]):
        x = np.array(f["x"], float)
        a = case["axis"]
        x[:, a] += off - x[:, a].min()
        off = x[:, a].max() + far
        zs += f["z"]
        qs += q
        xs.append(x)
    if case["what"] == "exact" and case["model"] == "d4s":
        raise Discard("D4S polarizabilities average over all partners, also distant ones")
    ev = evaluator(case["what"], case["model"])
    xt = T(np.concatenate(xs)).requires_grad_(True)
    e = ev(Z(zs), xt, T(0.0), case["p"], T(qs), **kw)
    (g,) = grad(e.sum(), xt)
    i = 0
    for f, x, q in zip(frags, xs, case["qs"]):
        k = len(f["z"])
        y = T(x).requires_grad_(True)
        ef = ev(Z(f["z"]), y, T(0.0), case["p"], T(q), **kw)
        close(e[i : i + k], ef, float(ef.detach().abs().sum()), "energy of a fragment beyond all cutoffs", tol=1e-10, atol=1e-18)
        (gf,) = grad(ef.sum(), y)
        close(g[i : i + k], gf, float(gf.abs().max()) + float(ef.detach().abs().sum()), "forces of a fragment beyond all cutoffs", tol=1e-9, atol=1e-18)
        i += k
    return {"nontrivial": sum(len(f["z"]) > 1 for f in frags) > 0, "tags": [case["what"], case["model"]]}


@st.composite
def form_case(draw):
    m = draw(gen.molecule(2, 7, styles=("cluster", "linear", "wide")))
    return {
        **m,
        "charge": draw(gen.total_charge()),
        "p": draw(gen.bj_param()),
        "cut": [draw(gen.ints(3, 60)), draw(gen.ints(3, 40)), draw(gen.ints(5, 30)), draw(gen.ints(3, 25))],
        "which": draw(st.lists(gen.ints(0, 3), min_size=1, max_size=4, unique=True)),
        "forms": [draw(gen.pick("int", "float", "t64", "t32", "tint")) for _ in range(4)],
        "dd": draw(gen.pick("none", "64", "32")),
    }


FORM = {"int": int, "float": float, "t64": lambda v: T(float(v)), "t32": lambda v: T(float(v), F32), "tint": lambda v: torch.tensor(int(v))}
NAMES = ("disp2", "disp3", "cn", "cn_eeq")


def form_check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x, (*map(float, case["cut"]), 60.0, 40.0, 30.0, 25.0))
    args = {NAMES[i]: float(case["cut"][i]) for i in case["which"]}
    want = d4.dftd4(Z(z), T(x), T(case["charge"]), case["p"], cutoff=d4.Cutoff(**args, dtype=F64))
    dt = {"none": None, "64": F64, "32": F32}[case["dd"]]
    got_args = {NAMES[i]: FORM[case["forms"][i]](case["cut"][i]) for i in case["which"]}
    c = d4.Cutoff(**got_args, dtype=dt)
    got = d4.dftd4(Z(z), T(x), T(case["charge"]), case["p"], cutoff=c)
    expect(got.dtype == F64, f"energy has dtype {got.dtype}")
    close(got, want, want.abs(), f"cutoffs given as {got_args}", tol=1e-12)
    for n, v in (("disp2", 60.0), ("disp3", 40.0), ("cn", 30.0), ("cn_eeq", 25.0)):
        expect(float(getattr(c, n)) == args.get(n, v), f"Cutoff.{n} is {getattr(c, n)}, expected {args.get(n, v)}")
    return {"tags": case["forms"]}


@st.composite
def prop_case(draw):
    m = draw(gen.molecule(2, 9, styles=("cluster", "linear", "wide", "frag")))
    return {**m, "charge": draw(gen.total_charge()), "cut": [draw(gen.fl(0.0, 1.0)) for _ in range(4)]}


def prop_check(case):
    z, x = case["z"], np.array(case["x"], float)
    d = ref.dist(x)[np.triu_indices(len(z), 1)]
    c2, c3, ce, cc = (place(d, f, 0.0) for f in case["cut"])
    guard(z, x, (c2, c3, ce, cc, 30.0))
    cn, q, c6, al = d4.get_properties(Z(z), T(x), T(case["charge"]), cutoff=d4.Cutoff(c2, c3, cc, ce, dtype=F64))
    rq = ref.eeq(z, x, case["charge"], ce)
    close(q, rq, 1.0, "charges under a charge-model cutoff", tol=1e-8)
    full, cutcn = ref.cn_d4(np.asarray(z), x), ref.cn_d4(np.asarray(z), x, cutoff=cc)
    use, known = full, False
    if np.abs(full - cutcn).max() > 1e-7:
        if np.abs(npa(cn) - cutcn).max() <= 1e-9:
            use = cutcn
        else:
            known = True
    close(cn, use, 1.0, "CN", tol=1e-9)
    _, _, rc6, pol = ref.model(z, use, rq)
    close(c6, rc6, rc6, "C6 under a charge-model cutoff")
    close(al, pol[:, 0], pol[:, 0], "polarizability under a charge-model cutoff")
    if known:
        raise Known("cn-cutoff-ignored")
    return {"nontrivial": bool((d > ce).any())}


SUBS = [
    Sub("energy", case, energy_check, quick=3000, thorough=80000),
    Sub("size", lambda: case(41, 90), energy_check, quick=32, thorough=800),
    Sub("equal", exact_case, exact_check, quick=1200, thorough=20000),
    Sub("fragments", frag_case, frag_check, quick=700, thorough=16000),
    Sub("form", form_case, form_check, quick=600, thorough=10000),
    Sub("properties", prop_case, prop_check, quick=600, thorough=10000),
]
