"""C16: single precision, data types and conversions."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import DispD4
from .. import gen, ref
from ..engine import Sub
from ..methods import disp_of, evaluator, param
from ..util import EPS32, F32, F64, T, Z, close, dyadic, expect, f32_budget, finite, guard, mk_model, npa, pad

RULE = (
    "Cases: (energy, properties) Hypothesis molecules of 1-12 atoms with coordinates exact in single precision, all methods and models, evaluated in single precision; "
    "(weights) 1-12 atoms with generated CN up to 25 and charges, so that the Gaussians leave the single-precision range; (types) default dtype x positions dtype x types of charge, parameters, "
    "q and cutoffs; (convert) chains of .type/.to on models, cutoffs and methods. Oracle: the double-precision reference model with an error budget "
    "measured by perturbing distances by single-precision rounding errors; fresh objects of the target type. Non-trivial: at least two atoms (energy, properties), "
    "a Gaussian sum below 1e-30 or two mixed references (weights), a type differing from double (types, convert)."
)
ASSUMPTIONS = [
    "coordinates, charges and CNs are exactly representable in single precision",
    "error budget: 20 x (sensitivity to distance rounding) + 1.5e-5 relative",
    "method objects are created with, or converted to, the data type of the positions",
]


@st.composite
def case(draw, nmin=1, nmax=12):
    m = draw(gen.molecule(nmin, nmax, styles=("cluster",) * 4 + ("linear", "planar", "wide", "frag")))
    m["x"] = dyadic(m["x"])
    what = draw(gen.pick("dftd4", "dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm"))
    c = {**m, "what": what, "model": draw(gen.pick("d4", "d4s")), "charge": draw(gen.total_charge()), "p": draw(param(what)), "pad": draw(gen.pick(0, 0, 2))}
    return c


def ref_kw(what):
    if what == "dftd4":
        return {}
    if what == "exact":
        return {"exact": True}
    if what == "d3atm":
        return {"radii": "vdw", "three_charge": True}
    return {"damping": what}


def energy_check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x)
    n = len(z)
    num, pos = pad([case], F32, extra=case["pad"])
    if not case["pad"]:
        num, pos = num[0], pos[0]
    e = evaluator(case["what"], case["model"], F32)(num, pos, T(case["charge"], F32), case["p"])
    expect(e.dtype == F32, f"single-precision energy has dtype {e.dtype}")
    finite(e, "single-precision energy")
    e = e.reshape(-1)[:n]
    kw = dict(kind=case["model"], **ref_kw(case["what"]))
    (r, mag), (dev, _) = f32_budget(lambda: ref.energy(z, x, case["charge"], case["p"], **kw))
    # pairs below the smallest normal single-precision number are lost
    close(e, r, dev.max() + 1.5e-5 * mag + 1e-30, "single-precision energy", tol=1.0, atol=0.0)
    return {"nontrivial": n > 1, "tags": [case["what"], case["model"]]}


def props_check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x)
    n = len(z)
    num, pos = pad([case], F32, extra=case["pad"])
    if not case["pad"]:
        num, pos = num[0], pos[0]
    out = d4.get_properties(num, pos, T(case["charge"], F32))

    def fn():
        cn = ref.cn_d4(np.asarray(z), x)
        q = ref.eeq(z, x, case["charge"])
        _, _, c6, pol = ref.model(z, cn, q)
        return [cn, q, c6, pol[:, 0]]

    want, dev = f32_budget(fn)
    for name, t, w, d in zip(("CN", "q", "C6", "polarizability"), out, want, dev):
        expect(t.dtype == F32, f"single-precision {name} has dtype {t.dtype}")
        if case["pad"]:
            t = t[0]
        t = t[:n, :n] if name == "C6" else t[:n]
        if name in ("CN", "q"):
            tol = d.max() + 1.5e-5 * (1.0 + np.abs(w))
        else:
            tol = d + d.max() / w.max() * w + 1.5e-5 * w
        close(t, w, tol, f"single-precision {name}", tol=1.0, atol=0.0)
    return {"nontrivial": n > 1}


# ---- weights beyond the single-precision range


@st.composite
def weight_case(draw):
    n = draw(gen.ints(1, 12))
    z = draw(gen.elements(n))
    f = lambda v: round(v * 1024) / 1024
    return {
        "z": z,
        "cn": [f(draw(gen.cn_for(a))) for a in z],
        "q": [f(draw(gen.fl(*gen.safe_q(a)))) for a in z],
        "model": draw(gen.pick("d4", "d4s")),
    }


def weight_check(case):
    z, cn, q, kind = case["z"], np.array(case["cn"]), np.array(case["q"]), case["model"]
    m = mk_model(kind, Z(z), F32)
    w = m.weight_references(T(cn, F32), T(q, F32))
    expect(w.dtype == F32, f"weights have dtype {w.dtype}")
    finite(w, "single-precision weights")
    f = ref.weights_d4 if kind == "d4" else ref.weights_d4s
    r, flag = f(z, cn, q, with_flag=True)
    lo = 0.0
    for i, a in enumerate(z):
        fs = [6.0] if kind == "d4" else [float(ref.G["wfpair"][a, b]) for b in z]
        lg = [ref._gauss(a, cn[i], v)[1] for v in fs]
        lo = min(lo, min(lg))
        if any(-745.0 < v < -640.0 for v in lg):
            return {"nontrivial": False}  # double precision itself is at its limit
    # D4S weighting factors are held in single precision, so that the exponent
    # carries a relative error of 6e-8
    tol = 4e-6 + (0.0 if kind == "d4" else 2.0 * EPS32 * abs(lo))
    sens = 1.0 + np.array([abs(v) for v in ref.G["gam"][z]])
    sc = np.abs(r) + 1e-6
    sc = sc * (sens[:, None] if kind == "d4" else sens[None, :, None]) * 10.0
    close(w, r, sc, "single-precision weights", tol=tol, atol=1e-12)
    al, _, c6, pol = ref.model(z, cn, q, kind)
    close(m.get_atomic_c6(w), c6, c6 + 1e-12, "single-precision C6", tol=10 * tol + 1e-4, atol=1e-12)
    close(m.get_polarizabilities(w), pol[:, 0], pol[:, 0] + 1e-9, "single-precision polarizability", tol=10 * tol + 1e-4, atol=1e-12)
    return {"nontrivial": lo < -69.0 or bool((np.sort(r.reshape(-1, 7), -1)[:, -2] > 1e-6).any()), "tags": ["underflow32"] if lo < -87 else []}


# ---- types


@st.composite
def type_case(draw):
    mols = [draw(gen.molecule(1, 6, styles=("cluster", "linear"), rare=20)) for _ in range(draw(gen.ints(1, 2)))]
    for m in mols:
        m["x"] = dyadic(m["x"])
    what = draw(gen.pick("dftd4", "dftd4", "dftd4", "DispD4", "exact", "zero", "op", "props"))
    p = draw(param("zero" if what == "zero" else "op" if what == "op" else "dftd4"))
    p = {k: round(v * 64) / 64 if draw(st.booleans()) else v for k, v in p.items()}
    return {
        "mols": mols,
        "batch": len(mols) > 1 or draw(st.booleans()),
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "p": p,
        "pt": {k: draw(gen.pick("float", "int", "t32", "t64", "tint")) for k in p},
        "charge": draw(gen.pick(0, 1, -1, 0.5, 2, 0.3, -0.7, 0.3)),
        "ct": draw(gen.pick("float", "float", "int", "t32", "t64", "tint", "none")),
        "cut": draw(gen.pick("none", "default", "32", "64")),
        "default": draw(gen.pick("32", "64")),
        "pos": draw(gen.pick("32", "64")),
        "opt": draw(st.lists(gen.pick("q", "r4r2", "rvdw"), unique=True)),
        "int": draw(gen.pick("long", "long", "int32")),
    }


def form(v, t):
    if t in ("int", "tint") and v != int(v):
        t = "float" if t == "int" else "t64"
    if t == "t32" and float(T(v, F32)) != v:
        t = "t64"  # a single-precision tensor of such a value is another value
    return {"float": float, "int": int, "t32": lambda u: T(u, F32), "t64": T, "tint": lambda u: torch.tensor(int(u))}[t](v)


DT = {"32": F32, "64": F64}


def type_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    dt = DT[case["pos"]]
    num, pos = pad(case["mols"], dt)
    if not case["batch"]:
        num, pos = num[0], pos[0]
    if case["int"] == "int32":
        num = num.to(torch.int32)
    p = {k: form(v, case["pt"][k]) for k, v in case["p"].items()}
    ch = 0 if case["ct"] == "none" else case["charge"]
    cht = form(ch, "float" if case["ct"] == "none" else case["ct"])
    if case["batch"] and isinstance(cht, torch.Tensor):
        cht = cht.expand(len(case["mols"])).clone()
    what, kind = case["what"], case["model"]
    kw = {}
    if what != "props":
        if "q" in case["opt"]:
            kw["q"] = torch.where(num > 0, 0.125, 0.0).to(dt)
        if "r4r2" in case["opt"]:
            kw["r4r2"] = T(ref.G["r4r2"], dt)[num.long()]
        if "rvdw" in case["opt"]:
            kw["rvdw"] = T(ref.G["rvdw"], dt)[num.long().unsqueeze(-1), num.long().unsqueeze(-2)]
    old = torch.get_default_dtype()

    def run(param_, charge_, kws):
        if what == "props":
            return d4.get_properties(num, pos, charge_, **{k: v for k, v in kws.items() if k == "cutoff"})
        if what == "DispD4":
            return (DispD4(model=kind, dtype=dt).calculate(num, pos, charge_, param_, **kws),)
        return (evaluator(what, kind, dt)(num, pos, charge_, param_, **kws),)

    try:
        torch.set_default_dtype(DT[case["default"]])
        if case["cut"] != "none":
            kw["cutoff"] = d4.Cutoff() if case["cut"] == "default" else d4.Cutoff(dtype=DT[case["cut"]])
        got = run(p, cht if not (what == "props" and case["ct"] == "none") else None, kw)
        now = torch.get_default_dtype()
    finally:
        torch.set_default_dtype(old)
    expect(now == DT[case["default"]], f"the global default dtype was changed to {now}")
    kw.pop("cutoff", None)
    want = run({k: T(v, dt) for k, v in case["p"].items()}, T(ch, dt), kw)
    for g, w in zip(got, want):
        expect(g.dtype == dt, f"result of {what} has dtype {g.dtype} for positions of {dt}")
        s = w.abs() + 1e-3 * w.abs().max()
        close(g, w, s, f"{what} with other input types", tol=1e-12 if dt == F64 else 2e-5, atol=1e-30)
    tg = [what, f"default{case['default']}", f"pos{case['pos']}", case["ct"]]
    return {"nontrivial": case["pos"] != case["default"] or case["pos"] == "32", "tags": tg}


# ---- conversions


@st.composite
def convert_case(draw):
    mols = [draw(gen.molecule(1, 6, styles=("cluster", "linear"), rare=20)) for _ in range(draw(gen.ints(1, 2)))]
    for m in mols:
        m["x"] = dyadic(m["x"])
    obj = draw(gen.pick("model", "model", "instance", "disp", "cutoff"))
    what = draw(gen.pick("exact", "zero", "mzero", "op", "d3atm", "DispD4", "DispD4"))
    opt = {}
    if draw(st.booleans()):
        opt["ref_charges"] = "gfn2"
        for m in mols:
            m["z"] = [min(v, 86) for v in m["z"]]
    if draw(gen.ints(0, 2)) == 0:
        opt["ga"] = 2.5
    if draw(gen.ints(0, 2)) == 0:
        opt["gc"] = 1.5
    if draw(gen.ints(0, 2)) == 0:
        opt["wf"] = 5.0
    return {
        "mols": mols,
        "batch": len(mols) > 1 or draw(st.booleans()),
        "obj": obj,
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "opt": opt,
        "start": draw(gen.pick("32", "64")),
        "chain": draw(st.lists(st.tuples(gen.pick("type", "to", "to_dev", "cpu"), gen.pick("32", "64")).map(list), min_size=1, max_size=4)),
        "p": draw(param("zero" if what in ("zero",) else what if what in ("mzero", "op", "d3atm") else "dftd4")),
        "charge": draw(gen.pick(0, 1, -1)),
        "cut": [draw(gen.ints(4, 60)), draw(gen.ints(4, 40)), draw(gen.ints(5, 30)), draw(gen.ints(4, 25))],
    }


def chain(o, ops, start):
    cur = start
    low = start == "32"
    for op, d in ops:
        if op == "type":
            o, cur = o.type(DT[d]), d
        elif op == "to":
            o, cur = o.to(dtype=DT[d]), d
        elif op == "to_dev":
            o, cur = o.to(device=torch.device("cpu"), dtype=DT[d]), d
        else:
            o = o.cpu()
        low |= cur == "32"
    return o, DT[cur], low


def convert_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"], (60.0, 40.0, 30.0, 25.0, *map(float, case["cut"])))
    num, pos = pad(case["mols"])
    if not case["batch"]:
        num, pos = num[0], pos[0]
    st_ = DT[case["start"]]
    kind, opt, p, ch = case["model"], case["opt"], case["p"], float(case["charge"])

    def ev(obj, dt, kind_):
        x = pos.to(dt)
        if kind_ == "model":
            cn = torch.where(num > 0, 1.5, 0.0).to(dt)
            q = torch.where(num > 0, 0.25, 0.0).to(dt)
            w = obj.weight_references(cn, q)
            return [w, obj.get_atomic_c6(w), obj.get_polarizabilities(w), obj.get_weighted_pols(w), obj.rc6]
        if kind_ == "instance":
            return [d4.dftd4(num, x, T(ch, dt), p, model=obj)]
        if kind_ == "disp":
            return [obj.calculate(num, x, T(ch, dt), p)]
        return [d4.dftd4(num, x, T(ch, dt), p, cutoff=obj)]

    def make(dt):
        if case["obj"] in ("model", "instance"):
            return mk_model(kind, num, dt, **opt)
        if case["obj"] == "disp":
            if case["what"] == "DispD4":
                return DispD4(model=kind, model_kwargs=dict(opt), dtype=dt)
            return disp_of(case["what"], kind, dt, model_kwargs=dict(opt))
        return d4.Cutoff(*case["cut"], dtype=dt)

    orig = make(st_)
    before = ev(orig, st_, case["obj"])
    conv, dt, low = chain(orig, case["chain"], case["start"])
    expect(conv.dtype == dt, f"converted object has dtype {conv.dtype}, expected {dt}")
    got = ev(conv, dt, case["obj"])
    want = ev(make(dt), dt, case["obj"])
    for i, (g, w) in enumerate(zip(got, want)):
        expect(g.dtype == dt, f"converted {case['obj']} gives result {i} of dtype {g.dtype}, expected {dt}")
        # both carry single-precision rounding of different places; energies
        # additionally amplify the rounding of distances
        tol = 1e-12 if not low else 1e-4 if case["obj"] in ("model",) else 3e-5
        sc = w.abs() + 1e-3 * w.abs().max()
        close(g, w, sc, f"converted {case['obj']} vs fresh one, result {i}", tol=tol, atol=1e-30)
    after = ev(orig, st_, case["obj"])
    for g, w in zip(after, before):
        expect(g.dtype == w.dtype and torch.equal(g, w), "converting an object changed the original")
    return {"nontrivial": any(d != case["start"] for _, d in case["chain"]), "tags": [case["obj"], case["what"] if case["obj"] == "disp" else kind]}


SUBS = [
    Sub("energy", case, energy_check, quick=1600, thorough=40000),
    Sub("size", lambda: case(41, 90), energy_check, quick=24, thorough=600),
    Sub("properties", case, props_check, quick=600, thorough=16000),
    Sub("weights", weight_case, weight_check, quick=1200, thorough=30000),
    Sub("types", type_case, type_check, quick=1200, thorough=30000),
    Sub("convert", convert_case, convert_check, quick=900, thorough=20000),
]
