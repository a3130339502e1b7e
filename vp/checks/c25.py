"""C25: model options enter every quantity as documented."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp, DispD4
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from tad_dftd4.model.d4s import D4SDebug
from .. import gen, ref
from ..engine import Discard, Sub
from ..util import F32, F64, T, Z, close, expect, finite, grad, guard, mk_model, npa, pad

RULE = (
    "Cases: (energy) Hypothesis-generated molecules and padded batches over all elements with any subset of the model options ga, gc, wf (number, tensor, pair matrix for D4S, one that depends on "
    "the batch member), ref_charges and rc6 (random symmetric reference coefficients), given to a model instance (positional or by keyword) or as model options of a method object, with EEQ or supplied "
    "charges and approximate or exact three-body term; weights, C6 and polarizabilities of the instance; the debug variant of D4S. (gradient) derivatives with respect to wf and rc6 tensors. Oracle: numpy "
    "reference model with the same options; D4 energies for the debug variant; finite differences. Non-trivial: at least two atoms and one option."
)
ASSUMPTIONS = ["atoms at least 1.2 bohr apart, EEQ matrix safely positive definite", "elements up to Rn with GFN2 reference charges", "no atom at the edge of the underflow of its Gaussians, where the top reference takes over"]


@st.composite
def case(draw, nmax=6, kmax=3):
    k = draw(gen.pick(*([1, 1, 1, 2, 3][: kmax + 2])))
    rc = draw(gen.pick("eeq", "gfn2", "gfn2"))
    kind = draw(gen.pick("d4", "d4s"))
    names = draw(st.lists(gen.pick("ga", "gc", "wf", "rc", "rc6"), unique=True, max_size=5))
    mols = [draw(gen.molecule(1, nmax, 86 if "rc" in names and rc == "gfn2" else 103, rare=16 if k == 1 else 0)) for _ in range(k)]
    o = {}
    if "ga" in names:
        o["ga"] = draw(st.one_of(gen.fl(0.0, 5.0), gen.pick(1, 2, 3.0)))
    if "gc" in names:
        o["gc"] = draw(st.one_of(gen.fl(0.2, 4.0), gen.pick(1, 2.0, 3)))
    if "wf" in names:
        o["wf"] = draw(st.one_of(gen.fl(0.5, 12.0), gen.pick(1, 4, 6.0)))
        o["wfform"] = draw(gen.pick("number", "tensor", "matrix", "matrix") if kind == "d4s" else gen.pick("number", "tensor"))
    if "rc" in names:
        o["rc"] = rc
    if "rc6" in names:
        o["rc6"] = draw(gen.ints(0, 10**6))
    return {
        "mols": mols,
        "batch": k > 1 or draw(gen.ints(0, 3)) == 0,
        "model": kind,
        "o": o,
        "exact": draw(st.booleans()),
        "p": draw(gen.bj_param()),
        "charge": draw(gen.total_charge()),
        "seed": draw(gen.ints(0, 10**6)),
        "useq": draw(st.booleans()),
        "dir": draw(gen.ints(0, 10**6)),
    }


def build(case):
    """Per-member reference options and the packed ones."""
    o, mols = case["o"], case["mols"]
    n = max(len(m["z"]) for m in mols)
    per, pk = [], {}
    for k in ("ga", "gc"):
        if k in o:
            pk[k] = o[k]
    if "rc" in o:
        pk["ref_charges"] = o["rc"]
    for m in mols:
        per.append(dict(pk))
    if "wf" in o:
        form = o["wfform"]
        if form == "matrix":
            w = np.ones((len(mols), n, n)) * 6.0
            for i, m in enumerate(mols):
                k = len(m["z"])
                f = np.random.default_rng([case["seed"], i]).uniform(0.6, 1.6, (k, k))
                w[i, :k, :k] = o["wf"] * 0.5 * (f + f.T)
                per[i]["wf"] = w[i, :k, :k]
            pk["wf"] = T(w if case["batch"] else w[0])
        else:
            for d in per:
                d["wf"] = float(o["wf"])
            pk["wf"] = T(float(o["wf"])) if form == "tensor" else o["wf"]
    rc6 = None
    if "rc6" in o:
        rc6 = np.zeros((len(mols), n, n, 7, 7))
        for i, m in enumerate(mols):
            k = len(m["z"])
            r = np.random.default_rng([o["rc6"], i]).uniform(2.0, 200.0, (k, k, 7, 7))
            rc6[i, :k, :k] = r + r.transpose(1, 0, 3, 2)
        pk["rc6"] = T(rc6 if case["batch"] else rc6[0])
    return per, pk, rc6


def want(case, m, opt, rc6, q, cn):
    """Weights, C6 and polarizabilities of one member."""
    _, w, c6, pol = ref.model(m["z"], cn, q, case["model"], **opt)
    if rc6 is not None:
        k = len(m["z"])
        r = rc6[:k, :k]
        c6 = np.einsum("ijab,ia,jb->ij", r, w, w) if case["model"] == "d4" else np.einsum("ijab,jia,ijb->ij", r, w, w)
    return w, c6, pol


def edge(case, m, opt, cn):
    """Gaussians about to underflow?"""
    for i, a in enumerate(m["z"]):
        wf = opt.get("wf", 6.0 if case["model"] == "d4" else ref.G["wfpair"][a, np.array(m["z"])])
        wf = wf[i] if np.ndim(wf) == 2 else wf
        for f in np.unique(wf):
            if -740.0 < ref._gauss(int(a), cn[i], float(f))[1] < -640.0:
                return True
    return False


def energy_check(case):
    mols, kind, p = case["mols"], case["model"], case["p"]
    xs = [np.array(m["x"], float) for m in mols]
    cns = [ref.cn_d4(m["z"], x) for m, x in zip(mols, xs)]
    per, pk, rc6 = build(case)
    for m, o, cn in zip(mols, per, cns):
        guard(m["z"], m["x"], charges=not case["useq"])
        if edge(case, m, o, cn):
            raise Discard("edge of the underflow")
    num, pos = pad(mols)
    n = num.shape[-1]
    rng = np.random.default_rng(case["seed"])
    qs = [rng.uniform(-0.4, 0.5, len(m["z"])) if case["useq"] else ref.eeq(m["z"], x, case["charge"]) for m, x in zip(mols, xs)]
    q = T(np.stack([np.pad(v, (0, n - len(v))) for v in qs])) if case["useq"] else None
    if not case["batch"]:
        num, pos = num[0], pos[0]
        q = None if q is None else q[0]
    ch = T(float(case["charge"]))
    inst = mk_model(kind, num, **pk)
    cls = DispD4Exact if case["exact"] else DispD4
    run = {
        "instance": lambda: cls(model=inst, dtype=F64).calculate(num, pos, ch, dict(p), q=q),
        "options": lambda: cls(model=kind, model_kwargs=dict(pk), dtype=F64).calculate(num, pos, ch, dict(p), q=q),
    }
    if not case["exact"]:
        run["function"] = lambda: d4.dftd4(num, pos, ch, dict(p), model=inst, q=q)
    if kind == "d4s" and "wf" not in pk:
        dbg = D4SDebug(num, dtype=F64, **pk)
        run["debug"] = lambda: d4.dftd4(num, pos, ch, dict(p), model=dbg, q=q)
    out = {k: f() for k, f in run.items()}
    cn0 = T(np.stack([np.pad(v, (0, n - len(v))) for v in cns])) if case["batch"] else T(cns[0])
    q0 = T(np.stack([np.pad(v, (0, n - len(v))) for v in qs])) if case["batch"] else T(qs[0])
    gw = inst.weight_references(cn0, q0)
    out["weights"], out["C6"], out["pols"], out["static"] = gw, inst.get_atomic_c6(gw), inst.get_weighted_pols(gw), inst.get_polarizabilities(gw)
    for k, v in out.items():
        finite(v, k)
    for i, (m, x, o, qq, cn) in enumerate(zip(mols, xs, per, qs, cns)):
        z = np.asarray(m["z"])
        k = len(z)
        at = {a: (b[i] if case["batch"] else b) for a, b in out.items()}
        w, c6, pol = want(case, m, o, None if rc6 is None else rc6[i], qq, cn)
        close(at["weights"][..., :k, :k, :] if kind == "d4s" else at["weights"][:k], w, 1e-3 + np.abs(w), "weights", tol=1e-8)
        mag = want(case, {**m}, o, None if rc6 is None else np.abs(rc6[i]), qq, cn)[1]
        close(at["C6"][:k, :k], c6, np.abs(mag), "C6", tol=1e-8)
        close(at["pols"][:k], pol, np.abs(pol) + 1e-6, "frequency-dependent polarizabilities", tol=1e-8)
        close(at["static"][:k], pol[:, 0], np.abs(pol[:, 0]) + 1e-6, "static polarizabilities", tol=1e-8)
        # energies: pair terms with charges, triples without
        r4 = ref.G["r4r2"][z]
        e2, m2 = ref.two_body(x, c6, r4, p)
        r0 = p["a1"] * np.sqrt(3.0 * np.outer(r4, r4)) + p["a2"]

        def three(kind_case, oo, exact):
            _, c60, pol0 = want(kind_case, m, oo, None if rc6 is None else rc6[i], np.zeros(k), cn)
            c9 = ref.c9_exact(pol0) if exact else ref.c9_approx(c60)
            return ref.atm(x, c9, r0, 40.0, p.get("s9", 1.0), p.get("alp", 16.0))

        e3, m3 = three(case, o, case["exact"])
        for name in ("instance", "options", "function"):
            if name in at:
                close(at[name][:k], e2 + e3, m2 + m3, f"{kind} energy by {name} with options {sorted(case['o'])}", tol=1e-8)
                expect(bool((at[name][k:] == 0).all()), f"padding has energy by {name}")
        if "debug" in at:
            c4 = {**case, "model": "d4"}
            c6 = want(c4, m, o, None if rc6 is None else rc6[i], qq, cn)[1]
            e2, m2 = ref.two_body(x, c6, r4, p)
            e3, m3 = three(c4, o, False)
            if not edge(c4, m, o, cn):
                close(at["debug"][:k], e2 + e3, m2 + m3, "energy of the debug variant of D4S vs D4", tol=1e-8)
    return {"nontrivial": max(len(m["z"]) for m in mols) > 1 and bool(case["o"]), "tags": [kind, "exact" if case["exact"] else "approx", *sorted(case["o"])]}


def grad_check(case):
    """Derivatives with respect to the weighting factor and the reference coefficients."""
    mols, kind, p = case["mols"], case["model"], case["p"]
    xs = [np.array(m["x"], float) for m in mols]
    case = {**case, "o": {**case["o"], "rc6": case["o"].get("rc6", 1), "wf": case["o"].get("wf", 5.0), "wfform": "matrix" if kind == "d4s" and case["seed"] % 2 else "tensor"}}
    per, pk, _ = build(case)
    for m, o, x in zip(mols, per, xs):
        guard(m["z"], m["x"], charges=False)
        if edge(case, m, o, ref.cn_d4(m["z"], x)):
            raise Discard("edge of the underflow")
    num, pos = pad(mols)
    if not case["batch"]:
        num, pos = num[0], pos[0]
    q = 0.1 * (num > 0).to(F64)
    wf, rc6 = pk.pop("wf"), pk.pop("rc6")

    def ev(w, r):
        m = mk_model(kind, num, **pk, wf=w, rc6=r)
        if case["seed"] % 3 == 0:
            return DispD4(model=m, dtype=F64).calculate(num, pos, T(0.0), dict(p), q=q)
        return d4.dftd4(num, pos, T(0.0), dict(p), model=m, q=q)

    a, b = wf.clone().requires_grad_(True), rc6.clone().requires_grad_(True)
    e = ev(a, b)
    ga, gb = grad(e.sum(), [a, b])
    rng = np.random.default_rng(case["dir"])
    from ..methods import fd

    sc = float(e.detach().abs().sum())
    for name, g, v, f in (("wf", ga, wf, lambda t: ev(t, rc6)), ("rc6", gb, rc6, lambda t: ev(wf, t))):
        expect(g is not None, f"no derivative with respect to {name}")
        finite(g, f"derivative with respect to {name}")
        d = torch.tensor(rng.normal(size=tuple(v.shape)), dtype=F64)
        d = d / d.norm() * (1.0 if name == "wf" else float(v.norm()) + 1e-3)
        ana = float((g * d).sum())
        est, err = fd(lambda t: float(f(v + t * d).sum()), 5e-3 if name == "wf" else 2e-3)
        if err > 1e-4 * (abs(ana) + sc):
            continue
        lim = 3.0 * err + 1e-7 * abs(ana) + 1e-7 * sc + 1e-14
        expect(abs(est - ana) <= lim, f"derivative with respect to {name}: {ana!r} by autodiff, {est!r} numerically (allowed difference {lim:.2e})")
    return {"nontrivial": sc > 1e-9, "tags": [kind]}


SUBS = [
    Sub("energy", case, energy_check, quick=2400, thorough=60000),
    Sub("gradient", lambda: case(5, 2), grad_check, quick=600, thorough=16000),
]
