"""C08: C6 coefficients and polarizabilities from Casimir-Polder integration."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.utils import trapzd, trapzd_atm, trapzd_noref
from .. import gen, ref
from ..engine import Sub
from ..util import F64, T, Z, close, expect, finite, mk_model, npa

RULE = (
    "Cases: (model, Hypothesis) lists of 1-12 atoms over all elements with generated weight tensors (physical weights, "
    "one-hot weights, arbitrary weights, weights of either sign), D4/D4S, EEQ/GFN2 reference charges, generated ga/gc, padding and batches; (elements, enumerated) all 103 "
    "elements at once for both models and both reference-charge sets; (quadrature) generated polarizability tensors for the three integration "
    "routines. Oracle: numpy Casimir-Polder quadrature over independently built reference polarizabilities; symmetry, bilinearity, and D4 "
    "C6 rebuilt from the polarizabilities. Non-trivial: at least two atoms and positive C6."
)
ASSUMPTIONS = ["element tables frozen from the base commit are the published ones", "GFN2 reference charges exist up to Rn"]


@st.composite
def case(draw):
    rc = draw(gen.pick("eeq", "eeq", "gfn2"))
    n = draw(gen.ints(1, 12))
    c = {
        "z": draw(gen.elements(n, 103 if rc == "eeq" else 86)),
        "rc": rc,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "style": draw(gen.pick("physical", "onehot", "any", "any", "signed")),
        "seed": draw(gen.ints(0, 10**6)),
        "pad": draw(gen.pick(0, 0, 1, 3)),
        "batch": draw(gen.pick(0, 0, 1)),
        "opt": {},
    }
    if draw(gen.ints(0, 3)) == 0:
        c["opt"] = {"ga": draw(gen.fl(0.5, 4.0)), "gc": draw(gen.fl(0.5, 3.0))}
    return c


def weights(kind, z, style, rng, rc):
    n = len(z)
    shape = (n, 7) if kind == "d4" else (n, n, 7)
    if style == "physical":
        cn = np.array([ref.G["refcovcn"][a].max() for a in z]) * rng.uniform(0.0, 1.2, n)
        q = rng.uniform(-0.5, 0.7, n)
        f = ref.weights_d4 if kind == "d4" else ref.weights_d4s
        return f(z, cn, q, ref_charges=rc)
    if style == "onehot":
        w = np.zeros(shape)
        for ix in np.ndindex(*shape[:-1]):
            a = z[ix[-1]]
            k = rng.choice(np.flatnonzero(ref.G["refc"][a] > 0))
            w[ix + (k,)] = 1.0
        return w
    w = rng.uniform(-1.5 if style == "signed" else 0.0, 2.0, shape)
    ok = ref.G["refc"][z] > 0
    return w * (ok if kind == "d4" else ok[None])


def padded(z, w, k, kind):
    n = len(z)
    zz = list(z) + [0] * k
    ww = np.zeros((n + k, 7) if kind == "d4" else (n + k, n + k, 7))
    if kind == "d4":
        ww[:n] = w
    else:
        ww[:n, :n] = w
    return zz, ww


def compare(kind, z, w, c6, pol, stat, rkw, what=""):
    n = len(z)
    al = ref.ref_alpha(z, **rkw)
    rc6 = ref.c6_d4(al, w) if kind == "d4" else ref.c6_d4s(al, w)
    rpol = ref.pols_d4(al, w) if kind == "d4" else ref.pols_d4s(al, w)
    a = np.abs(w)
    s = ref.c6_d4(al, a) if kind == "d4" else ref.c6_d4s(al, a)
    sp = ref.pols_d4(al, a) if kind == "d4" else ref.pols_d4s(al, a)
    close(c6[:n, :n], rc6, s, f"{what}C6", tol=1e-10, atol=1e-12)
    close(pol[:n], rpol, sp, f"{what}weighted polarizabilities", tol=1e-10, atol=1e-12)
    close(stat[:n], rpol[:, 0], sp[:, 0], f"{what}static polarizabilities", tol=1e-10, atol=1e-12)
    expect(bool((c6[n:] == 0).all()) and bool((c6[:, n:] == 0).all()), "C6 of padding atoms is not zero")
    expect(bool((pol[n:] == 0).all()) and bool((stat[n:] == 0).all()), "polarizability of padding atoms is not zero")
    close(c6[:n, :n], c6[:n, :n].transpose(-1, -2), s, "C6 symmetry", tol=1e-12)
    expect(bool((c6 >= 0).all()) or bool((w < 0).any()), "negative C6")
    return s


def check(case):
    rng = np.random.default_rng(case["seed"])
    kind, z = case["model"], case["z"]
    rkw = {"ref_charges": case["rc"], **case["opt"]}
    w = weights(kind, z, case["style"], rng, case["rc"])
    zz, ww = padded(z, w, case["pad"], kind)
    num, wt = Z(zz), T(ww)
    if case["batch"]:
        # a second, smaller member
        m = max(1, len(z) // 2)
        w2 = w[:m] if kind == "d4" else w[:m, :m]
        z2, ww2 = padded(z[:m], w2, len(zz) - m, kind)
        num, wt = torch.stack([num, Z(z2)]), torch.stack([wt, T(ww2)])
    mdl = mk_model(kind, num, **rkw)
    c6, pol, stat = mdl.get_atomic_c6(wt), mdl.get_weighted_pols(wt), mdl.get_polarizabilities(wt)
    for t, nm in ((c6, "C6"), (pol, "polarizabilities"), (stat, "static polarizabilities")):
        finite(t, nm)
    nat = num.shape[-1]
    expect(tuple(c6.shape) == (*num.shape, nat), f"C6 has shape {tuple(c6.shape)}")
    expect(tuple(pol.shape) == (*num.shape, 23), f"polarizabilities have shape {tuple(pol.shape)}")
    expect(tuple(stat.shape) == tuple(num.shape), f"static polarizabilities have shape {tuple(stat.shape)}")
    if case["batch"]:
        rc6 = compare(kind, z, w, c6[0], pol[0], stat[0], rkw, "member 0: ")
        compare(kind, z[:m], w2, c6[1], pol[1], stat[1], rkw, "member 1: ")
    else:
        rc6 = compare(kind, z, w, c6, pol, stat, rkw)
        # bilinearity: scale the weights of one atom
        i = int(rng.integers(len(z)))
        f = float(rng.uniform(0.1, 3.0))
        w2 = wt.clone()
        if kind == "d4":
            w2[i] *= f
        else:
            w2[:, i] *= f
        c2 = mdl.get_atomic_c6(w2)
        sc = torch.ones_like(c6)
        sc[i] *= f
        sc[:, i] *= f
        mag = torch.zeros_like(c6)
        mag[: len(z), : len(z)] = T(rc6)
        close(c2, c6 * sc, mag * sc, "bilinearity of C6 in the weights", tol=1e-11)
        if kind == "d4":
            close(trapzd_noref(pol), c6, mag, "C6 rebuilt from the polarizabilities", tol=1e-10)
    return {"nontrivial": len(z) > 1 and bool((rc6 > 0).any()), "tags": [kind, case["rc"], case["style"]]}


def elements_cases():
    return [{"model": k, "rc": rc, "seed": s} for s in (0, 1) for k in ("d4", "d4s") for rc in ("eeq", "gfn2")]


def elements_check(case):
    rng = np.random.default_rng(case["seed"])
    zmax = 103 if case["rc"] == "eeq" else 86
    kind = case["model"]
    z = rng.permutation(np.arange(1, zmax + 1))
    w = weights(kind, z, "any", rng, case["rc"])
    if kind == "d4":
        # every (element, reference) on its own
        pairs = [p for p in gen.all_ref_pairs() if p[0] <= zmax]
        zz = np.array([p[0] for p in pairs])
        one = np.zeros((len(pairs), 7))
        one[np.arange(len(pairs)), [p[1] for p in pairs]] = 1.0
        pol = npa(mk_model("d4", Z(zz.tolist()), rc6=torch.zeros(1, dtype=F64), ref_charges=case["rc"]).get_weighted_pols(T(one)))
        al = ref.ref_alpha(zz, ref_charges=case["rc"])
        want = np.einsum("nr,nrw->nw", one, al)
        close(pol, want, np.abs(want), "reference polarizabilities", tol=1e-10, atol=1e-12)
    mdl = mk_model(kind, Z(z.tolist()), ref_charges=case["rc"])
    wt = T(w)
    compare(kind, z, w, mdl.get_atomic_c6(wt), mdl.get_weighted_pols(wt), mdl.get_polarizabilities(wt), {"ref_charges": case["rc"]})
    return {"nontrivial": True, "tags": [kind, case["rc"]]}


@st.composite
def quad_case(draw):
    return {"b": draw(st.lists(gen.ints(1, 3), max_size=2)), "n": draw(gen.ints(1, 6)), "m": draw(gen.ints(1, 5)), "seed": draw(gen.ints(0, 10**6)), "two": draw(st.booleans())}


def quad_check(case):
    rng = np.random.default_rng(case["seed"])
    b, n, m = case["b"], case["n"], case["m"]
    p = rng.uniform(0, 30, (*b, n, 7, 23)) * np.exp(-rng.uniform(0, 2) * ref.FREQ)
    p2 = rng.uniform(0, 30, (*b, m, 7, 23)) if case["two"] else None
    o = p if p2 is None else p2
    args = (T(p),) if p2 is None else (T(p), T(p2))
    want = ref.THOPI * np.einsum("...iaw,...jbw,w->...ijab", p, o, ref.CPW)
    close(trapzd(*args), want, want, "trapzd", tol=1e-12)
    args = tuple(a[..., 0, :] for a in args)
    want = ref.THOPI * np.einsum("...iw,...jw,w->...ij", p[..., 0, :], o[..., 0, :], ref.CPW)
    close(trapzd_noref(*args), want, want, "trapzd_noref", tol=1e-12)
    a = p[..., 0, :]
    t = a[..., :, None, None, :] * a[..., None, :, None, :] * a[..., None, None, :, :]
    want = ref.THOPI * np.einsum("...ijkw,w->...ijk", t, ref.CPW)
    close(trapzd_atm(T(t)), want, want, "trapzd_atm", tol=1e-12)
    return {"nontrivial": n > 1, "tags": ["two" if case["two"] else "one"]}


SUBS = [
    Sub("model", case, check, quick=3000, thorough=80000),
    Sub("elements", lambda: st.nothing(), elements_check, quick=0, exhaustive=elements_cases),
    Sub("quadrature", quad_case, quad_check, quick=400, thorough=8000),
]
