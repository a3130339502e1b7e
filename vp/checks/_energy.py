"""Energy against the reference model: shared by C01 (D4) and C02 (D4S)."""
from __future__ import annotations

import json
import os

import numpy as np
import torch
from hypothesis import strategies as st
from tad_mctc.ncoord import erf_count, exp_count

import tad_dftd4 as d4
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from .. import gen, ref
from ..boot import VERIF
from ..engine import Discard
from ..methods import DAMP
from ..util import F64, T, Z, close, expect, finite, fixed_cn, guard, mk_model, tags_z


with open(os.path.join(VERIF, "data", "params.json")) as _f:
    _DB = json.load(_f)
SETS = sorted(
    (m, f, v)
    for m in ("d3", "d4")
    for f, b in _DB[m]["parameter"].items()
    for v in b.get(m, {})
    if m == "d4" or v in ("bj", "bjm")
)


@st.composite
def molecule_case(draw, nmin=1, nmax=11, big=False):
    styles = ("cluster", "cluster", "wide", "frag") if big else None
    m = draw(gen.molecule(nmin, nmax, styles=styles))
    c = {**m, "charge": draw(gen.total_charge()), "p": draw(gen.bj_param(neg=True)), "opt": {}}
    o = c["opt"]
    if draw(gen.ints(0, 3)) == 0:
        o["q"] = draw(gen.charges(m["z"]))
    if draw(gen.ints(0, 5)) == 0:
        o["r4r2"] = [draw(gen.fl(0.1, 4.0)) for _ in m["z"]]
    if draw(gen.ints(0, 4)) == 0:
        o["counting"] = "exp"
    if draw(gen.ints(0, 4)) == 0:
        o["cut"] = [draw(gen.fl(2.0, 70.0)), draw(gen.fl(2.0, 50.0)), draw(gen.fl(2.0, 30.0))]
    if draw(gen.ints(0, 5)) == 0:
        o["shift"] = [draw(gen.fl(-60.0, 60.0, 1)) for _ in range(3)]
    if draw(gen.ints(0, 3)) == 0:
        k = o["damp"] = draw(gen.pick("zero", "mzero", "op", "bj"))
        if k in ("zero", "mzero"):
            c["p"].update(rs6=draw(gen.fl(0.6, 1.5)), rs8=draw(gen.fl(0.6, 1.3)))
        if k == "mzero":
            c["p"]["bet"] = draw(gen.pick(0.0, 0.01, 0.05, 0.1))
        if k == "op":
            c["p"]["bet"] = draw(gen.pick(0.0, 1.5, 2.0, 4.0, 6.0))
        if k != "bj":
            c["p"].pop("s10", None)
    if draw(gen.ints(0, 3)) == 0:
        o["rvdw"] = draw(gen.ints(0, 10**6))
    o["form"] = draw(gen.pick("float", "tensor", "tensor", "model", "class", "key"))
    if o.get("damp", "bj") == "bj" and draw(gen.ints(0, 5)) == 0:  # a set from the database, as it is
        o["db"] = [*draw(st.sampled_from(SETS)), draw(st.booleans())]
        o["form"] = draw(gen.pick("float", "model", "class", "key"))
    if draw(gen.ints(0, 19)) == 0:
        c["charge"] = draw(gen.pick(-4, 4, 5, 6, -6, 8, 2.75))
    return c


def giant_cases():
    """A few molecules of 131 to 260 atoms."""
    out = []
    for i, (n, few, form, opt) in enumerate(((150, 0, "float", {}), (200, 4, "tensor", {"counting": "exp"}), (257, 2, "class", {"cut": [21.123457, 17.512341, 25.0]}))):
        m = gen.large(n, 17 + i, 4.5, few)
        out.append({**m, "charge": i - 1, "p": {"s8": 1.1, "a1": 0.4, "a2": 4.8, "s9": 1.2}, "opt": {**opt, "form": form}})
    return out


def dict_param(p, form):
    if form in ("float", "key"):
        return dict(p)
    return {k: T(v) for k, v in p.items()}


def molecule_check(kind):
    def check(case):
        z, x, o, p = case["z"], np.array(case["x"], float), case["opt"], case["p"]
        cut = o.get("cut", [60.0, 40.0, 25.0])
        guard(z, x, (*cut, 30.0), charges="q" not in o)
        if "shift" in o:
            x = x + np.array(o["shift"])
        kw, rkw = {}, {}
        if "q" in o:
            kw["q"] = T(o["q"])
            rkw["q"] = o["q"]
        if "r4r2" in o:
            v = np.array(o["r4r2"]) * ref.G["r4r2"][z]
            kw["r4r2"] = T(v)
            rkw["r4r2"] = v
        if "rvdw" in o:
            v = np.random.default_rng(o["rvdw"]).uniform(0.2, 2.5, (len(z), len(z)))
            v = np.round(0.5 * (v + v.T), 6) * ref.G["rvdw"][np.array(z)[:, None], np.array(z)[None, :]]
            kw["rvdw"] = T(v)
            rkw["rvdw"] = v
        if "damp" in o:
            rkw["damping"] = o["damp"]
        if "cut" in o:
            kw["cutoff"] = d4.Cutoff(*cut[:2], cn_eeq=cut[2], dtype=F64)
            rkw.update(disp2=cut[0], disp3=cut[1], cn_eeq=cut[2])
        if "counting" in o:
            rkw["counting"] = o["counting"]
        cf = exp_count if o.get("counting") == "exp" else erf_count
        num, pos = Z(z), T(x)
        form = o["form"]
        chg = case["charge"] if form in ("float", "key") else T(case["charge"])
        par = dict_param(p, form)
        if "db" in o:
            meth, func, var, doi = o["db"]
            par = d4.get_params(method=meth, functional=func, variant=var, keep_doi=doi)
            p = {k: v for k, v in _DB[meth]["parameter"][func][meth][var].items() if isinstance(v, (int, float))}
            p.setdefault("s8", 0.0)
        if form == "class":
            disp = d4.dispersion.DispD4(model=kind, cn_fn_kwargs={"counting_function": cf}, dtype=F64)
            if "damp" in o:
                disp.deregister([t for t in disp.terms if isinstance(t, TwoBodyTerm)][0])
                disp.register(TwoBodyTerm(damping_fn=DAMP[o["damp"]](), charge_dependent=True))
            e = disp.calculate(num, pos, chg, par, **kw)
        else:
            mdl = kind.upper() if form == "key" else mk_model(kind, num) if form == "model" else kind
            if "damp" in o:
                kw["damping_function"] = DAMP[o["damp"]]()
            e = d4.dftd4(num, pos, chg, par, model=mdl, counting_function=cf, **kw)
        r, mag = ref.energy(z, x, case["charge"], p, kind=kind, **rkw)
        finite(e, f"{kind} energy")
        close(e, r, mag, f"{kind} atomic energy differs from the DFT-D4 expression", tol=1e-10 if "q" in o else 1e-8)
        expect(e.dtype == F64, f"dtype {e.dtype}")
        return {"nontrivial": len(z) > 1 and float(np.abs(r).max()) > 1e-9, "tags": tags_z(z) + sorted(o)}

    return check


# ---- prescribed coordination numbers and charges: every element, reference


def grid(n, spacing, seed):
    rng = np.random.default_rng(seed)
    m = int(np.ceil(n ** (1 / 3) - 1e-9))
    sites = np.array([(a, b, c) for a in range(m) for b in range(m) for c in range(m)], float)
    sites = sites[rng.permutation(len(sites))[:n]]
    return np.round(spacing * (sites + rng.uniform(-0.2, 0.2, (n, 3))), 5)


def sweep_cases(rounds=2):
    """All (element, reference) combinations, 16 atoms at a time, at CNs on and
    around the reference values."""
    pairs = gen.all_ref_pairs()
    out = []
    for r in range(rounds):
        rng = np.random.default_rng(100 + r)
        order = rng.permutation(len(pairs))
        for s in range(0, len(pairs), 16):
            out.append({"pairs": [list(map(int, pairs[i])) for i in order[s : s + 16]], "seed": int(1000 * r + s), "s9": 1.0 if r % 2 == 0 else 0.0})
    return out


@st.composite
def sweep_random(draw):
    n = draw(gen.ints(2, 20))
    pairs = gen.all_ref_pairs()
    return {
        "pairs": [list(draw(st.sampled_from(pairs))) for _ in range(n)],
        "seed": draw(gen.ints(0, 10**6)),
        "s9": draw(gen.pick(0.0, 1.0)),
    }


def sweep_check(kind):
    def check(case):
        rng = np.random.default_rng(case["seed"])
        z = [p[0] for p in case["pairs"]]
        n = len(z)
        cn = np.array([ref.G["refcovcn"][a, k] for a, k in case["pairs"]])
        cn = np.maximum(0.0, np.round(cn + rng.choice([0.0, 0.05, -0.05, 0.3, -0.3, 0.6], n), 6))
        q = np.round(rng.uniform(-0.6, 0.9, n), 6)
        x = grid(n, 2.0, case["seed"])
        p = {"s6": 1.0, "s8": 0.7, "s9": case["s9"], "a1": 0.3, "a2": 6.0}
        guard(z, x, charges=False, dmin=0.8)
        e = d4.dftd4(Z(z), T(x), 0.0, p, model=kind, q=T(q), cn_function=fixed_cn(cn))
        r, mag = ref.energy(z, x, 0.0, p, kind=kind, q=q, cn=cn)
        finite(e, f"{kind} energy")
        close(e, r, mag, f"{kind} energy at prescribed CN and charges", tol=1e-11)
        return {"nontrivial": n > 1, "tags": [f"Z{a}r{k}" for a, k in case["pairs"]]}

    return check


# ---- all 103 elements in one molecule: every element pair at once


def all_cases(n):
    return [{"seed": i} for i in range(n)]


def all_check(kind):
    def check(case):
        rng = np.random.default_rng(case["seed"])
        z = rng.permutation(np.arange(1, 104))
        cn = []
        for a in z:
            ok = ref.G["refc"][a] > 0
            rr = sorted(set(ref.G["refcovcn"][a][ok].tolist()))
            i = rng.integers(0, max(1, len(rr) - 1))
            lo, hi = rr[i], rr[min(i + 1, len(rr) - 1)]
            cn.append(max(0.0, 0.5 * (lo + hi) + rng.uniform(-0.1, 0.1)))
        cn = np.round(cn, 6)
        q = np.round(rng.uniform(-0.5, 0.8, len(z)), 6)
        x = grid(len(z), 1.6, case["seed"])
        p = {"s6": 1.0, "s8": 0.0, "s9": 0.0, "a1": 0.1, "a2": 8.0}
        e = d4.dftd4(Z(z.tolist()), T(x), 0.0, p, model=kind, q=T(q), cn_function=fixed_cn(cn))
        r, mag = ref.energy(z, x, 0.0, p, kind=kind, q=q, cn=cn, terms=("two",))
        close(e, r, mag, f"{kind} energy of a cluster of all elements", tol=1e-10)
        # pair-resolved, so that no pair hides behind larger ones
        m = mk_model(kind, Z(z.tolist()))
        c6 = m.get_atomic_c6(m.weight_references(T(cn), T(q)))
        rc6 = ref.model(z, cn, q, kind)[2]
        close(c6, rc6, rc6, f"{kind} pair C6 of a cluster of all elements", tol=1e-9)
        return {"nontrivial": True}

    return check
