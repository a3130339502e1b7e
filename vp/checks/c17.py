"""C17: the three-body energy is the damped Axilrod-Teller-Muto sum."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp, get_atm_dispersion
from tad_dftd4.dispersion.d3 import D3ATM
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
from .. import gen, ref
from ..engine import Sub
from ..util import F64, T, Z, close, expect, finite, grad, guard, mk_model, npa, pad

RULE = (
    "Cases: (kernel) 1-3 Hypothesis molecules of 1-9 atoms (clusters, exactly linear and planar, equilateral, wide), alone or as a padded batch, with generated symmetric C9 tensors (spread over decades, arbitrary where two atoms coincide) and radii, s9, alp and cutoffs "
    "between sorted distances; (term) the approximate, exact and van-der-Waals terms of both models, charge dependent or not, with generated CN or geometry, custom r4r2/rvdw, omitted parameters; "
    "(large) 12-32 atoms. Oracle: explicit loop over unordered triples. Non-trivial: at least one triple inside the cutoff."
)
ASSUMPTIONS = ["no distance within 1e-6 relative of the cutoff", "C9 symmetric in its three atoms, radii symmetric"]


def place(d, f):
    if f < 0.0 or len(d) == 0:
        return 40.0
    d = np.concatenate([[0.5], np.unique(np.round(d, 6)), [d.max() + 4.0]])
    i = min(int(f * (len(d) - 1)), len(d) - 2)
    return float(round(0.5 * (d[i] + d[i + 1]), 6))


@st.composite
def geom(draw, nmax=9):
    n = draw(gen.ints(1, nmax))
    style = draw(gen.pick("gen", "gen", "gen", "tri", "line"))
    if style == "gen":
        return draw(gen.geometry(n, styles=("cluster", "cluster", "linear", "planar", "wide")))
    a = draw(gen.fl(2.0, 9.0))
    if style == "tri":
        h = a * 0.5 * 3**0.5
        return [[0.0, 0.0, 0.0], [a, 0.0, 0.0], [0.5 * a, h, 0.0]]
    return [[i * a, 0.0, 0.0] for i in range(n)]


@st.composite
def kernel_case(draw):
    k = draw(gen.pick(1, 1, 2, 3))
    mols = [{"x": draw(geom()), "seed": draw(gen.ints(0, 10**6))} for _ in range(k)]
    return {
        "mols": mols,
        "batch": k > 1 or draw(st.booleans()),
        "extra": draw(gen.pick(0, 0, 2)),
        "cut": draw(st.one_of(gen.fl(0.0, 1.0), gen.pick(-1.0))),
        "s9": draw(st.one_of(gen.fl(0.0, 3.0), gen.pick(1.0, 0.0, -1.0))),
        "alp": draw(st.one_of(gen.pick(16.0, 16.0, 14.0, 12.0, 9.0, 20.0, 10.5), gen.fl(6.0, 22.0))),
        "form": draw(gen.pick("float", "tensor", "default")),
        "grad": draw(gen.ints(0, 3)) == 0,
        "spread": draw(gen.pick(0, 0, 3, 9)),
        "off": draw(gen.pick(1.0, 1.0, 0.0, 1e8, -1e3)),
    }


def sym3(rng, n):
    v = rng.uniform(1.0, 900.0, (n, n, n))
    out = np.zeros_like(v)
    for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        out += v.transpose(p)
    return out / 6.0


def kernel_check(case):
    mols = [dict(m, z=[1 + (m["seed"] + 7 * i) % 103 for i in range(len(m["x"]))]) for m in case["mols"]]
    xs = [np.array(m["x"], float) for m in mols]
    d = np.concatenate([ref.dist(x)[np.triu_indices(len(x), 1)] for x in xs])
    cut = place(d, case["cut"])
    for m in mols:
        guard(m["z"], m["x"], (cut,), charges=False)
    num, pos = pad(mols, extra=case["extra"] if case["batch"] else 0)
    n = num.shape[-1]
    c9 = torch.zeros(len(mols), n, n, n, dtype=F64)
    rad = torch.zeros(len(mols), n, n, dtype=F64)
    rs = []
    for i, m in enumerate(mols):
        k = len(m["x"])
        rng = np.random.default_rng(m["seed"])
        a = sym3(rng, k)
        a = a * 10.0 ** (-case["spread"] * rng.uniform(0.0, 1.0))
        one = 10.0 ** (-case["spread"] * rng.uniform(0.0, 1.0, k) / 3.0)
        a = a * one[:, None, None] * one[None, :, None] * one[None, None, :]
        i3 = np.indices((k, k, k))
        same = (i3[0] == i3[1]) | (i3[1] == i3[2]) | (i3[0] == i3[2])
        a = np.where(same, case["off"] * a, a)  # not a triple: never used
        b = rng.uniform(0.5, 9.0, (k, k))
        b = 0.5 * (b + b.T)
        c9[i, :k, :k, :k] = T(a)
        rad[i, :k, :k] = T(b)
        rs.append((a, b))
    kw = {}
    s9, alp = 1.0, 16.0
    if case["form"] != "default":
        s9, alp = case["s9"], case["alp"]
        kw = {"s9": s9, "alp": alp} if case["form"] == "float" else {"s9": T(s9), "alp": T(alp)}
    if not case["batch"]:
        num, pos, c9, rad = num[0], pos[0], c9[0], rad[0]
    pos.requires_grad_(case["grad"])
    c9.requires_grad_(case["grad"])
    e = get_atm_dispersion(num, pos, c9, rad, T(cut), **kw)
    expect(tuple(e.shape) == tuple(num.shape), f"three-body energy has shape {tuple(e.shape)}")
    finite(e, "three-body energy")
    if case["grad"]:
        g, gc = grad(e.sum(), [pos, c9])
        if g is not None:
            finite(g, "three-body force")
        gc = torch.zeros_like(c9) if gc is None else gc
        finite(gc, "derivative with respect to C9")
        euler = (gc * c9).detach().reshape(len(mols), -1).sum(-1)
    e = e.detach().reshape(len(mols), n)
    nt = False
    for i, m in enumerate(mols):
        k = len(m["x"])
        r, mag = ref.atm(xs[i], rs[i][0], rs[i][1], cut, s9, alp)
        if k < 3:
            expect(bool((e[i] == 0).all()), f"three-body energy of {k} atoms is {e[i].tolist()}")
        close(e[i, :k], r, mag, f"three-body energy of member {i}", tol=1e-10, atol=1e-300)
        expect(bool((e[i, k:] == 0).all()), "padding has three-body energy")
        if case["grad"]:  # linear in C9
            close(euler[i], r.sum(), mag.sum(), "derivative with respect to C9 times C9", tol=1e-9, atol=1e-300)
        nt |= bool(np.any(mag > 0))
    return {"nontrivial": nt, "tags": [f"n{len(x)}" for x in xs] + [case["form"]]}


TERM = {"approx": D4ATMApprox, "exact": D4ATMExact, "vdw": D3ATM}


@st.composite
def term_case(draw, nmin=1, nmax=8):
    k = draw(gen.pick(1, 1, 1, 2)) if nmax < 12 else 1
    mols = [draw(gen.molecule(nmin, nmax, styles=("cluster", "cluster", "linear", "planar", "wide"))) for _ in range(k)]
    p = {}
    for name, lo, hi in (("s9", 0.0, 2.5), ("a1", 0.0, 0.9), ("a2", 0.5, 8.0), ("rs9", 0.7, 1.6)):
        if draw(gen.ints(0, 3)) > 0:
            p[name] = draw(gen.fl(lo, hi))
    if draw(st.booleans()):
        p["alp"] = draw(st.one_of(gen.pick(14.0, 12.0, 18.0, 9.0), gen.fl(7.0, 21.0)))
    return {
        "mols": mols,
        "term": draw(gen.pick("approx", "exact", "vdw")),
        "cdep": draw(st.booleans()),
        "model": draw(gen.pick("d4", "d4s")),
        "p": p,
        "charge": draw(gen.total_charge()),
        "cut": draw(st.one_of(gen.fl(0.0, 1.0), gen.pick(-1.0, -1.0))),
        "opt": draw(st.lists(gen.pick("r4r2", "rvdw", "q"), unique=True)),
        "seed": draw(gen.ints(0, 10**6)),
        "pform": draw(gen.pick("float", "tensor")),
    }


def term_check(case):
    mols = case["mols"]
    xs = [np.array(m["x"], float) for m in mols]
    d = np.concatenate([ref.dist(x)[np.triu_indices(len(x), 1)] for x in xs])
    cut = place(d, case["cut"])
    useq = "q" in case["opt"] and case["cdep"]
    for m in mols:
        guard(m["z"], m["x"], (cut, 30.0, 25.0), charges=case["cdep"] and not useq)
    num, pos = pad(mols)
    n = num.shape[-1]
    disp = Disp(model=case["model"], dtype=F64)
    disp.register(TERM[case["term"]](charge_dependent=case["cdep"]))
    rng = np.random.default_rng(case["seed"])
    kw, per = {}, [dict() for _ in mols]
    if "r4r2" in case["opt"]:
        t = torch.zeros(num.shape, dtype=F64)
        for i, m in enumerate(mols):
            per[i]["r4r2"] = ref.G["r4r2"][m["z"]] * 10 ** rng.uniform(-0.8, 0.5, len(m["z"]))
            t[i, : len(m["z"])] = T(per[i]["r4r2"])
        kw["r4r2"] = t
    if "rvdw" in case["opt"]:
        t = torch.zeros(*num.shape, n, dtype=F64)
        for i, m in enumerate(mols):
            k = len(m["z"])
            v = 10 ** rng.uniform(-0.3, 1.2, (k, k))
            per[i]["rvdw"] = 0.5 * (v + v.T)
            t[i, :k, :k] = T(per[i]["rvdw"])
        kw["rvdw"] = t
    if useq:
        t = torch.zeros(num.shape, dtype=F64)
        for i, m in enumerate(mols):
            per[i]["q"] = [min(max(v, gen.safe_q(a)[0]), gen.safe_q(a)[1]) for v, a in zip(rng.uniform(-1, 1, len(m["z"])), m["z"])]
            t[i, : len(m["z"])] = T(per[i]["q"])
        kw["q"] = t
    if len(mols) == 1:
        num, pos = num[0], pos[0]
        kw = {a: b[0] for a, b in kw.items()}
    p = case["p"]
    tp = {a: T(b) for a, b in p.items()} if case["pform"] == "tensor" else dict(p)
    e = disp.calculate(num, pos, T(case["charge"]), tp, cutoff=d4.Cutoff(disp3=cut, dtype=F64), **kw)
    finite(e, "three-body energy")
    e = e.reshape(len(mols), n)
    nt = False
    for i, m in enumerate(mols):
        r, mag = ref.energy(
            m["z"], xs[i], case["charge"], p, kind=case["model"], terms=("three",), three_charge=case["cdep"], exact=case["term"] == "exact",
            radii="vdw" if case["term"] == "vdw" else "bj", disp3=cut, **per[i],
        )
        # an omitted radius parameter is rounded to the default data type
        tol = 1e-8 if {"a1", "a2"} <= set(p) else 3e-6
        k = len(m["z"])
        if k < 3:
            expect(bool((e[i] == 0).all()), f"three-body energy of {k} atoms is {e[i].tolist()}")
        close(e[i, :k], r, mag, f"{case['term']} three-body energy ({case['model']}) of member {i}", tol=tol, atol=1e-300)
        expect(bool((e[i, k:] == 0).all()), "padding has three-body energy")
        nt |= bool(np.any(mag > 0))
    return {"nontrivial": nt, "tags": [case["term"], case["model"], "charged" if case["cdep"] else "neutral", *case["opt"]]}


# ---- C9 coefficients themselves


@st.composite
def c9_case(draw):
    n = draw(gen.ints(1, 7))
    z = draw(gen.elements(n))
    return {"z": z, "cn": [draw(gen.cn_for(a)) for a in z], "q": draw(gen.charges(z)), "term": draw(gen.pick("approx", "exact", "vdw")), "cdep": draw(st.booleans()), "model": draw(gen.pick("d4", "d4s"))}


def c9_check(case):
    z, cn, q, kind = case["z"], np.array(case["cn"]), np.array(case["q"]), case["model"]
    t = TERM[case["term"]](charge_dependent=case["cdep"])
    c9 = npa(t.get_c9(mk_model(kind, Z(z)), T(cn), T(q)))
    _, _, c6, pol = ref.model(z, cn, q if case["cdep"] else 0.0 * q, kind)
    n = len(z)
    i, j, k = (v.reshape(-1) for v in np.meshgrid(range(n), range(n), range(n), indexing="ij"))
    f = ref.c9_exact(pol) if case["term"] == "exact" else ref.c9_approx(c6)
    want = f(i, j, k).reshape(n, n, n)
    close(c9, want, np.abs(want), f"C9 ({case['term']}, {kind})", tol=1e-8, atol=1e-12)
    for p in ((1, 0, 2), (0, 2, 1), (2, 1, 0)):
        close(c9, c9.transpose(p), np.abs(c9), "C9 under exchange of atoms", tol=1e-11, atol=1e-12)
    return {"nontrivial": n > 2, "tags": [case["term"], kind]}


def giant_cases():
    return [
        {"mols": [gen.large(n, 9, 4.5, few)], "term": term, "cdep": True, "model": kind, "p": {"s9": 1.1, "a1": 0.4, "a2": 5.0, "rs9": 1.3}, "charge": 1, "cut": cut, "opt": [], "seed": 1, "pform": "float"}
        for n, few, term, kind, cut in ((130, 0, "approx", "d4", -1.0), (160, 3, "vdw", "d4s", 0.6), (140, 2, "exact", "d4", 0.5))
    ]


SUBS = [
    Sub("giant", lambda: None, term_check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("kernel", kernel_case, kernel_check, quick=3000, thorough=80000),
    Sub("term", term_case, term_check, quick=2000, thorough=50000),
    Sub("c9", c9_case, c9_check, quick=1000, thorough=20000),
    Sub("large", lambda: term_case(12, 32), term_check, quick=48, thorough=1000),
    Sub("huge", lambda: term_case(41, 90), term_check, quick=32, thorough=600),
]
