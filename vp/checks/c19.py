"""C19: the pair-resolved two-body energy."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import dispersion2
from .. import gen, ref
from ..engine import Sub
from ..methods import DAMP
from ..util import F64, T, Z, close, expect, finite, grad, guard, npa, pad

RULE = (
    "Cases: 1-3 Hypothesis molecules of 1-10 atoms, alone or as padded batch, with generated symmetric C6, r4r2 and van der Waals radii, all damping functions and parameters (s10, zero and negative s8 "
    "included), cutoffs between sorted distances; (local) one atom moved or one pair's C6 changed; (distance) a dimer scanned over generated distances. Oracle: numpy pair terms; symmetry, zero diagonal "
    "and padding, half row sums equal the atom-resolved result, sign, monotonic decay, and that other pairs stay bitwise equal. Non-trivial: at least two atoms."
)
ASSUMPTIONS = ["no distance within 1e-6 relative of the cutoff", "monotonic decay holds per damping function where the exact expression is monotonic (rational damping always; the others beyond their damping region)"]


@st.composite
def params(draw, damp, neg):
    p = draw(gen.bj_param(s10=damp == "bj", neg=neg))
    if damp in ("zero", "mzero"):
        p.update(rs6=draw(gen.fl(0.5, 1.5)), rs8=draw(gen.fl(0.5, 1.3)))
    if damp in ("mzero", "op"):
        p["bet"] = draw(gen.pick(0.0, 0.05, 0.1) if damp == "mzero" else gen.pick(0.0, 2.0, 4.0, 6.0))
    if draw(gen.ints(0, 5)) == 0:
        p["s6"] = 0.0
    return p


def place(d, f):
    if f < 0.0 or len(d) == 0:
        return None
    d = np.concatenate([[0.5], np.unique(np.round(d, 6)), [d.max() + 4.0]])
    i = min(int(f * (len(d) - 1)), len(d) - 2)
    return float(round(0.5 * (d[i] + d[i + 1]), 6))


@st.composite
def case(draw, nmin=1, nmax=10):
    k = draw(gen.pick(1, 1, 2, 3))
    mols = [{**draw(gen.molecule(nmin, nmax)), "seed": draw(gen.ints(0, 10**6))} for _ in range(k)]
    damp = draw(gen.pick("bj", "bj", "zero", "mzero", "op"))
    neg = draw(gen.ints(0, 4)) == 0
    return {
        "mols": mols,
        "batch": k > 1 or draw(st.booleans()),
        "extra": draw(gen.pick(0, 0, 2)),
        "damp": damp,
        "p": draw(params(damp, neg)),
        "pform": draw(gen.pick("float", "tensor")),
        "cut": draw(st.one_of(gen.fl(0.0, 1.0), gen.pick(-1.0, -1.0))),
        "real": draw(st.booleans()),
    }


def arrays(m, real):
    z = np.asarray(m["z"])
    k = len(z)
    rng = np.random.default_rng(m["seed"])
    c6 = rng.uniform(1.0, 800.0, (k, k))
    c6 = 0.5 * (c6 + c6.T)
    if real:
        return c6, ref.G["r4r2"][z], ref.G["rvdw"][z[:, None], z[None, :]]
    rv = 10 ** rng.uniform(-0.3, 1.2, (k, k))
    return c6, 10 ** rng.uniform(-0.5, 1.2, k), 0.5 * (rv + rv.T)


def setup(case):
    mols = case["mols"]
    xs = [np.array(m["x"], float) for m in mols]
    d = np.concatenate([ref.dist(x)[np.triu_indices(len(x), 1)] for x in xs])
    cut = place(d, case["cut"])
    for m in mols:
        guard(m["z"], m["x"], (60.0 if cut is None else cut,), charges=False)
    num, pos = pad(mols, extra=case["extra"] if case["batch"] else 0)
    n = num.shape[-1]
    c6 = torch.zeros(len(mols), n, n, dtype=F64)
    r4 = torch.zeros(len(mols), n, dtype=F64)
    rv = torch.zeros(len(mols), n, n, dtype=F64)
    arr = [arrays(m, case["real"]) for m in mols]
    for i, (a, b, c) in enumerate(arr):
        k = len(b)
        c6[i, :k, :k], r4[i, :k], rv[i, :k, :k] = T(a), T(b), T(c)
    if not case["batch"]:
        num, pos, c6, r4, rv = num[0], pos[0], c6[0], r4[0], rv[0]
    p = {k: T(v) for k, v in case["p"].items()} if case["pform"] == "tensor" else dict(case["p"])

    def ev(x=pos, c=c6, **kw):
        return dispersion2(num, x, dict(p), c, r4, rv, DAMP[case["damp"]](), **({} if cut is None else {"cutoff": T(cut)}), **kw)

    return mols, xs, arr, n, num, pos, c6, cut, ev


def matrix_check(case):
    mols, xs, arr, n, num, pos, c6, cut, ev = setup(case)
    m = ev(as_matrix=True)
    a = ev()
    a2 = ev(as_matrix=False)
    lead = (len(mols),) if case["batch"] else ()
    expect(tuple(m.shape) == (*lead, n, n), f"pair matrix has shape {tuple(m.shape)}")
    expect(tuple(a.shape) == (*lead, n), f"atom-resolved energy has shape {tuple(a.shape)}")
    finite(m, "pair matrix")
    expect(bool(torch.equal(a, a2)), "as_matrix=False differs from the default")
    close(0.5 * m.sum(-1), a, 0.5 * m.abs().sum(-1), "half row sums of the pair matrix", tol=1e-12, atol=1e-300)
    # the energy is linear in C6; both forms have the same derivatives
    ct = c6.clone().requires_grad_(True)
    (gc,) = grad(ev(c=ct).sum(), ct)
    gc = torch.zeros_like(c6) if gc is None else gc
    finite(gc, "derivative with respect to C6")
    gc = (gc * c6).reshape(len(mols), n, n)
    forms = []
    for kw in ({}, {"as_matrix": True}):
        xt = pos.clone().requires_grad_(True)
        (g,) = grad(ev(x=xt, **kw).sum(), xt)
        g = torch.zeros_like(pos) if g is None else g
        finite(g, "derivative of the pair energy")
        forms.append(g * 0.5 if kw else g)
    close(forms[1], forms[0], float(forms[0].abs().max()), "derivative of half the pair matrix", tol=1e-9, atol=1e-300)
    m, a = m.reshape(len(mols), n, n), a.reshape(len(mols), n)
    p = case["p"]
    for i, mol in enumerate(mols):
        k = len(mol["z"])
        b = m[i]
        close(b, b.mT, b.abs(), "pair matrix is not symmetric", tol=1e-12, atol=0.0)
        expect(bool((torch.diagonal(b) == 0).all()), f"pair matrix has diagonal {torch.diagonal(b).tolist()}")
        expect(bool((b[k:] == 0).all()) and bool((b[:, k:] == 0).all()), "pair matrix has non-zero padding")
        r, mag = ref.pair_matrix(xs[i], arr[i][0], arr[i][1], p, 60.0 if cut is None else cut, case["damp"], arr[i][2])
        close(b[:k, :k], r, mag, f"{case['damp']} pair matrix", tol=1e-9, atol=1e-290)
        close(a[i, :k], 0.5 * r.sum(-1), 0.5 * mag.sum(-1), f"{case['damp']} atom-resolved energy", tol=1e-9, atol=1e-290)
        close(gc[i, :k, :k], 0.5 * r, 0.5 * mag, "derivative with respect to C6 times C6", tol=1e-9, atol=1e-290)
        if min(p.get("s6", 1.0), p["s8"], p.get("s10", 0.0)) >= 0.0:
            expect(bool((b <= 0).all()), f"pair matrix has positive entries: {float(b.max())!r}")
    return {"nontrivial": any(len(m_["z"]) > 1 for m_ in mols), "tags": [case["damp"], "batch" if case["batch"] else "single"]}


def local_check(case):
    mols, xs, arr, n, num, pos, c6, cut, ev = setup(case)
    m = ev(as_matrix=True).reshape(len(mols), n, n)
    b = case["mols"][0]["seed"] % len(mols)
    k = len(mols[b]["z"])
    if k < 3:
        return {"nontrivial": False}
    i = (case["mols"][0]["seed"] // 7) % k
    # scale C6 of one pair only
    j = (i + 1) % k
    c = c6.clone().reshape(len(mols), n, n)
    c[b, i, j] *= 2.0
    c[b, j, i] *= 2.0
    m2 = ev(c=c.reshape(c6.shape), as_matrix=True).reshape(len(mols), n, n)
    want = m.clone()
    want[b, i, j] *= 2.0
    want[b, j, i] *= 2.0
    close(m2, want, want.abs(), "changing one C6 changed another pair", tol=1e-13, atol=0.0)
    # move one atom: only its row and column change
    x = pos.clone().reshape(len(mols), n, 3)
    x[b, i] += T([0.05, -0.03, 0.02])
    m3 = ev(x=x.reshape(pos.shape), as_matrix=True).reshape(len(mols), n, n)
    mask = torch.ones(len(mols), n, n, dtype=torch.bool)
    mask[b, i] = False
    mask[b, :, i] = False
    close(m3[mask], m[mask], m[mask].abs(), "moving an atom changed a pair it is not part of", tol=1e-12, atol=0.0)
    return {"nontrivial": True, "tags": [case["damp"]]}


@st.composite
def scan_case(draw):
    damp = draw(gen.pick("bj", "bj", "bj", "zero", "mzero", "op"))
    return {
        "z": [draw(gen.ints(1, 103)), draw(gen.ints(1, 103))],
        "damp": damp,
        "p": draw(params(damp, False)),
        "r": draw(st.lists(gen.fl(0.5, 59.0), min_size=2, max_size=8, unique=True)),
        "c6": draw(gen.fl(0.5, 2000.0)),
        "dir": [draw(gen.ints(-5, 5)) for _ in range(3)],
    }


def scan_check(case):
    z = np.asarray(case["z"])
    rs = np.array(sorted(case["r"]))
    u = np.array(case["dir"], float)
    u = np.array([1.0, 0.0, 0.0]) if not u.any() else u / np.linalg.norm(u)
    r4, rv = ref.G["r4r2"][z], ref.G["rvdw"][z[:, None], z[None, :]]
    c6 = np.full((2, 2), case["c6"])
    num = Z(z.tolist()).expand(len(rs), 2)
    pos = T(np.stack([np.zeros((len(rs), 3)), rs[:, None] * u[None, :]], 1))
    k = len(rs)
    m = dispersion2(num, pos, dict(case["p"]), T(c6).expand(k, 2, 2), T(r4).expand(k, 2), T(rv).expand(k, 2, 2), DAMP[case["damp"]](), as_matrix=True)
    v = npa(m)[:, 0, 1]
    ex = []
    for r in rs:
        x = np.stack([np.zeros(3), r * u])
        ex.append(ref.pair_matrix(x, c6, r4, case["p"], 60.0, case["damp"], rv)[0][0, 1])
    ex = np.array(ex)
    # quadratic expansion of the distance: relative error of the distance below 1e-12
    close(v, ex, np.abs(ex), f"{case['damp']} dimer energies", tol=1e-9, atol=1e-290)
    expect(bool((v <= 0).all()), f"positive pair energy {v.max()!r}")
    if case["damp"] == "bj":
        expect(bool((np.abs(v[1:]) <= np.abs(v[:-1]) * (1 + 1e-11)).all()), f"pair energy grows with distance: {rs.tolist()} {v.tolist()}")
    else:
        ok = rs > 2.0 * max(rv.max() * max(case["p"].get("rs6", 1.0), case["p"].get("rs8", 1.0), 1.0), case["p"]["a1"] * np.sqrt(3 * r4[0] * r4[1]) + case["p"]["a2"])
        w = np.abs(v[ok])
        expect(bool((w[1:] <= w[:-1] * (1 + 1e-11)).all()), f"pair energy grows with distance: {rs[ok].tolist()} {w.tolist()}")
    return {"tags": [case["damp"]]}


def giant_cases():
    return [
        {"mols": [{**gen.large(n, 13, 4.5, few), "seed": n}], "batch": False, "extra": 0, "damp": damp, "p": {"s8": 1.0, "a1": 0.4, "a2": 5.0, "rs6": 1.1, "rs8": 0.9, "alp": 14.0}, "pform": "float", "cut": cut, "real": True}
        for n, few, damp, cut in ((180, 0, "bj", -1.0), (257, 3, "zero", 0.4), (300, 0, "bj", 0.7))
    ]


SUBS = [
    Sub("giant", lambda: None, matrix_check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("matrix", case, matrix_check, quick=2400, thorough=60000),
    Sub("local", lambda: case(3, 8), local_check, quick=800, thorough=16000),
    Sub("distance", scan_case, scan_check, quick=1600, thorough=40000),
    Sub("large", lambda: case(12, 40), matrix_check, quick=48, thorough=1000),
    Sub("huge", lambda: case(41, 120), matrix_check, quick=48, thorough=1000),
]
