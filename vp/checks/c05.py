"""C05: forces are the derivative of the energy, balanced and finite."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from .. import gen, ref
from ..engine import Discard, Sub
from ..methods import WHAT, evaluator, fd, param
from ..util import F64, T, Z, expect, finite, grad, guard, mk_model, npa, pad

RULE = (
    "Cases: (fd) Hypothesis-generated molecules of 2-9 atoms, all elements, seven energy methods (D4/D4S, approximate/exact C9, four damping "
    "functions), EEQ or supplied charges, optional radii and cutoffs, with a random displacement direction; (short) the same with 2-4 atoms at bonds of 0.9-2 bohr; (extreme) single atoms, clusters with CN far beyond "
    "the references, separations up to 4000 bohr, ions whose effective charge vanishes, padded batches. Oracle: sixth-order "
    "finite-difference derivative of the computed energy along the direction, with its own truncation estimate; force and "
    "torque sums zero; all finite. Non-trivial: directional derivative above 1e-9 hartree/bohr (fd) or a non-empty extreme feature."
)
ASSUMPTIONS = [
    "no distance within 0.05 bohr of a two- or three-body cutoff (energy jumps there by definition; the counting functions vanish at theirs)",
    "cases whose finite-difference error estimate exceeds 1e-4 of the force scale are discarded",
    "no atom inside the narrow CN window in which the double-precision Gaussians underflow",
]


@st.composite
def case(draw, nmin=2, nmax=9):
    m = draw(gen.molecule(nmin, nmax))
    what = draw(gen.pick(*WHAT))
    c = {
        **m,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "charge": draw(gen.total_charge()),
        "p": draw(param(what)),
        "dir": draw(gen.ints(0, 10**6)),
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = draw(gen.charges(m["z"]))
    c["opt"] = draw(st.lists(gen.pick("r4r2", "rvdw", "cutoff", "model"), unique=True)) if draw(gen.ints(0, 2)) == 0 else []
    return c


@st.composite
def short(draw):
    """Molecules whose shortest bond is as long as, or shorter than, that of H2."""
    c = draw(case(2, 4))
    d, f = gen.min_dist(c["x"]), draw(gen.fl(0.9, 2.0))
    c["x"] = [[round(v * f / d, 5) for v in r] for r in c["x"]]
    c["dmin"] = 0.85
    if draw(st.booleans()) and "a1" in c["p"]:
        c["p"].update(a1=draw(gen.fl(0.0, 0.3)), a2=draw(gen.fl(0.3, 2.0)))
    return c


def options(case, num):
    """Optional inputs of the call."""
    kw, n = {}, num.shape[-1]
    f = 0.9 + 0.2 * ((torch.arange(n, dtype=F64) * 0.37) % 1.0)
    if "r4r2" in case["opt"]:
        kw["r4r2"] = T(ref.G["r4r2"])[num] * f
    if "rvdw" in case["opt"]:
        kw["rvdw"] = T(ref.G["rvdw"])[num.unsqueeze(-1), num.unsqueeze(-2)] * 0.5 * (f.unsqueeze(-1) + f.unsqueeze(-2))
    if "cutoff" in case["opt"]:
        kw["cutoff"] = d4.Cutoff(disp2=CUT[0], disp3=CUT[1], cn_eeq=CUT[2], dtype=F64)
    return kw


CUT = (9.123457, 7.512341, 11.712343)


def in_window(z, x, kind):
    """Is some atom's CN where its Gaussians are about to underflow?"""
    cn = ref.cn_d4(z, np.asarray(x, float))
    for zi, c in zip(z, cn):
        wfs = [6.0] if kind == "d4" else [float(ref.G["wfpair"][zi, zj]) for zj in set(z)]
        for wf in wfs:
            lg = ref._gauss(int(zi), c, wf)[1]
            if -740.0 < lg < -640.0:
                return True
    return False


def balance(x, g, what):
    x, g = np.asarray(x, float), npa(g)
    s = np.abs(g).sum()
    net = g.sum(0)
    expect(np.abs(net).max() <= 1e-9 * s + 1e-15, f"{what}: forces sum to {net.tolist()} (sum of magnitudes {s:.3e})")
    y = x - x.mean(0)
    tq = np.cross(y, g).sum(0)
    ts = (np.linalg.norm(y, axis=1) * np.linalg.norm(g, axis=1)).sum()
    expect(np.abs(tq).max() <= 1e-8 * ts + 1e-14, f"{what}: net torque {tq.tolist()} (scale {ts:.3e})")


def fd_check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x, charges=False, dmin=case.get("dmin", 1.6))
    if gen.near_cutoff_abs(x, (60.0, 40.0) + (CUT if "cutoff" in case["opt"] else ()), 0.05) or in_window(z, x, case["model"]):
        raise Discard("cutoff or underflow window")
    if "q" not in case and len(z) > 1 and ref.eeq_margin(z, x) < 0.02:
        raise Discard("EEQ")
    n, ch, q = Z(z), T(case["charge"]), (T(case["q"]) if "q" in case else None)
    p, opt = case["p"], options(case, n)
    go = evaluator(case["what"], mk_model(case["model"], n) if "model" in case["opt"] else case["model"])
    ev = lambda *a: go(*a, **opt)
    xt = T(x).requires_grad_(True)
    e = ev(n, xt, ch, p, q)
    (g,) = grad(e.sum(), xt)
    finite(g, "force")
    balance(x, g, "force")
    rng = np.random.default_rng(case["dir"])
    d = rng.normal(size=x.shape)
    if case["dir"] % 3 == 0:  # one atom only
        i = case["dir"] // 3 % len(z)
        keep = d[i].copy()
        d[:] = 0.0
        d[i] = keep
    d /= np.linalg.norm(d)
    num, err = fd(lambda s: float(ev(n, T(x + s * d), ch, p, q).sum()), 4e-3)
    ana = float((npa(g) * d).sum())
    escale = float(e.detach().abs().sum())
    gscale = float(g.norm())
    if err > 1e-4 * gscale + 1e-7 * escale:
        raise Discard("finite difference not converged")
    lim = 3.0 * err + 1e-7 * gscale + 2e-7 * escale + 1e-14
    expect(abs(num - ana) <= lim, f"directional derivative {ana!r} by autodiff, {num!r} numerically (allowed difference {lim:.2e})")
    return {"nontrivial": abs(ana) > 1e-9, "tags": [case["what"], case["model"], "q" if "q" in case else "eeq", *case["opt"]]}


@st.composite
def extreme(draw):
    what = draw(gen.pick(*WHAT))
    feat = draw(gen.pick("single", "dense", "dense", "far", "ion", "ion", "pairs"))
    mols = []
    for _ in range(draw(gen.pick(1, 1, 2, 3))):
        if feat == "single":
            m = {"z": [draw(gen.ints(1, 103))], "x": [[draw(gen.fl(-5.0, 5.0)) for _ in range(3)]]}
        elif feat == "dense":
            n = draw(gen.ints(4, 14))
            m = {"z": draw(gen.elements(n)), "x": draw(gen.geometry(n, styles=("cluster",), smin=1.5))}
            f = draw(gen.fl(0.3, 0.9, 2))
            m["x"] = [[round(v * f, 5) for v in r] for r in m["x"]]
        elif feat == "far":
            n = draw(gen.ints(2, 5))
            m = {"z": draw(gen.elements(n)), "x": draw(gen.geometry(n, styles=("cluster",)))}
            f = draw(gen.pick(10.0, 40.0, 400.0, 4000.0, 40000.0))
            m["x"] = [[round(v * f, 3) for v in r] for r in m["x"]]
        elif feat == "ion":
            n = draw(gen.ints(1, 3))
            m = {"z": [draw(gen.pick(1, 1, 2, 3, 4, 5, 11, 12, 19, 37)) for _ in range(n)], "x": draw(gen.geometry(n, styles=("cluster", "linear")))}
        else:
            m = {"z": [draw(gen.ints(1, 103))] * 2, "x": [[0.0, 0.0, 0.0], [0.0, 0.0, draw(gen.fl(1.2, 12.0))]]}
        mols.append(m)
    c = {
        "mols": mols,
        "feat": feat,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": draw(param(what)),
        "extra": draw(gen.pick(0, 0, 1)),
        "dt": draw(gen.pick("64", "64", "32")),
        "charge": [draw(gen.pick(-3, -2, -1, 1, 2, 3) if feat == "ion" else gen.pick(0, 0, 1, -1)) for _ in mols],
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = [[draw(gen.pick(0.0, -1.0, 1.0, -2.0, -3.0, 0.5)) for _ in m["z"]] for m in mols]
    return c


def extreme_check(case):
    mols = case["mols"]
    dmin = 0.75 if case["what"] in ("dftd4", "exact", "op", "d3atm") else 1.6
    for m in mols:
        guard(m["z"], m["x"], (60.0, 40.0), charges="q" not in case, dmin=dmin)
    single = len(mols) == 1 and case["extra"] == 0
    dt = F64 if case["dt"] == "64" else torch.float
    num, pos = pad(mols, extra=case["extra"], dtype=dt)
    q, ch = None, T(case["charge"], dt)
    if "q" in case:
        q = torch.zeros(num.shape, dtype=dt)
        for i, v in enumerate(case["q"]):
            q[i, : len(v)] = T(v, dt)
    if single:
        num, pos, ch, q = num[0], pos[0], ch[0], (None if q is None else q[0])
    pos.requires_grad_(True)
    e = evaluator(case["what"], case["model"], dt)(num, pos, ch, case["p"], q)
    finite(e, "energy")
    (g,) = grad(e.sum(), pos)
    finite(g, f"force ({case['feat']})")
    expect(bool((g[num == 0] == 0).all()), "force on padding")
    gg = g[None] if single else g
    for i, m in enumerate(mols):
        k = len(m["z"])
        if k == 1:
            expect(bool((gg[i] == 0).all()), f"force {gg[i].tolist()} on a single atom")
        elif dt == F64:
            balance(m["x"], gg[i, :k], f"member {i} ({case['feat']})")
    return {"tags": [case["feat"], case["what"], case["dt"]]}


def giant_cases():
    """Over a hundred atoms."""
    p = {"s8": 1.1, "a1": 0.4, "a2": 4.8}
    return [
        {**gen.large(n, 7, sp, few), "what": what, "model": kind, "charge": 1, "p": p, "dir": 3 * n + 1, "opt": []}
        for n, few, kind, what, sp in ((100, 0, "d4", "dftd4", 4.5), (130, 3, "d4s", "dftd4", 3.6), (112, 3, "d4", "exact", 4.5))
    ]


SUBS = [
    Sub("giant", lambda: None, fd_check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("fd", case, fd_check, quick=1400, thorough=40000),
    Sub("extreme", extreme, extreme_check, quick=1400, thorough=40000),
    Sub("short", short, fd_check, quick=300, thorough=8000),
    Sub("size", lambda: case(12, 26), fd_check, quick=40, thorough=1200),
    Sub("huge", lambda: case(41, 70), fd_check, quick=16, thorough=400),
]
