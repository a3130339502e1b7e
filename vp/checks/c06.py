"""C06: parameter, charge and second derivatives."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Discard, Sub
from ..methods import WHAT, evaluator, fd, param
from ..util import F64, T, Z, close, expect, finite, grad, guard, npa, pad
from .c05 import in_window

RULE = (
    "Cases: Hypothesis-generated molecules (1-8 atoms, all elements, single or in a padded batch) with seven energy methods; derivative targets "
    "are each damping parameter (half of the cases with one parameter exactly zero), the supplied atomic charges, r4r2 values and van der Waals radii, the "
    "total charge, the nuclear Hessian applied to random directions, and mixed second derivatives with respect to any two of positions, parameters and charges. Oracle: sixth-order finite differences of the computed energy (of "
    "the autodiff forces for the Hessian) with a truncation estimate, symmetry of the Hessian, finiteness of every entry. Non-trivial: "
    "the derivative is above 1e-12 in magnitude."
)
ASSUMPTIONS = [
    "a1 and a2 are not zero together and radii scalings are positive (undamped energies are not D4)",
    "no distance within 0.05 bohr of a cutoff; unconverged finite differences are discarded",
]

ZEROABLE = {"s6", "s8", "s9", "s10", "a1", "a2", "bet"}


@st.composite
def case(draw, nmax=8):
    what = draw(gen.pick(*WHAT))
    p = draw(param(what))
    keys = sorted(p)
    if draw(st.booleans()):
        k = draw(st.sampled_from([k for k in keys if k in ZEROABLE]))
        if not (what == "op" and k == "bet"):
            p[k] = 0.0
    mols = [draw(gen.molecule(2, nmax, rare=24)) for _ in range(draw(gen.pick(1, 1, 1, 2)))]
    c = {
        "mols": mols,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": p,
        "target": draw(gen.pick("param", "param", "param", "q", "charge", "r4r2", "rvdw")),
        "charge": [draw(gen.total_charge()) for _ in mols],
        "dir": draw(gen.ints(0, 10**6)),
    }
    if c["target"] == "q" or (c["target"] in ("param", "r4r2", "rvdw") and draw(st.booleans())):
        c["q"] = [draw(gen.charges(m["z"])) for m in mols]
    return c


def setup(case, need_window=False):
    mols = case["mols"]
    for m in mols:
        guard(m["z"], m["x"], charges=False, dmin=1.6)
        if gen.near_cutoff_abs(m["x"], (60.0, 40.0, 30.0, 25.0), 0.05):
            raise Discard("cutoff")
        if need_window and in_window(m["z"], m["x"], case["model"]):
            raise Discard("underflow window")
        if "q" not in case and len(m["z"]) > 1 and ref.eeq_margin(m["z"], np.asarray(m["x"], float)) < 0.02:
            raise Discard("EEQ")
    num, pos = pad(mols, extra=case.get("extra", 0))
    ch, q = T(case["charge"]), None
    if "q" in case:
        q = torch.zeros(num.shape, dtype=F64)
        for i, v in enumerate(case["q"]):
            q[i, : len(v)] = T(v)
    if len(mols) == 1 and not case.get("extra"):
        num, pos, ch, q = num[0], pos[0], ch[0], (None if q is None else q[0])
    return evaluator(case["what"], case["model"]), num, pos, ch, q


def radii(k, num):
    """Supplied expectation values or van der Waals radii."""
    f = 0.9 + 0.2 * ((torch.arange(num.shape[-1], dtype=F64) * 0.37) % 1.0)
    if k == "r4r2":
        return T(ref.G["r4r2"])[num] * f
    return T(ref.G["rvdw"])[num.unsqueeze(-1), num.unsqueeze(-2)] * 0.5 * (f.unsqueeze(-1) + f.unsqueeze(-2))


def direction(rng, v, num, k):
    """A random direction for a target, zero for padding."""
    r = torch.tensor(rng.normal(size=tuple(v.shape)), dtype=F64)
    real = (num > 0).to(F64)
    if k == "rvdw":
        r = 0.5 * (r + r.mT) * real.unsqueeze(-1) * real.unsqueeze(-2)
    elif k in ("x", "q", "r4r2"):
        r = r * (real.unsqueeze(-1) if k == "x" else real)
    return r / r.norm() if r.ndim else torch.ones_like(v)


def first_check(case):
    ev, num, pos, ch, q = setup(case)
    p = {k: T(v) for k, v in case["p"].items()}
    rng = np.random.default_rng(case["dir"])
    if case["target"] == "param":
        # all parameters at once must give finite derivatives
        pg = {k: v.clone().requires_grad_(True) for k, v in p.items()}
        e = ev(num, pos, ch, pg, q)
        gr = grad(e.sum(), list(pg.values()))
        for k, g in zip(pg, gr):
            if g is not None:
                finite(g, f"derivative with respect to {k}")
        todo = []
        for k in pg:
            g = dict(zip(pg, gr))[k]
            h = 1e-2 * max(0.5, abs(case["p"][k])) if k.startswith("s") else 1e-2 * max(0.2, abs(case["p"][k]))
            if k in ("a1", "bet"):
                h = 4e-3
            todo.append((k, 0.0 if g is None else float(g), h, lambda s, k=k: float(ev(num, pos, ch, {**p, k: p[k] + s}, q).sum())))
    elif case["target"] == "q":
        q0 = q.clone()
        qt = q0.clone().requires_grad_(True)
        e = ev(num, pos, ch, p, qt)
        (g,) = grad(e.sum(), qt)
        finite(g, "derivative with respect to the atomic charges")
        expect(bool((g[num == 0] == 0).all()), "derivative with respect to charges of padding atoms")
        d = torch.tensor(rng.normal(size=tuple(q0.shape))) * (num > 0)
        d = d / d.norm()
        ana, h = float((g * d).sum()), 5e-3
        todo = [("q", ana, h, lambda s: float(ev(num, pos, ch, p, q0 + s * d).sum()))]
    elif case["target"] in ("r4r2", "rvdw"):
        k = case["target"]
        r0 = radii(k, num)
        rt = r0.clone().requires_grad_(True)
        e = ev(num, pos, ch, p, q, **{k: rt})
        (g,) = grad(e.sum(), rt)
        g = torch.zeros_like(r0) if g is None else g
        finite(g, f"derivative with respect to {k}")
        d = direction(rng, r0, num, k)
        todo = [(k, float((g * d).sum()), 1e-2, lambda s: float(ev(num, pos, ch, p, q, **{k: r0 + s * d}).sum()))]
    else:
        c0 = ch.clone()
        ct = c0.clone().requires_grad_(True)
        e = ev(num, pos, ct, p, q)
        (g,) = grad(e.sum(), ct)
        finite(g, "derivative with respect to the total charge")
        d = torch.tensor(rng.normal(size=tuple(c0.shape)))
        d = d / d.norm()
        ana, h = float((g * d).sum()), 1e-2
        todo = [("charge", ana, h, lambda s: float(ev(num, pos, c0 + s * d, p, q).sum()))]
    sc = float(e.detach().abs().sum())
    big = 0.0
    for name, ana, h, f in todo:
        est, err = fd(f, h)
        if not np.isfinite(est) or err > 1e-4 * (abs(ana) + sc):
            continue  # finite difference not converged
        lim = 3.0 * err + 1e-6 * abs(ana) + 1e-10 * sc + 1e-14
        expect(abs(est - ana) <= lim, f"dE/d{name}: {ana!r} by autodiff, {est!r} numerically (allowed difference {lim:.2e})")
        big = max(big, abs(ana))
    return {"nontrivial": big > 1e-12, "tags": [case["what"], case["model"]] + [t[0] for t in todo] + (["zero"] if 0.0 in case["p"].values() else [])}


@st.composite
def hess_case(draw):
    what = draw(gen.pick(*WHAT))
    mols = [draw(gen.molecule(1, 6)) for _ in range(draw(gen.pick(1, 1, 1, 2)))]
    c = {
        "mols": mols,
        "extra": draw(gen.pick(0, 0, 0, 1)),
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": draw(param(what)),
        "charge": [draw(gen.total_charge()) for _ in mols],
        "dir": draw(gen.ints(0, 10**6)),
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = [draw(gen.charges(m["z"])) for m in mols]
    return c


def hess_check(case):
    ev, num, pos, ch, q = setup(case, True)
    p = case["p"]
    x = pos.clone().requires_grad_(True)
    e = ev(num, x, ch, p, q)
    (g,) = grad(e.sum(), x, create_graph=True)
    finite(g, "force")
    if not g.requires_grad:
        expect(all(len(m["z"]) == 1 for m in case["mols"]), "force carries no graph")
        return {"nontrivial": False}
    rng = np.random.default_rng(case["dir"])
    real = (num > 0).unsqueeze(-1)
    u, v = (torch.tensor(rng.normal(size=tuple(pos.shape))) * real for _ in range(2))
    u, v = u / u.norm(), v / v.norm()
    hu = grad((g * u).sum(), x, retain_graph=True)[0]
    hv = grad((g * v).sum(), x)[0]
    finite(hu, "Hessian")
    finite(hv, "Hessian")
    expect(bool((hu[num == 0] == 0).all()), "Hessian rows of padding atoms")
    s = float(hu.norm() + hv.norm())
    a, b = float((hu * v).sum()), float((hv * u).sum())
    expect(abs(a - b) <= 1e-8 * s + 1e-15, f"Hessian not symmetric: {a!r} vs {b!r}")

    def force(t):
        y = (pos + t * u).requires_grad_(True)
        return grad(ev(num, y, ch, p, q).sum(), y)[0]

    est, err = fd(force, 4e-3)
    err = float(err.norm())
    gs = float(g.detach().norm()) + float(e.detach().abs().sum())
    if err > 1e-3 * s + 1e-6 * gs:
        raise Discard("finite difference not converged")
    diff = float((est - hu).norm())
    lim = 3.0 * err + 1e-6 * s + 1e-6 * gs + 1e-13
    expect(diff <= lim, f"Hessian-vector product differs from the numerical derivative of the forces by {diff:.3e} (allowed {lim:.2e}, norm {s:.3e})")
    return {"nontrivial": s > 1e-9, "tags": [case["what"], case["model"], f"batch{len(case['mols'])}"]}


# ---- mixed second derivatives


@st.composite
def mixed_case(draw):
    c = draw(case(nmax=5))
    names = ["x", "x", "charge" if "q" not in c else "q", "charge" if "q" not in c else "q", "r4r2", "rvdw"]
    pn = [k for k in sorted(c["p"])]
    t = st.one_of(st.sampled_from(names), st.sampled_from(pn))
    c["pair"] = [draw(t), draw(t)]
    c["target"] = "mixed"
    return c


def mixed_check(case):
    ev, num, pos, ch, q = setup(case, True)
    p = {k: T(v) for k, v in case["p"].items()}
    rng = np.random.default_rng(case["dir"])
    base = {"x": pos, "charge": ch, **p}
    if q is not None:
        base["q"] = q
    ka, kb = case["pair"]
    own = [k for k in ("r4r2", "rvdw") if k in (ka, kb)]
    base.update({k: radii(k, num) for k in own})
    d = {k: direction(rng, v, num, k) for k, v in base.items()}

    def slope(vals, graph=False):
        """Directional derivative of the energy along the first target."""
        a = vals[ka]
        if not a.requires_grad:
            a = a.clone().requires_grad_(True)
        v = {**vals, ka: a}
        e = ev(num, v["x"], v["charge"], {k: v[k] for k in p}, v.get("q"), **{k: v[k] for k in own})
        (g,) = grad(e.sum(), [a], create_graph=graph)
        return (torch.zeros((), dtype=F64) if g is None else (g * d[ka]).sum()), e.detach()

    tot = {k: v.clone().requires_grad_(True) for k, v in base.items()}
    s, e = slope(tot, True)
    finite(s, f"derivative with respect to {ka}")
    out = dict(zip(tot, grad(s, list(tot.values())))) if s.requires_grad else {}
    for k, g in out.items():
        if g is not None:
            finite(g, f"second derivative with respect to {ka} and {k}")
    g = out.get(kb)
    ana = 0.0 if g is None else float((g * d[kb]).sum())
    h = 4e-3 if kb in ("x", "a1", "bet") else 5e-3 if kb == "q" else 1e-2 if kb in ("charge", "r4r2", "rvdw") else 1e-2 * max(0.5 if kb[0] == "s" else 0.2, abs(case["p"][kb]))
    est, err = fd(lambda t: float(slope({k: v + t * d[k] if k == kb else v for k, v in base.items()})[0]), h)
    sc = float(e.abs().sum()) + abs(float(s.detach()))
    tags = [case["what"], case["model"], "-".join(sorted("param" if k in p else k for k in (ka, kb)))]
    if not np.isfinite(est) or err > 1e-3 * (abs(ana) + sc):
        return {"nontrivial": False, "tags": tags + ["unconverged"]}
    lim = 3.0 * err + 1e-6 * abs(ana) + 1e-7 * sc + 1e-13
    expect(abs(est - ana) <= lim, f"second derivative with respect to {ka} and {kb}: {ana!r} by autodiff, {est!r} numerically (allowed difference {lim:.2e})")
    return {"nontrivial": abs(ana) > 1e-12, "tags": tags}


SUBS = [
    Sub("mixed", mixed_case, mixed_check, quick=800, thorough=20000),
    Sub("first", case, first_check, quick=1000, thorough=50000),
    Sub("hessian", hess_case, hess_check, quick=600, thorough=16000),
]
