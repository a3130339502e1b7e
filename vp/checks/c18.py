"""C18: reported properties."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import dispersion2
from .. import gen, ref
from ..engine import Discard, Sub
from ..methods import fd
from ..util import F64, T, Z, close, expect, finite, grad, guard, npa, pad
from .c05 import in_window

RULE = (
    "Cases: 1-4 Hypothesis molecules of 1-12 atoms over all elements, alone, as a batch or as a two-dimensional batch, with total charge omitted, given as number, "
    "0-d tensor or one per member, default or generated cutoffs. Oracle: reference model for CN, charges, C6 and polarizabilities; charges sum to the requested charge; C6 symmetric and positive; the pair energy built from the "
    "reported C6 (by the package and by numpy) equals the energy of the same molecule and charge with s9 = 0; autodiff derivatives of all properties with respect to positions and total charge equal finite differences. Non-trivial: at least two atoms."
)
ASSUMPTIONS = ["atoms at least 1.2 bohr apart, EEQ matrix safely positive definite"]


@st.composite
def case(draw, nmax=12, nmin=1):
    k = draw(gen.pick(1, 1, 1, 2, 3, 4))
    mols = [draw(gen.molecule(nmin if k == 1 else 1, nmax if k == 1 else 7)) for _ in range(k)]
    mode = draw(gen.pick("none", "one", "one", "per", "per"))
    return {
        "mols": mols,
        "shape": [] if k == 1 and draw(st.booleans()) else [2, 2] if k == 4 else [k],
        "extra": draw(gen.pick(0, 0, 2)),
        "mode": mode,
        "form": draw(gen.pick("int", "float", "tensor")),
        "charge": [draw(gen.total_charge()) for _ in mols] if mode == "per" else [draw(gen.total_charge()) if mode == "one" else 0] * k,
        "p": draw(gen.bj_param()),
        "shift": draw(gen.pick(0.0, 0.0, 30.0)),
        "cut": [draw(gen.fl(2.0, 70.0)), draw(gen.fl(2.0, 50.0)), draw(gen.fl(2.0, 30.0))] if draw(gen.ints(0, 3)) == 0 else None,
    }


def check(case):
    mols = [dict(m) for m in case["mols"]]
    cut = case["cut"] or [60.0, 40.0, 25.0]
    for m in mols:
        guard(m["z"], m["x"], (*cut, 60.0, 40.0, 30.0, 25.0))
        m["x"] = (np.array(m["x"], float) + case["shift"]).tolist()
    shape = case["shape"]
    num, pos = pad(mols, extra=case["extra"] if shape else 0)
    n = num.shape[-1]
    num, pos = num.reshape(*shape, n), pos.reshape(*shape, n, 3)
    if case["mode"] == "none":
        ch, args = T(0.0), ()
    elif case["mode"] == "one":
        v = case["charge"][0]
        v = int(v) if case["form"] == "int" and v == int(v) else float(v)
        ch = T(float(v)) if case["form"] == "tensor" else v
        args = (ch,)
    else:
        ch = T([float(v) for v in case["charge"]]).reshape(shape)
        args = (ch,)
    kw = {"cutoff": d4.Cutoff(cut[0], cut[1], cn_eeq=cut[2], dtype=F64)} if case["cut"] else {}
    cn, q, c6, al = d4.get_properties(num, pos, *args, **kw)
    e = d4.dftd4(num, pos, ch, {**case["p"], "s9": 0.0}, **kw)
    p2 = dispersion2(num, pos, case["p"], c6, T(ref.G["r4r2"])[num])
    for name, t, s in (("CN", cn, (n,)), ("charge", q, (n,)), ("C6", c6, (n, n)), ("polarizability", al, (n,))):
        expect(tuple(t.shape) == (*shape, *s), f"{name} has shape {tuple(t.shape)}")
        expect(t.dtype == F64, f"{name} has dtype {t.dtype}")
        finite(t, name)
    cn, q, al, e, p2 = (t.reshape(len(mols), n) for t in (cn, q, al, e, p2))
    c6 = c6.reshape(len(mols), n, n)
    for i, m in enumerate(mols):
        z, x = np.asarray(m["z"]), np.array(m["x"], float)
        k, c = len(z), float(case["charge"][i])
        rcn, rq = ref.cn_d4(z, x), ref.eeq(z, x, c, cut[2])
        _, _, rc6, pol = ref.model(z, rcn, rq)
        total = float(q[i].sum())
        expect(abs(total - c) <= 1e-10 * (1.0 + float(q[i].abs().sum())), f"charges of member {i} sum to {total!r}, requested {c!r}")
        close(cn[i, :k], rcn, 1.0 + rcn, f"CN of member {i}", tol=1e-9)
        close(q[i, :k], rq, 1.0 + np.abs(rq), f"charges of member {i}")
        close(c6[i, :k, :k], rc6, rc6, f"C6 of member {i}")
        close(al[i, :k], pol[:, 0], pol[:, 0], f"polarizabilities of member {i}")
        close(c6[i], c6[i].mT, c6[i].abs(), f"C6 of member {i} is not symmetric", tol=1e-12, atol=0.0)
        expect(bool((c6[i, :k, :k] > 0).all()) and bool((al[i, :k] > 0).all()), f"C6 or polarizability of member {i} is not positive")
        for name, t in (("CN", cn[i, k:]), ("charge", q[i, k:]), ("C6", c6[i, k:]), ("C6", c6[i, :, k:]), ("polarizability", al[i, k:])):
            expect(bool((t == 0).all()), f"padding of member {i} has non-zero {name}")
        r, mag = ref.two_body(x, npa(c6[i, :k, :k]), ref.G["r4r2"][z], case["p"])
        close(p2[i, :k], r, mag, f"dispersion2 of member {i} from the reported C6")
        if case["cut"]:
            r, mag = ref.two_body(x, npa(c6[i, :k, :k]), ref.G["r4r2"][z], case["p"], cut[0])
        close(e[i, :k], r, mag, f"two-body energy of member {i} from the reported C6")
    return {"nontrivial": any(len(m["z"]) > 1 for m in mols), "tags": [case["mode"], f"rank{len(shape)}"] + [f"Z{a}" for m in mols for a in set(m["z"])]}


@st.composite
def deriv_case(draw):
    mols = [draw(gen.molecule(1, 7)) for _ in range(draw(gen.pick(1, 1, 1, 2)))]
    return {"mols": mols, "extra": draw(gen.pick(0, 0, 1)), "charge": [draw(gen.total_charge()) for _ in mols], "dir": draw(gen.ints(0, 10**6)), "by": draw(gen.pick("x", "x", "charge"))}


def deriv_check(case):
    mols = case["mols"]
    for m in mols:
        guard(m["z"], m["x"], dmin=1.6)
        if gen.near_cutoff_abs(m["x"], (30.0, 25.0), 0.05) or in_window(m["z"], m["x"], "d4"):
            raise Discard("cutoff or underflow window")
    num, pos = pad(mols, extra=case["extra"])
    ch = T(case["charge"])
    if len(mols) == 1 and not case["extra"]:
        num, pos, ch = num[0], pos[0], ch[0]
    rng = np.random.default_rng(case["dir"])
    base = {"x": pos, "charge": ch}
    by = case["by"]
    d = torch.tensor(rng.normal(size=tuple(base[by].shape)), dtype=F64)
    if by == "x":
        d = d * (num > 0).unsqueeze(-1)
    d = d / d.norm()

    def props(v):
        return d4.get_properties(num, v["x"], v["charge"])

    t = base[by].clone().requires_grad_(True)
    out = props({**base, by: t})
    names = ("CN", "charge", "C6", "polarizability")
    ws = [torch.tensor(rng.uniform(0.5, 1.5, size=tuple(o.shape)), dtype=F64) for o in out]
    anas, norms = [], []
    for name, o, w in zip(names, out, ws):
        g = grad((o * w).sum(), t, retain_graph=True)[0] if o.requires_grad else None
        g = torch.zeros_like(t) if g is None else g
        finite(g, f"derivative of {name} with respect to {by}")
        expect(by != "x" or bool((g[num == 0] == 0).all()), f"derivative of {name} with respect to padding")
        anas.append(float((g * d).sum()))
        norms.append(float(g.norm()))
    est, err = fd(lambda h: np.array([float((o * w).sum()) for o, w in zip(props({**base, by: base[by] + h * d}), ws)]), 4e-3 if by == "x" else 1e-2)
    used = 0
    for name, o, ana, gn, a, b in zip(names, out, anas, norms, est, err):
        sc = float(o.detach().abs().sum())
        if b > 1e-4 * (abs(ana) + sc):
            continue
        used += 1
        lim = 3.0 * b + 1e-6 * gn + 2e-7 * sc + 1e-11
        expect(abs(a - ana) <= lim, f"derivative of {name} with respect to {by}: {ana!r} by autodiff, {a!r} numerically (allowed difference {lim:.2e})")
    return {"nontrivial": used > 0 and max(abs(a) for a in anas) > 1e-8, "tags": [by]}


def giant_cases():
    out = []
    for n, few, shape, extra in ((180, 0, [], 0), (257, 3, [1], 2), (300, 0, [], 0)):
        out.append({"mols": [gen.large(n, 14, 4.5, few)], "shape": shape, "extra": extra, "mode": "one", "form": "tensor", "charge": [1], "p": {"s8": 1.0, "a1": 0.4, "a2": 5.0}, "shift": 0.0, "cut": None})
    return out


SUBS = [
    Sub("giant", lambda: None, check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("properties", case, check, quick=3000, thorough=80000),
    Sub("derivatives", deriv_case, deriv_check, quick=500, thorough=12000),
    Sub("large", lambda: case(40), check, quick=64, thorough=1500),
    Sub("huge", lambda: case(130, 41), check, quick=64, thorough=1000),
]
