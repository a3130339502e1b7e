"""C03: batching and padding never change a molecule's result."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from .. import gen, ref
from ..engine import Sub
from ..methods import WHAT, evaluator, param
from ..util import F64, T, Z, close, expect, finite, grad, guard, mk_model, pad, tags_z

RULE = (
    "Cases: 1-6 Hypothesis-generated molecules of 1-9 atoms over all elements, packed in generated order with 0-4 extra "
    "padding columns (at the end or spread among the atoms) into one to four leading batch dimensions; models d4/d4s, approximate/exact C9 and other damping functions, EEQ "
    "charges (one total charge or one per member) or supplied charges, r4r2, van der Waals radii and cutoffs; batches of 8-33. Oracle: the same call on each member alone (energies, position "
    "gradients, properties, weights, C6, polarizabilities to 1e-9 relative), and exact zeros on padding. Non-trivial: at "
    "least two members of different length, or padding columns present."
)
ASSUMPTIONS = [
    "atoms at least 1.2 bohr apart, EEQ matrix safely positive definite",
    "padding is marked by zeros in the atomic numbers; it is at the end (the documented packing) or anywhere among the atoms, at zero or other coordinates",
]


@st.composite
def case(draw):
    rank = draw(gen.pick(1, 1, 1, 1, 2, 2, 3))
    if rank == 1:
        k = draw(gen.ints(1, 6))
        shape = [k]
    elif rank == 2:
        shape = [draw(gen.ints(1, 3)), draw(gen.ints(1, 3))]
        k = shape[0] * shape[1]
    else:
        shape = draw(gen.pick([1, 2, 2], [2, 1, 2], [2, 2, 1], [1, 1, 2], [2, 2, 2], [1, 1, 1], [3, 1, 1], [1, 3, 1], [1, 1, 1, 2]))
        k = int(np.prod(shape))
    nmax = draw(gen.pick(4, 9))
    mols = []
    for _ in range(k):
        m = draw(gen.molecule(1, nmax, styles=("cluster", "cluster", "linear", "wide")))
        if draw(st.booleans()):  # an atom exactly on the padding position
            x0 = m["x"][0]
            m["x"] = [[round(a - b, 5) for a, b in zip(r, x0)] for r in m["x"]]
        mols.append(m)
    mode = draw(gen.pick("per", "per", "one", "q"))
    what = draw(st.sampled_from(WHAT))
    c = {
        "mols": mols,
        "shape": shape,
        "extra": draw(gen.pick(0, 0, 1, 3)),
        "model": draw(gen.pick("d4", "d4s")),
        "what": what,
        "opt": draw(st.lists(gen.pick("r4r2", "rvdw", "cutoff"), unique=True)) if draw(gen.ints(0, 2)) == 0 else [],
        "mode": mode,
        "p": draw(param(what)),
        "grad": draw(st.booleans()),
        "spread": draw(st.one_of(st.just(0), st.just(0), gen.ints(1, 10**6))),
        "fill": draw(gen.pick(0.0, 0.0, 0.0, 3.5, -40.0)),
    }
    if c["spread"] and c["extra"] == 0:
        c["extra"] = draw(gen.pick(1, 2, 4))
    if mode == "per":
        c["charge"] = [draw(gen.pick(0, 1, -1, 2, -2, 0.5)) for _ in mols]
    elif mode == "one":
        c["charge"] = [draw(gen.pick(0, 0, 1, -1))] * k
        c["form"] = draw(gen.pick("int", "float", "tensor"))
    else:
        c["charge"] = [0] * k
        if k > 1 and draw(gen.ints(0, 2)) == 0:  # a member without atoms
            mols[draw(gen.ints(0, k - 1))] = {"z": [], "x": []}
        c["q"] = [draw(gen.charges(m["z"])) for m in mols]
    return c


class Layout:
    """Where the atoms of every member go: to the front, or anywhere among the padding."""

    def __init__(self, case, num):
        k, n = num.shape
        self.slot = torch.arange(n).repeat(k, 1)
        if case.get("spread"):
            rng = np.random.default_rng(case["spread"])
            for i, m in enumerate(case["mols"]):
                j = len(m["z"])
                at = sorted(rng.choice(n, j, replace=False).tolist())
                self.slot[i] = torch.tensor(at + [s for s in range(n) if s not in at])
        self.back = self.slot.argsort(-1)

    @staticmethod
    def _move(t, idx, pair):
        out = torch.stack([a[i] for a, i in zip(t, idx)])
        return torch.stack([a[:, i] for a, i in zip(out, idx)]) if pair else out

    def put(self, t, pair=False):
        return self._move(t, self.back, pair)

    def get(self, t, pair=False):
        return self._move(t, self.slot, pair)


CUT = (9.123457, 7.512341, 11.712343)


def options(case, num):
    """Optional inputs: the same function of the atoms (and their places) in the batch and alone."""
    kw, n = {}, num.shape[-1]
    f = 0.9 + 0.02 * torch.arange(n, dtype=F64) + 0.001 * num.sum(-1, keepdim=True)
    if "r4r2" in case["opt"]:
        kw["r4r2"] = T(ref.G["r4r2"])[num] * f
    if "rvdw" in case["opt"]:
        kw["rvdw"] = T(ref.G["rvdw"])[num.unsqueeze(-1), num.unsqueeze(-2)] * 0.5 * (f.unsqueeze(-1) + f.unsqueeze(-2))
    if "cutoff" in case["opt"]:
        kw["cutoff"] = d4.Cutoff(disp2=CUT[0], disp3=CUT[1], cn_eeq=CUT[2], dtype=F64)
    return kw


def energy_check(case):
    mols = case["mols"]
    for m in mols:
        if not m["z"]:
            continue
        guard(m["z"], m["x"], (60.0, 40.0, 30.0, 25.0) + (CUT if "cutoff" in case["opt"] else ()), charges=case["mode"] != "q")
    go = evaluator(case["what"], case["model"])
    ev = lambda n, x, c, q, kw: go(n, x, c, case["p"], q=q, **kw)
    num, pos = pad(mols, extra=case["extra"])
    shape, n = case["shape"], num.shape[-1]
    lay = Layout(case, num)
    kw = options(case, num)
    for key, pair in (("r4r2", False), ("rvdw", True)):
        if key in kw:
            kw[key] = lay.put(kw[key], pair).reshape(*shape, *kw[key].shape[1:])
    pos[num == 0] = case.get("fill", 0.0)
    num, pos = lay.put(num), lay.put(pos)
    real = (num > 0).reshape(*shape, n)
    num, pos = num.reshape(*shape, n), pos.reshape(*shape, n, 3)
    q = None
    if case["mode"] == "q":
        q = torch.zeros(len(mols), n, dtype=F64)
        for i, v in enumerate(case["q"]):
            q[i, : len(v)] = T(v)
        q = lay.put(q).reshape(*shape, n)
    ch = T(case["charge"]).reshape(shape)
    if case["mode"] == "one":
        v = case["charge"][0]
        ch = {"int": int(v), "float": float(v), "tensor": T(v)}[case["form"]]
    elif case["mode"] == "q":
        ch = T(0.0)
    pos.requires_grad_(case["grad"])
    e = ev(num, pos, ch, q, kw)
    expect(tuple(e.shape) == tuple(num.shape), f"batched energy has shape {tuple(e.shape)}")
    finite(e, "batched energy")
    expect(bool((e[~real] == 0).all()), f"padding atoms have energy {e[~real].tolist()}")
    g = None
    if case["grad"]:
        g = grad(e.sum(), pos)[0]
        finite(g, "batched gradient")
        expect(bool((g[~real] == 0).all()), f"padding atoms have gradient {g[~real].tolist()}")
        g = lay.get(g.reshape(len(mols), n, 3))
    e = lay.get(e.reshape(len(mols), n))
    for i, m in enumerate(mols):
        k = len(m["z"])
        if k == 0:
            continue
        x = T(m["x"]).requires_grad_(case["grad"])
        qi = T(case["q"][i]) if case["mode"] == "q" else None
        s = ev(Z(m["z"]), x, T(case["charge"][i]), qi, options(case, Z(m["z"])))
        close(e[i, :k], s, max(1e-6, float(s.abs().sum())), f"member {i}: energy in the batch vs alone", tol=1e-9)
        if g is not None:
            gs = grad(s.sum(), x)[0]
            close(g[i, :k], gs, max(1e-5, float(gs.abs().max())), f"member {i}: gradient in the batch vs alone", tol=1e-8)
    lens = {len(m["z"]) for m in mols}
    return {"nontrivial": len(lens) > 1 or case["extra"] > 0, "tags": [case["model"], case["what"], case["mode"], f"rank{len(shape)}"] + (["spread"] if case.get("spread") else [])}


def props_check(case):
    mols = [m if m["z"] else {"z": [1], "x": [[0.0, 0.0, 0.0]]} for m in case["mols"]]  # no charges without atoms
    case = {**case, "mols": mols}
    for m in mols:
        guard(m["z"], m["x"])
    num, pos = pad(mols, extra=case["extra"])
    shape, n = case["shape"], num.shape[-1]
    lay = Layout(case, num)
    pos[num == 0] = case.get("fill", 0.0)
    num, pos = lay.put(num), lay.put(pos)
    num, pos = num.reshape(*shape, n), pos.reshape(*shape, n, 3)
    ch = T(case["charge"]).reshape(shape)
    if case["mode"] == "one":
        ch = T(case["charge"][0])
    cn, q, c6, al = d4.get_properties(num, pos, ch)
    kind = case["model"]
    bm = mk_model(kind, num)
    bw = bm.weight_references(cn, q)
    bc6, bal, bpol = bm.get_atomic_c6(bw), bm.get_polarizabilities(bw), bm.get_weighted_pols(bw)
    want = {"cn": (n,), "q": (n,), "c6": (n, n), "alpha": (n,), "model c6": (n, n), "model alpha": (n,), "model pols": (n, 23)}
    got = {"cn": cn, "q": q, "c6": c6, "alpha": al, "model c6": bc6, "model alpha": bal, "model pols": bpol}
    flat = {}
    for k, s in want.items():
        expect(tuple(got[k].shape) == (*shape, *s), f"batched {k} has shape {tuple(got[k].shape)}")
        finite(got[k], f"batched {k}")
        flat[k] = lay.get(got[k].reshape(len(mols), *s), k.endswith("c6"))
    wf = lay.get(bw.reshape(len(mols), *bw.shape[len(shape):]), kind == "d4s")
    for i, m in enumerate(mols):
        k = len(m["z"])
        one = dict(zip(("cn", "q", "c6", "alpha"), d4.get_properties(Z(m["z"]), T(m["x"]), T(case["charge"][i]))))
        sm = mk_model(kind, Z(m["z"]))
        sw = sm.weight_references(one["cn"], one["q"])
        one["model c6"], one["model alpha"] = sm.get_atomic_c6(sw), sm.get_polarizabilities(sw)
        one["model pols"] = sm.get_weighted_pols(sw)
        for key, s in want.items():
            full = flat[key][i]
            sl = full[:k, :k] if key.endswith("c6") else full[:k]
            rest = full.clone()
            if key.endswith("c6"):
                rest[:k, :k] = 0.0
            else:
                rest[:k] = 0.0
            expect(bool((rest == 0).all()), f"member {i}: padding has non-zero {key}")
            close(sl, one[key], one[key].abs() + (1.0 if key == "q" else 1e-6), f"member {i}: {key} in the batch vs alone", tol=1e-9)
        w = wf[i]
        if kind == "d4":
            expect(bool((w[k:] == 0).all()), f"member {i}: padding has non-zero weights")
            close(w[:k], sw, 1.0 + sw.abs(), f"member {i}: weights", tol=1e-9)
        else:
            expect(bool((w[:, k:] == 0).all()), f"member {i}: padding has non-zero weights")
            close(w[:k, :k], sw, 1.0 + sw.abs(), f"member {i}: weights", tol=1e-9)
    lens = {len(m["z"]) for m in mols}
    return {"nontrivial": len(lens) > 1 or case["extra"] > 0, "tags": [case["model"], f"rank{len(shape)}"]}


@st.composite
def big(draw):
    """Many members, or one long member among short ones."""
    k = draw(gen.pick(8, 16, 33))
    mols = [draw(gen.molecule(1, 4, styles=("cluster", "linear"))) for _ in range(k)]
    mols[draw(gen.ints(0, k - 1))] = draw(gen.molecule(12, 24, styles=("cluster",)))
    if draw(st.booleans()):
        mols = mols[:4]
        mols[draw(gen.ints(0, 3))] = draw(gen.molecule(41, 70))
        k = 4
    return {
        "mols": mols, "shape": [k], "extra": 0, "model": draw(gen.pick("d4", "d4s")), "what": "dftd4", "opt": [],
        "mode": "per", "charge": [draw(gen.pick(0, 1, -1)) for _ in mols], "p": draw(gen.bj_param()), "grad": draw(st.booleans()),
    }


def giant_cases():
    """Long members: 110 and 140 atoms among short ones."""
    w = {"z": [8, 1, 1], "x": [[0.0, 0.0, 0.1], [1.4, 0.0, 1.2], [-1.4, 0.0, 1.2]]}
    p = {"s8": 1.1, "a1": 0.4, "a2": 4.8}
    return [
        {"mols": [w, gen.large(n, 5, 4.5, few), w], "shape": [3], "extra": 0, "model": kind, "what": "dftd4", "opt": [], "mode": "per", "charge": [0, 1, -1], "p": p, "grad": n < 120}
        for n, few, kind in ((110, 0, "d4"), (140, 3, "d4s"))
    ]


SUBS = [
    Sub("giant", lambda: None, energy_check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("energy", case, energy_check, quick=1200, thorough=30000),
    Sub("props", case, props_check, quick=500, thorough=12000),
    Sub("big", big, energy_check, quick=40, thorough=600),
]
