"""C23: results depend only on the values of the inputs."""
from collections import ChainMap, OrderedDict
from types import MappingProxyType

import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import DispD4
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import dispersion2
from .. import gen, ref
from ..engine import Sub
from ..methods import DAMP, evaluator, param
from ..util import F32, F64, T, Z, close, expect, finite, grad, guard, mk_model, npa, pad

RULE = (
    "Cases: (energy) energies by functional interface and method objects with gradients, and properties, on Hypothesis molecules and padded batches of rank 1-2, where every tensor input (numbers, "
    "positions, charge, q, r4r2, rvdw, parameters, cutoffs, numbers of a model instance) is given in a generated memory layout (strided slice, storage offset, permuted storage, stride-0 expansion, "
    "reversed copy), as leaf, parameter, gradient-free or graph tensor, 32-bit numbers, under a generated autograd mode, and parameters in a generated kind of mapping and key order; (parts) model, "
    "pair-energy, three-body and damping functions likewise. Oracle: the same call on plain contiguous tensors. Non-trivial: at least one input is not plain."
)
ASSUMPTIONS = ["atomic numbers of 32 or 64 bits, which are what torch accepts as indices", "agreement to 1e-11 (single precision 1e-4) of the largest value: strides may change the order of summation"]

LAYOUT = ("plain", "stride", "offset", "perm", "expand", "wide", "unit")
KIND = ("none", "none", "leaf", "param", "graph", "inference")


def relayout(t, how):
    """The same values in another memory layout."""
    if how == "plain":
        return t.clone()
    if how == "offset":
        buf = torch.zeros(t.numel() + 5, dtype=t.dtype)
        buf[3 : 3 + t.numel()] = t.reshape(-1)
        return buf[3 : 3 + t.numel()].view(t.shape)
    if how == "unit":  # an extra size-one dimension with an odd stride, removed again
        return torch.stack([t, t], -1)[..., 1]
    if t.ndim == 0:
        return torch.stack([t + 1, t, t + 2] if t.dtype.is_floating_point else [t * 0 + 1, t, t * 0 + 2])[1]
    if how == "stride":
        buf = torch.full((*t.shape[:-1], 2 * t.shape[-1]), 7, dtype=t.dtype)
        buf[..., ::2] = t
        return buf[..., ::2]
    if how == "wide":
        buf = torch.full((*t.shape[:-1], t.shape[-1] + 3), 9, dtype=t.dtype)
        buf[..., 1:-2] = t
        return buf[..., 1:-2]
    if how == "perm":
        o = list(range(t.ndim))[::-1]
        return t.permute(o).contiguous().permute(o)
    # stride-0 expansion of the dimensions along which all entries are equal
    out = t
    for d in range(t.ndim):
        if t.shape[d] > 1 and bool((t == t.narrow(d, 0, 1)).all()):
            out = out.narrow(d, 0, 1)
    return out.clone().expand(t.shape)


def mapping(p, how):
    if how == "ordered":
        return OrderedDict(p)
    if how == "reversed":
        return dict(reversed(list(p.items())))
    if how == "proxy":
        return MappingProxyType(dict(p))
    if how == "chain":
        ks = sorted(p)
        return ChainMap({k: p[k] for k in ks[::2]}, {k: p[k] for k in ks[1::2]})
    return dict(p)


class Dressed:
    """Dresses tensors; remembers those that take a gradient."""

    def __init__(self, spec, on=True):
        self.spec, self.on, self.i, self.odd = spec, on, 0, False

    def __call__(self, t, grads=True):
        if not self.on:
            return t.clone()
        lay, kind = self.spec[self.i % len(self.spec)]
        self.i += 1
        self.odd |= lay != "plain"
        if kind == "inference" and grads:
            with torch.inference_mode():
                t = relayout(t, lay)
            return t
        t = relayout(t.detach(), lay)
        if not t.dtype.is_floating_point or not grads:
            return t
        if kind == "leaf":
            return t.requires_grad_(True)
        if kind == "param":
            return torch.nn.Parameter(t)
        if kind == "graph":
            return relayout(t.clone().requires_grad_(True) * 1.0, lay)
        return t


spec = st.lists(st.tuples(gen.pick(*LAYOUT), gen.pick(*KIND)).map(list), min_size=3, max_size=11)


@st.composite
def case(draw):
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm", "DispD4", "props"))
    rank = draw(gen.pick(0, 0, 1, 1, 2))
    k = 1 if rank == 0 else draw(gen.ints(1, 3))
    mols = [draw(gen.molecule(1, 6, styles=("cluster", "linear", "planar"), rare=30)) for _ in range(k)]
    same = draw(gen.ints(0, 5)) if k > 1 else 5
    if same < 2:
        mols = [mols[0]] * k
    elif same < 4:  # other elements at the same positions, which may be a stride-0 expansion
        n = len(mols[0]["z"])
        mols = [mols[0]] + [{**mols[0], "z": draw(st.permutations(mols[0]["z"])) if same == 2 else draw(st.lists(gen.pick(6, 7, 8, 14, 16), min_size=n, max_size=n))} for _ in range(k - 1)]
    return {
        "mols": mols,
        "rank": rank,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "inst": draw(st.booleans()),
        "p": draw(param(what if what in ("zero", "mzero", "op", "d3atm") else "dftd4")),
        "opt": draw(st.lists(gen.pick("q", "r4r2", "rvdw", "cutoff"), unique=True)),
        "spec": draw(spec),
        "int32": draw(st.booleans()),
        "map": draw(gen.pick("dict", "ordered", "reversed", "proxy", "chain")),
        "tensor": draw(st.booleans()),
        "mode": draw(gen.pick("grad", "grad", "nograd", "inference")),
        "grad": draw(st.booleans()),
        "charge": draw(gen.total_charge()),
        "single": draw(gen.ints(0, 3)) == 0,
    }


def modes(m):
    return {"nograd": torch.no_grad, "inference": torch.inference_mode}.get(m, torch.enable_grad)()


def check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    dt = F32 if case["single"] else F64
    num0, pos0 = pad(case["mols"], dt)
    if case["rank"] == 0:
        num0, pos0 = num0[0], pos0[0]
    elif case["rank"] == 2:
        num0, pos0 = num0.unsqueeze(1), pos0.unsqueeze(1)
    chg0 = torch.full(num0.shape[:-1], float(case["charge"]), dtype=dt)
    arr = {
        "q": torch.where(num0 > 0, 0.125, 0.0).to(dt),
        "r4r2": T(ref.G["r4r2"], dt)[num0] * 1.1,
        "rvdw": T(ref.G["rvdw"], dt)[num0.unsqueeze(-1), num0.unsqueeze(-2)] * 0.9,
    }
    odd = [False]

    def run(on):
        d = Dressed(case["spec"], on)
        wantgrad = case["grad"] and case["mode"] == "grad"
        num = d(num0, False)
        if on and case["int32"]:
            num = d(num0.to(torch.int32), False)
        if wantgrad:
            leaf = pos0.clone().requires_grad_(True)
            lay = case["spec"][0][0]
            # an expansion would collect the gradient of equal entries in one
            pos = relayout(leaf, "perm" if lay == "expand" else lay) if on else leaf
        else:
            leaf, pos = None, d(pos0)
        chg = d(chg0)
        p = {k: (d(T(v, dt)) if case["tensor"] else v) for k, v in case["p"].items()}
        p = mapping(p, case["map"]) if on else p
        kw = {k: d(arr[k]) for k in case["opt"] if k in arr}
        if "cutoff" in case["opt"]:
            kw["cutoff"] = d4.Cutoff(disp2=d(T(9.123457, dt), False), disp3=d(T(7.512341, dt), False), cn_eeq=d(T(11.712343, dt), False))
        mdl = case["model"]
        if case["inst"]:
            mdl = mk_model(mdl, d(num0, False), dtype=dt)
        odd[0] |= d.odd or (on and (case["int32"] or case["map"] != "dict" or case["mode"] != "grad"))
        inf = on and any(t.is_inference() for t in [pos, chg, *kw.values(), *p.values()] if isinstance(t, torch.Tensor))
        what = case["what"]
        mode = case["mode"] if on and not wantgrad else "grad"
        if inf and mode not in ("nograd", "inference"):
            mode = "nograd"
        with modes(mode):
            if what == "props":
                out = d4.get_properties(num, pos, chg, kw.get("cutoff"))
            elif what == "DispD4":
                out = (DispD4(model=mdl, dtype=dt).calculate(num, pos, chg, p, **kw),)
            else:
                out = (evaluator(what, mdl, dt)(num, pos, chg, p, **kw),)
        res = list(out)
        if wantgrad:
            res += list(grad(sum(o.sum() for o in out), leaf))
        return [r.detach().clone() for r in res]

    if "cutoff" in case["opt"]:
        for m in case["mols"]:
            guard(m["z"], m["x"], (9.123457, 7.512341, 11.712343), charges=False)
    if case["grad"] and any(k == "inference" for _, k in case["spec"]):
        # tensors made in inference mode take no part in a backward pass
        case = {**case, "spec": [[a, "none" if k == "inference" else k] for a, k in case["spec"]]}
    want, got = run(False), run(True)
    size = [float(w.abs().max()) if w.numel() else 1.0 for w in want]
    nout = 4 if case["what"] == "props" else 1
    for i, (g, w) in enumerate(zip(got, want)):
        finite(g, case["what"])
        s = size[i]
        if nout == 4 and i < 2:  # CN and charges are sums of terms of order one
            s += 1.0
        elif i >= nout:  # gradients of the sum of all outputs
            s += sum(size[:nout])
        close(g, w, s, f"{case['what']} with inputs of another layout or kind", tol=1e-4 if case["single"] else 1e-11, atol=1e-12 if case["single"] else 1e-18)
    return {"nontrivial": odd[0], "tags": [case["what"], case["mode"], case["map"], f"rank{case['rank']}"]}


# ---- building blocks


@st.composite
def parts_case(draw):
    m = draw(gen.molecule(1, 6, styles=("cluster", "linear"), rare=30))
    return {
        **m,
        "part": draw(gen.pick("weights", "weights", "c6", "pols", "pair", "atm", "damp", "deriv")),
        "model": draw(gen.pick("d4", "d4s")),
        "damp": draw(gen.pick("bj", "zero", "mzero", "op")),
        "spec": draw(spec),
        "batch": draw(gen.pick(0, 0, 2)),
        "seed": draw(gen.ints(0, 10**6)),
        "p": draw(param("mzero")),
    }


def parts_check(case):
    z, x = np.array(case["z"]), np.array(case["x"], float)
    guard(z, x, charges=False)
    n = len(z)
    rng = np.random.default_rng(case["seed"])
    b = (case["batch"],) if case["batch"] else ()
    num0 = torch.as_tensor(np.broadcast_to(z, (*b, n)).copy())
    rep = lambda a: T(np.broadcast_to(a, (*b, *a.shape)).copy())
    pos0, cn0, q0 = rep(x), rep(ref.cn_d4(z, x)), rep(rng.uniform(-0.2, 0.3, n))
    c60 = rng.uniform(5.0, 300.0, (n, n))
    c60 = rep(c60 + c60.T)
    r40, rv0 = rep(rng.uniform(2.0, 6.0, n)), rep(ref.G["rvdw"][z[:, None], z[None, :]])
    c90 = rep(rng.uniform(1.0, 50.0, (n, n, n)))
    # inference tensors need a graph-free call: use the other kinds here
    sp = [[a, "none" if k == "inference" else k] for a, k in case["spec"]]

    def run(on):
        d = Dressed(sp, on)
        part, kind = case["part"], case["model"]
        if part in ("weights", "c6", "pols", "deriv"):
            m = mk_model(kind, d(num0, False))
            if part == "deriv":
                if kind == "d4s":
                    return [m.weight_references(d(cn0), d(q0))]
                return list(m.weight_references(d(cn0), d(q0), with_dgwdq=True, with_dgwdcn=True))
            w = m.weight_references(d(cn0), d(q0))
            if part == "weights":
                return [w]
            return [m.get_atomic_c6(d(w)) if part == "c6" else m.get_weighted_pols(d(w))]
        p = {k: d(T(v)) for k, v in case["p"].items()}
        if part == "pair":
            out = dispersion2(d(num0, False), d(pos0), p, d(c60), d(r40), d(rv0), DAMP[case["damp"]](), cutoff=d(T(60.0)))
            return [out, dispersion2(d(num0, False), d(pos0), p, d(c60), d(r40), d(rv0), DAMP[case["damp"]](), cutoff=d(T(60.0)), as_matrix=True)]
        if part == "atm":
            return [get_atm_dispersion(d(num0, False), d(pos0), d(c90), d(rv0), d(T(40.0)), s9=d(T(1.1)), alp=d(T(14.0)))]
        return [DAMP[case["damp"]]()(d(rv0 + 0.5), d(rv0), o, **p) for o in (6, 8)]

    want, got = run(False), run(True)
    for g, w in zip(got, want):
        finite(g, case["part"])
        close(g.detach(), w, npa(w.abs().max()) if w.numel() else 1.0, f"{case['part']} with inputs of another layout or kind", tol=1e-11, atol=1e-30)
    return {"tags": [case["part"]]}


SUBS = [
    Sub("energy", case, check, quick=2000, thorough=50000),
    Sub("parts", parts_case, parts_check, quick=1600, thorough=40000),
]
