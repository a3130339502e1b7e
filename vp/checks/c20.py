"""C20: function transforms (torch.func) agree with plain evaluation."""
import numpy as np
import torch
from hypothesis import strategies as st
from torch import func

import tad_dftd4 as d4
from .. import gen, ref
from ..engine import Discard, Sub, Violation
from ..methods import WHAT, evaluator, param
from ..util import F64, T, Z, close, expect, finite, grad, guard, mk_model, pad

RULE = (
    "Cases: Hypothesis-generated molecules (1-7 atoms, all elements) and padded batches with seven energy methods, D4 and D4S, EEQ or "
    "supplied charges; transforms: vmap over every combination of positions, total charge, atomic charges and damping parameters, vmap over "
    "all members of a padded batch (atomic numbers included), grad, jacrev, jacfwd, jvp, vmap of grad, reverse-over-reverse and "
    "forward-over-reverse Hessians, vmapped Hessians, vjp, nested and chunked vmaps, mapped dimensions other than the first, vmap over properties and model functions. Oracle: a Python loop of plain calls, and "
    "torch.autograd on the plain call, to 1e-9 of the magnitudes. Non-trivial: at least two atoms and a result above 1e-12."
)
ASSUMPTIONS = [
    "atoms at least 1.6 bohr apart, EEQ matrix safely positive definite",
]


def transformed(what, f, *a):
    """Apply a transform; it must work wherever the plain call works."""
    try:
        return f(*a)
    except Violation:
        raise
    except Exception as exc:  # noqa: BLE001
        raise Violation(f"{what} failed: {type(exc).__name__}: {str(exc)[:200]}") from exc


def ok(m, x=None, q=False):
    guard(m["z"], m["x"] if x is None else x, charges=not q, dmin=1.6)


@st.composite
def vmap_case(draw):
    what = draw(gen.pick(*WHAT))
    m = draw(gen.molecule(1, 7, rare=20))
    p = draw(param(what))
    k = draw(gen.ints(1, 4))
    axes = [a for a in ("x", "charge", "q", "param") if draw(st.booleans())] or ["x"]
    c = {
        "mol": m,
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": p,
        "k": k,
        "axes": axes,
        "charge": draw(gen.total_charge()),
        "seed": draw(gen.ints(0, 10**6)),
        "keys": sorted(draw(st.sets(st.sampled_from(sorted(p)), min_size=1))) if "param" in axes else [],
        "grad": draw(gen.ints(0, 2)) == 0,
        "xdim": draw(gen.pick(0, 0, 1, 2, -1)),
        "nest": draw(gen.ints(0, 3)) == 0,
        "chunk": draw(gen.pick(None, None, 1, 2)),
    }
    if "q" in axes or draw(gen.ints(0, 3)) == 0:
        c["q"] = draw(gen.charges(m["z"]))
    return c


def vmap_check(case):
    m, k, axes = case["mol"], case["k"], case["axes"]
    n = len(m["z"])
    rng = np.random.default_rng(case["seed"])
    num = Z(m["z"])
    x0 = np.asarray(m["x"], float)
    xs = [x0 * (1.0 + 0.04 * i) if "x" in axes else x0 for i in range(k)]
    for x in xs:
        ok(m, x.tolist(), "q" in case)
    cs = [case["charge"] + (float(rng.integers(-1, 2)) if "charge" in axes else 0.0) for _ in range(k)]
    qs = None
    if "q" in case:
        qs = [np.asarray(case["q"]) * (rng.uniform(0.2, 1.0) if "q" in axes else 1.0) for _ in range(k)]
    ps = [{kk: v * (rng.uniform(0.8, 1.25) if kk in case["keys"] else 1.0) for kk, v in case["p"].items()} for _ in range(k)]
    ev = evaluator(case["what"], case["model"])

    # one tensor per mapped argument, the other arguments are closed over
    X, C = T(np.array(xs)), T(cs)
    Q = None if qs is None else T(np.array(qs))
    P = {kk: T([pp[kk] for pp in ps]) for kk in case["keys"]}
    P0 = {kk: T(v) for kk, v in case["p"].items()}

    def f(x, c, q, pk):
        return ev(num, x, c, {**P0, **pk}, q)

    dims = (0 if "x" in axes else None, 0 if "charge" in axes else None, 0 if "q" in axes else None, 0 if "param" in axes else None)
    args = (X if dims[0] == 0 else X[0], C if dims[1] == 0 else C[0], Q if dims[2] == 0 else (None if Q is None else Q[0]), P)
    if dims[3] is None:
        args = args[:3] + ({},)
    want = [f(X[i], C[i], None if Q is None else Q[i], {kk: v[i] for kk, v in P.items()}) for i in range(k)]
    want = torch.stack(want)
    if all(d is None for d in dims):
        raise Discard("nothing mapped")
    if dims[0] == 0 and case["xdim"]:  # the mapped dimension need not be the first
        dims = (case["xdim"], *dims[1:])
        args = (X.movedim(0, case["xdim"]), *args[1:])
    got = transformed(f"vmap over {axes}", func.vmap(f, in_dims=dims, chunk_size=case["chunk"]), *args)
    sc = want.abs().sum(-1, keepdim=True) + 1e-8
    close(got, want, sc.expand_as(want), f"vmap over {axes} ({case['what']}, {case['model']})", tol=1e-9)
    if case["nest"]:  # all combinations of the geometries with all charges
        inner = func.vmap(f, in_dims=(None, 0, None, None))
        outer = func.vmap(inner, in_dims=(0, None, None, None))
        X2 = X[:2]
        two = transformed("nested vmap", outer, X2, C, None if Q is None else Q[0], {})
        w2 = torch.stack([torch.stack([f(x, c, None if Q is None else Q[0], {}) for c in C]) for x in X2])
        close(two, w2, (w2.abs().sum(-1, keepdim=True) + 1e-8).expand_as(w2), "nested vmap", tol=1e-9)
    if case["grad"] and "x" in axes:
        g = transformed("vmap of grad", func.vmap(func.grad(lambda *a: f(*a).sum()), in_dims=dims), *args)
        for i in range(k):
            y = X[i].clone().requires_grad_(True)
            (gi,) = grad(f(y, C[i], None if Q is None else Q[i], {kk: v[i] for kk, v in P.items()}).sum(), y)
            close(g[i], gi, float(gi.abs().max()) + 1e-6, "vmap of grad", tol=1e-8)
    return {"nontrivial": n > 1 and k > 1 and float(want.abs().max()) > 1e-12, "tags": [case["what"], case["model"]] + axes}


@st.composite
def batch_case(draw):
    what = draw(gen.pick("dftd4", "dftd4", "dftd4", "exact", "zero", "mzero", "op", "d3atm"))
    mols = [draw(gen.molecule(1, 5, styles=("cluster", "cluster", "linear", "wide"), rare=16)) for _ in range(draw(gen.ints(1, 4)))]
    c = {
        "mols": mols,
        "extra": draw(gen.pick(0, 0, 1)),
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "p": draw(param(what)),
        "charge": [draw(gen.pick(0, 1, -1, 0.5)) for _ in mols],
        "how": draw(gen.pick("energy", "energy", "grad", "hess", "props", "weights")),
        "cns": draw(gen.ints(0, 10**6)),
    }
    return c


def batch_check(case):
    mols = case["mols"]
    for m in mols:
        ok(m)
    num, pos = pad(mols, extra=case["extra"])
    ch = T(case["charge"])
    p = {k: T(v) for k, v in case["p"].items()}
    ev = evaluator(case["what"], case["model"])
    f = lambda n, x, c: ev(n, x, c, p)
    s = lambda n, x, c: f(n, x, c).sum()
    how = case["how"]
    if how == "energy":
        got = transformed("vmap over a batch", func.vmap(f), num, pos, ch)
        want = [f(Z(m["z"]), T(m["x"]), T(c)) for m, c in zip(mols, case["charge"])]
    elif how == "grad":
        fn = func.grad(s, argnums=1)
        got = transformed("vmap of grad over a batch", func.vmap(fn), num, pos, ch)
        want = []
        for m, c in zip(mols, case["charge"]):
            y = T(m["x"]).requires_grad_(True)
            want.append(grad(s(Z(m["z"]), y, T(c)), y)[0])
    elif how == "hess":
        fn = func.jacrev(func.jacrev(s, argnums=1), argnums=1)
        H = transformed("vmap of the Hessian over a batch", func.vmap(fn), num, pos, ch)
        for i, (m, c) in enumerate(zip(mols, case["charge"])):
            k = len(m["z"])
            y = T(m["x"])
            w = torch.autograd.functional.hessian(lambda x: s(Z(m["z"]), x, T(c)), y)
            finite(H[i], "vmapped Hessian")
            close(H[i, :k, :, :k], w, float(w.abs().max()) + 1e-5, f"vmapped Hessian of member {i}", tol=1e-7)
            expect(float(H[i, k:].abs().sum() + H[i, :, :, k:].abs().sum()) == 0.0, "vmapped Hessian of padding atoms")
        return {"nontrivial": max(len(m["z"]) for m in mols) > 1, "tags": ["hess", case["what"], case["model"]]}
    elif how == "props":
        got = transformed("vmap of get_properties", func.vmap(lambda n, x, c: d4.get_properties(n, x, c)), num, pos, ch)
        for i, (m, c) in enumerate(zip(mols, case["charge"])):
            w = d4.get_properties(Z(m["z"]), T(m["x"]), T(c))
            k = len(m["z"])
            for j, (a, b) in enumerate(zip(got, w)):
                a = a[i, :k, :k] if b.ndim == 2 else a[i, :k]
                close(a, b, b.abs() + 1e-3 * float(b.abs().max()) + (1.0 if j == 1 else 1e-6), f"property {j} under vmap", tol=1e-9)
        return {"nontrivial": max(len(m["z"]) for m in mols) > 1, "tags": ["props"]}
    else:
        rng = np.random.default_rng(case["cns"])
        cn = T(rng.uniform(0.0, 5.0, tuple(num.shape))) * (num > 0)
        q = T(rng.uniform(-0.3, 0.3, tuple(num.shape))) * (num > 0)

        def g(n, c, qq):
            mod = mk_model(case["model"], n)
            w = mod.weight_references(c, qq)
            return mod.get_atomic_c6(w)

        got = transformed("vmap of the model", func.vmap(g), num, cn, q)
        for i, m in enumerate(mols):
            k = len(m["z"])
            w = g(Z(m["z"]), cn[i, :k], q[i, :k])
            close(got[i, :k, :k], w, w.abs() + 1e-3 * float(w.abs().max()), "C6 under vmap", tol=1e-9)
        return {"nontrivial": len(mols) > 1, "tags": ["weights", case["model"]]}
    for i, m in enumerate(mols):
        k = len(m["z"])
        w = want[i]
        close(got[i, :k], w, float(w.abs().sum()) + 1e-7, f"{how} of member {i} under vmap", tol=1e-9)
        expect(bool((got[i, k:] == 0).all()), f"{how} of padding atoms under vmap: {got[i, k:].tolist()}")
    return {"nontrivial": len(mols) > 1 and max(len(m["z"]) for m in mols) > 1, "tags": [how, case["what"], case["model"]]}


@st.composite
def deriv_case(draw):
    what = draw(gen.pick(*WHAT))
    m = draw(gen.molecule(1, 6, rare=12))
    p = draw(param(what))
    c = {
        "mol": m,
        "extra": draw(gen.pick(0, 0, 0, 2)),
        "what": what,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "p": p,
        "charge": draw(gen.total_charge()),
        "how": draw(gen.pick("jacrev", "jacfwd", "jvp", "grad", "hessrr", "hessfr", "gradp", "fwdp", "mixed", "vjp")),
        "key": draw(st.sampled_from(sorted(p))),
        "seed": draw(gen.ints(0, 10**6)),
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = draw(gen.charges(m["z"]))
    return c


def deriv_check(case):
    m, how = case["mol"], case["how"]
    ok(m, None, "q" in case)
    n, k = len(m["z"]), len(m["z"]) + case["extra"]
    num = torch.zeros(k, dtype=torch.long)
    num[:n] = Z(m["z"])
    pos = torch.zeros((k, 3), dtype=F64)
    pos[:n] = T(m["x"])
    q = None
    if "q" in case:
        q = torch.zeros(k, dtype=F64)
        q[:n] = T(case["q"])
    p = {kk: T(v) for kk, v in case["p"].items()}
    ch = T(case["charge"])
    ev = evaluator(case["what"], case["model"])
    f = lambda x: ev(num, x, ch, p, q)
    s = lambda x: f(x).sum()

    def auto(fn, x):
        y = x.clone().requires_grad_(True)
        return grad(fn(y), y)[0]

    e = f(pos)
    tol = 1e-8
    if how in ("jacrev", "jacfwd"):
        got = transformed(how, getattr(func, how)(f), pos)
        expect(tuple(got.shape) == (k, k, 3), f"{how} has shape {tuple(got.shape)}")
        want = torch.stack([auto(lambda x: f(x)[i], pos) for i in range(k)])
    elif how == "grad":
        got, want = transformed(how, func.grad(s), pos), auto(s, pos)
    elif how == "jvp":
        v = torch.tensor(np.random.default_rng(case["seed"]).normal(size=(k, 3)))
        got = transformed(how, lambda: func.jvp(f, (pos,), (v,))[1])
        want = torch.stack([(auto(lambda x: f(x)[i], pos) * v).sum() for i in range(k)])
    elif how == "vjp":
        v = torch.tensor(np.random.default_rng(case["seed"]).normal(size=k))
        got = transformed(how, lambda: func.vjp(f, pos)[1](v)[0])
        want = auto(lambda x: (f(x) * v).sum(), pos)
    elif how in ("hessrr", "hessfr"):
        fn = func.jacrev(func.jacrev(s)) if how == "hessrr" else func.jacfwd(func.jacrev(s))
        got = transformed(how, fn, pos)
        want = torch.autograd.functional.hessian(s, pos)
        tol = 1e-7
    elif how == "mixed":  # derivative of the forces with respect to a parameter
        kk = case["key"]
        fp = lambda v, x: ev(num, x, ch, {**p, kk: v}, q).sum()
        got = transformed(how, func.jacfwd(func.grad(fp, argnums=1), argnums=0), p[kk], pos)
        v = p[kk].clone().requires_grad_(True)
        y = pos.clone().requires_grad_(True)
        # in the same order: torch's pow loses mixed derivatives at exponent zero
        (g1,) = grad(fp(v, y), y, create_graph=True)
        want = torch.stack([grad(a, v, retain_graph=True)[0] for a in g1.reshape(-1)]).reshape(g1.shape)
        tol = 1e-7
    else:
        fp = lambda pp: ev(num, pos, ch, pp, q).sum()
        kk = case["key"]
        if how == "gradp":
            got = transformed(how, lambda: func.grad(fp)(p)[kk])
        else:
            got = transformed(how, lambda: func.jacfwd(lambda v: fp({**p, kk: v}))(p[kk]))
        v = p[kk].clone().requires_grad_(True)
        (want,) = grad(fp({**p, kk: v}), v)
    finite(got, how)
    s0 = float(want.abs().max()) + 1e-4 * float(e.abs().sum()) + 1e-9
    close(got, want, s0, f"{how} of {case['what']} ({case['model']})", tol=tol)
    return {"nontrivial": n > 1 and float(want.abs().max()) > 1e-12, "tags": [how, case["what"], case["model"]]}


SUBS = [
    Sub("vmap", vmap_case, vmap_check, quick=500, thorough=15000),
    Sub("batch", batch_case, batch_check, quick=400, thorough=12000),
    Sub("deriv", deriv_case, deriv_check, quick=500, thorough=15000),
]
