"""C14: calls are pure."""
import json
import os

import numpy as np
import torch
from hypothesis import strategies as st
from tad_mctc.ncoord import cn_d4, exp_count

import tad_dftd4 as d4
from tad_dftd4.damping import RationalDamping, ZeroDamping, get_params
from tad_dftd4.dispersion import Disp, DispD4, dispersion2
from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from .. import gen, ref
from ..boot import VERIF
from ..engine import Discard, Sub
from ..methods import DAMP, disp_of
from ..util import F32, F64, T, Z, close, dyadic, expect, f32_budget, finite, grad, guard, mk_model, npa, pad, process_state, same_process

RULE = (
    "Cases: Hypothesis sequences of 2-40 operations over a pool of 1-3 related molecules (same elements in another order or geometry, other elements at the same geometry, fragments) with persistent "
    "input tensors, parameter mappings, cutoffs, models and method objects with and without model and CN options in both precisions: energies (functional interface and objects, key or reused model instance, with and without gradients, no_grad, "
    "inference mode, batches), properties, model-level calls, damping calls, parameter lookups, rejected calls, changes of the default dtype, in-place edits of the caller's own inputs (atoms transmuted included), and in-place destruction of returned "
    "tensors. Oracle: after every operation the reference model for the current inputs, and bitwise snapshots of every input, object, earlier result and process-wide setting (random generators, threads, warning filters, environment, ...). Non-trivial: at least two evaluations with another operation in between."
)
ASSUMPTIONS = [
    "coordinates are exact in single precision; single precision is judged with the error budget of C16",
    "a model instance is only used for the atoms it was built for",
]

DT = {"64": F64, "32": F32}
OPTS = ({}, {"ga": 2.0, "gc": 1.5}, {"wf": 4.0}, {"ref_charges": "gfn2"}, {"gc": 1.0})


NEAR = (2.0**-8, -(2.0**-9), 2.0**-11, -(2.0**-13))  # exact in single precision


@st.composite
def pool(draw):
    nmax = draw(gen.pick(6, 6, 6, 6, 6, 14))
    first = draw(gen.molecule(2 if nmax == 6 else 7, nmax, styles=("cluster", "linear")))
    mols = [first]
    for _ in range(draw(gen.ints(0, 2))):
        how = draw(gen.pick("perm", "geom", "elem", "sub", "other", "near"))
        z, x = list(first["z"]), [list(r) for r in first["x"]]
        if how == "perm":
            o = draw(st.permutations(range(len(z))))
            z = [z[i] for i in o]
        elif how == "geom":
            x = draw(gen.geometry(len(z), styles=("cluster", "linear")))
        elif how == "elem":
            z = draw(gen.elements(len(z)))
        elif how == "sub" and len(z) > 2:
            z, x = z[:-1], x[:-1]
        elif how == "near":  # nearly, but not, the first one
            i, k = draw(gen.ints(0, len(z) - 1)), draw(gen.ints(0, 2))
            x = dyadic(x)
            x[i][k] += draw(gen.pick(*NEAR))
        else:
            m = draw(gen.molecule(1, 6, styles=("cluster",)))
            z, x = m["z"], m["x"]
        mols.append({"z": z, "x": x})
    for m in mols:
        m["x"] = dyadic(m["x"])
    return mols


@st.composite
def case(draw):
    mols = draw(pool())
    mi = gen.ints(0, len(mols) - 1)
    ps = []
    for _ in range(2):
        p = draw(gen.bj_param())
        p.update(rs6=1.125, rs8=0.875, bet=0.5)
        ps.append(p)
    if draw(st.booleans()):  # nearly the same parameters
        ps[1] = dict(ps[0])
        for k in draw(st.lists(st.sampled_from(sorted(ps[0])), min_size=1, max_size=3)):
            ps[1][k] = ps[0][k] + draw(gen.pick(1e-3, -1e-4, 3e-5, -1e-6))
    dt = gen.pick("64", "64", "64", "32")
    ch = gen.pick(0, 0, 0, 0, 1, 1, -1, 0.5, 2, 2.0**-8, 2.0**-11, 1 - 2.0**-10)
    cut = gen.pick(-1, -1, 0, 1)
    kind = gen.pick("d4", "d4s")
    ctx = gen.pick("plain", "plain", "grad", "grad", "nograd", "inference")
    ex = gen.pick("", "", "", "r4r2", "rvdw")
    mo = gen.pick(0, 0, 0, 1, 2, 3, 4)
    cf = gen.pick("erf", "erf", "erf", "exp")
    op = st.one_of(
        st.tuples(st.just("energy"), mi, gen.ints(0, 1), ch, cut, dt, kind, gen.pick("key", "instance", "default"), ctx, st.booleans(), ex, mo, cf),
        st.tuples(st.just("energy"), mi, gen.ints(0, 1), ch, cut, dt, kind, gen.pick("key", "instance", "default"), ctx, st.booleans(), ex, mo, cf),
        st.tuples(st.just("obj"), mi, gen.ints(0, 1), ch, cut, dt, kind, gen.pick("DispD4", "exact", "zero", "op"), ctx, st.booleans(), ex, mo, cf),
        st.tuples(st.just("obj"), mi, gen.ints(0, 1), ch, cut, dt, kind, gen.pick("DispD4", "exact", "zero", "op"), ctx, st.booleans(), ex, mo, cf),
        st.tuples(st.just("batch"), gen.ints(0, 1), ch, dt, kind, ctx),
        st.tuples(st.just("props"), mi, ch, cut, dt, ctx),
        st.tuples(st.just("model"), mi, dt, kind, gen.pick("w", "wq", "none", "dq"), ctx, mo),
        st.tuples(st.just("damp"), gen.pick("bj", "zero", "mzero", "op"), gen.pick(6, 8), gen.ints(0, 1), dt),
        st.tuples(st.just("params"), gen.pick("pbe", "PBE", "b3lyp", "tpss", "r2scan-3c"), st.booleans()),
        st.tuples(st.just("default"), gen.pick("32", "64")),
        st.tuples(st.just("move"), mi, gen.ints(0, 5), gen.ints(0, 2), gen.pick(0.25, -0.25, 0.5, 1.0, *NEAR)),
        st.tuples(st.just("transmute"), mi, gen.ints(0, 5), gen.ints(1, 103)),
        st.tuples(st.just("setparam"), gen.ints(0, 1), gen.pick("s8", "a1", "a2", "s9", "s6"), gen.ints(2, 12)),
        st.tuples(st.just("nudge"), gen.ints(0, 1), gen.pick("s8", "a1", "a2", "s9", "s6", "alp", "rs6", "rs8", "bet"), gen.pick(1e-3, -1e-4, 3e-5, -1e-6)),
        st.tuples(st.just("setcut"), gen.ints(0, 1), gen.pick("disp2", "disp3", "cn_eeq"), gen.ints(4, 40)),
        st.tuples(st.just("destroy"), gen.pick("nan", "zero", "scale")),
        st.tuples(st.just("error"), mi, gen.pick("shape", "element", "q", "param", "model", "ref", "functional")),
    ).map(list)
    return {
        "mols": mols,
        "p": ps,
        "pform": [draw(gen.pick("float", "tensor")) for _ in range(2)],
        "cuts": [[draw(gen.ints(4, 60)), draw(gen.ints(4, 40)), draw(gen.ints(4, 25))] for _ in range(2)],
        "ops": draw(st.lists(op, min_size=2, max_size=draw(gen.pick(16, 16, 16, 40)))),
    }


class State:
    def __init__(self, case):
        self.case = case
        self.z = [list(m["z"]) for m in case["mols"]]
        self.x = [np.array(m["x"], float) for m in case["mols"]]
        self.num = [Z(z) for z in self.z]
        self.pos = [{"64": T(x), "32": T(x, F32)} for x in self.x]
        self.p = [dict(p) for p in case["p"]]
        self.tp = [{k: T(v) if f == "tensor" else v for k, v in p.items()} for p, f in zip(self.p, case["pform"])]
        self.cv = [list(map(float, c)) for c in case["cuts"]]
        self.cut = [d4.Cutoff(c[0], c[1], cn_eeq=c[2], dtype=F64) for c in self.cv]
        self.models = {}
        self.disps = {}
        self.own = {}
        self.last = []
        self.evals = 0

    def model(self, i, dt, kind, mo=0):
        k = (i, dt, kind, mo)
        if k not in self.models:
            with torch.inference_mode(False):  # the caller's own tensors
                self.models[k] = mk_model(kind, self.num[i], DT[dt], **OPTS[mo])
        return self.models[k]

    def disp(self, what, kind, dt, mo=0, cf="erf"):
        k = (what, kind, dt, mo, cf)
        if k not in self.disps:
            kw = {}
            if mo:  # the caller's own mappings
                kw["model_kwargs"] = self.own[f"model options {k}"] = dict(OPTS[mo])
            if cf == "exp":
                kw["cn_fn_kwargs"] = self.own[f"CN options {k}"] = {"counting_function": exp_count}
            self.disps[k] = DispD4(model=kind, dtype=DT[dt], **kw) if what == "DispD4" else disp_of(what, kind, DT[dt], **kw)
        return self.disps[k]

    def snapshot(self):
        s = {}

        def add(k, t):
            if isinstance(t, torch.Tensor):
                s[k] = (t.dtype, tuple(t.shape), t.requires_grad, t.grad is None, t.detach().clone())
            else:
                s[k] = t

        for i in range(len(self.num)):
            add(f"numbers {i}", self.num[i])
            for d, t in self.pos[i].items():
                add(f"positions {i} {d}", t)
        for i, p in enumerate(self.tp):
            s[f"keys of parameters {i}"] = list(p)
            for k, v in p.items():
                add(f"parameter {i} {k}", v)
        for i, c in enumerate(self.cut):
            for a in ("disp2", "disp3", "cn", "cn_eeq"):
                add(f"cutoff {i} {a}", getattr(c, a))
        for k, m in self.models.items():
            for a in ("numbers", "wf", "rc6", "ga", "gc", "ref_charges"):
                add(f"model {k} {a}", getattr(m, a, None))
        for k, o in self.disps.items():
            s[f"terms of {k}"] = [(id(t), type(getattr(t, "damping_fn", None)), getattr(t, "charge_dependent", None)) for t in getattr(o, "terms", [])]
            s[f"cn kwargs of {k}"] = dict(getattr(o, "cn_fn_kwargs", {}))
        for k, o in self.own.items():
            s[k] = dict(o)
        for j, t in enumerate(self.last):
            if not t.is_inference():
                add(f"earlier result {j}", t)
        s["default dtype"] = torch.get_default_dtype()
        s["grad mode"] = torch.is_grad_enabled()
        return s


def compare(a, b, what):
    for k in a:
        if isinstance(a[k], tuple) and isinstance(a[k][-1], torch.Tensor):
            same = a[k][:-1] == b[k][:-1] and torch.equal(a[k][-1], b[k][-1])
        else:
            same = a[k] == b[k] and type(a[k]) is type(b[k])
        expect(same, f"{what} modified {k}: {a[k]} became {b[k]}")


def ref_kw(what):
    return {"dftd4": {}, "DispD4": {}, "exact": {"exact": True}}.get(what, {"damping": what})


def verdict(s, e, i, dt, charge, p, kw, what):
    z, x = s.z[i], s.x[i]
    if dt == "64":
        r, mag = ref.energy(z, x, charge, p, **kw)
        close(e, r, mag, what)
    else:
        (r, mag), (dev, _) = f32_budget(lambda: ref.energy(z, x, charge, p, **kw))
        close(e, r, dev.max() + 1.5e-5 * mag + 1e-30, what, tol=1.0, atol=0.0)


def slope(s, g, i, charge, p, kw, what):
    """Directional derivative of the reference energy against the gradient."""
    x = s.x[i]
    rng = np.random.default_rng(5)
    d = rng.normal(size=x.shape)
    d /= np.abs(d).max()
    f = lambda h: ref.energy(s.z[i], x + h * d, charge, p, **kw)
    h = 1e-3

    def c4(t):
        return (8 * (f(t)[0] - f(-t)[0]).sum() - (f(2 * t)[0] - f(-2 * t)[0]).sum()) / (12 * t)

    a, b = c4(h), c4(h / 2)
    want = b + (b - a) / 15
    mag = f(0.0)[1].sum()
    got = float((npa(g) * d).sum())
    lim = 5 * abs(b - a) + 1e-7 * mag + 1e-6 * float(np.abs(npa(g)).sum()) + 1e-13
    expect(abs(got - want) <= lim, f"{what}: directional derivative {got!r}, expected {want!r} (allowed {lim:.1e})")


def context(ctx):
    return {"nograd": torch.no_grad, "inference": torch.inference_mode}.get(ctx, torch.enable_grad)()


def ok_now(s, i, cuts=None):
    """The current geometry is inside the domain of the property."""
    try:
        guard(s.z[i], s.x[i], (60.0, 40.0, 30.0, 25.0, *(cuts or ())))
    except Discard:
        return False
    if gen.near_cutoff_abs(s.x[i], (60.0, 40.0, 30.0, 25.0, *(cuts or ())), 5e-3):
        return False
    return True


def step(s, op):
    name = op[0]
    case = s.case
    if name in ("energy", "obj"):
        _, i, pi, ch, ci, dt, kind, how, ctx, useq, ex, mo, cf = op
        if not ok_now(s, i, s.cv[ci] if ci >= 0 else None):
            return
        if "ref_charges" in OPTS[mo] and max(s.z[i]) > 86:
            return
        p, tp = dict(s.p[pi]), s.tp[pi]
        what = "dftd4" if name == "energy" else how
        kw = {}
        rkw = dict(kind=kind, **ref_kw(what))
        if what in ("zero", "op") and "s10" in tp:
            return
        rkw["counting"] = cf
        if name == "obj" or how == "instance":
            rkw["model_kw"] = OPTS[mo]
        if ci >= 0:
            kw["cutoff"] = s.cut[ci]
            rkw.update(disp2=s.cv[ci][0], disp3=s.cv[ci][1], cn_eeq=s.cv[ci][2])
        x = s.pos[i][dt]
        q = None
        if useq:
            qv = [0.125 if v % 2 else -0.125 for v in s.z[i]]
            q = kw["q"] = T(qv, DT[dt])
            rkw["q"] = qv
        if ex == "r4r2":
            rkw["r4r2"] = ref.G["r4r2"][s.z[i]] * 1.125
        elif ex == "rvdw":
            zz = np.array(s.z[i])
            rkw["rvdw"] = ref.G["rvdw"][zz[:, None], zz[None, :]] * 0.875
        if ex:
            kw[ex] = own = T(rkw[ex], DT[dt])
            own0 = own.clone()
        if ctx == "grad":
            x = x.clone().requires_grad_(True)
        qs = None if q is None else q.clone()
        charge = T(ch, DT[dt])
        with context(ctx):
            if name == "energy":
                if cf == "exp":
                    kw["counting_function"] = exp_count
                if how == "instance":
                    kw["model"] = s.model(i, dt, kind, mo)
                elif how == "key":
                    kw["model"] = kind
                else:
                    rkw["kind"] = "d4"
                e = d4.dftd4(s.num[i], x, charge, tp, **kw)
            else:
                e = s.disp(what, kind, dt, mo, cf).calculate(s.num[i], x, charge, tp, **kw)
        expect(e.dtype == DT[dt], f"energy has dtype {e.dtype}, positions {DT[dt]}")
        expect(q is None or torch.equal(q, qs), "q was modified")
        expect(float(charge) == ch, "charge was modified")
        expect(not ex or torch.equal(own, own0), f"{ex} was modified")
        if ctx == "grad":
            (g,) = grad(e.sum(), x)
            finite(g, "gradient")
            if dt == "64" and not useq:
                slope(s, g, i, ch, p, rkw, f"{what} {kind}")
            s.last.append(g)
        finite(e, "energy")
        verdict(s, e, i, dt, ch, p, rkw, f"{what} ({kind}, {how}, {ctx}) of molecule {i}")
        s.last.append(e.detach())
        s.evals += 1
    elif name == "batch":
        _, pi, ch, dt, kind, ctx = op
        if not all(ok_now(s, i) for i in range(len(s.z))):
            return
        num, pos = pad([{"z": z, "x": x.tolist()} for z, x in zip(s.z, s.x)], DT[dt])
        if ctx == "grad":
            pos.requires_grad_(True)
        with context(ctx):
            e = d4.dftd4(num, pos, T(ch, DT[dt]), s.tp[pi], model=kind)
        for i, z in enumerate(s.z):
            verdict(s, e[i, : len(z)], i, dt, ch, s.p[pi], dict(kind=kind), f"batched energy ({kind}, {ctx}) of molecule {i}")
        if ctx == "grad":
            grad(e.sum(), pos)
        s.last.append(e.detach())
        s.evals += 1
    elif name == "props":
        _, i, ch, ci, dt, ctx = op
        if not ok_now(s, i, s.cv[ci] if ci >= 0 else None):
            return
        ce = s.cv[ci][2] if ci >= 0 else 25.0
        z, x = np.asarray(s.z[i]), s.x[i]
        with context(ctx):
            out = d4.get_properties(s.num[i], s.pos[i][dt], T(ch, DT[dt]), cutoff=s.cut[ci] if ci >= 0 else None)

        def fn():
            cn, q = ref.cn_d4(z, x), ref.eeq(z, x, ch, ce)
            _, _, c6, pol = ref.model(z, cn, q)
            return [cn, q, c6, pol[:, 0]]

        if dt == "64":
            for n, t, w in zip(("CN", "q", "C6", "polarizability"), out, fn()):
                close(t, w, 1.0 + np.abs(w) if n in ("CN", "q") else w, n)
        else:
            want, dev = f32_budget(fn)
            for n, t, w, d in zip(("CN", "q", "C6", "polarizability"), out, want, dev):
                tol = d.max() + 1.5e-5 * (1.0 + np.abs(w)) if n in ("CN", "q") else d + d.max() / w.max() * w + 1.5e-5 * w
                close(t, w, tol, f"single-precision {n}", tol=1.0, atol=0.0)
        s.last += [t.detach() for t in out]
        s.evals += 1
    elif name == "model":
        _, i, dt, kind, mode, ctx, mo = op
        z = s.z[i]
        if "ref_charges" in OPTS[mo] and max(z) > 86:
            return
        cn = np.array([1.0 + 0.25 * (j % 5) for j in range(len(z))])
        q = np.array([0.125 if v % 2 else -0.125 for v in z])
        with context(ctx):
            m = s.model(i, dt, kind, mo)
            tc, tq = T(cn, DT[dt]), T(q, DT[dt])
            if mode == "none":
                w = m.weight_references()
                cn, q = cn * 0.0, q * 0.0
            elif mode == "w":
                w = m.weight_references(tc)
                q = q * 0.0
            elif mode == "dq":
                w, dw = m.weight_references(tc, tq, with_dgwdq=True)
                s.last.append(dw.detach())
            else:
                w = m.weight_references(tc, tq)
            c6, al, pol = m.get_atomic_c6(w), m.get_polarizabilities(w), m.get_weighted_pols(w)
        _, rw, rc6, rp = ref.model(z, cn, q, kind, **OPTS[mo])
        tol = 1e-8 if dt == "64" else 1e-3
        close(w, rw, np.abs(rw) + 1e-4, f"weights of {kind} ({mode}, {ctx})", tol=tol)
        close(c6, rc6, rc6, f"C6 of {kind} ({mode}, {ctx})", tol=tol)
        close(al, rp[:, 0], rp[:, 0], f"polarizability of {kind} ({mode}, {ctx})", tol=tol)
        # single precision: the reference polarizabilities are differences of tabulated ones
        floor = 1e-9 if dt == "64" else 1e-3 * rp.max(axis=-1, keepdims=True)
        close(pol, rp, rp + floor, f"weighted polarizabilities of {kind} ({mode}, {ctx})", tol=tol)
        s.last += [w.detach(), c6.detach(), al.detach(), pol.detach()]
        s.evals += 1
    elif name == "damp":
        _, dn, order, pi, dt = op
        r = T([2.0, 3.5, 6.0, 11.0], DT[dt])
        rad = T([4.0, 5.0, 6.0, 7.0], DT[dt])
        pr = {k: v for k, v in s.tp[pi].items() if k != "s10"}
        v = DAMP[dn]()(r, rad, order, **pr)
        pf = {k: float(u) for k, u in pr.items()}
        want = ref.damp(dn, npa(r), npa(rad), npa(rad), order, pf)
        close(v, want, want, f"{dn} damping", tol=1e-10 if dt == "64" else 1e-4)
        s.last.append(v)
    elif name == "params":
        _, f, mut = op
        got = get_params(method="d4", functional=f)
        want = GOLD[f.lower()]
        expect({k: got.get(k) for k in want} == want, f"parameters of {f}: {got}, expected {want}")
        if mut:
            for k in list(got):
                got[k] = -1.0
    elif name == "default":
        torch.set_default_dtype(DT[op[1]])
    elif name == "move":
        _, i, j, ax, d = op
        j %= len(s.z[i])
        s.x[i][j, ax] += d
        for t in s.pos[i].values():
            t[j, ax] += d
    elif name == "transmute":
        _, i, j, v = op
        j %= len(s.z[i])
        s.z[i][j] = v
        s.num[i][j] = v
        for k in [k for k in s.models if k[0] == i]:
            del s.models[k]
    elif name in ("setparam", "nudge"):
        _, pi, k, v = op
        if name == "nudge":
            if k not in s.p[pi]:
                return
            v = s.p[pi][k] + v
        else:
            v = v / 4.0 if k != "a1" else v / 16.0
        s.p[pi][k] = v
        if case["pform"][pi] == "tensor" and k in s.tp[pi]:
            s.tp[pi][k].fill_(v)
        else:
            s.tp[pi][k] = T(v) if case["pform"][pi] == "tensor" else v
    elif name == "setcut":
        _, ci, k, v = op
        getattr(s.cut[ci], k).fill_(float(v))
        s.cv[ci][("disp2", "disp3", "cn_eeq").index(k)] = float(v)
    elif name == "destroy":
        for t in s.last:
            if t.is_inference() or not t.is_floating_point():
                continue
            if op[1] == "nan":
                t.fill_(float("nan"))
            elif op[1] == "zero":
                t.zero_()
            else:
                t.mul_(3.0)
        s.last.clear()
    elif name == "error":
        _, i, how = op
        n, x = s.num[i], s.pos[i]["64"]
        try:
            if how == "shape":
                d4.dftd4(n, x[:-1], 0, s.tp[0])
            elif how == "element":
                b = n.clone()
                b[0] = 110
                d4.dftd4(b, x, 0, s.tp[0])
            elif how == "q":
                s.disp("DispD4", "d4", "64").calculate(n, x, 0, s.tp[0], q=T([0.0]).expand(len(n) + 1))
            elif how == "param":
                d4.dftd4(n, x, 0, {"s6": 1.0, "s8": 1.0})
            elif how == "model":
                d4.dftd4(n, x, 0, s.tp[0], model="d7")
            elif how == "ref":
                mk_model("d4", n, ref_charges="none").weight_references()
            else:
                get_params(method="d4", functional="no such functional")
        except Exception:  # pylint: disable=broad-except
            pass
    else:
        raise KeyError(name)


DB = json.load(open(os.path.join(VERIF, "data", "params.json")))["d4"]
GOLD = {f: {k: v for k, v in DB["parameter"][f]["d4"]["bj-eeq-atm"].items() if k != "doi"} for f in ("pbe", "b3lyp", "tpss", "r2scan-3c")}


def check(case):
    old = torch.get_default_dtype()
    proc = process_state(start=True)
    try:
        s = State(case)
        for k, op in enumerate(case["ops"]):
            a = s.snapshot()
            step(s, op)
            if op[0] not in ("default", "move", "transmute", "setparam", "nudge", "setcut"):
                if op[0] == "destroy":
                    a = {k: v for k, v in a.items() if not k.startswith("earlier")}
                compare(a, s.snapshot(), f"operation {k} {op[:2]}")
    finally:
        torch.set_default_dtype(old)
    same_process(proc, process_state(), "the sequence of calls")
    return {"nontrivial": s.evals > 1, "tags": [op[0] for op in case["ops"]]}


# ---- what a damping or method object is shared with


@st.composite
def share_case(draw):
    mols = draw(pool())
    return {
        "mols": mols,
        "calls": draw(
            st.lists(
                st.tuples(gen.ints(0, len(mols) - 1), gen.pick("bj", "zero", "mzero", "op"), gen.pick("d4", "d4s"), gen.ints(0, 3), gen.pick("doi", "")).map(list),
                min_size=2,
                max_size=8,
            )
        ),
        "ps": [{**draw(gen.bj_param(s10=False)), "rs6": draw(gen.fl(0.8, 1.3)), "rs8": draw(gen.fl(0.8, 1.2)), "bet": draw(gen.pick(0.0, 0.5, 0.05))} for _ in range(4)],
        "charge": draw(gen.pick(0, 1, -1)),
    }


def share_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    fns = {k: c() for k, c in DAMP.items()}
    disps = {}
    for i, dn, kind, pi, doi in case["calls"]:
        m = case["mols"][i]
        p = dict(case["ps"][pi])
        if doi:
            p["doi"] = "10.1063/1.5090222"
        if (dn, kind) not in disps:
            d = Disp(model=kind, dtype=F64)
            t = TwoBodyTerm(damping_fn=fns[dn])
            d.register(t)
            d.register(TwoBodyTerm(damping_fn=fns[dn], charge_dependent=False))
            d.register(D4ATMApprox(damping_fn=fns["zero"]))
            disps[dn, kind] = d
        d = disps[dn, kind]
        keep = dict(p)
        e = d.calculate(Z(m["z"]), T(m["x"]), T(case["charge"]), p)
        expect(p == keep, "the parameter mapping was modified")
        p.pop("doi", None)
        kw = dict(kind=kind, damping=dn)
        r, mag = ref.energy(m["z"], m["x"], case["charge"], p, **kw)
        r2, mag2 = ref.energy(m["z"], m["x"], case["charge"], p, terms=("two",), two_charge=False, **kw)
        close(e, r + r2, mag + mag2, f"energy with shared {dn} damping ({kind})")
    return {"tags": [c[1] for c in case["calls"]]}


SUBS = [
    Sub("history", case, check, quick=1600, thorough=40000),
    Sub("share", share_case, share_check, quick=500, thorough=10000),
]
