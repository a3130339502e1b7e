"""C07: reference weights."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .. import gen, ref
from ..engine import Discard, Known, Sub
from ..util import F32, F64, T, Z, close, expect, finite, grad, mk_model, npa
from tad_dftd4.model.d4s import D4SDebug

RULE = (
    "Cases: (sweep, enumerated) every element and every reference system at CNs on, between, below and far above the reference CNs; (random) "
    "Hypothesis lists of 1-14 atoms with generated CN (0 to 25) and partial charge (down to and beyond minus the effective nuclear "
    "charge), D4/D4S, EEQ/GFN2 reference charges, generated ga, gc, wf, single or double precision, optional padding, batch "
    "dimension, omitted CN or charges; (derivative) the analytical derivatives. Oracle: log-domain numpy evaluation of the "
    "normalised Gaussians times the charge scaling; derivatives against the closed form and autodiff. Non-trivial: some atom has at least two references with "
    "weight above 1e-6, or underflows, or has q <= -zeff."
)
ASSUMPTIONS = [
    "inside the window 1e-320 < sum of Gaussians < 1e-280 either the exact weights or the highest-CN reference are accepted",
    "GFN2 reference charges exist up to Rn",
]

LOG_LO, LOG_HI = math.log(1e-280), -745.0


def logsum(zi, cn, wf):
    return ref._gauss(zi, cn, wf)[1]


def expected(zi, cn, q, wf, ga, gc, rc):
    """(weights, alternative weights or None)"""
    w, lg = ref._gauss(zi, cn, wf)
    zt = ref.zeta_atom(zi, q, ga, gc, rc)
    fb = ref._fallback(zi) * zt
    if lg >= LOG_LO:
        return w * zt, None
    if lg <= LOG_HI:
        return fb, w * zt
    return fb, w * zt


def near(got, want, tol):
    return bool(np.all(np.abs(got - want) <= tol * (np.abs(want) + 1e-6)))


@st.composite
def case(draw):
    rc = draw(gen.pick("eeq", "eeq", "gfn2"))
    n = draw(gen.ints(1, 14))
    z = draw(gen.elements(n, 103 if rc == "eeq" else 86))
    c = {
        "z": z,
        "rc": rc,
        "model": draw(gen.pick("d4", "d4", "d4s")),
        "cn": [draw(gen.cn_for(a)) for a in z],
        "dt": draw(gen.pick("64", "64", "32")),
        "pad": draw(gen.pick(0, 0, 2)),
        "batch": draw(gen.pick(0, 0, 1, 2)),
        "opt": {},
    }
    q = []
    for a in z:
        zf = float(ref.G["zeff"][a])
        q.append(draw(st.one_of(gen.fl(-0.85 * min(zf, 3.0), 2.5), gen.pick(0.0, -zf, -zf - 0.5, 1.0, -0.5, zf / 2))))
    c["q"] = q
    if draw(gen.ints(0, 3)) == 0:
        c["opt"]["ga"] = draw(gen.fl(0.5, 4.0))
    if draw(gen.ints(0, 3)) == 0:
        c["opt"]["gc"] = draw(gen.fl(0.5, 3.0))
    if draw(gen.ints(0, 3)) == 0:
        c["opt"]["wf"] = draw(gen.fl(1.0, 10.0))
    c["omit"] = draw(gen.pick("", "", "", "", "cn", "q", "both"))
    return c


def arrange(case):
    """numbers, cn, q with optional padding and batch dimensions."""
    dt = F64 if case["dt"] == "64" else F32
    k = len(case["z"])
    z = case["z"] + [0] * case["pad"]
    cn = list(np.asarray(case["cn"], np.float32).astype(float)) + [0.0] * case["pad"]
    q = list(np.asarray(case["q"], np.float32).astype(float)) + [0.0] * case["pad"]
    if case["dt"] == "64":
        cn = case["cn"] + [0.0] * case["pad"]
        q = case["q"] + [0.0] * case["pad"]
    if "cn" == case["omit"] or case["omit"] == "both":
        cn = [0.0] * len(cn)
    if "q" == case["omit"] or case["omit"] == "both":
        q = [0.0] * len(q)
    num, cnt, qt = Z(z), T(cn, dt), T(q, dt)
    if case["batch"] == 1:  # second member reversed
        f = lambda t: torch.stack([t, t.flip(-1)])
        num, cnt, qt = f(num), f(cnt), f(qt)
    elif case["batch"] == 2:  # member is padding-heavy
        one = torch.zeros_like(num)
        one[0] = num[0]
        num = torch.stack([one, num])
        cnt = torch.stack([cnt * (one > 0), cnt])
        qt = torch.stack([qt * (one > 0), qt])
    return num, cnt, qt, dt, k


def check_one(kind, z, cn, q, w, opt, rc, tol):
    """Compare the weights of one unbatched system. Returns non-triviality."""
    ga, gc, wf = opt.get("ga", 3.0), opt.get("gc", 2.0), opt.get("wf")
    n = len(z)
    nt = False
    for i in range(n):
        zi = int(z[i])
        if zi == 0:
            blk = w[i] if kind == "d4" else w[:, i]
            expect(bool((blk == 0).all()), "padding atom has non-zero weights")
            continue
        fs = [(None, 6.0 if wf is None else wf)] if kind == "d4" else [
            (m, float(ref.G["wfpair"][zi, int(z[m])]) if wf is None else wf) for m in range(n) if z[m] > 0
        ]
        for m, f in fs:
            got = w[i] if m is None else w[m, i]
            a, b = expected(zi, float(cn[i]), float(q[i]), f, ga, gc, rc)
            expect(bool((got >= 0).all()), f"negative weight {got.tolist()}")
            expect(bool((got[ref.G["refc"][zi] == 0] == 0).all()), f"Z={zi}: weight of a non-existing reference {got.tolist()}")
            ok = near(got, a, tol) or (b is not None and near(got, b, tol))
            expect(ok, f"Z={zi} cn={float(cn[i])} q={float(q[i])} wf={f}: weights {got.tolist()}, expected {a.tolist()}")
            nt |= b is not None or int((a > 1e-6).sum()) > 1 or q[i] <= -ref.G["zeff"][zi]
    return nt


def check(case):
    num, cn, q, dt, k = arrange(case)
    kind, opt = case["model"], case["opt"]
    m = mk_model(kind, num, dtype=dt, ref_charges=case["rc"], **opt)
    kw = {}
    if case["omit"] not in ("cn", "both"):
        kw["cn"] = cn
    if case["omit"] not in ("q", "both"):
        kw["q"] = q
    w = m.weight_references(**kw)
    finite(w, "weights")
    expect(w.dtype == dt, f"weights have dtype {w.dtype}")
    nat = num.shape[-1]
    want = (*num.shape, 7) if kind == "d4" else (*num.shape, nat, 7)
    expect(tuple(w.shape) == want, f"weights have shape {tuple(w.shape)}")
    tol = 1e-9 if dt == F64 else 3e-4
    nt = False
    B = num.reshape(-1, nat)
    W = w.reshape(B.shape[0], *w.shape[num.ndim - 1 :])
    for i in range(B.shape[0]):
        nt |= check_one(kind, npa(B[i]).astype(int), npa(cn.reshape(-1, nat)[i]), npa(q.reshape(-1, nat)[i]), npa(W[i]), opt, case["rc"], tol)
    return {"nontrivial": nt, "tags": [kind, case["rc"], case["dt"]] + sorted(opt) + [f"Z{a}" for a in set(case["z"])]}


# ---- enumerated sweep over every element and reference


def sweep():
    out = []
    for rc, zmax in (("eeq", 103), ("gfn2", 86)):
        for kind in ("d4", "d4s"):
            for dt in ("64", "32"):
                for shift in (0.0, 0.25, -0.25, 0.05, 6.5):
                    for z0 in range(1, zmax + 1, 13):
                        out.append({"z0": z0, "z1": min(z0 + 12, zmax), "rc": rc, "model": kind, "dt": dt, "shift": shift})
    return out


def sweep_check(case):
    pairs = [(z, k) for z, k in gen.all_ref_pairs() if case["z0"] <= z <= case["z1"]]
    z = [a for a, _ in pairs]
    cn = [max(0.0, float(ref.G["refcovcn"][a, k]) + case["shift"]) for a, k in pairs]
    tab = ref._tables(case["rc"])[1]
    q = [float(tab[a, k]) * (1.0 if i % 2 else 0.4) for i, (a, k) in enumerate(pairs)]
    c = {"z": z, "cn": cn, "q": q, "rc": case["rc"], "model": case["model"], "dt": case["dt"], "pad": 0, "batch": 0, "opt": {}, "omit": ""}
    check(c)
    # at a reference's own charge its scaling is one
    if case["dt"] == "64" and case["model"] == "d4":
        m = mk_model("d4", Z(z), ref_charges=case["rc"])
        w = npa(m.weight_references(T(cn), T([float(tab[a, k]) for a, k in pairs])))
        for i, (a, k) in enumerate(pairs):
            g = ref.gw_atom(a, cn[i], 6.0)
            if not g[1]:
                expect(abs(w[i, k] - g[0][k]) <= 1e-9, f"Z={a} ref {k}: weight {w[i, k]} at the reference charge, expected {g[0][k]}")
    return {"nontrivial": True}


# ---- derivatives


@st.composite
def dcase(draw):
    c = draw(case())
    c.update(omit="", dt="64", batch=draw(gen.pick(0, 0, 1)))
    c["what"] = draw(gen.pick("q", "cn", "both", "q"))
    return c


def deriv_check(case):
    num, cn, q, dt, k = arrange(case)
    kind, opt, what = case["model"], case["opt"], case["what"]
    m = mk_model(kind, num, dtype=dt, ref_charges=case["rc"], **opt)
    kw = {"with_dgwdq": what in ("q", "both"), "with_dgwdcn": what in ("cn", "both")}
    if kind == "d4s" and kw["with_dgwdcn"]:
        try:
            m.weight_references(cn, q, **kw)
        except NotImplementedError:
            return {"nontrivial": False, "tags": ["d4s-cn"]}
    base = m.weight_references(cn, q)
    out = m.weight_references(cn, q, **kw)
    expect(isinstance(out, tuple) and len(out) == 1 + sum(kw.values()), "wrong number of outputs")
    close(out[0], base, base, "weights returned with derivatives", tol=0.0, atol=0.0)
    for o in out[1:]:
        finite(o, "weight derivative")
        expect(o.shape == base.shape, f"derivative has shape {tuple(o.shape)}")
    for t in (cn, q):
        t.requires_grad_(True)
    w = m.weight_references(cn, q)
    # the weights of an atom depend only on its own cn and q: one backward per reference
    sgn = []
    for name in ("cn", "q"):
        if not kw[f"with_dgwd{name}"]:
            continue
        ana = out[1] if name == "cn" or not kw["with_dgwdcn"] else out[2]
        src = cn if name == "cn" else q
        for r in range(7):
            ws = w[..., r] if kind == "d4" else w[..., :, :, r].sum(-2)
            (g,) = grad(ws.sum(), src, retain_graph=True)
            finite(g, f"autodiff derivative of weights with respect to {name}")
            a = ana[..., r] if kind == "d4" else ana[..., :, :, r].sum(-2)
            s = g.abs() + 1e-3 * float(base.max()) + 1e-6
            if name == "q":
                close(a, g, s, "derivative of the weights with respect to the charge", tol=1e-8)
                continue
            if bool(((a - g).abs() <= 1e-8 * s).all()):
                if bool((g.abs() > 1e-6).any()):
                    sgn.append(1)
            else:
                close(-a, g, s, "derivative of the weights with respect to the CN (up to its sign)", tol=1e-8)
                sgn.append(-1)
    expect(len(set(sgn)) <= 1, "derivative with respect to the CN has mixed signs")
    if -1 in sgn:
        raise Known("dgwdcn-sign")
    return {"nontrivial": bool((base > 1e-6).sum() > k), "tags": [kind, what]}


SUBS = [
    Sub("random", case, check, quick=3000, thorough=80000),
    Sub("sweep", lambda: st.nothing(), sweep_check, quick=0, thorough=0, exhaustive=sweep),
    Sub("derivative", dcase, deriv_check, quick=1200, thorough=30000),
]
