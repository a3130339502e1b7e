"""Independent reference model of DFT-D4 / DFT-D4S in double precision numpy.

Written from the published equations for one molecule at a time with explicit
masks over *real* references, pairs and triples.  It shares no code with the
package and reads only the frozen tables in ``data/golden.npz``.
"""
from __future__ import annotations

import contextlib
import math
import os

import numpy as np

from .boot import VERIF

_g = np.load(os.path.join(VERIF, "data", "golden.npz"))
G = {k: _g[k] for k in _g.files}
ZMAX = 103
ZMAX_GFN2 = 86

_erf = np.vectorize(math.erf, otypes=[float])

# 23-point trapezoidal Casimir-Polder rule on the imaginary-frequency grid
FREQ = np.array(
    [1e-6, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.2, 1.4,
     1.6, 1.8, 2.0, 2.5, 3.0, 4.0, 5.0, 7.5, 10.0]
)
CPW = np.zeros(23)
CPW[:-1] += 0.5 * np.diff(FREQ)
CPW[1:] += 0.5 * np.diff(FREQ)
THOPI = 3.0 / math.pi

EPS = 2.220446049250313e-16  # the charge model clamps its square root here
K4, K5, K6 = 4.10451, 19.08857, 2 * 11.28174**2


_MODE = {"eps": EPS, "noise": None}


def dist(x: np.ndarray) -> np.ndarray:
    d = x[:, None, :] - x[None, :, :]
    r = np.sqrt((d * d).sum(-1))
    if _MODE["noise"] is not None:
        r = r + _MODE["noise"](x, r)
    return r


@contextlib.contextmanager
def precision(eps, seed=None, scale=1.0):
    """Evaluate the model as in an arithmetic with machine epsilon ``eps``.

    The charge model clamps at that epsilon, and with a seed the distances get
    a random error of the size that their evaluation from |x|^2 + |y|^2 - 2 xy
    has in that arithmetic, which measures the sensitivity of a result."""
    old = dict(_MODE)

    def noise(x, r):
        rng = np.random.default_rng(seed)
        n = len(x)
        s = np.triu(rng.choice([-1.0, 1.0], (n, n)), 1)
        s = s + s.T
        x2 = (x * x).sum(-1)
        return scale * s * eps * (x2[:, None] + x2[None, :] + r * r) / np.where(r > 0, r, 1.0)

    _MODE["eps"] = eps
    _MODE["cnn"] = lambda n: 8.0 * eps * np.random.default_rng([7, seed]).choice([-1.0, 1.0, 2.0], n)
    _MODE["noise"] = noise if seed is not None else None
    try:
        yield
    finally:
        _MODE.update(old)


# ---------------------------------------------------------------- CN, charges


def cnt_erf(r, r0, kcn=7.5):
    return 0.5 * (1.0 + _erf(-kcn * (r / r0 - 1.0)))


def cnt_exp(r, r0, kcn=16.0):
    return 1.0 / (1.0 + np.exp(-kcn * (r0 / r - 1.0)))


COUNT = {"erf": cnt_erf, "exp": cnt_exp}


def _cn(z, x, count, cutoff, weight=None):
    n = len(z)
    cn = np.zeros(n)
    if n < 2:
        return cn
    r = dist(x)
    rc = G["rcov"][z]
    off = ~np.eye(n, dtype=bool)
    rr = np.where(off, r, 1.0)
    c = count(rr, rc[:, None] + rc[None, :])
    if weight is not None:
        c = c * weight
    return np.where(off & (r <= cutoff), c, 0.0).sum(-1)


def cn_d4(z, x, counting="erf", cutoff=30.0):
    z = np.asarray(z)
    en = G["en"][z]
    w = K4 * np.exp(-((np.abs(en[:, None] - en[None, :]) + K5) ** 2) / K6)
    return _cn(z, x, COUNT[counting], cutoff, w)


def cn_d3(z, x, counting="exp", cutoff=25.0):
    return _cn(np.asarray(z), x, COUNT[counting], cutoff)


def eeq_system(z, x, cutoff=25.0):
    z = np.asarray(z)
    n = len(z)
    cn = _cn(z, x, cnt_erf, cutoff)
    cn = np.log(1.0 + math.exp(8.0)) - np.log(1.0 + np.exp(8.0 - cn))
    if _MODE["noise"] is not None:  # cancellation between two numbers close to 8
        cn = cn + _MODE["cnn"](n)
    rad = G["eeq_rad"][z]
    a = np.zeros((n, n))
    r = dist(x)
    gam = 1.0 / np.sqrt(rad[:, None] ** 2 + rad[None, :] ** 2)
    off = ~np.eye(n, dtype=bool)
    rr = np.where(off, r, 1.0)
    a = np.where(off, _erf(gam * rr) / rr, 0.0)
    a[np.diag_indices(n)] = G["eeq_eta"][z] + math.sqrt(2.0 / math.pi) / rad
    b = -G["eeq_chi"][z] + G["eeq_kcn"][z] * np.sqrt(np.maximum(cn, _MODE["eps"]))
    return a, b


def eeq(z, x, charge, cutoff=25.0):
    a, b = eeq_system(z, x, cutoff)
    n = len(b)
    m = np.ones((n + 1, n + 1))
    m[:n, :n] = a
    m[n, n] = 0.0
    return np.linalg.solve(m, np.append(b, charge))[:n]


def eeq_margin(z, x) -> float:
    """Smallest eigenvalue of the EEQ Coulomb matrix (must be safely > 0)."""
    a, _ = eeq_system(z, x)
    return float(np.linalg.eigvalsh(a)[0])


# ---------------------------------------------------------------- D4 model


def zeta(ga, gam, qref, qmod):
    qref, qmod = np.broadcast_arrays(np.asarray(qref, float), np.asarray(qmod, float))
    pos = qmod > 0.0
    qm = np.where(pos, qmod, 1.0)
    with np.errstate(over="ignore"):
        val = np.exp(ga * (1.0 - np.exp(gam * (1.0 - qref / qm))))
    return np.where(pos, val, math.exp(ga))


def dzeta(ga, gam, qref, qmod):
    """d zeta / d qmod for qmod > 0."""
    with np.errstate(over="ignore", invalid="ignore"):
        s = np.exp(gam * (1.0 - qref / qmod))
        return -ga * gam * s * np.exp(ga * (1.0 - s)) * qref / qmod**2


def _tables(ref_charges):
    if ref_charges == "eeq":
        return G["clsh"], G["clsq"]
    return G["refh"], G["refq"]


def ref_alpha(z, ga=3.0, gc=2.0, ref_charges="eeq"):
    """Reference polarizabilities (nat, 7, 23) on the imaginary axis."""
    z = np.asarray(z)
    refh, _ = _tables(ref_charges)
    out = np.zeros((len(z), 7, 23))
    cache = {}
    for i, zi in enumerate(z):
        zi = int(zi)
        if zi not in cache:
            a = np.zeros((7, 23))
            for k in range(7):
                s = int(G["refsys"][zi, k])
                if s > 0:
                    zf = float(G["zeff"][s])
                    zt = zeta(ga, G["gam"][s] * gc, zf, float(refh[zi, k]) + zf)
                    sec = G["secscale"][s, 0] * G["secalpha"][s] * zt
                else:
                    sec = 0.0
                v = G["refascale"][zi, k] * (G["refalpha"][zi, k] - G["refscount"][zi, k] * sec)
                a[k] = np.maximum(v, 0.0)
            cache[zi] = a
        out[i] = cache[zi]
    return out


def _gauss(zi, cn, wf):
    """Normalised Gaussian weights of one atom in log space.

    Returns the exact weights and the magnitude of the unnormalised sum (log)."""
    ng = G["refc"][zi]
    rcn = G["refcovcn"][zi]
    ex = []
    idx = []
    for k in range(7):
        for i in range(1, int(ng[k]) + 1):
            ex.append(-wf * i * (cn - rcn[k]) ** 2)
            idx.append(k)
    ex = np.array(ex)
    m = ex.max()
    e = np.exp(ex - m)
    w = np.zeros(7)
    for k, v in zip(idx, e):
        w[k] += v
    s = w.sum()
    return w / s, m + math.log(s)


LOG_UNDERFLOW = math.log(1e-290)


def _fallback(zi):
    rcn = G["refcovcn"][zi]
    ok = G["refc"][zi] > 0
    w = np.zeros(7)
    w[ok & (rcn == rcn.max())] = 1.0
    return w


def gw_atom(zi, cn, wf):
    """Exact Gaussian weights; second value tells whether the double precision
    Gaussians underflow, in which case the top reference takes over."""
    w, lg = _gauss(zi, cn, wf)
    return w, lg < LOG_UNDERFLOW


def zeta_atom(zi, q, ga, gc, ref_charges):
    _, refq = _tables(ref_charges)
    zf = float(G["zeff"][zi])
    ok = G["refc"][zi] > 0
    v = zeta(ga, G["gam"][zi] * gc, refq[zi] + zf, q + zf)
    return np.where(ok, v, 0.0)


def weights_d4(z, cn, q, ga=3.0, gc=2.0, wf=6.0, ref_charges="eeq", with_flag=False):
    n = len(z)
    out = np.zeros((n, 7))
    flag = np.zeros(n, bool)
    for i in range(n):
        w, under = gw_atom(int(z[i]), cn[i], wf)
        if under:
            w = _fallback(int(z[i]))
        flag[i] = under
        out[i] = w * zeta_atom(int(z[i]), q[i], ga, gc, ref_charges)
    return (out, flag) if with_flag else out


def weights_d4s(z, cn, q, ga=3.0, gc=2.0, wf=None, ref_charges="eeq", with_flag=False):
    """w[partner, atom, ref]."""
    n = len(z)
    z = np.asarray(z)
    out = np.zeros((n, n, 7))
    flag = np.zeros(n, bool)
    if wf is None:
        wf = G["wfpair"][z[:, None], z[None, :]]
    wf = np.broadcast_to(wf, (n, n))
    for i in range(n):
        zt = zeta_atom(int(z[i]), q[i], ga, gc, ref_charges)
        cache = {}
        for m in range(n):
            f = float(wf[i, m])
            if f not in cache:
                w, under = gw_atom(int(z[i]), cn[i], f)
                if under:
                    w = _fallback(int(z[i]))
                cache[f] = (w, under)
            w, under = cache[f]
            flag[i] |= under
            out[m, i] = w * zt
    return (out, flag) if with_flag else out


def c6_d4(alpha, w):
    a = np.einsum("nr,nrw->nw", w, alpha)
    return THOPI * np.einsum("iw,jw,w->ij", a, a, CPW)


def c6_d4s(alpha, w):
    # a[i, j] = polarizability of atom i as seen with partner j
    a = np.einsum("jir,irw->ijw", w, alpha)
    return THOPI * np.einsum("ijw,jiw,w->ij", a, a, CPW)


def pols_d4(alpha, w):
    return np.einsum("nr,nrw->nw", w, alpha)


def pols_d4s(alpha, w):
    return np.einsum("mnr,nrw->nw", w, alpha) / w.shape[0]


def model(z, cn, q, kind="d4", **kw):
    """(alpha, weights, c6, weighted polarizabilities) of a model."""
    akw = {k: kw[k] for k in ("ga", "gc", "ref_charges") if k in kw}
    al = ref_alpha(z, **akw)
    if kind == "d4":
        w = weights_d4(z, cn, q, **kw)
        return al, w, c6_d4(al, w), pols_d4(al, w)
    w = weights_d4s(z, cn, q, **kw)
    return al, w, c6_d4s(al, w), pols_d4s(al, w)


# ---------------------------------------------------------------- damping


def damp_bj(r, qq, n, a1, a2):
    return 1.0 / (r**n + (a1 * np.sqrt(qq) + a2) ** n)


def damp_zero(r, rv, n, rs, alp):
    a = alp + (2.0 if n == 8 else 0.0)
    return 1.0 / (1.0 + 6.0 * (rs * rv / r) ** a) / r**n


def damp_mzero(r, rv, n, rs, alp, bet):
    a = alp + (2.0 if n == 8 else 0.0)
    return 1.0 / (1.0 + 6.0 * (r / (rs * rv) + bet * rv) ** (-a)) / r**n


def damp_op(r, qq, n, a1, a2, bet):
    r0 = a1 * np.sqrt(qq) + a2
    return r**bet / (r ** (bet + n) + r0 ** (bet + n))


def damp(kind, r, qq, rv, n, p):
    if kind == "bj":
        return damp_bj(r, qq, n, p["a1"], p["a2"])
    if kind == "zero":
        return damp_zero(r, rv, n, p["rs6"] if n == 6 else p["rs8"], p.get("alp", 16.0))
    if kind == "mzero":
        return damp_mzero(r, rv, n, p["rs6"] if n == 6 else p["rs8"], p.get("alp", 16.0), p["bet"])
    if kind == "op":
        return damp_op(r, qq, n, p["a1"], p["a2"], p["bet"])
    raise KeyError(kind)


# ---------------------------------------------------------------- energies


def pair_matrix(x, c6, r4r2, p, cutoff=60.0, kind="bj", rvdw=None):
    """Pair energies e[i, j] (each pair appears twice) and term magnitudes."""
    n = len(c6)
    r = dist(x)
    off = ~np.eye(n, dtype=bool)
    rr = np.where(off, r, 1.0)
    qq = 3.0 * np.outer(r4r2, r4r2)
    on = off & (r <= cutoff)
    e = np.zeros((n, n))
    mag = np.zeros((n, n))
    terms = [(6, p.get("s6", 1.0), c6)]
    if "s8" in p:
        terms.append((8, p["s8"], c6 * qq))
    if "s10" in p:
        terms.append((10, p["s10"], c6 * qq**2 * 49.0 / 40.0))
    for order, s, c in terms:
        t = np.where(on, s * c * damp(kind, rr, qq, rvdw, order, p), 0.0)
        e -= t
        mag += np.abs(t)
    return e, mag


def two_body(x, c6, r4r2, p, cutoff=60.0, kind="bj", rvdw=None):
    e, m = pair_matrix(x, c6, r4r2, p, cutoff, kind, rvdw)
    return 0.5 * e.sum(-1), 0.5 * m.sum(-1)


def atm(x, c9, r0, cutoff=40.0, s9=1.0, alp=16.0):
    """Explicit loop over unordered triples; c9(i,j,k) callable or array."""
    n = len(x)
    e = np.zeros(n)
    mag = np.zeros(n)
    if n < 3:
        return e, mag
    r = dist(x)
    i, j, k = np.array([(a, b, c) for a in range(n) for b in range(a) for c in range(b)]).T
    a, b, c = r[i, j], r[j, k], r[i, k]
    on = (a <= cutoff) & (b <= cutoff) & (c <= cutoff)
    a2, b2, c2 = a * a, b * b, c * c
    cos1 = (a2 + c2 - b2) / (2 * a * c)
    cos2 = (a2 + b2 - c2) / (2 * a * b)
    cos3 = (b2 + c2 - a2) / (2 * b * c)
    prod = a * b * c
    rad = r0[i, j] * r0[j, k] * r0[i, k]
    f = 1.0 / (1.0 + 6.0 * (rad / prod) ** (alp / 3.0))
    cc = c9(i, j, k) if callable(c9) else c9[i, j, k]
    pre = s9 * cc * f / prod**3
    t = np.where(on, pre * (3.0 * cos1 * cos2 * cos3 + 1.0), 0.0)
    tm = np.where(on, np.abs(pre) * (3.0 * np.abs(cos1 * cos2 * cos3) + 1.0), 0.0)
    for ix in (i, j, k):
        np.add.at(e, ix, t / 3.0)
        np.add.at(mag, ix, tm / 3.0)
    return e, mag


def c9_approx(c6):
    return lambda i, j, k: np.sqrt(np.abs(c6[i, j] * c6[j, k] * c6[i, k]))


def c9_exact(pol):
    return lambda i, j, k: THOPI * (pol[i] * pol[j] * pol[k] * CPW).sum(-1)


def energy(
    z, x, charge, p, *, kind="d4", q=None, r4r2=None, rvdw=None, counting="erf",
    disp2=60.0, disp3=40.0, cn_eeq=25.0, exact=False, model_kw=None, damping="bj",
    two_charge=True, three_charge=False, radii="bj", terms=("two", "three"),
    cn=None, detail=False,
):
    """Atom-resolved D4 energy and the summed magnitude of its terms."""
    z = np.asarray(z)
    x = np.asarray(x, float)
    n = len(z)
    kw = model_kw or {}
    if cn is None:
        cn = cn_d4(z, x, counting)
    if q is None:
        q = eeq(z, x, charge, cn_eeq)
    q = np.asarray(q, float)
    if r4r2 is None:
        r4r2 = G["r4r2"][z]
    if rvdw is None:
        rvdw = G["rvdw"][z[:, None], z[None, :]]
    e = np.zeros(n)
    mag = np.zeros(n)
    zero = np.zeros(n)
    cache = {}

    def mod(charged):
        if charged not in cache:
            cache[charged] = model(z, cn, q if charged else zero, kind, **kw)
        return cache[charged]

    if "two" in terms:
        de, dm = two_body(x, mod(two_charge)[2], r4r2, p, disp2, damping, rvdw)
        e, mag = e + de, mag + dm
    if "three" in terms:
        _, _, c6, pol = mod(three_charge)
        c9 = c9_exact(pol) if exact else c9_approx(c6)
        if radii == "bj":
            r0 = p.get("a1", 0.4) * np.sqrt(3.0 * np.outer(r4r2, r4r2)) + p.get("a2", 5.0)
        else:
            r0 = p.get("rs9", 1.0) * rvdw
        de, dm = atm(x, c9, r0, disp3, p.get("s9", 1.0), p.get("alp", 16.0))
        e, mag = e + de, mag + dm
    if detail:
        return e, mag, {"cn": cn, "q": q, "c6": mod(True)[2], "alpha": mod(True)[3][:, 0]}
    return e, mag
