"""Hypothesis strategies for plain JSON-able cases."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from . import ref

COMMON = [1, 6, 7, 8, 9, 14, 15, 16, 17, 35, 53]
NOBLE = [2, 10, 18, 36, 54, 86]
ALKALI = [3, 11, 19, 37, 55, 87, 4, 12, 20, 38, 56, 88]
TM = list(range(21, 31)) + list(range(39, 49)) + list(range(72, 81))
FBLOCK = list(range(57, 72)) + list(range(89, 104))


def ints(a, b):
    return st.integers(a, b)


def fl(a, b, digits=3):
    """Decimal number in [a, b]; shrinks towards a."""
    m = 10**digits
    return st.integers(int(math.ceil(a * m)), int(math.floor(b * m))).map(lambda v: v / m)


def pick(*vals):
    return st.sampled_from(vals)


@st.composite
def elements(draw, n, zmax=103):
    style = draw(pick("any", "any", "few", "few", "common", "same", "class"))
    if style == "any":
        z = [draw(ints(1, zmax)) for _ in range(n)]
    elif style == "few":
        pal = [draw(ints(1, zmax)) for _ in range(draw(ints(2, 3)))]
        z = [draw(st.sampled_from(pal)) for _ in range(n)]
    elif style == "common":
        z = [draw(st.sampled_from([c for c in COMMON if c <= zmax])) for _ in range(n)]
    elif style == "same":
        z = [draw(ints(1, zmax))] * n
    else:
        pal = [c for c in draw(pick(NOBLE, ALKALI, TM, FBLOCK)) if c <= zmax] or COMMON
        pal = pal + [1, 8]
        z = [draw(st.sampled_from(pal)) for _ in range(n)]
    return z


@st.composite
def geometry(draw, n, styles=("cluster",) * 4 + ("linear", "planar", "wide", "frag"), smin=2.2):
    """Distinct lattice sites plus jitter: atoms never collide."""
    style = draw(st.sampled_from(styles))
    if style == "linear":
        sites = [(i, 0, 0) for i in range(n)]
    else:
        m = max(1, int(math.ceil((2.0 * n) ** (1 / 3))) - 1)
        if style == "planar":
            m2 = max(1, int(math.ceil(math.sqrt(2.0 * n))) - 1)
            el = st.tuples(ints(0, m2), ints(0, m2), st.just(0))
        else:
            el = st.tuples(ints(0, m), ints(0, m), ints(0, m))
        sites = draw(st.lists(el, min_size=n, max_size=n, unique=True))
    if style == "wide":
        scale = draw(fl(8.0, 25.0, 2))
    else:
        scale = draw(fl(smin, 7.0, 2))
    out = []
    for s in sites:
        j = [draw(ints(-220, 220)) / 1000.0 for _ in range(3)]
        if style == "linear" and draw(st.booleans()):
            j = [j[0], 0.0, 0.0]
        if style == "planar":
            j[2] = 0.0
        out.append([round(scale * (a + b), 5) for a, b in zip(s, j)])
    if style == "frag" and n > 1:
        k = draw(ints(1, n - 1))
        sh = draw(fl(10.0, 90.0, 1))
        ax = draw(ints(0, 2))
        for i in range(k, n):
            out[i][ax] = round(out[i][ax] + sh, 5)
    # orientation and origin: as built, an atom at the origin, or centred
    a, b, c = draw(pick((0, 1, 2), (0, 1, 2), (1, 2, 0), (2, 0, 1)))
    out = [[r[a], r[b], r[c]] for r in out]
    o = draw(pick("built", "built", "atom", "centre"))
    if o != "built":
        if o == "atom":
            c0 = list(out[draw(ints(0, n - 1))])
        else:
            c0 = [sum(r[k] for r in out) / n for k in range(3)]
        out = [[round(r[k] - c0[k], 5) for k in range(3)] for r in out]
    return out


def large(n, seed, spacing, few, zmax=103):
    """A jittered-grid cluster of many atoms, a function of a few drawn numbers."""
    rng = np.random.default_rng([n, seed])
    z = rng.integers(1, zmax + 1, n) if not few else rng.choice(rng.integers(1, zmax + 1, few), n)
    m = int(np.ceil(n ** (1 / 3)))
    sites = np.array([(a, b, c) for a in range(m) for b in range(m) for c in range(m)], float)
    x = sites[rng.permutation(len(sites))[:n]] + rng.uniform(-0.2, 0.2, (n, 3))
    x = np.round(spacing * (x - rng.integers(0, m, 3)), 4)
    return {"z": z.tolist(), "x": x.tolist()}


@st.composite
def molecule(draw, nmin=1, nmax=10, zmax=103, styles=None, smin=2.2, rare=0):
    """``rare``: one molecule in thirty is larger than usual, up to this size."""
    n = draw(ints(nmin, nmax))
    if rare > nmax and draw(ints(0, 29)) == 29:
        n = draw(ints(nmax + 1, rare))
        return large(n, draw(ints(0, 10**6)), draw(fl(3.0, 8.0, 1)), draw(pick(0, 1, 2, 4)), zmax)
    if nmin > 40:
        return large(n, draw(ints(0, 10**6)), draw(fl(3.0, 8.0, 1)), draw(pick(0, 1, 2, 4)), zmax)
    z = draw(elements(n, zmax))
    kw = {} if styles is None else {"styles": styles}
    x = draw(geometry(n, smin=smin, **kw))
    return {"z": z, "x": x}


def total_charge():
    return pick(0, 0, 0, 1, -1, 2, -2, 3, -3, 0.5, -0.25)


@st.composite
def bj_param(draw, s10=True, alp=True, neg=False):
    p = {
        "s8": draw(fl(-1.0 if neg else 0.0, 4.0)),
        "a1": draw(fl(0.05, 0.9)),
        "a2": draw(fl(0.5, 7.0)),
    }
    if draw(st.booleans()):
        p["s6"] = draw(fl(0.3, 1.6))
    if draw(ints(0, 3)) > 0:
        p["s9"] = draw(fl(0.0, 2.5))
    if draw(ints(0, 11)) == 0:  # beyond the usual range
        p["a1"] = draw(fl(0.9, 1.6))
    if draw(ints(0, 11)) == 0:
        p["a2"] = draw(fl(7.0, 12.0))
    # parameters that are exactly zero
    zero = draw(ints(0, 19))
    if zero == 1:
        p["a1"] = 0.0
    elif zero == 2:
        p.update(a1=max(p["a1"], 0.4), a2=0.0)
    elif zero in (3, 4, 5):
        p[("s6", "s8", "s9")[zero - 3]] = 0.0
    if s10 and draw(ints(0, 2)) == 0:
        p["s10"] = draw(fl(0.0, 2.0))
    if alp and draw(ints(0, 2)) == 0:
        p["alp"] = draw(st.one_of(pick(16.0, 14.0, 12.0, 18.0, 10.5, 9.0, 20.0), fl(7.0, 21.0)))
    return p


def safe_q(z: int) -> tuple[float, float]:
    """Range of partial charges for which the charge scaling is smooth."""
    zf = float(ref.G["zeff"][z])
    return max(-2.5, -0.85 * zf), min(2.5, max(0.9, zf))


@st.composite
def charges(draw, z):
    out = []
    for zi in z:
        lo, hi = safe_q(zi)
        out.append(draw(fl(lo, hi)))
    return out


@st.composite
def cn_for(draw, zi, far=True):
    """Coordination number near/at/between/far above the reference values."""
    ok = ref.G["refc"][zi] > 0
    r = sorted(set(ref.G["refcovcn"][zi][ok].tolist()))
    style = draw(pick("near", "near", "mid", "any", "zero", "above") if far else pick("near", "near", "mid", "any", "zero"))
    if style == "near":
        v = draw(st.sampled_from(r)) + draw(ints(-250, 250)) / 1000.0
    elif style == "mid":
        i = draw(ints(0, max(0, len(r) - 2)))
        a, b = r[i], r[min(i + 1, len(r) - 1)]
        v = 0.5 * (a + b) + draw(ints(-150, 150)) / 1000.0
    elif style == "any":
        v = draw(fl(0.0, 16.0))
    elif style == "zero":
        v = 0.0
    else:
        v = r[-1] + draw(fl(0.5, 9.0))
    return round(max(0.0, v), 6)


def min_dist(x) -> float:
    x = np.asarray(x, float)
    if len(x) < 2:
        return 99.0
    d = ref.dist(x)
    return float(d[np.triu_indices(len(x), 1)].min())


def near_cutoff(x, cuts, tol=1e-6) -> bool:
    """A distance numerically equal to a cutoff has no defined side."""
    x = np.asarray(x, float)
    if len(x) < 2:
        return False
    d = ref.dist(x)[np.triu_indices(len(x), 1)]
    return any(np.any(np.abs(d - c) < tol * max(1.0, c)) for c in cuts)


def all_ref_pairs():
    """All (element, reference index) combinations."""
    return [(z, k) for z in range(1, 104) for k in range(7) if ref.G["refc"][z, k] > 0]


def near_cutoff_abs(x, cuts, tol) -> bool:
    x = np.asarray(x, float)
    if len(x) < 2:
        return False
    d = ref.dist(x)[np.triu_indices(len(x), 1)]
    return any(np.any(np.abs(d - c) < tol) for c in cuts)
