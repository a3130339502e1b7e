"""C04: rigid-motion invariance and permutation equivariance."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion.d4 import DispD4Exact
from tad_dftd4.dispersion import dispersion2, get_atm_dispersion
from .. import gen, ref
from ..engine import Sub
from ..util import F64, T, Z, close, guard, npa, tags_z

RULE = (
    "Cases: Hypothesis-generated molecules (2-10 atoms, all elements, D4/D4S, approximate or exact C9, EEQ or supplied charges) with a "
    "generated permutation, quaternion rotation, optional reflection and translation. Also the pair and triple sums alone, with coefficients spread over up to 14 decades and arbitrary where atoms coincide. Oracle: metamorphic, transformed "
    "energies / properties equal the permuted originals to 1e-7 of the summed magnitudes (properties 1e-7 relative). Non-trivial: at "
    "least three atoms of at least two elements and a non-identity permutation or rotation."
)
ASSUMPTIONS = ["atoms at least 1.2 bohr apart, no distance within 1e-6 of a cutoff", "EEQ matrix safely positive definite"]


@st.composite
def case(draw, nmin=2, nmax=10):
    m = draw(gen.molecule(nmin, nmax))
    n = len(m["z"])
    c = {
        **m,
        "perm": draw(st.permutations(list(range(n)))),
        "quat": [draw(gen.ints(-9, 9)) for _ in range(4)],
        "mirror": draw(st.booleans()),
        "shift": [s * draw(gen.fl(-45.0, 45.0, 2)) for _ in range(3)] if (s := draw(gen.pick(0.0, 0.0, 1.0, 1.0, 30.0))) else [0.0] * 3,
        "model": draw(gen.pick("d4", "d4s")),
        "exact": draw(gen.ints(0, 4)) == 0,
        "charge": draw(gen.total_charge()),
        "p": draw(gen.bj_param()),
    }
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = draw(gen.charges(m["z"]))
    return c


def rot(quat, mirror):
    q = np.array(quat, float)
    if not np.any(q):
        q = np.array([1.0, 0, 0, 0])
    w, x, y, z = q / np.linalg.norm(q)
    r = np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )
    return -r if mirror else r


def check(case):
    z, x = case["z"], np.array(case["x"], float)
    guard(z, x, charges=True)
    perm = case["perm"]
    y = (x @ rot(case["quat"], case["mirror"]).T + np.array(case["shift"]))[perm]
    zp = [z[i] for i in perm]
    q = T(case["q"]) if "q" in case else None
    qp = q[torch.tensor(perm)] if q is not None else None
    ch = T(case["charge"])
    if case["exact"]:
        disp = DispD4Exact(model=case["model"], dtype=F64)
        f = lambda n, r, qq: disp.calculate(n, r, ch, case["p"], q=qq)
    else:
        f = lambda n, r, qq: d4.dftd4(n, r, ch, case["p"], model=case["model"], q=qq)
    e0, e1 = f(Z(z), T(x), q), f(Z(zp), T(y), qp)
    s = max(1e-9, float(e0.abs().sum()))
    close(e1, e0[torch.tensor(perm)], s, "energies of the transformed molecule", tol=1e-7)
    p0, p1 = d4.get_properties(Z(z), T(x), ch), d4.get_properties(Z(zp), T(y), ch)
    ix = torch.tensor(perm)
    for name, a, b in zip(("CN", "charge", "C6", "polarizability"), p0, p1):
        a = a[ix][:, ix] if name == "C6" else a[ix]
        close(b, a, a.abs() + (1.0 if name in ("CN", "charge") else 0.0), f"{name} of the transformed molecule", tol=1e-7)
    nt = len(z) > 2 and len(set(z)) > 1
    return {"nontrivial": nt, "tags": [case["model"]] + (["mirror"] if case["mirror"] else [])}


@st.composite
def kernel_case(draw):
    n = draw(gen.pick(3, 4, 5, 6, 8, 21, 27))
    return {
        "x": draw(gen.geometry(n, styles=("cluster", "cluster", "wide"))),
        "perm": draw(st.permutations(list(range(n)))),
        "seed": draw(gen.ints(0, 10**6)),
        "spread": draw(gen.pick(0, 3, 9, 14)),
        "off": draw(gen.pick(1.0, 0.0, 1e10, -1e3)),
        "p": draw(gen.bj_param()),
    }


def kernel_check(case):
    """The pair and triple sums themselves, with coefficients of any size."""
    x = np.array(case["x"], float)
    n = len(x)
    rng = np.random.default_rng(case["seed"])
    z = rng.integers(1, 104, n).tolist()
    guard(z, x, charges=False)
    size = 10.0 ** (-case["spread"] * rng.uniform(0.0, 1.0, n))
    c6 = rng.uniform(1.0, 500.0, (n, n))
    c6 = (c6 + c6.T) * np.sqrt(np.outer(size, size))
    c6[np.eye(n, dtype=bool)] *= case["off"]
    c9 = np.sqrt(np.abs(c6[:, :, None] * c6[:, None, :] * c6[None, :, :]))
    rad = rng.uniform(0.5, 9.0, (n, n))
    rad = rad + rad.T
    r4 = rng.uniform(1.0, 12.0, n)
    ix = np.array(case["perm"])
    num, pos = Z(z), T(x)
    zp, xp = num[torch.tensor(ix)], pos[torch.tensor(ix)]
    cut = T(40.0)
    a = get_atm_dispersion(num, pos, T(c9), T(rad), cut)
    b = get_atm_dispersion(zp, xp, T(c9[ix][:, ix][:, :, ix]), T(rad[np.ix_(ix, ix)]), cut)
    off = c9.copy()
    i3 = np.indices((n, n, n))
    off[(i3[0] == i3[1]) | (i3[1] == i3[2]) | (i3[0] == i3[2])] = 0.0
    mag = get_atm_mag(x, off, rad)
    close(b, npa(a)[ix], mag[ix], "three-body energies of permuted atoms", tol=1e-10, atol=1e-300)
    m0 = dispersion2(num, pos, case["p"], T(c6), T(r4), T(rad), as_matrix=True)
    m1 = dispersion2(zp, xp, case["p"], T(c6[np.ix_(ix, ix)]), T(r4[ix]), T(rad[np.ix_(ix, ix)]), as_matrix=True)
    want = npa(m0)[np.ix_(ix, ix)]
    scale = npa(dispersion2(zp, xp, {k: abs(v) for k, v in case["p"].items()}, T(np.abs(c6[np.ix_(ix, ix)])), T(r4[ix]), T(rad[np.ix_(ix, ix)]), as_matrix=True))
    close(m1, want, scale, "pair energies of permuted atoms", tol=1e-10, atol=1e-300)
    e0 = dispersion2(num, pos, case["p"], T(c6), T(r4), T(rad))
    e1 = dispersion2(zp, xp, case["p"], T(c6[np.ix_(ix, ix)]), T(r4[ix]), T(rad[np.ix_(ix, ix)]))
    close(e1, npa(e0)[ix], np.abs(scale).sum(-1), "atomic pair energies of permuted atoms", tol=1e-10, atol=1e-300)
    return {"tags": [f"n{n}"]}


def get_atm_mag(x, c9, rad):
    """Summed magnitudes of the triples of every atom."""
    return ref.atm(x, lambda i, j, k: c9[i, j, k], rad, 40.0, 1.0, 16.0)[1]


def giant_cases():
    out = []
    for n, few, kind in ((140, 0, "d4"), (180, 3, "d4s")):
        c = {**gen.large(n, 7, 4.5, few), "perm": np.random.default_rng(n).permutation(n).tolist(), "quat": [3, -2, 1, 4], "mirror": True}
        out.append({**c, "shift": [11.5, -3.25, 2.0], "model": kind, "exact": False, "charge": 1, "p": {"s8": 1.1, "a1": 0.4, "a2": 4.8}})
    return out


SUBS = [
    Sub("giant", lambda: None, check, quick=0, thorough=0, exhaustive=giant_cases),
    Sub("kernel", kernel_case, kernel_check, quick=800, thorough=16000),
    Sub("transform", case, check, quick=2000, thorough=50000),
    Sub("size", lambda: case(14, 30), check, quick=64, thorough=1500),
    Sub("huge", lambda: case(41, 100), check, quick=32, thorough=600),
]
