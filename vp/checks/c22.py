"""C22: user-defined damping functions, terms and models."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.damping import Damping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.dispersion.threebody import ATM, C9ApproxMixin, C9ExactMixin, RadiiBJMixin, RadiiVDWMixin
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
from .. import gen, ref
from ..engine import Sub
from ..util import F64, T, Z, close, expect, finite, guard, mk_model, npa, pad

RULE = (
    "Cases: (damping) user-defined damping classes generated with either radius type, required parameters per order, inherited from a user's or a built-in class or not, in the pair energy, a registered term and "
    "the functional interface on Hypothesis molecules, with required parameters present, zero, None or missing; (term) user-defined terms and ATM variants built from the C9 and radii rules, registered with "
    "generated charge dependence among built-in terms on molecules and padded batches with generated optional inputs; (model) user-defined models with random C6 matrices and polarizabilities given to "
    "the functional interface and to method objects. Oracle: explicit numpy pair and triple sums over the user's own functions; the arguments recorded by the user's objects against the reference "
    "model; an exception for missing parameters. Non-trivial: at least two atoms or a rejected call."
)
ASSUMPTIONS = ["user functions are smooth and positive; the call convention of damping functions inside three-body terms is not part of the property"]

KEYS = ("a1", "a2", "rs6", "rs8", "bet", "alp")


def make_damping(radius, need, level, style):
    """A user's damping class."""

    class User(Damping):
        radius_type = radius
        REQUIRED_BY_ORDER = {int(k): tuple(v) for k, v in need.items()}
        seen = []

        def _f(self, distances, radii, order, *, a1=None, a2=None, s6=None, rs6=None, s8=None, rs8=None, s9=None, rs9=None, s10=None, alp=None, bet=None, only_damping=False):
            p = {"a1": a1, "a2": a2, "rs6": rs6, "rs8": rs8, "bet": bet, "alp": alp}
            self.seen.append((order, only_damping))
            return user_value(style, distances, radii, order, p)

    if level == 0:
        return User
    if level == 1:

        class Child(User):
            """Inherits everything."""

        return Child
    if level == 3:

        class Only(User):
            """Inherits the requirements and the radius type."""

            def _f(self, distances, radii, order, *, a1=None, a2=None, rs6=None, rs8=None, bet=None, alp=None, **kw):
                return user_value(style, distances, radii, order, {"a1": a1, "a2": a2, "rs6": rs6, "rs8": rs8, "bet": bet, "alp": alp})

        return Only
    if level == 4:
        # the requirements and the radius type of a built-in function
        class BuiltIn(d4.damping.RationalDamping):
            def _f(self, distances, radii, order, *, a1=None, a2=None, rs6=None, rs8=None, bet=None, alp=None, **kw):
                return user_value(style, distances, radii, order, {"a1": a1, "a2": a2, "rs6": rs6, "rs8": rs8, "bet": bet, "alp": alp})

        return BuiltIn

    class Other(User):
        REQUIRED_BY_ORDER = {int(k): tuple(v) for k, v in need.items()}

        def _f(self, distances, radii, order, *, a1=None, a2=None, s6=None, rs6=None, s8=None, rs8=None, s9=None, rs9=None, s10=None, alp=None, bet=None, only_damping=False):
            p = {"a1": a1, "a2": a2, "rs6": rs6, "rs8": rs8, "bet": bet, "alp": alp}
            return user_value(style, distances, radii, order, p)

    return Other


def user_value(style, r, rad, order, p):
    """Works on numpy arrays and tensors alike."""
    v = {k: (0.7 + 0.1 * i if p.get(k) is None else p[k]) for i, k in enumerate(KEYS)}
    if style == 0:
        return 1.0 / (r**order + (0.3 + v["a1"]) * rad + v["a2"] ** 2 + order * v["bet"])
    if style == 1:
        return v["rs6"] * order / (r ** (order + 1) + (1.0 + v["rs8"]) * rad**0.5 + v["alp"])
    return (1.0 + v["a1"] * v["bet"]) / (r**2 + rad) ** (order / 2) * v["a2"]


@st.composite
def damp_case(draw):
    m = draw(gen.molecule(1, 6, rare=40))
    orders = ["6", "8", "10"]
    need = {k: draw(st.lists(st.sampled_from(KEYS[:5]), max_size=2, unique=True)) for k in draw(st.lists(st.sampled_from(orders), max_size=3, unique=True))}
    p = {"s6": draw(gen.fl(0.0, 2.0)), "s8": draw(gen.fl(0.0, 2.0))}
    if draw(st.booleans()):
        p["s10"] = draw(gen.fl(0.0, 2.0))
    for k in KEYS:
        if draw(gen.ints(0, 3)) > 0:
            p[k] = draw(st.one_of(gen.fl(0.1, 2.0), gen.pick(0.0)))
    return {
        **m,
        "radius": draw(gen.pick("r4r2", "rvdw")),
        "need": need,
        "level": draw(gen.ints(0, 4)),
        "style": draw(gen.ints(0, 2)),
        "p": p,
        "none": draw(st.booleans()),
        "tensor": draw(st.booleans()),
        "how": draw(gen.pick("pair", "term", "dftd4")),
        "seed": draw(gen.ints(0, 10**6)),
    }


def damp_check(case):
    z, x = np.array(case["z"]), np.array(case["x"], float)
    guard(z, x)
    n = len(z)
    p = dict(case["p"])
    if case["level"] == 4:
        case = {**case, "radius": "r4r2", "need": {o: ["a1", "a2"] for o in ("6", "8", "10")}}
    cls = make_damping(case["radius"], case["need"], case["level"], case["style"])
    fn = cls()
    rng = np.random.default_rng(case["seed"])
    used = [6, 8] + ([10] if "s10" in p else [])
    missing = sorted({k for o in used for k in case["need"].get(str(o), ()) if k not in p and k != "alp"})
    par = {k: (T(v) if case["tensor"] else v) for k, v in p.items()}
    if case["none"]:
        par.update({k: None for k in missing})
    r4 = ref.G["r4r2"][z] * rng.uniform(0.7, 1.3, n)
    rv = ref.G["rvdw"][z[:, None], z[None, :]] * rng.uniform(0.7, 1.3)
    q = rng.uniform(-0.2, 0.3, n)
    if case["how"] == "pair":
        c6 = rng.uniform(5.0, 300.0, (n, n))
        c6 = c6 + c6.T
        run = lambda f, pp: dispersion2(Z(z.tolist()), T(x), pp, T(c6), T(r4), T(rv), f)
    else:
        c6 = ref.model(z, ref.cn_d4(z, x), q, "d4")[2]
        if case["how"] == "term":
            disp = Disp(dtype=F64)
            disp.register(TwoBodyTerm(damping_fn=fn))
            run = lambda f, pp: disp.calculate(Z(z.tolist()), T(x), T(0.0), pp, q=T(q), r4r2=T(r4), rvdw=T(rv))
        else:
            run = lambda f, pp: d4.dftd4(Z(z.tolist()), T(x), 0.0, {**pp, "s9": 0.0}, q=T(q), r4r2=T(r4), rvdw=T(rv), damping_function=f)
    tags = [case["radius"], case["how"], f"level{case['level']}"]
    if missing:
        try:
            e = run(fn, par)
        except Exception:  # the kind of exception is not part of the property
            return {"tags": tags + ["rejected"]}
        expect(False, f"required parameters {missing} are missing, got {npa(e).tolist()}")
    e = run(fn, par)
    off = ~np.eye(n, dtype=bool)
    r = np.where(off, ref.dist(x), 1.0)
    qq = 3.0 * np.outer(r4, r4)
    rad = qq if case["radius"] == "r4r2" else rv
    pv = dict(p)
    pv.setdefault("alp", 16.0)
    want = np.zeros(n)
    for o, c in ((6, c6), (8, c6 * qq), (10, c6 * qq**2 * 49.0 / 40.0)):
        if f"s{o}" in p:
            want -= 0.5 * np.where(off & (ref.dist(x) <= 60.0), p[f"s{o}"] * c * user_value(case["style"], r, rad, o, pv), 0.0).sum(-1)
    finite(e, "energy")
    close(e, want, np.abs(want), f"pair energy with a user-defined damping function ({case['how']})", tol=1e-10)
    return {"nontrivial": n > 1, "tags": tags}


class Recorder(DispTerm):
    """A user's term, returns a function of everything it is given."""

    def __init__(self, charge_dependent, log, damping="zero"):
        super().__init__(d4.damping.ZeroDamping() if damping == "zero" else d4.damping.RationalDamping(), charge_dependent)
        self.log = log

    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
        self.log.append(dict(dep=self.charge_dependent, numbers=numbers, positions=positions, param=param, cn=cn, model=model, q=q, r4r2=r4r2, rvdw=rvdw, cutoff=cutoff))
        e = 0.01 * cn + 0.02 * r4r2 + 0.003 * (numbers > 0).to(cn.dtype) * rvdw.sum(-1)
        e = e + (numbers > 0).to(cn.dtype) * param.get("mine", 0.0)
        return e if q is None or not self.charge_dependent else e + 0.5 * q


class OwnC9:
    """A user's C9 rule."""

    def get_c9(self, model, cn, q):
        w = 1.0 + 0.1 * cn if q is None or not self.charge_dependent else 1.0 + 0.1 * cn + 0.2 * q
        return 50.0 * w.unsqueeze(-1).unsqueeze(-1) * w.unsqueeze(-1).unsqueeze(-3) * w.unsqueeze(-2).unsqueeze(-2)


class OwnRadii:
    """A user's critical radii."""

    def get_radii(self, param, r4r2, rvdw):
        return 0.5 * rvdw + 0.1 * (r4r2.unsqueeze(-1) + r4r2.unsqueeze(-2)) + param["a2"]


MIX9 = {"approx": C9ApproxMixin, "exact": C9ExactMixin, "own": OwnC9}
MIXR = {"bj": RadiiBJMixin, "vdw": RadiiVDWMixin, "own": OwnRadii}
CLS = {(a, b): type(f"ATM_{a}_{b}", (MIX9[a], MIXR[b], ATM), {}) for a in MIX9 for b in MIXR}


@st.composite
def term_case(draw):
    k = draw(gen.pick(1, 1, 2))
    mols = [draw(gen.molecule(1, 6, styles=("cluster", "linear", "planar"), rare=24)) for _ in range(k)]
    p = draw(gen.bj_param(s10=False))
    p["rs9"] = draw(gen.fl(0.8, 1.5))
    kinds = st.one_of(
        st.tuples(st.just("rec"), st.booleans(), gen.pick("zero", "bj")),
        st.tuples(st.just("rec"), st.booleans(), gen.pick("zero", "bj")),
        st.tuples(st.just("two"), st.booleans()),
        st.tuples(st.just("atm"), st.booleans(), st.sampled_from(sorted(MIX9)), st.sampled_from(sorted(MIXR))),
        st.tuples(st.just("atm"), st.booleans(), st.sampled_from(sorted(MIX9)), st.sampled_from(sorted(MIXR))),
    ).map(list)
    terms = draw(st.lists(kinds, min_size=1, max_size=4))
    if all(t[0] != "two" for t in terms) and draw(st.booleans()):
        p["mine"] = draw(gen.fl(-0.2, 0.2))  # a parameter of the user's own
    return {
        "mols": mols,
        "batch": k > 1 or draw(gen.ints(0, 3)) == 0,
        "terms": terms,
        "model": draw(gen.pick("d4", "d4s")),
        "inst": draw(st.booleans()),
        "p": p,
        "charge": draw(gen.total_charge()),
        "opt": draw(st.lists(gen.pick("q", "r4r2", "rvdw", "cutoff"), unique=True, max_size=4)),
        "seed": draw(gen.ints(0, 10**6)),
    }


def term_check(case):
    mols, p = case["mols"], case["p"]
    for m in mols:
        guard(m["z"], m["x"])
    rng = np.random.default_rng(case["seed"])
    anyq = any(t[1] for t in case["terms"])
    if case["batch"]:
        num, pos = pad(mols)
    else:
        num, pos = Z(mols[0]["z"]), T(mols[0]["x"])
    nmax = num.shape[-1]
    log = []
    disp = Disp(model=mk_model(case["model"], num) if case["inst"] else case["model"], dtype=F64)
    for t in case["terms"]:
        disp.register(Recorder(t[1], log, t[2]) if t[0] == "rec" else TwoBodyTerm(charge_dependent=t[1]) if t[0] == "two" else CLS[t[2], t[3]](charge_dependent=t[1]))
    # per-molecule inputs
    data, kw, c2, c3 = [], {}, 60.0, 40.0
    if "cutoff" in case["opt"]:
        c2, c3 = 7.777713, 9.123471
        kw["cutoff"] = d4.Cutoff(disp2=c2, disp3=c3, dtype=F64)
        for m in mols:
            guard(m["z"], m["x"], (c2, c3), charges=False)
    for m in mols:
        z = np.array(m["z"])
        d = {"q": None, "r4r2": ref.G["r4r2"][z], "rvdw": ref.G["rvdw"][z[:, None], z[None, :]]}
        if "r4r2" in case["opt"]:
            d["r4r2"] = d["r4r2"] * rng.uniform(0.8, 1.2, len(z))
        if "rvdw" in case["opt"]:
            f = rng.uniform(0.8, 1.2, (len(z), len(z)))
            d["rvdw"] = d["rvdw"] * 0.5 * (f + f.T)
        if anyq:
            d["q"] = rng.uniform(-0.3, 0.4, len(z)) if "q" in case["opt"] else ref.eeq(z, np.array(m["x"], float), case["charge"])
        data.append(d)
    put = lambda k: T(np.stack([np.pad(d[k], [(0, nmax - len(d["r4r2"]))] * d[k].ndim) for d in data])) if case["batch"] else T(data[0][k])
    for k in ("r4r2", "rvdw", "q"):
        if k in case["opt"] and (k != "q" or anyq):
            kw[k] = put(k)
    chg = T([case["charge"]] * len(mols)) if case["batch"] else T(case["charge"])
    e = disp.calculate(num, pos, chg, p, **kw)
    finite(e, "energy")
    nrec = sum(t[0] == "rec" for t in case["terms"])
    expect(len(log) == nrec, f"{len(log)} calls of {nrec} user-defined terms")
    row = lambda t, i: npa(t)[i] if case["batch"] else npa(t)
    for i, (m, d) in enumerate(zip(mols, data)):
        z, x = np.array(m["z"]), np.array(m["x"], float)
        n = len(z)
        cn = ref.cn_d4(z, x)
        want, mag = np.zeros(n), np.zeros(n)
        zero = np.zeros(n)
        for t in case["terms"]:
            qq = d["q"] if t[1] and d["q"] is not None else zero
            if t[0] == "rec":
                v = 0.01 * cn + 0.02 * d["r4r2"] + 0.003 * d["rvdw"].sum(-1) + p.get("mine", 0.0)
                if t[1]:
                    v = v + 0.5 * d["q"]
                want, mag = want + v, mag + np.abs(v) + (2.0 if anyq else 0.0)
            elif t[0] == "two":
                v, w = ref.two_body(x, ref.model(z, cn, qq, case["model"])[2], d["r4r2"], p, c2)
                want, mag = want + v, mag + w
            else:
                _, _, c6, pol = ref.model(z, cn, qq, case["model"])
                f = 1.0 + 0.1 * cn + (0.2 * qq if t[1] else 0.0)
                c9 = {"approx": ref.c9_approx(c6), "exact": ref.c9_exact(pol), "own": lambda a, b, c: 50.0 * f[a] * f[b] * f[c]}[t[2]]
                r4 = d["r4r2"]
                r0 = {
                    "bj": p["a1"] * np.sqrt(3.0 * np.outer(r4, r4)) + p["a2"],
                    "vdw": p["rs9"] * d["rvdw"],
                    "own": 0.5 * d["rvdw"] + 0.1 * (r4[:, None] + r4[None, :]) + p["a2"],
                }[t[3]]
                v, w = ref.atm(x, c9, r0, c3, p.get("s9", 1.0), p.get("alp", 16.0))
                want, mag = want + v, mag + w
        got = row(e, i)
        close(got[:n], want, mag, f"energy with user-defined terms {case['terms']}")
        for rec in log:
            expect(anyq or rec["q"] is None, "charges handed to a term although none needs them")
            expect(not rec["dep"] or rec["q"] is not None, "no charges handed to a charge-dependent user-defined term")
            close(row(rec["cn"], i)[:n], cn, 1.0 + cn, "coordination number handed to a user-defined term")
            close(row(rec["r4r2"], i)[:n], d["r4r2"], d["r4r2"], "r4r2 handed to a user-defined term")
            close(row(rec["rvdw"], i)[:n, :n], d["rvdw"], d["rvdw"], "van der Waals radii handed to a user-defined term")
            expect(bool((row(rec["positions"], i) == row(pos, i)).all()) and bool((row(rec["numbers"], i) == row(num, i)).all()), "structure handed to a user-defined term")
            if rec["dep"]:
                close(row(rec["q"], i)[:n], d["q"], 1.0, "charges handed to a user-defined term")
            expect({k: float(v) for k, v in rec["param"].items()} == p, "parameters handed to a user-defined term")
            expect(float(rec["cutoff"].disp2) == c2 and float(rec["cutoff"].disp3) == c3, "cutoffs handed to a user-defined term")
    return {"nontrivial": max(len(m["z"]) for m in mols) > 1, "tags": [t[0] for t in case["terms"]]}


class UserModel:
    """A user's dispersion model: fixed C6 that respond to CN and charge."""

    def __init__(self, c6, pol):
        self.c6, self.pol, self.log = c6, pol, []

    def weight_references(self, cn=None, q=None, *_, **__):
        self.log.append((cn, q))
        return cn if q is None else cn + 0.3 * q

    def get_atomic_c6(self, w):
        f = 1.0 + 0.05 * w
        return self.c6 * f.unsqueeze(-1) * f.unsqueeze(-2)

    def get_weighted_pols(self, w):
        return self.pol * (1.0 + 0.05 * w).unsqueeze(-1)


@st.composite
def model_case(draw):
    m = draw(gen.molecule(1, 7, rare=40))
    return {
        **m,
        "q": draw(gen.charges(m["z"])) if draw(st.booleans()) else None,
        "charge": draw(gen.total_charge()),
        "p": draw(gen.bj_param()),
        "how": draw(gen.pick("dftd4", "list", "list", "list")),
        "terms": [[draw(gen.pick("two", "two", "approx", "exact")), draw(st.booleans())] for _ in range(draw(gen.ints(1, 4)))],
        "twice": draw(st.booleans()),
        "seed": draw(gen.ints(0, 10**6)),
    }


def model_check(case):
    z, x = np.array(case["z"]), np.array(case["x"], float)
    guard(z, x, charges=case["q"] is None)
    n = len(z)
    rng = np.random.default_rng(case["seed"])
    c6 = rng.uniform(5.0, 400.0, (n, n))
    c6 = c6 + c6.T
    pol = rng.uniform(0.5, 20.0, (n, 23))
    mdl = UserModel(T(c6), T(pol))
    q = None if case["q"] is None else T(case["q"])
    p = case["p"]
    terms = case["terms"]
    if case["how"] == "dftd4":
        terms = [["two", True], ["approx", False]]
        run = lambda: d4.dftd4(Z(z.tolist()), T(x), T(case["charge"]), p, model=mdl, q=q)
    else:
        from tad_mctc.ncoord import cn_d4

        disp = Disp(model=mdl, cn_fn=cn_d4, dtype=F64)
        for t, dep in terms:
            disp.register(TwoBodyTerm(charge_dependent=dep) if t == "two" else CLS[t, "bj"](charge_dependent=dep))
        if not any(dep for _, dep in terms):
            q = None
        run = lambda: disp.calculate(Z(z.tolist()), T(x), T(case["charge"]), p, q=q)
    e = run()
    if case["twice"]:
        e = run()
    cn = ref.cn_d4(z, x)
    rq = np.array(case["q"]) if case["q"] is not None else ref.eeq(z, x, case["charge"])
    r4 = ref.G["r4r2"][z]
    want, mag = np.zeros(n), np.zeros(n)
    for t, dep in terms:
        f = 1.0 + 0.05 * (cn + (0.3 * rq if dep else 0.0))
        if t == "two":
            a, b = ref.two_body(x, c6 * np.outer(f, f), r4, p)
        else:
            c9 = ref.c9_exact(pol * f[:, None]) if t == "exact" else ref.c9_approx(c6 * np.outer(f, f))
            a, b = ref.atm(x, c9, p["a1"] * np.sqrt(3.0 * np.outer(r4, r4)) + p["a2"], 40.0, p.get("s9", 1.0), p.get("alp", 16.0))
        want, mag = want + a, mag + b
    finite(e, "energy")
    close(e, want, mag, f"energy with a user-defined model {terms}", tol=1e-8 if case["q"] is None else 1e-10)
    for c, qq in mdl.log:
        close(c, cn, 1.0 + cn, "coordination number handed to a user-defined model")
        if qq is not None:
            close(qq, rq, 1.0, "charges handed to a user-defined model")
    return {"nontrivial": n > 1, "tags": [case["how"], *(f"{t}{'q' if dep else ''}" for t, dep in terms)]}


SUBS = [
    Sub("damping", damp_case, damp_check, quick=2400, thorough=50000),
    Sub("term", term_case, term_check, quick=1600, thorough=40000),
    Sub("model", model_case, model_check, quick=2000, thorough=40000),
]
