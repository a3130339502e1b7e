"""C24: objects survive copying and pickling."""
import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st
from tad_mctc.ncoord import cn_d3, exp_count

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp, DispD4
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from .. import gen, ref
from ..boot import VERIF
from ..engine import Sub
from ..methods import DAMP
from ..util import F32, F64, T, Z, close, expect, finite, grad, guard, mk_model

RULE = (
    "Cases: (history) Hypothesis sequences of 1-14 operations on a pool of models, method objects, terms, damping functions, cutoffs, parameter mappings and lookups: evaluate, convert the precision, copy (copy, "
    "deepcopy, pickle protocols 2-5, torch.save), register and deregister terms, change cutoffs and parameters in place; every object is evaluated at the end; (process) generated pools pickled and evaluated in a "
    "fresh interpreter. Oracle: a list model of every object's state, evaluated with newly built objects. Non-trivial: a copy was made and something was evaluated or changed after it."
)
ASSUMPTIONS = ["shallow copies may share mutable parts with the original, which is then not changed in place", "pickles are read by the same version of the code"]

DT = {"32": F32, "64": F64}
CLS = {"Disp": Disp, "DispD4": DispD4, "DispD4Exact": DispD4Exact, "DispD3BJ": DispD3BJ}
TERM = {"approx": D4ATMApprox, "exact": D4ATMExact, "d3": D3ATM}
HOW = ("copy", "deepcopy", "deepcopy", "pickle2", "pickle3", "pickle4", "pickle5", "save")
MOLS = [
    ([6, 8, 1, 1], [[0.0, 0.0, 0.25], [0.0, 0.0, 2.5], [1.75, 0.0, -0.75], [-1.75, 0.0, -0.75]]),
    ([79, 17, 6, 1, 92], [[0.0, 0.0, 0.0], [4.25, 0.5, 0.0], [-3.5, 1.0, 0.5], [-4.5, 2.75, 0.25], [1.0, -6.5, 2.0]]),
    ([2], [[0.5, 0.25, 0.0]]),
]
P = {"s6": 1.0, "s8": 0.75, "s9": 1.25, "a1": 0.375, "a2": 5.0, "rs6": 1.0, "rs8": 0.875, "bet": 0.125, "alp": 14.0}


def build_term(t):
    return TwoBodyTerm(damping_fn=DAMP[t[0]](), charge_dependent=t[1]) if t[0] in DAMP else TERM[t[0]](charge_dependent=t[1])


def build(s):
    """A new object of a given state."""
    k = s["k"]
    if k == "model":
        kw = {a: b for a, b in s["opt"].items()}
        if "rc6" in kw:  # reference coefficients of the user's own
            kw["rc6"] = kw["rc6"] * mk_model(s["kind"], Z(MOLS[s["mol"]][0]), dtype=DT[s["dt"]]).rc6
        return mk_model(s["kind"], Z(MOLS[s["mol"]][0]), dtype=DT[s["dt"]], **kw)
    if k == "disp":
        mdl = mk_model(s["kind"], Z(MOLS[s["mol"]][0]), dtype=DT[s["dt"]]) if s["inst"] else s["kind"]
        kw = {"cn_fn_kwargs": {"counting_function": exp_count}} if s.get("exp") else {}
        if s.get("ga") and not s["inst"]:
            kw["model_kwargs"] = {"ga": 2.5}
        if s.get("cn3"):
            kw["cn_fn"] = cn_d3
        d = CLS[s["cls"]](model=mdl, dtype=DT[s["dt"]], **kw)
        for t in list(d.terms):
            d.deregister(t)
        for t in s["terms"]:
            d.register(build_term(t))
        return d
    if k == "term":
        return build_term(s["term"])
    if k == "damp":
        return DAMP[s["damp"]]()
    if k == "cutoff":
        return d4.Cutoff(*s["cut"], dtype=DT[s["dt"]])
    if k == "lookup":
        return d4.get_params(method="d4", functional=s["f"])
    return {a: (T(b) if s["tensor"] else b) for a, b in s["p"].items()}


def evaluate(o, s):
    """Everything observable about an object, as a list of tensors."""
    dt = DT[s.get("dt", "64")]
    z, x = MOLS[s["mol"]]
    num, pos = Z(z), torch.tensor(x, dtype=dt)
    zero = torch.tensor(0.0, dtype=dt)
    k = s["k"]
    if k == "model":
        cn = torch.linspace(0.5, 3.5, len(z), dtype=dt)
        w = o.weight_references(cn, 0.1 * cn)
        return [w, o.get_atomic_c6(w), o.get_weighted_pols(w), d4.dftd4(num, pos, zero, P, model=o)]
    if k == "disp":
        xx = pos.clone().requires_grad_(True)
        e = o.calculate(num, xx, zero, P)
        return [e.detach(), *grad(e.sum(), xx)]
    if k == "term":
        d = Disp(dtype=dt)
        d.register(o)
        return [d.calculate(num, pos, zero, P)]
    if k == "damp":
        r = torch.linspace(1.0, 9.0, 7, dtype=dt)
        return [o(r, r.flip(0) + 1.0, n, **P) for n in (6, 8)]
    if k == "cutoff":
        return [d4.dftd4(num, pos, zero, P, cutoff=o), o.disp2, o.disp3, o.cn, o.cn_eeq]
    if k == "lookup":
        return [d4.dftd4(num, pos, zero, o)]
    return [d4.dftd4(num, pos, zero, o), *[torch.as_tensor(o[a], dtype=F64) for a in sorted(o)]]


def clone(o, how):
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "save":
        b = io.BytesIO()
        torch.save(o, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    return pickle.loads(pickle.dumps(o, protocol=int(how[-1])))


def compare(o, s, what):
    got, want = evaluate(o, s), evaluate(build(s), s)
    # precision lost in a conversion does not come back
    tol = 1e-12 if s.get("dt", "64") == "64" and not s.get("low") else 1e-5
    for g, w in zip(got, want):
        finite(g, what)
        expect(g.dtype == w.dtype, f"{what}: dtype {g.dtype}, {w.dtype} for a new object")
        close(g, w, w.abs() + 1e-3 * (w.abs().max() if w.numel() else 0.0), what, tol=tol, atol=1e-30)
    if s["k"] in ("damp", "term"):
        expect(o == build(s) and not (o != build(s)), f"{what}: not equal to a new object")
    if s["k"] == "lookup":
        expect(dict(o) == dict(build(s)), f"{what}: other parameters than a new lookup")


term = st.tuples(gen.pick("bj", "bj", "zero", "mzero", "op", "approx", "exact", "d3"), st.booleans()).map(list)


@st.composite
def obj(draw):
    k = draw(gen.pick("model", "model", "disp", "disp", "disp", "term", "damp", "cutoff", "param", "lookup"))
    s = {"k": k, "mol": draw(gen.ints(0, 2))}
    if k in ("model", "disp", "cutoff"):
        s["dt"] = draw(gen.pick("64", "64", "32"))
    if k == "model":
        s["kind"] = draw(gen.pick("d4", "d4s"))
        s["opt"] = {}
        if draw(st.booleans()):
            s["opt"]["ga"] = 2.5
        if draw(st.booleans()):
            s["opt"]["wf"] = 5.0
        if draw(st.booleans()):
            s["opt"]["gc"] = 1.5
        if draw(gen.ints(0, 3)) == 0:
            s["opt"]["rc6"] = 1.25
        if draw(st.booleans()) and s["mol"] != 1:
            s["opt"]["ref_charges"] = "gfn2"
    elif k == "disp":
        s.update(cls=draw(st.sampled_from(sorted(CLS))), kind=draw(gen.pick("d4", "d4s")), inst=draw(st.booleans()), terms=draw(st.lists(term, min_size=1, max_size=3)))
        s.update(exp=draw(st.booleans()), ga=draw(st.booleans()), cn3=draw(st.booleans()))
    elif k == "term":
        s["term"] = draw(term)
    elif k == "damp":
        s["damp"] = draw(st.sampled_from(sorted(DAMP)))
    elif k == "cutoff":
        s["cut"] = [draw(gen.ints(12, 240)) / 4 + 0.0625, draw(gen.ints(12, 160)) / 4 + 0.0625, 30.0, draw(gen.ints(12, 100)) / 4 + 0.0625]
    elif k == "lookup":
        s["f"] = draw(gen.pick("pbe", "b3lyp", "tpss", "r2scan"))
    else:
        s["tensor"] = draw(st.booleans())
        s["p"] = {a: draw(gen.pick(0.25, 0.5, 0.75, 1.0, 1.25)) for a in ("s6", "s8", "s9", "a1")}
        s["p"]["a2"] = draw(gen.pick(4.0, 5.0, 5.5))
    return s


@st.composite
def case(draw):
    objs = draw(st.lists(obj(), min_size=1, max_size=3))
    i = gen.ints(0, 9)
    op = st.one_of(
        st.tuples(st.just("clone"), i, gen.pick(*HOW)),
        st.tuples(st.just("clone"), i, gen.pick(*HOW)),
        st.tuples(st.just("use"), i),
        st.tuples(st.just("convert"), i, gen.pick("32", "64")),
        st.tuples(st.just("reg"), i, term),
        st.tuples(st.just("dereg"), i, gen.ints(0, 3)),
        st.tuples(st.just("change"), i, gen.ints(0, 3)),
        st.tuples(st.just("change"), i, gen.ints(0, 3)),
    ).map(list)
    return {"objs": objs, "ops": draw(st.lists(op, min_size=1, max_size=14))}


def check(case):
    states = [copy.deepcopy(s) for s in case["objs"]]
    live = [build(s) for s in states]
    shared = [False] * len(live)
    cloned = nt = False
    for op in case["ops"]:
        i = op[1] % len(live)
        s, o = states[i], live[i]
        if op[0] == "clone":
            if len(live) >= 8:
                continue
            live.append(clone(o, op[2]))
            states.append(copy.deepcopy(s))
            if op[2] == "copy":
                shared[i] = True
                shared.append(True)
            else:
                shared.append(False)
            cloned = True
            continue
        if op[0] == "use":
            compare(o, s, f"{s['k']} after {op}")
        elif op[0] == "convert" and s["k"] in ("model", "cutoff", "disp") and not s.get("inst"):
            live[i] = o.type(DT[op[2]])
            states[i] = {**copy.deepcopy(s), "dt": op[2], "low": s.get("low") or "32" in (s["dt"], op[2])}
        elif op[0] == "reg" and s["k"] == "disp" and not shared[i]:
            o.register(build_term(op[2]))
            s["terms"].append(list(op[2]))
        elif op[0] == "dereg" and s["k"] == "disp" and not shared[i] and len(s["terms"]) > 1:
            t = s["terms"].pop(op[2] % len(s["terms"]))
            o.deregister(build_term(t))
        elif op[0] == "change" and not shared[i]:
            if s["k"] == "cutoff":
                a = ("disp2", "disp3", "cn", "cn_eeq")[op[2]]
                getattr(o, a).mul_(0.5)
                s["cut"][op[2]] *= 0.5
            elif s["k"] == "param":
                a = sorted(s["p"])[op[2]]
                if s["tensor"]:
                    o[a].mul_(0.5)
                else:
                    o[a] = o[a] * 0.5
                s["p"][a] *= 0.5
            else:
                continue
        else:
            continue
        nt |= cloned
    for i, (o, s) in enumerate(zip(live, states)):
        compare(o, s, f"{s['k']} {i} at the end")
    return {"nontrivial": cloned, "tags": [s["k"] for s in states] + [o[2] for o in case["ops"] if o[0] == "clone"]}


# ---- another process


def process_cases(n=3):
    rng = np.random.default_rng(24)
    return [{"seed": int(rng.integers(10**6)), "protocol": [5, 2, 4][i % 3]} for i in range(n)]


def pool(seed):
    rng = np.random.default_rng(seed)
    pick = lambda *a: a[int(rng.integers(len(a)))]
    out = []
    for mol in (0, 1, 2):
        for kind in ("d4", "d4s"):
            out.append({"k": "model", "mol": mol, "dt": pick("64", "32"), "kind": kind, "opt": pick({}, {"ga": 2.5}, {"wf": 5.0})})
            for c in sorted(CLS):
                terms = [[pick("bj", "zero", "mzero", "op"), bool(rng.integers(2))], [pick("approx", "exact", "d3"), bool(rng.integers(2))]]
                out.append({"k": "disp", "mol": mol, "dt": pick("64", "32"), "cls": c, "kind": kind, "inst": bool(rng.integers(2)), "terms": terms, "exp": bool(rng.integers(2)), "ga": bool(rng.integers(2)), "cn3": bool(rng.integers(2))})
        out.append({"k": "cutoff", "mol": mol, "dt": "64", "cut": [pick(6.0625, 12.0625), pick(5.0625, 9.0625), 30.0, pick(7.0625, 25.0)]})
        out.append({"k": "param", "mol": mol, "tensor": bool(rng.integers(2)), "p": {"s6": 1.0, "s8": pick(0.5, 1.5), "s9": pick(0.0, 1.0), "a1": 0.5, "a2": pick(4.0, 5.5)}})
        out.append({"k": "lookup", "mol": mol, "f": pick("pbe", "b3lyp", "tpss")})
    out += [{"k": "damp", "mol": 0, "damp": d} for d in sorted(DAMP)]
    out += [{"k": "term", "mol": 1, "term": [t, bool(rng.integers(2))]} for t in (*sorted(DAMP), *sorted(TERM))]
    return out


def child(path):
    """In the fresh interpreter: evaluate what was pickled."""
    with open(path, "rb") as f:
        items = pickle.load(f)
    with open(path + ".out", "wb") as f:
        pickle.dump([[t.detach() for t in evaluate(o, s)] for o, s in items], f)


def process_check(case):
    states = pool(case["seed"])
    objs = [build(s) for s in states]
    if case["seed"] % 2:  # used before they are pickled
        for o, s in zip(objs, states):
            evaluate(o, s)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "pool.pkl")
        with open(path, "wb") as f:
            pickle.dump(list(zip(objs, states)), f, protocol=case["protocol"])
        r = subprocess.run(
            [sys.executable, "-c", f"from vp import boot; boot.setup(); from vp.checks import c24; c24.child({path!r})"],
            cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240, check=False,
        )
        expect(r.returncode == 0, f"pickled objects cannot be used in another process: {r.stdout[-400:]}")
        with open(path + ".out", "rb") as f:
            results = pickle.load(f)
    for s, got in zip(states, results):
        want = evaluate(build(s), s)
        tol = 1e-12 if s.get("dt", "64") == "64" else 1e-5
        for g, w in zip(got, want):
            expect(g.dtype == w.dtype, f"{s['k']} in another process: dtype {g.dtype}")
            close(g, w, w.abs() + 1e-3 * (w.abs().max() if w.numel() else 0.0), f"{s['k']} evaluated in another process", tol=tol, atol=1e-30)
    return {"tags": ["process"]}


SUBS = [
    Sub("history", case, check, quick=1600, thorough=40000),
    Sub("process", lambda: st.nothing(), process_check, quick=0, exhaustive=process_cases),
]
