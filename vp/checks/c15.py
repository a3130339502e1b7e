"""C15: a method's energy is the sum of its registered terms."""
import numpy as np
import torch
from hypothesis import strategies as st
from tad_mctc.ncoord import cn_d3, cn_d4, erf_count, exp_count

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp, DispD4
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ, DispD3Zero
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from .. import gen, ref
from ..engine import Sub
from ..methods import DAMP
from ..util import F32, F64, T, Z, close, expect, finite, guard, mk_model, pad

RULE = (
    "Cases: (history) Hypothesis sequences of 1-14 operations (register, deregister by the same or an equal term, convert-and-copy, calculate) on 1-3 method objects of five classes with terms of all kinds, "
    "charge dependent or not, custom terms included, on generated molecules; (agree) one molecule or batch evaluated by functional interface, predefined class and hand-assembled method "
    "in generated registration order, with model given by key, instance or keyword options, any damping function, coordination function and counting function. Oracle: the reference model summed over a list model of the "
    "registered terms; mutual agreement. Non-trivial: a calculation happened after at least one register or deregister (history); at least two atoms (agree)."
)
ASSUMPTIONS = ["deregistering removes one of several equal terms; which one is irrelevant for the sum"]


class CNTerm(DispTerm):
    """A user-defined term: energy proportional to the coordination number."""

    def __init__(self, factor, charge_dependent=False):
        super().__init__(d4.damping.ZeroDamping(), charge_dependent)
        self.factor = factor

    def __eq__(self, other):
        return type(other) is CNTerm and other.factor == self.factor and other.charge_dependent == self.charge_dependent

    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
        return self.factor * cn


THREE = {"approx": D4ATMApprox, "exact": D4ATMExact, "d3": D3ATM}
BASE = {
    "Disp": (Disp, []),
    "DispD4": (DispD4, [["bj", True], ["approx", False]]),
    "DispD4Exact": (DispD4Exact, [["bj", True], ["exact", False]]),
    "DispD3BJ": (DispD3BJ, [["bj", False], ["d3", False]]),
    "DispD3Zero": (DispD3Zero, [["zero", False], ["d3", False]]),
}


def build(spec):
    kind, q = spec
    if kind in DAMP:
        return TwoBodyTerm(damping_fn=DAMP[kind](), charge_dependent=q)
    if kind in THREE:
        return THREE[kind](charge_dependent=q)
    return CNTerm(0.001, q)


def contribution(spec, z, x, charge, p, cache, **kw):
    """Energy and magnitude of one term."""
    key = tuple(spec)
    if key in cache:
        return cache[key]
    kind, q = spec
    if kind in DAMP:
        r = ref.energy(z, x, charge, p, two_charge=q, damping=kind, terms=("two",), **kw)
    elif kind in THREE:
        r = ref.energy(z, x, charge, p, three_charge=q, exact=kind == "exact", radii="vdw" if kind == "d3" else "bj", terms=("three",), **kw)
    else:
        cn = kw.get("cn")
        cn = ref.cn_d4(np.asarray(z), np.asarray(x, float)) if cn is None else cn
        r = (0.001 * cn, 0.001 * cn)
    cache[key] = r
    return r


def total(terms, z, x, charge, p, cache, **kw):
    e = np.zeros(len(z))
    mag = np.zeros(len(z))
    for t in terms:
        a, b = contribution(t, z, x, charge, p, cache, **kw)
        e, mag = e + a, mag + b
    return e, mag


term = st.tuples(gen.pick("bj", "bj", "zero", "mzero", "op", "approx", "exact", "d3", "cn"), st.booleans()).map(list)


@st.composite
def params(draw):
    p = draw(gen.bj_param(s10=False))
    p.update(rs6=draw(gen.fl(0.7, 1.4)), rs8=draw(gen.fl(0.7, 1.2)), rs9=draw(gen.fl(0.8, 1.5)), bet=draw(gen.pick(0.0, 0.05, 2.0)))
    return p


@st.composite
def history(draw):
    mols = [draw(gen.molecule(2, 5, styles=("cluster", "linear"), rare=20)) for _ in range(draw(gen.ints(1, 2)))]
    objs = [[draw(st.sampled_from(sorted(BASE))), draw(gen.pick("d4", "d4s"))] for _ in range(draw(gen.ints(1, 3)))]
    oi = gen.ints(0, len(objs) + 1)
    op = st.one_of(
        st.tuples(st.just("reg"), oi, term),
        st.tuples(st.just("reg"), oi, term),
        st.tuples(st.just("dereg"), oi, gen.ints(0, 5), st.booleans()),
        st.tuples(st.just("dereg_absent"), oi, term),
        st.tuples(st.just("new"), st.sampled_from(sorted(BASE)), gen.pick("d4", "d4s")),
        st.tuples(st.just("copy"), oi),
        st.tuples(st.just("calc"), oi, gen.ints(0, 1)),
        st.tuples(st.just("calc"), oi, gen.ints(0, 1)),
        st.tuples(st.just("share"), oi, oi),
    ).map(list)
    return {
        "mols": mols,
        "objs": objs,
        "ops": draw(st.lists(op, min_size=1, max_size=14)),
        "charge": draw(gen.total_charge()),
        "p": draw(params()),
    }


def history_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    objs = []

    def new(cls, kind):
        objs.append([BASE[cls][0](model=kind, dtype=F64), kind, [list(t) for t in BASE[cls][1]]])

    for cls, kind in case["objs"]:
        new(cls, kind)
    caches = {}
    changed = nt = False

    def calc(o, mi):
        disp, kind, terms = o
        m = case["mols"][mi % len(case["mols"])]
        z, x = m["z"], np.array(m["x"], float)
        expect(len(disp.terms) == len(terms), f"{len(disp.terms)} terms registered, expected {terms}")
        e = disp.calculate(Z(z), T(x), T(case["charge"]), dict(case["p"]))
        r, mag = total(terms, z, x, case["charge"], case["p"], caches.setdefault((mi % len(case["mols"]), kind), {}), kind=kind)
        finite(e, "energy")
        close(e, r, mag, f"energy of the terms {terms} ({kind})")

    for op in case["ops"]:
        if op[0] == "new":
            new(op[1], op[2])
            continue
        o = objs[op[1] % len(objs)]
        if op[0] == "reg":
            o[0].register(build(op[2]))
            o[2].append(op[2])
            changed = True
        elif op[0] == "dereg":
            if not o[2]:
                continue
            i = op[2] % len(o[2])
            t = o[0].terms[i] if op[3] else build(o[2][i])
            o[0].deregister(t)
            # several equal terms: any of them may be removed
            o[2].remove(o[2][i])
            changed = True
        elif op[0] == "dereg_absent":
            if op[2] in o[2]:
                continue
            try:
                o[0].deregister(build(op[2]))
            except ValueError:
                pass
        elif op[0] == "share":  # one term instance in two methods
            if o[2]:
                k = objs[op[2] % len(objs)]
                k[0].register(o[0].terms[0])
                k[2].append(list(o[2][0]))
                changed = True
        elif op[0] == "copy":
            objs.append([o[0].type(F32).type(F64), o[1], [list(t) for t in o[2]]])
        else:
            calc(o, op[2])
            nt |= changed
    for i, o in enumerate(objs):
        calc(o, i)
    return {"nontrivial": changed, "tags": [op[0] for op in case["ops"]]}


# ---- agreement of the interfaces


@st.composite
def agree_case(draw):
    mols = [draw(gen.molecule(1, 7, zmax=86, styles=("cluster", "linear", "wide"), rare=40)) for _ in range(draw(gen.pick(1, 1, 2)))]
    damp = draw(gen.pick("bj", "bj", "bj", "zero", "mzero", "op"))
    c = {
        "mols": mols,
        "model": draw(gen.pick("d4", "d4s")),
        "damp": damp,
        "cn": draw(gen.pick("default", "default", "d4exp", "d3erf", "d3exp", "custom", "customkw")),
        "opt": {},
        "order": draw(st.booleans()),
        "charge": draw(gen.total_charge()),
        "p": draw(params()),
        "sp": draw(gen.pick("lower", "upper")),
    }
    o = c["opt"]
    if draw(st.booleans()):
        o["ref_charges"] = draw(gen.pick("eeq", "gfn2"))
    if draw(gen.ints(0, 2)) == 0:
        o["ga"] = draw(gen.fl(1.0, 4.0))
    if draw(gen.ints(0, 2)) == 0:
        o["gc"] = draw(gen.fl(1.0, 3.0))
    if draw(gen.ints(0, 2)) == 0:
        o["wf"] = draw(gen.fl(3.0, 8.0))
    if draw(gen.ints(0, 2)) == 0:
        c["q"] = [draw(gen.charges(m["z"])) for m in mols]
    return c


def custom_cn(numbers, positions, counting_function=None, scale=0.5, shift=0.0):
    """A coordination function with options of its own."""
    return torch.where(numbers > 0, scale * cn_d4(numbers, positions) + shift, torch.zeros_like(positions[..., 0]))


def agree_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    batch = len(case["mols"]) > 1
    num, pos = pad(case["mols"])
    if not batch:
        num, pos = num[0], pos[0]
    kind, opt, p, damp = case["model"], case["opt"], case["p"], case["damp"]
    q = None
    if "q" in case:
        q = torch.zeros(num.shape, dtype=F64)
        for i, v in enumerate(case["q"]):
            (q[i] if batch else q)[: len(v)] = T(v)
    ch = T(case["charge"])
    cnm = case["cn"]
    cn_fn, fkw, ckw = {
        "default": (None, {}, {}),
        "d4exp": (cn_d4, {"counting_function": exp_count}, {"counting_function": exp_count}),
        "d3erf": (cn_d3, {"counting_function": erf_count}, {"counting_function": erf_count}),
        "d3exp": (cn_d3, {}, {"counting_function": exp_count}),
        "custom": (custom_cn, {}, {}),
        "customkw": (custom_cn, {"scale": 0.75, "shift": 0.125}, {}),
    }[cnm]
    fn = DAMP[damp]()
    res = {}
    key = kind.upper() if case["sp"] == "upper" else kind

    def manual(model, **kw):
        d = Disp(model=model, cn_fn=cn_fn, cn_fn_kwargs=dict(fkw) if cn_fn else None, dtype=F64, **kw)
        ts = [TwoBodyTerm(damping_fn=fn), D4ATMApprox()]
        for t in ts[::-1] if case["order"] else ts:
            d.register(t)
        return d

    res["manual, options"] = manual(key, model_kwargs=dict(opt)).calculate(num, pos, ch, dict(p), q=q)
    inst = mk_model(kind, num, **opt)
    res["manual, instance"] = manual(inst).calculate(num, pos, ch, dict(p), q=q)
    if damp == "bj":
        res["class, options"] = DispD4(key, dict(opt), cn_fn, dict(fkw), dtype=F64).calculate(num, pos, ch, dict(p), q=q)
        res["class, instance"] = DispD4(model=inst, cn_fn=cn_fn, cn_fn_kwargs=dict(fkw), dtype=F64).calculate(num, pos, ch, dict(p), q=q)
    if cnm != "customkw":
        fw = {} if cn_fn is None else {"cn_function": cn_fn}
        fw.update(ckw)
        if damp != "bj":
            fw["damping_function"] = fn
        res["function, instance"] = d4.dftd4(num, pos, ch, dict(p), model=inst, q=q, **fw)
        if not opt:
            res["function, key"] = d4.dftd4(num, pos, ch, dict(p), model=key, q=q, **fw)
    for i, m in enumerate(case["mols"]):
        z, x = np.asarray(m["z"]), np.array(m["x"], float)
        cn = {
            "default": lambda: ref.cn_d4(z, x),
            "d4exp": lambda: ref.cn_d4(z, x, "exp"),
            "d3erf": lambda: ref.cn_d3(z, x, "erf"),
            "d3exp": lambda: ref.cn_d3(z, x, "exp"),
            "custom": lambda: 0.5 * ref.cn_d4(z, x),
            "customkw": lambda: 0.75 * ref.cn_d4(z, x) + 0.125,
        }[cnm]()
        r, mag = ref.energy(z, x, case["charge"], p, kind=kind, cn=cn, q=case["q"][i] if "q" in case else None, damping=damp, model_kw=opt)
        for name, e in res.items():
            finite(e, f"energy by {name}")
            e = e[i] if batch else e
            close(e[: len(z)], r, mag, f"energy by {name}")
            close(e[len(z):], np.zeros(len(e) - len(z)), 0.0, f"padding energy by {name}", atol=0.0)
    names = list(res)
    for n2 in names[1:]:
        close(res[n2], res[names[0]], res[names[0]].abs() + 1e-9, f"{n2} vs {names[0]}", tol=1e-10)
    return {"nontrivial": any(len(m["z"]) > 1 for m in case["mols"]), "tags": [kind, damp, cnm, *opt]}


SUBS = [
    Sub("history", history, history_check, quick=1200, thorough=30000),
    Sub("agree", agree_case, agree_check, quick=1200, thorough=30000),
]
