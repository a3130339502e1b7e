"""C13: inconsistent input is rejected, never turned into a number."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp, DispD4
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ, DispD3Zero
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4Exact
from tad_dftd4.dispersion.twobody import TwoBodyTerm
from .. import gen, ref
from ..engine import Known, Sub, Violation
from ..methods import DAMP, evaluator, param
from ..util import F64, T, Z, expect, guard, mk_model, pad

RULE = (
    "Cases: a valid Hypothesis molecule or padded batch and method, then one inconsistency: (shape) numbers, positions, total charge, q, r4r2, rcov or rvdw "
    "with atoms added/removed, broadcastable single entries, extra/missing/transposed dimensions, wrong batch length; (element) Z = 104..200 anywhere, "
    "Z = 87..103 with GFN2 charges, negative Z, with and without all other element tables bypassed; (name) unknown models and reference charges in every entry "
    "point; (unused) q for methods without charge-dependent terms; (missing) damping parameters that a registered term requires. Oracle: the call must raise an exception, and the same objects must give bit-identical results "
    "for the valid call before and after. Non-trivial: every case."
)
ASSUMPTIONS = [
    "any exception type counts as rejection",
    "the meaning of a model instance built for other atoms is not part of the property", "a batch of one system with several total charges is not part of the property",
]


def rejected(f, what):
    try:
        r = f()
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation(f"{what}: accepted, returned {r if not isinstance(r, torch.Tensor) else r.tolist()}")


def same(a, b, what):
    expect(a.shape == b.shape and bool(torch.equal(a, b)), f"{what}: {a.tolist()} became {b.tolist()}")


# ---- shapes

SHAPES = (
    "drop", "drop_first", "add", "single", "scalar", "lead1", "lead2", "trail", "half", "double", "batch_drop", "batch_add", "batch_one", "flat", "unbatch", "unbatch", "transpose",
)
PAIRSHAPES = SHAPES + ("drop_col", "drop_row", "vector", "row1", "col1")
POSSHAPES = SHAPES + ("xy", "x", "xyz0", "vector")
CHARGESHAPES = ("atoms", "atoms1", "more", "more1", "less", "pairs", "lead_atoms")


def deform(t, how, natdim):
    """Tensor of a wrong shape; natdim is the (negative) atom dimension."""
    d = natdim
    n = t.shape[d]
    if how == "drop":
        return t.narrow(d, 0, n - 1)
    if how == "drop_first":
        return t.narrow(d, 1, n - 1)
    if how == "add":
        return torch.cat([t, t.narrow(d, n - 1, 1)], d)
    if how == "single":
        return t.narrow(d, 0, 1)
    if how == "scalar":
        return t.reshape(-1)[0]
    if how == "lead1":
        return t.unsqueeze(0)
    if how == "lead2":
        return torch.stack([t, t])
    if how == "trail":
        return t.unsqueeze(-1)
    if how == "half":
        return t.narrow(d, 0, max(1, n // 2))
    if how == "double":
        return torch.cat([t, t], d)
    if how == "batch_drop":
        return t[:-1] if -d < t.ndim else None
    if how == "batch_add":
        return torch.cat([t, t[-1:]]) if -d < t.ndim else None
    if how == "batch_one":
        return t[:1] if -d < t.ndim else None
    if how == "unbatch":
        return t[0] if -d < t.ndim else None
    if how == "transpose":
        return t.transpose(0, d) if -d < t.ndim else None
    if how == "flat":
        return t.reshape(-1)
    if how == "drop_col":
        return t[..., :-1]
    if how == "drop_row":
        return t[..., :-1, :]
    if how == "vector":
        return t[..., 0]
    if how == "xy":
        return t[..., :2]
    if how == "x":
        return t[..., :1]
    if how == "xyz0":
        return torch.cat([t, torch.zeros_like(t[..., :1])], -1)
    if how == "row1":
        return t[..., :1, :]
    if how == "col1":
        return t[..., :1]
    raise KeyError(how)


def bad_charge(shape, how):
    """Shape of a total charge that is neither one value nor one per system (or None)."""
    *batch, n = shape
    k = batch[-1] if batch else 1
    if how == "atoms":
        return (*batch, n) if n > 1 else None
    if how == "atoms1":
        return (*batch, n, 1) if n > 1 else None
    if how == "more":
        return (*batch[:-1], k + 1)
    if how == "more1":
        return (*batch[:-1], k + 1, 1) if k > 1 else (*batch[:-1], n + 1, 1, 1)
    if how == "less":
        return (k - 1,) if k > 2 else None
    if how == "pairs":
        return (*batch, n, n) if n > 1 else None
    if how == "lead_atoms":
        return (n, *batch) if n > 1 and not (batch and k == 1) else None
    raise KeyError(how)


@st.composite
def shape_case(draw):
    batch = draw(st.booleans())
    k = draw(gen.ints(1, 3)) if batch else 1
    same_len = draw(st.booleans())
    n = draw(gen.ints(1, draw(gen.pick(5, 5, 8))))
    mols = [draw(gen.molecule(n if same_len else 1, n, styles=("cluster", "linear"))) for _ in range(k)]
    target = draw(gen.pick("numbers", "positions", "q", "q", "r4r2", "rcov", "rvdw", "rvdw", "charge", "charge"))
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "op", "d3atm"))
    return {
        "mols": mols,
        "batch": batch,
        "extra": draw(gen.pick(0, 0, 1)) if batch else 0,
        "target": target,
        "how": draw(st.sampled_from({"rvdw": PAIRSHAPES, "positions": POSSHAPES, "charge": CHARGESHAPES}.get(target, SHAPES))),
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "p": draw(param(what)),
        "given": draw(st.lists(gen.pick("q", "r4r2", "rcov", "rvdw"), unique=True, max_size=4)),
        "props": draw(gen.ints(0, 5)) == 0,
    }


def inputs(case):
    if case["batch"]:
        num, pos = pad(case["mols"], extra=case["extra"])
    else:
        num, pos = Z(case["mols"][0]["z"]), T(case["mols"][0]["x"])
    arr = {
        "q": torch.where(num > 0, 0.05, 0.0).to(F64),
        "r4r2": T(ref.G["r4r2"])[num],
        "rcov": T(ref.G["rcov"])[num],
        "rvdw": T(ref.G["rvdw"])[num.unsqueeze(-1), num.unsqueeze(-2)],
    }
    return num, pos, arr


def shape_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    num, pos, arr = inputs(case)
    target, how = case["target"], case["how"]
    kw = {k: arr[k] for k in case["given"]}
    props = case["props"] and target in ("numbers", "positions", "charge")
    if props:
        ev = lambda n, x, c, p, **_: torch.cat([v.reshape(-1) for v in d4.get_properties(n, x, c)])
        kw = {}
    else:
        ev = evaluator(case["what"], case["model"])
    good = ev(num, pos, T(0.0), case["p"], **kw)
    n2, x2, c2 = num, pos, T(0.0)
    bad = dict(kw)
    if target == "numbers":
        n2 = deform(num, how, -1)
        ok = n2 is None or tuple(n2.shape) == tuple(num.shape)
    elif target == "positions":
        x2 = deform(pos, how, -2)
        ok = x2 is None or tuple(x2.shape) == tuple(pos.shape)
    elif target == "charge":
        sh = bad_charge(tuple(num.shape), how)
        ok = sh is None
        if not ok:
            c2 = torch.linspace(-0.5, 0.5, int(np.prod(sh)), dtype=F64).reshape(sh)
            bad.pop("q", None)  # with atomic charges the total charge is not used
    else:
        bad[target] = deform(arr[target], how, -2 if target == "rvdw" else -1)
        ok = bad[target] is None or tuple(bad[target].shape) == tuple(arr[target].shape)
    if ok:
        return {"nontrivial": False}
    sh = tuple({"numbers": n2, "positions": x2, "charge": c2, **bad}[target].shape)
    rejected(lambda: ev(n2, x2, c2, case["p"], **bad), f"{target} of shape {sh} for {len(case['mols'])} system(s) of numbers shape {tuple(num.shape)}")
    same(good, ev(num, pos, T(0.0), case["p"], **kw), "result after a rejected call")
    return {"tags": [target, how, "props" if props else case["what"]]}


# ---- elements


@st.composite
def element_case(draw):
    batch = draw(st.booleans())
    k = draw(gen.ints(1, 3)) if batch else 1
    mode = draw(gen.pick("high", "high", "gfn2", "gfn2", "negative"))
    zmax = 86 if mode == "gfn2" else 103
    mols = [draw(gen.molecule(1, 5, zmax=zmax, styles=("cluster", "linear"), rare=24)) for _ in range(k)]
    i = draw(gen.ints(0, k - 1))
    z = {"high": gen.pick(104, 104, 105, 110, 118, 119, 150, 200), "gfn2": gen.ints(87, 103), "negative": gen.ints(-103, -1)}[mode]
    what = draw(gen.pick("dftd4", "dftd4", "exact", "zero", "props")) if mode != "gfn2" else draw(gen.pick("model", "modelw", "dftd4", "DispD4"))
    return {
        "mols": mols,
        "batch": batch,
        "extra": 0,
        "mode": mode,
        "where": [i, draw(gen.ints(0, len(mols[i]["z"]) - 1))],
        "bad": draw(z),
        "what": what,
        "model": draw(gen.pick("d4", "d4s")),
        "bypass": draw(st.booleans()),
        "p": draw(param("zero")),
    }


def element_check(case):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    num, pos, arr = inputs(case)
    i, j = case["where"]
    bad = num.clone()
    if case["batch"]:
        bad[i, j] = case["bad"]
    else:
        bad[j] = case["bad"]
    kind, p = case["model"], case["p"]
    byp = {"q": arr["q"], "r4r2": arr["r4r2"], "rvdw": arr["rvdw"]} if case["bypass"] else {}

    def zero_cn(numbers, positions, **_):
        return torch.zeros(numbers.shape, dtype=positions.dtype)

    if case["mode"] == "gfn2":
        if case["what"] == "model":
            run = lambda n: (lambda m: m.get_atomic_c6(m.weight_references()))(mk_model(kind, n, ref_charges="gfn2"))
        elif case["what"] == "modelw":  # reference C6 supplied, so that only the weights need the tables
            rc6 = torch.ones(*num.shape, num.shape[-1], 7, 7, dtype=F64)
            run = lambda n: mk_model(kind, n, ref_charges="gfn2", rc6=rc6).weight_references()
        elif case["what"] == "dftd4":
            run = lambda n: d4.dftd4(n, pos, T(0.0), p, model=mk_model(kind, n, ref_charges="gfn2"), **byp)
        else:
            disp = DispD4(model=kind, model_kwargs={"ref_charges": "gfn2"}, dtype=F64)
            run = lambda n: disp.calculate(n, pos, T(0.0), p, **byp)
    elif case["what"] == "props":
        run = lambda n: torch.cat([v.reshape(-1) for v in d4.get_properties(n, pos, T(0.0))])
    else:
        ev = evaluator(case["what"], kind)
        if case["bypass"] and case["what"] == "dftd4":
            byp["cn_function"] = zero_cn
        run = lambda n: ev(n, pos, T(0.0), p, **byp)
    good = run(num)
    if case["mode"] == "negative":
        try:
            run(bad)
        except Exception:  # pylint: disable=broad-except
            same(good, run(num), "result after a rejected call")
            return {"tags": ["negative rejected"]}
        raise Known("negative-atomic-number")
    rejected(lambda: run(bad), f"element {case['bad']} ({case['mode']}, {case['what']})")
    same(good, run(num), "result after a rejected call")
    return {"tags": [case["mode"], case["what"], "bypass" if case["bypass"] else "tables"]}


# ---- names and unused charges


@st.composite
def name_case(draw):
    m = draw(gen.molecule(1, 5, styles=("cluster", "linear")))
    bad_model = draw(
        st.one_of(gen.pick("d6", "", "d2", "D44", "d4 ", " d4", "d4sd", "s", "d", "4", "dftd4", "instance", "d4s4", "gfn2", "d3", "d5"), st.text("d345s ", max_size=5))
    )
    bad_ref = draw(st.one_of(gen.pick("gfn1", "", "eeqbc", "eeq ", "xtb", "hirshfeld", "e", "gfn", "gfn22"), st.text("eqgfn2", max_size=5)))
    return {
        **m,
        "mode": draw(gen.pick("model", "model", "ref", "ref", "unused", "missing", "missing")),
        "what": draw(gen.pick("bj", "zero", "mzero", "op", "exact", "d4", "dftd4")),
        "late": draw(st.booleans()),
        "bad_model": bad_model,
        "bad_ref": bad_ref,
        "where": draw(gen.ints(0, 5)),
        "model": draw(gen.pick("d4", "d4s")),
        "p": draw(param("zero")),
        "terms": draw(st.lists(gen.pick("two", "approx", "exact", "d3"), max_size=3)),
    }


TERM = {"two": TwoBodyTerm, "approx": D4ATMApprox, "exact": D4ATMExact, "d3": D3ATM}


def name_check(case):
    z, x = case["z"], case["x"]
    guard(z, x)
    num, pos, p, kind = Z(z), T(x), case["p"], case["model"]
    w = case["where"]
    if case["mode"] == "model":
        key = case["bad_model"]
        if key.casefold() in ("d4", "d4s"):
            return {"nontrivial": False}
        cls = (DispD4, Disp, DispD4Exact, DispD3BJ, DispD3Zero)
        good = d4.dftd4(num, pos, T(0.0), p)
        if w == 0:
            rejected(lambda: d4.dftd4(num, pos, T(0.0), p, model=key), f"model {key!r}")
        else:
            def run():
                disp = cls[w - 1](model=key, dtype=F64)
                if w == 2:
                    disp.register(TwoBodyTerm())
                return disp.calculate(num, pos, T(0.0), p)

            rejected(run, f"model {key!r} of {cls[w - 1].__name__}")
        same(good, d4.dftd4(num, pos, T(0.0), p), "result after a rejected call")
        return {"tags": ["model", key]}
    if case["mode"] == "ref":
        rc = case["bad_ref"]
        if rc in ("eeq", "gfn2"):
            return {"nontrivial": False}
        if rc.casefold() in ("eeq", "gfn2"):
            return {"nontrivial": False}
        rc6 = torch.ones(len(z), len(z), 7, 7, dtype=F64)
        run = {
            0: lambda: mk_model(kind, num, ref_charges=rc).weight_references(),
            1: lambda: mk_model(kind, num, ref_charges=rc, rc6=rc6).weight_references(),
            2: lambda: d4.dftd4(num, pos, T(0.0), p, model=mk_model(kind, num, ref_charges=rc)),
            3: lambda: d4.dftd4(num, pos, T(0.0), p, model=mk_model(kind, num, ref_charges=rc, rc6=rc6)),
            4: lambda: DispD4(model=kind, model_kwargs={"ref_charges": rc}, dtype=F64).calculate(num, pos, T(0.0), p),
            5: lambda: DispD4Exact(model=kind, model_kwargs={"ref_charges": rc, "rc6": rc6}, dtype=F64).calculate(num, pos, T(0.0), p),
        }[w]
        rejected(run, f"reference charges {rc!r} (entry {w})")
        return {"tags": ["ref", f"entry{w}"]}
    if case["mode"] == "missing":
        what = case["what"]
        need = {"zero": ("rs6", "rs8"), "mzero": ("rs6", "rs8", "bet"), "op": ("a1", "a2", "bet")}.get(what, ("a1", "a2"))
        full = {**p, "s6": 1.0, "s8": 1.0, "bet": 0.1}
        less = {k: v for k, v in full.items() if k != need[w % len(need)]}
        if what in ("exact", "d4", "dftd4"):
            disp = DispD4Exact(model=kind, dtype=F64) if what == "exact" else DispD4(model=kind, dtype=F64)
        else:
            disp = Disp(model=kind, dtype=F64)
            pair = TwoBodyTerm(damping_fn=DAMP[what]())
            for t in (D4ATMApprox(), pair) if case["late"] else (pair, D4ATMApprox()):
                disp.register(t)
        run = (lambda q: d4.dftd4(num, pos, T(0.0), q, model=kind)) if what == "dftd4" else (lambda q: disp.calculate(num, pos, T(0.0), q))
        good = run(full)
        rejected(lambda: run(less), f"{what} without {need[w % len(need)]}")
        rejected(lambda: run(None), f"{what} without parameters")
        same(good, run(full), "result after a call without a required parameter")
        return {"tags": ["missing", what, need[w % len(need)]]}
    disp = Disp(model=kind, dtype=F64)
    for t in case["terms"]:
        disp.register(TERM[t](charge_dependent=False))
    good = disp.calculate(num, pos, T(0.0), p)
    q = torch.zeros(len(z), dtype=F64) if w % 2 else torch.full((len(z),), 0.1, dtype=F64)
    rejected(lambda: disp.calculate(num, pos, T(0.0), p, q=q), f"q for terms {case['terms']} without charge dependence")
    same(good, disp.calculate(num, pos, T(0.0), p), "result after a rejected call")
    # one charge-dependent term makes the same call valid
    disp.register(TwoBodyTerm(charge_dependent=True))
    disp.calculate(num, pos, T(0.0), p, q=q)
    return {"tags": ["unused", *case["terms"]]}


SUBS = [
    Sub("shape", shape_case, shape_check, quick=2400, thorough=60000),
    Sub("element", element_case, element_check, quick=1000, thorough=20000),
    Sub("name", name_case, name_check, quick=1000, thorough=20000),
]
