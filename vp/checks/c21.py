"""C21: concurrent evaluations do not interfere."""
import numpy as np
import torch
from hypothesis import strategies as st

import tad_dftd4 as d4
from tad_dftd4.damping import get_params
from tad_dftd4.dispersion import DispD4
from .. import gen, ref, sched
from ..engine import Sub, Violation, forked
from ..methods import DAMP, disp_of
from ..util import F32, F64, T, Z, close, dyadic, expect, grad, guard, mk_model, pad, process_state, same_process

RULE = (
    "Cases: (schedule) in a warm process, (first) as the very first calls of a forked process: 2-4 threads with 1-3 operations each (energies by the functional interface, by method objects and by models, with "
    "forces, in both precisions, single and batched; properties; weights and coefficients of a model; damping functions; parameter "
    "lookups followed by changes of the returned mapping; rejected calls) on own molecules and on shared inputs, models, method objects, damping instances and "
    "parameter mappings. A seeded scheduler lets one thread run at a time and may hand over at every line of the code under test; "
    "schedules (seed, density, minimal run length) are part of the case. Oracle: the results of the same "
    "operations executed one after another with new objects, before and/or after the concurrent run, and the reference model for energies. Non-trivial: at least ten hand-overs inside the "
    "code under test between operations of at least two threads."
)
ASSUMPTIONS = [
    "preemption at line granularity inside the code under test; torch operations themselves are atomic",
    "threads do not change shared objects, they only evaluate",
]
DT = {"64": F64, "32": F32}


@st.composite
def ops(draw, nmol):
    mi = gen.ints(0, nmol - 1)
    dt = gen.pick("64", "64", "32")
    kind = gen.pick("d4", "d4s")
    ch = gen.pick(0, 0, 1, -1, 0.5)
    op = st.one_of(
        st.tuples(st.just("energy"), mi, gen.ints(0, 1), ch, dt, kind, gen.pick("key", "instance"), st.booleans(), st.booleans()),
        st.tuples(st.just("energy"), mi, gen.ints(0, 1), ch, dt, kind, gen.pick("key", "instance"), st.booleans(), st.booleans()),
        st.tuples(st.just("obj"), mi, gen.ints(0, 1), ch, dt, kind, gen.pick("DispD4", "exact", "zero", "op"), st.booleans(), st.booleans()),
        st.tuples(st.just("batch"), gen.ints(0, 1), ch, dt, kind),
        st.tuples(st.just("props"), mi, ch, dt),
        st.tuples(st.just("model"), mi, dt, kind, gen.ints(0, 100)),
        st.tuples(st.just("damp"), gen.pick("bj", "zero", "mzero", "op"), gen.pick(6, 8), gen.ints(0, 1), dt),
        st.tuples(st.just("params"), gen.pick("pbe", "PBE", "b3lyp", "tpss", "PBE0"), gen.pick("d3", "d4"), st.booleans()),
        st.tuples(st.just("error"), mi, gen.pick("shape", "q", "model")),
    ).map(list)
    return draw(st.lists(op, min_size=1, max_size=3))


@st.composite
def case(draw):
    mols = []
    for _ in range(draw(gen.ints(1, 3))):
        m = draw(gen.molecule(2, 5, styles=("cluster", "linear")))
        mols.append({"z": m["z"], "x": dyadic(m["x"])})
    ps = []
    for _ in range(2):
        p = draw(gen.bj_param(s10=False))
        p.update(rs6=1.125, rs8=0.875, bet=0.5)
        ps.append(p)
    n = draw(gen.ints(2, 4))
    threads = [draw(ops(len(mols))) for _ in range(n)]
    if draw(st.booleans()):
        threads = [threads[0] if draw(st.booleans()) else t for t in threads]
    return {
        "mols": mols,
        "p": ps,
        "pform": [draw(gen.pick("float", "tensor")) for _ in range(2)],
        "threads": threads,
        "seed": draw(gen.ints(0, 10**6)),
        "density": draw(gen.pick(1.0, 0.5, 0.2, 0.05)),
        "cold": draw(st.booleans()),
        "burst": draw(gen.pick(0, 0, 0, 2, 7, 25)),
    }


class World:
    """Inputs and objects; made once for the concurrent run, anew for each reference run."""

    def __init__(self, case):
        self.num = [Z(m["z"]) for m in case["mols"]]
        self.pos = [{k: T(m["x"], t) for k, t in DT.items()} for m in case["mols"]]
        self.p = [{k: T(v) if f == "tensor" else v for k, v in p.items()} for p, f in zip(case["p"], case["pform"])]
        self.models = {}
        self.disps = {}
        self.damp = {k: c() for k, c in DAMP.items()}
        self.mols = case["mols"]

    def prepare(self, threads):
        """Shared objects exist before the threads start."""
        for t in threads:
            for op in t:
                if op[0] == "energy" and op[6] == "instance":
                    self.model(op[1], op[4], op[5])
                elif op[0] == "obj":
                    self.disp(op[6], op[5], op[4])
                elif op[0] == "model":
                    self.model(op[1], op[2], op[3])
        return self

    def model(self, i, dt, kind):
        k = (i, dt, kind)
        if k not in self.models:
            self.models[k] = mk_model(kind, self.num[i], DT[dt])
        return self.models[k]

    def disp(self, what, kind, dt):
        k = (what, kind, dt)
        if k not in self.disps:
            self.disps[k] = DispD4(model=kind, dtype=DT[dt]) if what == "DispD4" else disp_of(what, kind, DT[dt])
        return self.disps[k]


def perform(w, op):
    """One operation; a list of (label, value)."""
    name = op[0]
    if name in ("energy", "obj"):
        _, i, pi, ch, dt, kind, how, useq, useg = op
        x = w.pos[i][dt]
        if useg:
            x = x.clone().requires_grad_(True)
        kw = {}
        if useq:
            kw["q"] = T([0.125 if v % 2 else -0.125 for v in w.mols[i]["z"]], DT[dt])
        c = T(ch, DT[dt])
        if name == "energy":
            kw["model"] = w.model(i, dt, kind) if how == "instance" else kind
            e = d4.dftd4(w.num[i], x, c, w.p[pi], **kw)
        else:
            e = w.disp(how, kind, dt).calculate(w.num[i], x, c, w.p[pi], **kw)
        out = [("energy", e.detach())]
        if useg:
            out.append(("gradient", grad(e.sum(), x)[0]))
        return out
    if name == "batch":
        _, pi, ch, dt, kind = op
        num, pos = pad(w.mols, DT[dt])
        return [("batched energy", d4.dftd4(num, pos, T(ch, DT[dt]), w.p[pi], model=kind))]
    if name == "props":
        _, i, ch, dt = op
        return [(f"property {j}", v) for j, v in enumerate(d4.get_properties(w.num[i], w.pos[i][dt], T(ch, DT[dt])))]
    if name == "model":
        _, i, dt, kind, seed = op
        m = w.model(i, dt, kind)
        rng = np.random.default_rng(seed)
        n = len(w.mols[i]["z"])
        gw = m.weight_references(T(rng.uniform(0, 4, n), DT[dt]), T(rng.uniform(-0.2, 0.2, n), DT[dt]))
        return [("weights", gw), ("C6", m.get_atomic_c6(gw))]
    if name == "damp":
        _, k, order, pi, dt = op
        r = torch.linspace(2.0, 12.0, 5, dtype=DT[dt])
        return [(f"{k} damping", w.damp[k](r, torch.full_like(r, 20.0 if k in ("bj", "op") else 5.0), order, **w.p[pi]))]
    if name == "params":
        _, f, meth, doi = op
        d = get_params(method=meth, functional=f, keep_doi=doi)
        out = [("parameters", {k: (float(v) if isinstance(v, (int, float, torch.Tensor)) else v) for k, v in d.items()})]
        d["s8"] = 99.0
        d.pop("a1", None)
        return out
    _, i, how = op
    try:
        if how == "shape":
            d4.dftd4(w.num[i], w.pos[i]["64"][:-1], T(0.0), w.p[0])
        elif how == "q":
            d4.dftd4(w.num[i], w.pos[i]["64"], T(0.0), w.p[0], q=T([0.0] * (len(w.num[i]) + 1)))
        else:
            d4.dftd4(w.num[i], w.pos[i]["64"], T(0.0), w.p[0], model="nope")
    except Violation:
        raise
    except Exception as exc:  # noqa: BLE001
        return [("rejection", type(exc).__name__)]
    return [("rejection", "accepted")]


def same(got, want, what):
    expect(len(got) == len(want), f"{what}: number of results")
    for (k, a), (_, b) in zip(got, want):
        if isinstance(b, torch.Tensor):
            expect(a.dtype == b.dtype and a.shape == b.shape, f"{what}, {k}: {a.dtype} {tuple(a.shape)}, expected {b.dtype} {tuple(b.shape)}")
            tol = 1e-11 if b.dtype == F64 else 1e-5
            close(a, b, float(b.abs().max()), f"{what}, {k}", tol=tol, atol=1e-30)
        else:
            expect(a == b, f"{what}, {k}: {a!r}, expected {b!r}")


def model_verdict(case, op, res):
    """Double-precision energies also have to be those of the reference model."""
    if op[0] not in ("energy", "obj") or op[4] != "64":
        return
    _, i, pi, ch, _, kind, how, useq, _ = op
    m = case["mols"][i]
    kw = {} if how in ("key", "instance", "DispD4") else ({"exact": True} if how == "exact" else {"damping": how})
    if useq:
        kw["q"] = [0.125 if v % 2 else -0.125 for v in m["z"]]
    r, mag = ref.energy(m["z"], np.array(m["x"]), ch, case["p"][pi], kind=kind, **kw)
    close(res[0][1], r, mag, f"{op[0]} ({kind}, {how}) against the reference model")


def check(case, first=False):
    for m in case["mols"]:
        guard(m["z"], m["x"])
    torch.set_default_dtype(torch.float32)
    threads = case["threads"]
    proc = None if first else process_state(start=True)

    def alone():
        return [[perform(World(case), op) for op in t] for t in threads]

    want = None if case["cold"] else alone()
    w = World(case).prepare(threads)
    progs = [(lambda t=t: [perform(w, op) for op in t]) for t in threads]
    out, s = sched.run(progs, case["seed"], case["density"], case["burst"])
    try:
        expect(out is not None, "concurrent evaluations did not end")
        if want is None:
            want = alone()
        for t, r in zip(threads, want):
            for op, res in zip(t, r):
                model_verdict(case, op, res)
        for i, ((got, exc), ref_) in enumerate(zip(out, want)):
            if exc is not None:
                if isinstance(exc, Violation):
                    raise exc
                raise Violation(f"thread {i} failed concurrently, not alone: {type(exc).__name__}: {str(exc)[:200]}") from exc
            for op, a, b in zip(threads[i], got, ref_):
                same(a, b, f"thread {i}, {op[0]}")
        expect(torch.get_default_dtype() == torch.float32, f"default dtype left at {torch.get_default_dtype()}")
        for i, (a, b) in enumerate(zip(alone(), want)):
            for op, x, y in zip(threads[i], a, b):
                same(x, y, f"{op[0]} after the concurrent run")
        if proc is not None:
            same_process(proc, process_state(), "the concurrent run")
    finally:
        torch.set_default_dtype(torch.float32)
    return {"nontrivial": s.switches >= 10, "tags": sorted({op[0] for t in threads for op in t})}


SUBS = [
    # the first calls of a process race with each other; runs before anything else is called
    Sub("first", case, forked(lambda c: check({**c, "cold": True}, first=True)), quick=128, thorough=6000),
    Sub("schedule", case, check, quick=1500, thorough=40000),
]
