"""C12: the damping-parameter database."""
import json
import os

from hypothesis import strategies as st

from tad_dftd4.damping import get_params
from tad_dftd4.damping.parameters.base import DispersionMethod
from .. import gen
from ..boot import VERIF
from ..engine import Sub
from ..util import expect

RULE = (
    "Cases: (all, enumerated) every functional x variant block of both parameter files, default blocks included, in four spellings, with and without DOI; "
    "(history) Hypothesis sequences of 1-25 lookups with random spelling, method form, variant omitted or given, unknown names (misspelt known ones included), interleaved with "
    "arbitrary mutation of earlier results. Oracle: a frozen copy of the published tables. Non-trivial: every enumerated block; histories with a mutation "
    "followed by a lookup."
)
ASSUMPTIONS = ["the parameter files of the base commit are the published values"]

DB = json.load(open(os.path.join(VERIF, "data", "params.json")))
DEFVAR = {m: DB[m]["default"][m][0] for m in DB}


def blocks():
    out = []
    for m in sorted(DB):
        for v in sorted(DB[m]["default"]["parameter"][m]):
            if v in DB[m]["default"][m]:
                out.append((m, None, v))
        for f, sec in sorted(DB[m]["parameter"].items()):
            for v in sorted(sec.get(m, {})):
                out.append((m, f, v))
    return out


BLOCKS = blocks()


def golden(m, f, v, doi):
    b = DB[m]["default"]["parameter"][m][v] if f is None else DB[m]["parameter"][f][m][v]
    return {k: x for k, x in b.items() if doi or k != "doi"}


def same(got, want, what):
    got = dict(got)
    expect(got == want and all(type(got[k]) is type(want[k]) for k in want), f"{what}: got {got}, tabulated {want}")


def spell(f, mode):
    if f is None:
        return None
    if mode == "upper":
        return f.upper()
    if mode == "title":
        return f.title()
    if mode == "alt":
        return "".join(c.upper() if i % 2 else c for i, c in enumerate(f))
    return f


def lookup(m, f, v, mode="", doi=False, enum=False, omit=False):
    kw = {"method": DispersionMethod(m) if enum else m, "functional": spell(f, mode)}
    if not omit:
        kw["variant"] = v
    if doi:
        kw["keep_doi"] = True
    return get_params(**kw)


def all_cases():
    return [{"m": m, "f": f, "v": v} for m, f, v in BLOCKS]


def all_check(case):
    m, f, v = case["m"], case["f"], case["v"]
    for mode in ("", "upper", "title", "alt"):
        for doi in (False, True):
            same(lookup(m, f, v, mode, doi), golden(m, f, v, doi), f"{m}/{f}/{v} ({mode or 'lower'}, doi={doi})")
    same(lookup(m, f, v, "", False, True), golden(m, f, v, False), f"{m}/{f}/{v} (enum)")
    if v == DEFVAR[m]:
        same(lookup(m, f, v, "upper", False, omit=True), golden(m, f, v, False), f"{m}/{f} default variant")
    if f is None:
        same(get_params(method=m, functional="default", variant=v), golden(m, None, v, False), f"{m}/default/{v}")
    return {"tags": [m, v]}


@st.composite
def junk(draw):
    """Names that are not in the tables: anything, or a known one misspelt."""
    how = draw(gen.pick("any", "ins", "ins", "del", "sub", "swap", "half", "twice", "strip"))
    if how == "any":
        return {"any": draw(gen.pick("nope", "pbeh-3cc", "bj-eeq-atmm", "b3 lyp", "d9", "d5", "x", "none", "defaults"))}
    return {"how": how, "i": draw(gen.ints(0, 20)), "c": draw(gen.pick("-", "_", " ", "0", "3", "c", "d", "x", ".", "(", ")", "/", "\n", "\t"))}


def misspell(s, j):
    if "any" in j:
        return j["any"]
    i, c, how = j["i"] % (len(s) + 1), j["c"], j["how"]
    if how == "ins":
        return s[:i] + c + s[i:]
    if how == "del":
        i = i % max(1, len(s))
        return s[:i] + s[i + 1 :]
    if how == "sub":
        i = i % max(1, len(s))
        return s[:i] + c + s[i + 1 :]
    if how == "swap":
        i = i % max(1, len(s) - 1)
        return s[:i] + s[i + 1 : i + 2] + s[i : i + 1] + s[i + 2 :]
    if how == "half":
        return s[: max(1, i)] if i < len(s) else s[: len(s) // 2]
    if how == "twice":
        return s + s
    return "".join(ch for ch in s if ch.isalnum())


@st.composite
def step(draw):
    op = draw(gen.pick("get", "get", "get", "mutate", "bad"))
    if op == "mutate":
        return {"op": op, "how": draw(gen.pick("clear", "set", "pop", "scale", "add")), "i": draw(gen.ints(0, 30)), "key": draw(gen.pick("s8", "a1", "a2", "s9", "alp"))}
    if op == "bad":
        b = draw(st.sampled_from(BLOCKS))
        return {"op": op, "how": draw(gen.pick("functional", "functional", "variant", "method")), "b": list(b), "junk": draw(junk())}
    few = [b for b in BLOCKS if b[1] in ("pbe", "b3lyp", "tpss", "bp86", None)]
    return {
        "op": op,
        "b": list(draw(st.sampled_from(few if draw(st.booleans()) else BLOCKS))),
        "mode": draw(gen.pick("", "upper", "title", "alt")),
        "doi": draw(st.booleans()),
        "enum": draw(st.booleans()),
        "omit": draw(st.booleans()),
    }


def hist():
    return st.lists(step(), min_size=1, max_size=25).map(lambda s: {"steps": s})


def hist_check(case):
    live = []
    mutated = nt = False
    for s in case["steps"]:
        if s["op"] == "get":
            m, f, v = s["b"]
            omit = s["omit"]
            if omit:
                have = DB[m]["default"]["parameter"][m] if f is None else DB[m]["parameter"][f][m]
                if DEFVAR[m] not in have:
                    omit = False
                else:
                    v = DEFVAR[m]
            got = lookup(m, f, v, s["mode"], s["doi"], s["enum"], omit)
            same(got, golden(m, f, v, s["doi"]), f"{m}/{f}/{v} after {len(live)} lookups")
            live.append((got, dict(got)))
            nt |= mutated
        elif s["op"] == "mutate":
            if not live:
                continue
            i = s["i"] % len(live)
            d = live[i][0]
            if s["how"] == "clear":
                d.clear()
            elif s["how"] == "pop":
                d.pop(s["key"], None)
            elif s["how"] == "add":
                d["zzz"] = 1.0
            elif s["how"] == "set":
                d[s["key"]] = 99.0
            else:
                for k in list(d):
                    if isinstance(d[k], float):
                        d[k] *= 2
            live[i] = (d, dict(d))
            mutated = True
            for a, b in live:
                expect(dict(a) == b, "changing one lookup's result changed another one")
        else:
            m, f, v = s["b"]
            kw = {"method": m, "functional": f or "pbe", "variant": v}
            how = s["how"]
            name = misspell(kw[how], s["junk"])
            if f is None and how != "functional":
                kw["functional"] = None
            # a misspelling may happen to be another valid name
            known = {
                "functional": {k.casefold() for d in DB.values() for k in d["parameter"]} | {"default"},
                "variant": {k.casefold() for d in DB.values() for sec in d["parameter"].values() for x in sec.values() for k in x}
                | {k.casefold() for d in DB.values() for x in d["default"]["parameter"].values() for k in x},
                "method": {k.value for k in DispersionMethod} | set(DB),
            }[how]
            if name.casefold() in known or not name:
                continue
            kw[how] = name
            try:
                r = get_params(**kw)
            except Exception:  # the kind of exception is not part of the property
                continue
            expect(False, f"unknown entry {kw} returned {dict(r)}")
    return {"nontrivial": nt, "tags": [s["op"] for s in case["steps"]]}


SUBS = [
    Sub("all", lambda: st.nothing(), all_check, quick=0, exhaustive=all_cases),
    Sub("history", hist, hist_check, quick=3000, thorough=60000),
]
