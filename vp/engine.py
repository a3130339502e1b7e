"""Search engine: generate, decide, shrink, replay, report.

A check module ``vp.checks.cXX`` defines ``SUBS``, a list of :class:`Sub`.  Each
sub couples a Hypothesis strategy for plain (JSON-able) cases with a decision
procedure ``check(case)`` that raises :class:`Violation` when the property does
not hold for the case, :class:`Discard` when the case lies outside of the
property's domain, and otherwise returns a dict
``{"nontrivial": bool, "tags": [...]}``.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

from . import boot

NWORK = 8
LEVEL = "exploration"


class Violation(Exception):
    """The property does not hold for the case."""


class Discard(Exception):
    """The case lies outside the domain of the property."""


class Known(Exception):
    """The case shows a listed known finding (key in KNOWN_FINDINGS.json)."""

    def __init__(self, key: str):
        super().__init__(key)
        self.key = key


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]  # builds the Hypothesis strategy
    check: Callable[[dict], dict]
    quick: int  # examples over all workers
    thorough: int = 0
    rule: str = ""
    exhaustive: Callable[[], list] | None = None  # enumerated cases, always run
    opts: dict = field(default_factory=dict)


def norm(case: Any) -> Any:
    """Round-trip through JSON, so that replayed cases are identical."""
    return json.loads(json.dumps(case))


def digest(case: Any) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def load(prop: str):
    return importlib.import_module(f"vp.checks.{prop.lower()}")


def known_findings() -> list[dict]:
    p = os.path.join(boot.VERIF, "KNOWN_FINDINGS.json")
    if not os.path.isfile(p):
        return []
    return json.load(open(p))["findings"]


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------


class _Rec:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.keys: set[str] = set()
        self.tags: dict[str, int] = {}
        self.samples: list = []
        self.known: dict[str, Any] = {}
        self.history: list = []
        self.fail: tuple | None = None
        self.first_fail: tuple | None = None


def run_one(sub: Sub, case: dict) -> dict:
    """Decide one case.  Any unexpected exception of the code under test on a
    valid case is a violation as well (the property promises a result)."""
    try:
        return sub.check(case) or {}
    except (Violation, Discard, Known):
        raise
    except Exception as e:  # pylint: disable=broad-except
        if "allocate memory" in str(e):
            raise MemoryError(str(e)) from e
        tb = traceback.extract_tb(e.__traceback__)
        # deepest frame inside harness or in the code under test / its deps?
        files = [f.filename for f in tb]
        src = os.path.realpath(os.path.join(boot.REPO, "src"))
        if any(os.path.realpath(f).startswith(src) for f in files):
            raise Violation(
                f"valid input made the code under test raise {type(e).__name__}: "
                f"{str(e)[:300]} (at {files[-1]}:{tb[-1].lineno})"
            ) from e
        if isinstance(e, (ValueError, TypeError, RuntimeError, IndexError, KeyError)) or (
            isinstance(e, AttributeError) and "module" not in str(e)
        ):
            # the oracle could not even take the result (shape, type, None, ...)
            raise Violation(
                f"malformed result, comparison failed with {type(e).__name__}: "
                f"{str(e)[:300]} (at {files[-1]}:{tb[-1].lineno})"
            ) from e
        raise


def forked(check: Callable[[dict], dict], timeout: float = 150.0) -> Callable[[dict], dict]:
    """Decide every case in a child process of its own, which inherits this
    process as it is; used first, the child has imported the code but never
    called it."""
    import select
    import signal

    def run(case):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            msg = ["error", "child ended without an answer"]
            try:
                try:
                    msg = ["ok", run_one(Sub("forked", None, check, 0), case)]
                except Violation as v:
                    msg = ["violation", str(v)]
                except Discard as d:
                    msg = ["discard", str(d)]
                except Known as k:
                    msg = ["known", k.key]
                except BaseException:  # pylint: disable=broad-except
                    msg = ["error", traceback.format_exc()]
                os.close(r)
                with os.fdopen(w, "w") as f:
                    json.dump(msg, f)
            finally:
                os._exit(0)
        os.close(w)
        data, tend = b"", time.time() + timeout
        with os.fdopen(r, "rb", buffering=0) as f:
            while time.time() < tend:
                if select.select([f], [], [], 1.0)[0]:
                    part = f.read(65536)
                    if not part:
                        break
                    data += part
            else:
                os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        if not data:
            raise Violation("evaluation in a fresh process crashed or did not end")
        kind, val = json.loads(data)
        if kind == "violation":
            raise Violation(val)
        if kind == "discard":
            raise Discard(val)
        if kind == "known":
            raise Known(val)
        if kind == "error":
            raise OSError(f"harness error in child: {val}")
        return val

    return run


def worker(prop: str, tier: str, seed: int, idx: int, out: str, only: str | None) -> None:
    boot.setup()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as ce

    ce.MAX_SHRINKING_SECONDS = 25
    mod = load(prop)
    t0 = time.time()
    budget = float(os.environ.get("VP_BUDGET", "330" if tier == "quick" else "3000"))
    res: dict = {"subs": {}, "violation": None}

    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        rec = _Rec()
        total = sub.quick if tier == "quick" else sub.thorough
        total = int(total * float(os.environ.get("VP_SCALE", "1")))
        n = (total + NWORK - 1) // NWORK

        def body(case):  # noqa: B023 - used within this iteration only
            if time.time() - t0 > budget:
                return
            case = norm(case)
            rec.history.append(case)
            try:
                info = run_one(sub, case)
            except Discard:
                rec.discarded += 1
                rec.history.pop()
                hypothesis.reject()
            except Known as k:
                rec.evaluations += 1
                rec.known.setdefault(k.key, case)
                return
            except Violation as v:
                rec.fail = (case, str(v))
                if rec.first_fail is None:
                    rec.first_fail = (case, str(v), len(rec.history))
                raise
            rec.evaluations += 1
            for t in info.get("tags", ()):
                rec.tags[t] = rec.tags.get(t, 0) + 1
            if info.get("nontrivial", True):
                d = digest(case)
                if d not in rec.keys:
                    rec.keys.add(d)
                    if len(rec.samples) < 3:
                        rec.samples.append(case)

        try:
            if sub.exhaustive is not None:
                for i, case in enumerate(sub.exhaustive()):
                    if i % NWORK == idx:
                        try:
                            body(case)
                        except hypothesis.errors.UnsatisfiedAssumption:
                            pass
            if n > 0:
                s = int(hashlib.sha1(f"{seed}/{prop}/{sub.name}/{idx}".encode()).hexdigest()[:12], 16)
                test = hypothesis.seed(s)(
                    settings(
                        max_examples=n,
                        database=None,
                        deadline=None,
                        print_blob=False,
                        report_multiple_bugs=False,
                        phases=[Phase.generate] if os.environ.get("VP_NOSHRINK") else [Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck),
                    )(given(sub.strategy())(body))
                )
                test()
        except Violation:
            pass
        except hypothesis.errors.Unsatisfiable:
            pass
        except Exception as e:  # pylint: disable=broad-except
            if rec.first_fail is None:
                raise
            # Flaky / exception groups around a recorded violation
            rec.fail = rec.fail or rec.first_fail[:2]

        res["subs"][sub.name] = {
            "evaluations": rec.evaluations,
            "discarded": rec.discarded,
            "keys": sorted(rec.keys),
            "tags": rec.tags,
            "samples": rec.samples,
            "known": rec.known,
        }
        if rec.first_fail is not None:
            case, msg = rec.fail
            first = rec.first_fail
            res["violation"] = {
                "sub": sub.name,
                "case": case,
                "message": msg,
                "first": {"case": first[0], "message": first[1]},
                "history": rec.history[: first[2]],
            }
            break
        if time.time() - t0 > budget:
            break
    res["wall"] = time.time() - t0
    res["finished"] = True
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)


# --------------------------------------------------------------------------
# replay
# --------------------------------------------------------------------------


def replay(prop: str, path: str) -> int:
    """Re-run a replay file without any generation. 1 = violation reproduced."""
    boot.setup()
    mod = load(prop)
    data = json.load(open(path))
    sub = next(s for s in mod.SUBS if s.name == data["sub"])
    cases = data.get("history") or [data["case"]]
    for case in cases:
        try:
            run_one(sub, case)
        except Discard:
            continue
        except Known as k:
            print(f"known finding {k.key}")
            continue
        except Violation as v:
            print(f"reproduced: {v}")
            return 1
    print("not reproduced")
    return 0


def _replay_sub(prop: str, path: str, timeout: float) -> bool:
    try:
        r = subprocess.run(
            [boot.PY, "-m", "vp.run", prop, "--replay", path],
            cwd=boot.VERIF,
            env=boot.env(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------


def main(prop: str, tier: str, seed: int, only: str | None = None) -> int:
    t0 = time.time()
    old = os.path.join(boot.VERIF, "replays", f"{prop}.json")
    if os.path.isfile(old):
        os.remove(old)
    tmp = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    procs = []
    try:
        for i in range(NWORK):
            out = os.path.join(tmp, f"w{i}.json")
            log = open(os.path.join(tmp, f"w{i}.log"), "w")
            cmd = [boot.PY, "-m", "vp.run", prop, "--tier", tier, "--seed", str(seed), "--worker", str(i), "--out", out]
            if only:
                cmd += ["--only", only]
            procs.append(
                (
                    subprocess.Popen(cmd, cwd=boot.VERIF, env=boot.env(), stdout=log, stderr=subprocess.STDOUT),
                    out,
                    log.name,
                )
            )
        hard = 780 if tier == "quick" else 12 * 3600
        viol_at = None
        while True:
            alive = [p for p, _, _ in procs if p.poll() is None]
            if viol_at is None:
                for _, out, _ in procs:
                    if os.path.isfile(out) and json.load(open(out)).get("violation"):
                        viol_at = time.time()
            if not alive:
                break
            if viol_at is not None and time.time() - viol_at > 5:
                break
            if time.time() - t0 > hard:
                break
            time.sleep(0.1)
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        results, broken = [], []
        for p, out, log in procs:
            if os.path.isfile(out):
                results.append(json.load(open(out)))
            elif viol_at is None:
                broken.append(open(log).read()[-3000:])
        violations = [r["violation"] for r in results if r.get("violation")]
        if broken and not violations:
            print("check error: a worker died without a result", file=sys.stderr)
            print(broken[0], file=sys.stderr)
            return 3

        replay_path = None
        if violations:
            # the simplest of the found counterexamples
            violations.sort(key=lambda v: len(json.dumps(v["case"])))
            replay_path = _store(prop, tier, seed, violations)
        _evidence(prop, tier, seed, results, violations, time.time() - t0)
        known_seen = {}
        for r in results:
            for s in r["subs"].values():
                known_seen.update({k: v for k, v in s["known"].items() if k not in known_seen})
        for f in known_findings():
            if f["property"] == prop and f["key"] in known_seen:
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
        n = sum(s["evaluations"] for r in results for s in r["subs"].values())
        print(f"{prop} {tier} seed={seed}: {n} cases in {time.time()-t0:.1f} s")
        if violations:
            print(violations[0]["message"])
            print(f"VIOLATION property={prop} replay={replay_path}")
            return 1
        return 0
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def _store(prop: str, tier: str, seed: int, violations: list[dict]) -> str:
    """Write the replay file; prefer a counterexample that a fresh process
    reproduces, alone or together with the calls that preceded it."""
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    cands = []
    for v in violations[:3]:
        cands.append({"sub": v["sub"], "case": v["case"], "message": v["message"]})
        cands.append({"sub": v["sub"], "case": v["first"]["case"], "message": v["first"]["message"]})
        cands.append({"sub": v["sub"], "case": v["first"]["case"], "message": v["first"]["message"], "history": v["history"]})
    path = os.path.join(d, f"{prop}.json")
    chosen = None
    tend = time.time() + 150
    for c in cands:
        if time.time() > tend:
            break
        c.update(property=prop, tier=tier, seed=seed)
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        if _replay_sub(prop, path, 60):
            c["reproduced_in_fresh_process"] = True
            chosen = c
            break
    if chosen is None:
        chosen = cands[0]
        chosen.update(property=prop, tier=tier, seed=seed, reproduced_in_fresh_process=False)
    if len(chosen.get("history", ())) > 1:
        chosen = _reduce(prop, path, chosen)
    with open(path, "w") as f:
        json.dump(chosen, f, indent=1)
    return path


def _reduce(prop: str, path: str, c: dict) -> dict:
    """Shorten a history by dropping chunks (ddmin, bounded)."""
    tend = time.time() + 90
    hist = c["history"]
    n = 2
    while len(hist) > 1 and time.time() < tend:
        size = max(1, len(hist) // n)
        for i in range(0, len(hist) - 1, size):
            cand = hist[:i] + hist[min(i + size, len(hist) - 1) :]
            if len(cand) == len(hist):
                continue
            with open(path, "w") as f:
                json.dump({**c, "history": cand}, f)
            if _replay_sub(prop, path, 30):
                hist = cand
                n = max(2, n - 1)
                break
            if time.time() > tend:
                break
        else:
            if size == 1:
                break
            n = min(len(hist), n * 2)
    return {**c, "history": hist}


def _evidence(prop, tier, seed, results, violations, wall) -> None:
    mod = load_meta(prop)
    subs: dict = {}
    for r in results:
        for name, s in r["subs"].items():
            t = subs.setdefault(name, {"evaluations": 0, "discarded": 0, "keys": set(), "tags": {}, "samples": []})
            t["evaluations"] += s["evaluations"]
            t["discarded"] += s["discarded"]
            t["keys"].update(s["keys"])
            for k, v in s["tags"].items():
                t["tags"][k] = t["tags"].get(k, 0) + v
            t["samples"] += s["samples"]
    samples = []
    for name, t in subs.items():
        t["samples"].sort(key=lambda c: len(json.dumps(c)))
        samples += [{"sub": name, "case": c} for c in t["samples"][len(t["samples"]) // 2 :][:2]]
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in subs.values()),
            "distinct_nontrivial": sum(len(t["keys"]) for t in subs.values()),
            "rule": mod["rule"],
            "samples": samples,
            "per_sub": {
                k: {
                    "evaluations": t["evaluations"],
                    "distinct_nontrivial": len(t["keys"]),
                    "discarded_out_of_domain": t["discarded"],
                    "tags": dict(sorted(t["tags"].items())),
                }
                for k, t in subs.items()
            },
        },
        "assumptions": mod["assumptions"],
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(boot.VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


def load_meta(prop: str) -> dict:
    """Rule and assumptions of a check, without importing torch in the parent."""
    import ast

    p = os.path.join(boot.VERIF, "vp", "checks", f"{prop.lower()}.py")
    tree = ast.parse(open(p).read())
    out = {"rule": "", "assumptions": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id == "RULE":
                out["rule"] = ast.literal_eval(node.value)
            if node.targets[0].id == "ASSUMPTIONS":
                out["assumptions"] = ast.literal_eval(node.value)
    return out
