"""Systematic mutants of the source, to find behaviour that no check watches.

usage: mutate.py OUT.jsonl [--list] [--files a.py,b.py] [--checks C01,..] [--jobs 8]

Every mutant is one syntactic change of one function body.  It is run against
one worker's share of the checks (no shrinking) until one reports a violation;
survivors are reported for inspection.  Scratch copies live under /tmp/mut.
"""
import re, ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/tad_dftd4"
FILES = ["cutoff.py", "disp.py", "utils.py", "damping/functions.py", "damping/parameters/loader.py", "dispersion/base.py", "dispersion/d3.py",
         "dispersion/d4.py", "dispersion/threebody.py", "dispersion/twobody.py", "model/__init__.py", "model/base.py", "model/d4.py", "model/d4s.py"]
ORDER = {
    "cutoff.py": "C09 C14 C16 C01 C23 C24", "disp.py": "C01 C18 C03 C13 C10 C05 C16", "utils.py": "C08 C01 C03 C17 C18", "damping/functions.py": "C11 C01 C10 C19 C06 C22",
    "damping/parameters/loader.py": "C12 C14 C21", "dispersion/base.py": "C15 C01 C13 C03 C16 C22 C24", "dispersion/d3.py": "C15 C17 C05", "dispersion/d4.py": "C01 C15 C17",
    "dispersion/threebody.py": "C17 C01 C03 C05 C09", "dispersion/twobody.py": "C01 C19 C10 C09 C13 C22", "model/__init__.py": "C15 C13 C01", "model/base.py": "C07 C01 C08 C13 C16",
    "model/d4.py": "C07 C01 C08 C05 C03", "model/d4s.py": "C07 C02 C08 C05 C03",
}
ALL = [f"C{i:02d}" for i in range(1, 26)]
EXTRA = "C01 C03 C05 C06 C13 C14 C15 C16 C20 C23".split()
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def points(tree):
    """Yield (line, description, apply(tree copy)) by node index."""
    nodes = list(ast.walk(tree))
    infn = set()
    for f in functions(tree):
        for d in f.args.defaults + [k for k in f.args.kw_defaults if k]:
            for m in ast.walk(d):
                infn.add(id(m))
        for s in f.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            for m in ast.walk(s):
                infn.add(id(m))
    ann = set()
    for n in nodes:
        for k in ("annotation", "returns"):
            a = getattr(n, k, None)
            if a is not None:
                ann.update(id(m) for m in ast.walk(a))
        if isinstance(n, ast.Raise):
            ann.update(id(m) for m in ast.walk(n) if m is not n)
    for i, n in enumerate(nodes):
        if id(n) not in infn or id(n) in ann:
            continue
        ln = getattr(n, "lineno", 0)
        u = lambda x: ast.unparse(x)[:70]
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield i, ln, f"cmp {u(n)}", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, ln, f"bin {u(n)}", lambda m: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n, ast.BoolOp):
            yield i, ln, f"bool {u(n)}", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, ln, f"const {n.value}", lambda m: setattr(m, "value", not m.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield i, ln, f"const {n.value}", lambda m: setattr(m, "value", m.value + 1 if isinstance(m.value, int) else (m.value * 1.001 if m.value else 1e-3))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)) and not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
            yield i, ln, f"unary {u(n)}", ("replace", lambda m: m.operand)
        if isinstance(n, (ast.If, ast.IfExp)):
            yield i, ln, f"if-true {u(n.test)}", lambda m: setattr(m, "test", ast.Constant(True))
            yield i, ln, f"if-false {u(n.test)}", lambda m: setattr(m, "test", ast.Constant(False))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg not in (None, "device"):
                    yield i, ln, f"drop kw {n.keywords[k].arg} in {u(n)}", (lambda k: lambda m: m.keywords.pop(k))(k)
        if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Dict)) and not re.search(r"^mask|^dd\b|= torch.tensor\(|real_(pairs|triples|atoms)\(|= self\.dd|\.shape\b[^,]*$", ast.unparse(n)):
            yield i, ln, f"detach {u(n)}", lambda m: setattr(m, "value", ast.Call(ast.Name("_dt", ast.Load()), [m.value], []))
            yield i, ln, f"round {u(n)}", lambda m: setattr(m, "value", ast.Call(ast.Name("_rd", ast.Load()), [m.value], []))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield i, ln, f"delete {u(n)}", ("replace", lambda m: ast.Pass())
    # docstring-only etc. are skipped


HELP = """
import torch as _t
def _dt(v):
    return v.detach() if isinstance(v, _t.Tensor) else v
def _rd(v):
    return v.float().to(v.dtype) if isinstance(v, _t.Tensor) and v.dtype == _t.double else v
"""


class Rep(ast.NodeTransformer):
    def __init__(self, target, fn):
        self.t, self.f = target, fn

    def visit(self, n):
        return self.f(n) if n is self.t else self.generic_visit(n)


def mutants(files):
    for f in files:
        src = open(f"{SRC}/{f}").read()
        tree = ast.parse(src)
        for i, ln, desc, act in points(tree):
            t = copy.deepcopy(tree)
            n = list(ast.walk(t))[i]
            if isinstance(act, tuple):
                t = Rep(n, act[1]).visit(t)
            else:
                act(n)
            ast.fix_missing_locations(t)
            if f == "cutoff.py" and desc.startswith(("detach", "round")):
                continue  # equivalent
            yield f, ln, desc, ast.unparse(t) + "\n" + HELP


def run(job):
    f, ln, desc, code, checks = job
    root = tempfile.mkdtemp(prefix="m", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/src", f"{root}/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{root}/src/tad_dftd4/{f}", "w").write(code)
        env = {**os.environ, "VP_REPO": root, "VP_NOSHRINK": "1", "VP_BUDGET": os.environ.get("VP_BUDGET", "7"), "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
               "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1"}
        first = ORDER[f].split()
        for c in first + [c for c in EXTRA if c not in first] if checks is None else checks:
            out = f"{root}/o.json"
            try:
                r = subprocess.run([PY, "-m", "vp.run", c, "--worker", str(hash_idx(c)), "--out", out], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                return {"f": f, "l": ln, "d": desc, "by": c, "how": "timeout"}
            if r.returncode:
                return {"f": f, "l": ln, "d": desc, "by": c, "how": "error " + r.stdout.strip().splitlines()[-1][:150]}
            v = json.load(open(out))["violation"]
            if v:
                return {"f": f, "l": ln, "d": desc, "by": c, "how": v["message"][:120]}
        return {"f": f, "l": ln, "d": desc, "by": None}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def hash_idx(c):
    return int(c[1:]) % 8


def main():
    a = sys.argv[1:]
    out = a[0]
    opt = dict(x.lstrip("-").split("=") if "=" in x else (x.lstrip("-"), "1") for x in a[1:])
    files = opt["files"].split(",") if "files" in opt else FILES
    checks = opt["checks"].split(",") if "checks" in opt else None
    done = set()
    if os.path.isfile(out):
        done = {(d["f"], d["l"], d["d"]) for d in map(json.loads, open(out))}
    jobs = [(f, l, d, c, checks) for f, l, d, c in mutants(files) if (f, l, d) not in done]
    if "list" in opt:
        for j in jobs:
            print(*j[:3])
        print(len(jobs))
        return
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(int(opt.get("jobs", 8))) as ex, open(out, "a") as fo:
        for r in ex.map(run, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


main()
