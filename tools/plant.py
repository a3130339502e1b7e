"""Confirm planted bugs and measure which checks catch them.

usage: plant.py SPEC.py [ID ...] [--checks C01,C02 | --all] [--no-tests]

SPEC.py defines BUGS: list of dicts (id, property, needs, breaks, edits =
[(file, old, new), ...], demo = Python source).  For every bug a scratch copy of
/repo is made under /tmp/plant, edited, tested, its demo run on both trees, the
checks run against it (VP_REPO), and, if confirmed, seeded/<id>/ written.
"""
import json, os, shutil, subprocess, sys, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
DEMO = '#!/bin/sh\n# run in the root of the repository\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$D/demo.py"\n'


def sh(cmd, cwd, env=ENV, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    spec = runpy.run_path(args.pop(0))["BUGS"]
    checks, tests, ids = None, True, []
    for a in args:
        if a.startswith("--checks"):
            checks = a.split("=")[1].split(",")
        elif a == "--all":
            checks = [f"C{i:02d}" for i in range(1, 26)]
        elif a == "--no-tests":
            tests = False
        else:
            ids.append(a)
    for b in spec:
        if ids and b["id"] not in ids:
            continue
        root = f"/tmp/plant/{b['id']}"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs("/tmp/plant", exist_ok=True)
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(root, "src/tad_dftd4", f)
                s = open(p).read()
                n = s.count(old)
                assert n == 1, (b["id"], f, n)
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "diff"], root)[1]
            ok = "tests skipped"
            if tests:
                rc, out = sh([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "test"], root)
                ok = out.strip().splitlines()[-1]
                if rc:
                    print(b["id"], "TESTS FAIL:", ok, [l[:110] for l in out.splitlines() if l.startswith("FAILED")][:4], flush=True)
                    continue
            d = os.path.join(HERE, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r0, o0 = sh(["sh", os.path.join(d, "demo.sh")], "/repo")
            r1, o1 = sh(["sh", os.path.join(d, "demo.sh")], root)
            if r0 != 0 or r1 == 0:
                print(b["id"], "DEMO BAD", r0, r1, o0[-400:], o1[-400:], flush=True)
                shutil.rmtree(d)
                continue
            res = []
            for c in checks or [b["property"]]:
                rc, out = sh(["sh", "check.sh", c, "quick"], HERE, {**ENV, "VP_REPO": root, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                if rc == 1:
                    lines = out.strip().splitlines()
                    res.append(f"{c}: CAUGHT ({lines[-2][:140]})")
                elif rc:
                    res.append(f"{c}: ERROR {out[-300:]}")
                elif (c == b["property"]):
                    res.append(f"{c}: MISSED")
            print(b["id"], ok, "|", " ; ".join(res), flush=True)
            rp = os.path.join(HERE, "tools", "results.json")
            table = json.load(open(rp))
            table.setdefault(b["id"], {}).update({r[:3]: r[5:].split()[0] for r in res})
            json.dump(table, open(rp, "w"), indent=0, sort_keys=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)


main()
