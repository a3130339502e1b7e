"""Rewrite the planted-bug table at the end of DESIGN.md from tools/results.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(f"{H}/tools/results.json"))
rows = ["| change | needs | caught by | missed by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    r = R.get(i, {})
    c = ", ".join(k for k in sorted(r) if r[k] == "CAUGHT")
    x = ", ".join(k for k in sorted(r) if r[k] == "MISSED")
    rows.append(f"| {i} | {m['needs']} | {c} | {x} |")
p = f"{H}/DESIGN.md"
s = open(p).read()
k = "<!-- planted -->\n"
open(p, "w").write(s[: s.index(k) + len(k)] + "\n".join(rows) + "\n")
