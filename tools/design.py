"""DESIGN.md = design_head.md + the tables of repairs and planted bugs (python3 tools/design.py)."""
import collections, json, os, re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{H}/tools/design_head.md").read()
kf = json.load(open(f"{H}/known_findings.json"))
by = collections.defaultdict(list)
for k in kf:
    if k["status"] == "fixed":
        by[k["property"]].append(k)
out = [t, "\n## Defects found and repaired\n",
       f"{sum(map(len, by.values()))} defects of the original tree, each one `fix:` commit in /repo, "
       "found by (or while building) the check named; every check reports its defects again when the "
       "commit is taken back. No finding was left unrepaired.\n"]
for p in sorted(by):
    out.append(f"\n**{p}** ({len(by[p])}): " + "; ".join(f"{k['what']} ({k['commit']})" for k in by[p]) + ".\n")
caught = {}
if os.path.exists(f"{H}/tools/caught.txt"):
    for l in open(f"{H}/tools/caught.txt"):
        a = l.strip().split(None, 2)
        if len(a) >= 2:
            caught[a[0]] = (a[1], a[2] if len(a) > 2 else "")
out.append("\n## Planted bugs and the checks that catch them\n\n"
           "Each is in `seeded/<id>` with its demonstration; all lose no stable test. \"at first\" says whether the "
           "check caught it before anything was strengthened.\n\n| bug | property | needs | caught by | at first |\n|---|---|---|---|---|\n")
for d in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    c = caught.get(d, ("?", ""))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {c[0]} | {c[1] or 'yes'} |\n")
open(f"{H}/DESIGN.md", "w").write("".join(out))
