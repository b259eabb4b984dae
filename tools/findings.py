"""Development helper: known_findings.json "fixed" entries from the fix: commits of /repo.

tools/fixmap.txt: "<n> <property>" lines: from the n-th fix commit on, it belongs to <property>.
Entries with status "known" in known_findings.json are kept.
"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s", "d328a93..HEAD"],
                     capture_output=True, text=True).stdout.splitlines()
m = {int(a): b for a, b in (x.split() for x in open(f"{H}/tools/fixmap.txt") if x.strip())}
known = [k for k in json.load(open(f"{H}/known_findings.json")) if k.get("status") == "known"]
out, cur = [], None
for i, line in enumerate(log, 1):
    c, s = line.split("\t", 1)
    cur = m.get(i, cur)
    if s.startswith("fix: "):
        out.append({"property": cur, "status": "fixed", "commit": c, "what": s[5:],
                    "line": f"fixed: property={cur} {c} {s[5:]}"})
with open(f"{H}/known_findings.json", "w") as f:
    json.dump(known + out, f, indent=1)
    f.write("\n")
