"""Development helper: make and confirm planted bugs (never used by a check).

plant.py make FILE.py      FILE defines SPECS, a list of (id, property, needs, breaks,
                           [(file, old, new)], demo python text); writes seeded/<id>.
plant.py confirm ID...     applies each patch to /repo, runs demo, stable tests and the check
                           of its property, undoes the patch.
"""
import json, os, re, shutil, subprocess, sys
R, V = os.environ.get("PLANT_REPO", "/repo"), "/verif/seeded"
SUITE = os.environ.get("PLANT_SUITE", "/verif/tools/suite.sh")
HELP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_lib.py")
SH = '''#!/bin/bash
# cwd: /repo, after the build.  exit 0: behaves; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/cache/astropy"
export XDG_CACHE_HOME=$scratch/cache DEMO_SCRATCH=$scratch PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD/src:$here
/opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


def make(spec):
    h = {}
    exec(open(spec).read(), h)
    for g in h["SPECS"]:
        make1(dict(zip(("ID", "PROPERTY", "NEEDS", "BREAKS", "EDITS", "DEMO"), g)))


def make1(g):
    assert not sh("git", "-C", R, "status", "--short").stdout
    d = f"{V}/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in g["EDITS"]:
            p = f"{R}/src/pyuvdata/{f}"
            t = open(p).read()
            lines = [x for x in old.strip("\n").split("\n") if x.strip()]
            rx = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in lines)
            n = len(re.findall(rx, t))
            assert n == 1, (g["ID"], n, old)
            t = re.sub(rx, lambda m: new.strip("\n"), t)
            open(p, "w").write(t)
        diff = sh("git", "-C", R, "diff").stdout
    finally:
        clean()
    # lines the patch removes must be original ones
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
    shutil.copy(HELP, f"{d}/demo_lib.py")
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    r = sh("bash", f"{d}/demo.sh", cwd=R)
    sh("git", "-C", R, "apply", f"{d}/patch.diff")
    r2 = sh("bash", f"{d}/demo.sh", cwd=R)
    clean()
    print(g["ID"], "demo clean:", r.returncode, "patched:", r2.returncode,
          "" if r.returncode == 0 else r.stderr[-800:], (r2.stderr.strip().split("\n") or [""])[-1])


def confirm(ids, suite=True):
    for i in ids:
        d = f"{V}/{i}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        assert not sh("git", "-C", R, "status", "--short").stdout
        a = sh("git", "-C", R, "apply", f"{d}/patch.diff")
        if a.returncode:
            print(i, "patch does not apply", a.stderr)
            continue
        try:
            native = ".pyx" in open(f"{d}/patch.diff").read()
            if native:
                sh("bash", "/opt/vp/build.sh")
            lost = ""
            if suite:
                lost = sh("bash", SUITE).stdout.strip()
            dm = sh("bash", f"{d}/demo.sh", cwd=R).returncode
            c = sh("/verif/check", prop, "--out", "/tmp/o", env={**os.environ, "VERIF_REPO": R})
            v = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]
            line = next((x for x in c.stdout.split("\n") if x.strip()), "")
            print(f"{i} [{prop}] demo {dm}; suite: {lost}; check {c.returncode} "
                  f"{'CAUGHT' if c.returncode == 1 and v else 'MISSED'} {line[:150]}", flush=True)
        finally:
            clean()
            if native:
                sh("bash", "/opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            make(s)
    else:
        confirm([a for a in sys.argv[2:] if not a.startswith("-")], "--nosuite" not in sys.argv)
