"""Driver: runs one property's generated checks over forked workers."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)
sys.path.insert(0, SRC)

T0 = time.time()


def make_scratch():
    base = None
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access("/dev/shm", os.W_OK):
            base = "/dev/shm"
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="vpcheck_", dir=base)


SCRATCH = make_scratch()
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "cache")
os.environ["TMPDIR"] = SCRATCH
os.environ.setdefault("PYTHONHASHSEED", "0")
os.makedirs(os.path.join(SCRATCH, "cache", "astropy"))
tempfile.tempdir = SCRATCH

warnings.simplefilter("ignore")


def die(msg, code=2):
    print("ERROR: " + msg, file=sys.stderr)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stderr.flush()
    sys.stdout.flush()
    os._exit(code)


def import_code():
    """Import third-party code with its own bytecode, pyuvdata without any."""
    import astropy.coordinates  # noqa: F401
    import astropy.io.fits  # noqa: F401
    import astropy.time  # noqa: F401
    import astropy.utils.iers  # noqa: F401
    import h5py  # noqa: F401
    import hypothesis  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.spatial  # noqa: F401

    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    import pyuvdata

    assert os.path.realpath(pyuvdata.__file__).startswith(os.path.realpath(SRC)), (
        pyuvdata.__file__
    )
    warnings.simplefilter("ignore")


class StopSearch(BaseException):
    """Leaves Hypothesis: time budget used, or shrinking took long enough."""


def in_repo(exc):
    """The exception passed through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(
                os.path.realpath(SRC)
            ):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def describe(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines)[-2500:]


def run_one(sub, case, scratch_dir):
    """Run one case. Returns None, or the text of the violation. May raise (harness)."""
    from vp import core

    os.makedirs(scratch_dir, exist_ok=True)
    core.start_case(scratch_dir)
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.check(case)
        return None
    except core.Reject:
        core.label("rejected")
        return None
    except core.Violation as v:
        return "Violation: " + str(v)[:2500]
    except Exception as e:
        if in_repo(e):
            return "Unexpected exception from the code under test:\n" + describe(e)
        raise
    finally:
        sys.stdout = old
        devnull.close()
        for name in os.listdir(scratch_dir):
            p = os.path.join(scratch_dir, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)


def worker(pid, shard, nshards, tier, seed, deadline, shrink_s, conn, tracefile, scale):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(0))
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vp import core

    prop = core.REGISTRY[pid]
    out = {
        "shard": shard, "evaluations": 0, "nontrivial": [], "labels": {},
        "samples": [], "violation": None, "error": None, "timed_out": False,
        "per_sub": {},
    }
    sdir = os.path.join(SCRATCH, f"w{shard}")
    seen = set()
    def make_body(sub, state, stats):
        def body(case):
            now = time.time()
            if state["first_fail"] is None and now > deadline:
                out["timed_out"] = True
                raise StopSearch
            if state["first_fail"] is not None and (
                now > state["first_fail"] + shrink_s or now > deadline + shrink_s
            ):
                raise StopSearch
            txt = core.canon(case)
            with open(tracefile, "w") as f:
                f.write(json.dumps({"sub": sub.name, "case": case}, default=str))
            try:
                v = run_one(sub, case, sdir)
            except Exception as e:
                out["error"] = describe(e) + "\ncase: " + txt[:3000]
                raise StopSearch from e
            labels, nontriv = core.case_info()
            if state["first_fail"] is None:
                out["evaluations"] += 1
                stats["evaluations"] += 1
                for lb in set(labels):
                    stats["labels"][lb] = stats["labels"].get(lb, 0) + 1
                if nontriv:
                    h = hashlib.sha1((sub.name + txt).encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        stats["nontrivial"] += 1
                        if stats["nontrivial"] in (3, 17) and shard == 0:
                            out["samples"].append({"sub": sub.name, "case": case})
            if v is not None:
                if state["first_fail"] is None:
                    state["first_fail"] = time.time()
                    conn.send(("failing", shard))
                if state["best"] is None or len(txt) <= len(state["best"][2]):
                    state["best"] = (case, v, txt)
                raise core.Violation(v)

        return body

    try:
        for si, sub in enumerate(prop.subs):
            n_total = sub.quick if tier == "quick" else sub.thorough
            n = max(1, int(round(scale * n_total / nshards)))
            state = {"best": None, "first_fail": None}
            stats = out["per_sub"].setdefault(
                sub.name, {"evaluations": 0, "nontrivial": 0, "labels": {}}
            )

            import numpy as np

            test = given(sub.strategy() if callable(sub.strategy) else sub.strategy)(
                make_body(sub, state, stats)
            )
            sd = (seed * 1000003 + shard * 7919 + si * 104729) % (2**31)
            test = hypothesis.seed(sd)(test)
            test = settings(
                max_examples=n, database=None, deadline=None, print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                verbosity=hypothesis.Verbosity.quiet,
            )(test)
            np.random.seed(sd)
            try:
                test()
            except StopSearch:
                pass
            except (core.Violation, hypothesis.errors.Flaky, hypothesis.errors.FlakyFailure):
                pass
            if state["best"] is not None:
                case, v, _ = state["best"]
                out["violation"] = {"sub": sub.name, "case": case, "message": v}
                break
            if out["timed_out"] or out["error"]:
                break
    except BaseException as e:
        out["error"] = describe(e)
        try:
            out["error"] += "\ncase: " + open(tracefile).read()[:3000]
        except OSError:
            pass
    out["nontrivial"] = sorted(seen)
    conn.send(("done", out))
    conn.close()
    os._exit(0)


def write_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--only", help="comma separated sub-checks (development only)")
    ap.add_argument("--out", default=HERE, help="where evidence/ and replays/ go")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier
    budget = {"quick": 420.0, "thorough": 5400.0}[tier]
    shrink_s = {"quick": 45.0, "thorough": 180.0}[tier]
    pid = args.pid

    try:
        import_code()
        from vp import core

        importlib.import_module("props." + pid.lower())
        prop = core.REGISTRY[pid]
        if args.only:
            prop.subs = [s for s in prop.subs if s.name in args.only.split(",")]
        warm = getattr(sys.modules["props." + pid.lower()], "warm", None)
        if warm is not None:
            warm()
    except Exception as e:
        die("cannot load the check: " + describe(e))

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        sub = next(s for s in prop.subs if s.name == rep["sub"])
        try:
            v = run_one(sub, rep["case"], os.path.join(SCRATCH, "replay"))
        except Exception as e:
            die("harness error in replay: " + describe(e))
        shutil.rmtree(SCRATCH, ignore_errors=True)
        if v is None:
            print("replay: the property held on this case")
            sys.exit(0)
        print(v)
        print(f"VIOLATION property={pid} replay={args.replay}")
        sys.exit(1)

    # known findings of this property: replayed, announced, never searched for
    kf_lines = []
    for kf in known_findings():
        if kf.get("property") != pid or kf.get("status") != "known":
            continue
        sub = next((s for s in prop.subs if s.name == kf["sub"]), None)
        if sub is None:
            continue
        try:
            v = run_one(sub, kf["case"], os.path.join(SCRATCH, "kf"))
        except Exception as e:
            die("harness error in a known finding: " + describe(e))
        if v is not None:
            kf_lines.append(f"KNOWN-FINDING: property={pid} {kf['what']}")

    ctx = mp.get_context("fork")
    nsh = args.shards
    deadline = T0 + budget
    procs = []
    for sh in range(nsh):
        a, b = ctx.Pipe(duplex=False)
        tracefile = os.path.join(SCRATCH, f"trace{sh}.json")
        p = ctx.Process(
            target=worker,
            args=(pid, sh, nsh, tier, seed, deadline, shrink_s, b, tracefile, args.scale),
        )
        p.start()
        b.close()
        procs.append([p, a, tracefile, None, sh])
    failing = False
    crashed = []
    grace = None
    while any(x[3] is None for x in procs):
        conns = {x[1]: x for x in procs if x[3] is None}
        ready = mp.connection.wait(list(conns), timeout=1.0)
        for c in ready:
            x = conns[c]
            try:
                kind, payload = c.recv()
            except EOFError:
                x[0].join()
                x[3] = {"crash": x[0].exitcode}
                crashed.append(x)
                continue
            if kind == "failing":
                failing = True
                if grace is None:
                    grace = time.time() + shrink_s + 15
            else:
                x[3] = payload
        if any(x[3] is not None and x[3].get("violation") for x in procs):
            break
        now = time.time()
        if grace is not None and now > grace:
            break
        if now > deadline + shrink_s + 60:
            break
    for x in procs:
        if x[3] is None:
            x[0].terminate()
    for x in procs:
        x[0].join(5)
        if x[0].is_alive():
            x[0].kill()

    results = [x[3] for x in procs if x[3] and "crash" not in x[3]]
    errors = [r["error"] for r in results if r.get("error")]
    violation = None
    for r in results:
        if r.get("violation"):
            v = r["violation"]
            if violation is None or len(core.canon(v["case"])) < len(
                core.canon(violation["case"])
            ):
                violation = v
    oom = False
    if violation is None:
        for x in crashed:
            code = x[3]["crash"]
            if code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS,
                        -signal.SIGILL):
                try:
                    t = json.load(open(x[2]))
                except (OSError, ValueError):
                    continue
                violation = {
                    "sub": t["sub"], "case": t["case"],
                    "message": f"the process was ended by signal {-code} on this case",
                }
            else:
                oom = True
        if violation is None and failing:
            # shrinking never finished: take the last traced failing case
            for x in procs:
                try:
                    t = json.load(open(x[2]))
                except (OSError, ValueError):
                    continue
                sub = next((s for s in prop.subs if s.name == t["sub"]), None)
                if sub is None:
                    continue
                try:
                    m = run_one(sub, t["case"], os.path.join(SCRATCH, "again"))
                except Exception:
                    m = None
                if m:
                    violation = dict(t, message=m)
                    break

    distinct = set()
    evals = 0
    per = {}
    samples = []
    timed_out = False
    for r in results:
        distinct.update(r["nontrivial"])
        evals += r["evaluations"]
        timed_out |= r["timed_out"]
        samples.extend(r["samples"])
        for k, s in r["per_sub"].items():
            d = per.setdefault(k, {"evaluations": 0, "nontrivial": 0, "labels": {}})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            for lb, c in s["labels"].items():
                d["labels"][lb] = d["labels"].get(lb, 0) + c
    for d in per.values():
        d["labels"] = dict(sorted(d["labels"].items()))

    def trim(s):
        t = json.dumps(s, default=str)
        return s if len(t) < 3000 else {"sub": s["sub"], "case": t[:3000]}

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": prop.rule, "samples": [trim(s) for s in samples[:8]],
            "sub_checks": per, "stopped_by_time_budget": timed_out,
            "known_findings": len(kf_lines), "exhaustive": False,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(args.out, "evidence"), exist_ok=True)
    write_json(os.path.join(args.out, "evidence", f"{pid}.json"), ev)
    for ln in kf_lines:
        print(ln)
    code = 0
    if violation is not None:
        rdir = os.path.join(args.out, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(core.canon(violation["case"]).encode()).hexdigest()[:10]
        rp = os.path.join(rdir, f"{pid}_{violation['sub']}_{h}.json")
        write_json(rp, dict(violation, property=pid))
        print(f"[{pid}/{violation['sub']}] {violation['message']}")
        print("case: " + core.canon(violation["case"])[:3000])
        print(f"VIOLATION property={pid} replay={rp}")
        code = 1
    elif errors or oom or evals == 0:
        for e in errors[:2]:
            print("HARNESS ERROR:\n" + e, file=sys.stderr)
        if oom:
            print("a worker was ended from outside", file=sys.stderr)
        code = 2
    else:
        print(
            f"{pid}: held on {evals} generated cases ({len(distinct)} distinct "
            f"non-trivial), seed {seed}, tier {tier}, {ev['wall_s']} s"
            + (" [time budget reached]" if timed_out else "")
        )
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
