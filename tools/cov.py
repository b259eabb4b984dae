"""Development helper: line coverage of a check (python tools/cov.py OUTDIR CNN [args])."""
import os, pickle, runpy, sys

out, pid = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/pyuvdata/"
hits = set()
mon = sys.monitoring
mon.use_tool_id(1, "cov")


def line(code, n):
    f = code.co_filename
    if f.startswith(SRC):
        hits.add((f[len(SRC):], n))
    return mon.DISABLE


mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)
_exit = os._exit


def bye(code=0):
    with open(f"{out}/{pid}.{os.getpid()}.pkl", "wb") as f:
        pickle.dump(hits, f)
    _exit(code)


os._exit = bye
sys.argv = ["run.py"] + sys.argv[2:]
runpy.run_path(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp", "run.py"),
               run_name="__main__")
