"""Development helper: which small changes of the code do the checks miss?

mutate.py COVDIR OUT N FILE[:name,name...]...    (N mutants per FILE, from lines the checks execute)

For each mutant (one operator, constant, condition or statement changed) the checks that execute the
line are run in turn, on one core each with a part of their cases, until one reports a violation.
"""
import ast, glob, importlib, json, multiprocessing as mp, os, pickle, random, shutil, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("VERIF_REPO", "/repo") + "/src/pyuvdata"
sys.path[:0] = [HERE + "/vendor", HERE]
SCALE = float(os.environ.get("MUT_SCALE", "0.12"))
NPAR = int(os.environ.get("MUT_PAR", "8"))
MAXCHECKS = int(os.environ.get("MUT_CHECKS", "5"))
BUDGET = float(os.environ.get("MUT_BUDGET", "60"))

CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}


def mutants(path, names, covered):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    enc = [l.encode() for l in lines]

    def pos(ln, col):
        return off[ln - 1] + len(enc[ln - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, kind, a, b, new, fn):
        if n.lineno in covered and src[a:b] != new:
            out.append((n.lineno, kind, a, b, new, fn))

    def visit(n, fn, active):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn2 = n.name if isinstance(n, ast.FunctionDef) else fn
            act = active or (not names) or n.name in names
            for c in n.body:
                visit(c, fn2, act)
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("warnings.warn", "print", "super", "copy_replace_short_description") or f.endswith(".check"):
                return
        if active:
            if isinstance(n, (ast.Assign, ast.AugAssign)) or (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                    and ast.unparse(n.value.func) not in ("warnings.warn", "print")
                    and not ast.unparse(n.value.func).endswith(".check")):
                a, b = span(n)
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    pass  # a missing local is only a crash
                else:
                    add(n, "delete", a, b, "pass", fn)
            if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
                a, b = span(n.test)
                add(n.test, "cond-true", a, b, "True", fn)
                add(n.test, "cond-false", a, b, "False", fn)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a = span(n.left)[1]
                b = span(n.comparators[0])[0]
                # keep brackets between operands
                mid = src[a:b]
                if "(" not in mid and ")" not in mid:
                    add(n, "compare", a, b, f" {CMP[type(n.ops[0])]} ", fn)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                if "(" not in src[a:b] and ")" not in src[a:b] and not (
                        isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
                    add(n, "arith", a, b, f" {BIN[type(n.op)]} ", fn)
            if isinstance(n, ast.BoolOp):
                a, b = span(n.values[0])[1], span(n.values[1])[0]
                if "(" not in src[a:b] and ")" not in src[a:b]:
                    t = src[a:b]
                    add(n, "bool", a, b, t.replace("and", "\0").replace("or", "and").replace("\0", "or"), fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = span(n)
                add(n, "unary", a, span(n.operand)[0], "", fn)
            if isinstance(n, ast.Constant):
                a, b = span(n)
                if n.value is True or n.value is False:
                    add(n, "const", a, b, str(not n.value), fn)
                elif isinstance(n.value, int):
                    add(n, "const", a, b, str(n.value + 1), fn)
                elif isinstance(n.value, float):
                    add(n, "const", a, b, f"({n.value!r} * 1.01 + 0.0)", fn)
            if isinstance(n, ast.Call) and n.keywords:
                for k in n.keywords:
                    if k.arg and k.arg not in ("run_check", "check_extra", "run_check_acceptability", "stacklevel"):
                        a, b = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                        rest = src[b:].lstrip()
                        if rest.startswith(","):
                            b = src.index(",", b) + 1
                        add(k.value, "kwarg", a, b, "", fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn, active)

    visit_root = ast.parse(src)
    for c in visit_root.body:
        visit(c, "", not names)
    good = []
    for m in out:
        t = src[:m[2]] + m[4] + src[m[3]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m + (t,))
    return src, good


def child(job, checks, conn, root):
    rel, text = job
    d = f"{root}/src/pyuvdata"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(d)
    for dp, dn, fn in os.walk(BASE):
        r = os.path.relpath(dp, BASE)
        if r.split("/")[0] in ("data", "tests") or "__pycache__" in r:
            continue
        os.makedirs(os.path.join(d, r), exist_ok=True)
        for f in fn:
            if f.endswith((".py", ".so")):
                os.symlink(os.path.join(dp, f), os.path.join(d, r, f))
    os.symlink(BASE + "/data", d + "/data")
    os.unlink(f"{d}/{rel}")
    open(f"{d}/{rel}", "w").write(text)
    # real copies, so that the code is found under the tree
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.islink(p) and f.endswith(".py"):
                q = os.path.realpath(p)
                os.unlink(p)
                shutil.copy(q, p)
    import vp.run as R
    R.SRC = root + "/src"
    sys.path.insert(0, R.SRC)
    res = None
    try:
        R.import_code()
        from vp import core
        import hypothesis
        from hypothesis import Phase, HealthCheck, given, settings
        import numpy as np

        sd = root + "/scratch"
        for pid in checks:
            importlib.import_module("props." + pid.lower())
            prop = core.REGISTRY[pid]
            w = getattr(sys.modules["props." + pid.lower()], "warm", None)
            if w:
                w()
            t0 = time.time()
            for si, sub in enumerate(prop.subs):
                hit = []

                def body(case):
                    if time.time() - t0 > BUDGET:
                        raise R.StopSearch
                    v = R.run_one(sub, case, sd)
                    if v is not None:
                        hit.append(v)
                        raise R.StopSearch

                t = given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body)
                t = hypothesis.seed(1 + si)(t)
                t = settings(max_examples=max(4, int(SCALE * sub.quick)), database=None, deadline=None,
                             suppress_health_check=list(HealthCheck), phases=[Phase.generate],
                             verbosity=hypothesis.Verbosity.quiet)(t)
                np.random.seed(1)
                try:
                    t()
                except R.StopSearch:
                    pass
                if hit:
                    res = f"{pid}/{sub.name} {hit[0].strip().splitlines()[-1][:100]}"
                    break
            if res:
                break
    except BaseException as e:
        res = "ERROR " + traceback.format_exc()[-300:].replace("\n", " | ")
    conn.send(res)
    conn.close()
    os._exit(0)


def main():
    covdir, outp, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    cov = {}
    tot = {}
    for f in glob.glob(covdir + "/*.pkl"):
        pid = os.path.basename(f).split(".")[0]
        for rel, ln in pickle.load(open(f, "rb")):
            cov.setdefault((rel, ln), set()).add(pid)
    import vp.run as R
    import astropy.coordinates, astropy.io.fits, astropy.time, astropy.utils.iers  # noqa
    import h5py, hypothesis, scipy.interpolate, scipy.ndimage, scipy.spatial  # noqa
    try:
        import astropy_healpix, lunarsky  # noqa
    except ImportError:
        pass
    jobs = []
    for spec in sys.argv[4:]:
        rel, _, names = spec.partition(":")
        names = set(names.split(",")) if names else set()
        c = {ln for (r, ln) in cov if r == rel}
        src, ms = mutants(f"{BASE}/{rel}", names, c)
        random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(ms)
        fl = src.split("\n")
        # focus: checks which execute the fewest distinct functions of this file come last
        for m in ms[:n]:
            jobs.append((rel, m, fl[m[0] - 1].strip(), src))
    print(len(jobs), "mutants", flush=True)
    prio = json.loads(os.environ.get("MUT_PRIO", "[]"))
    ctx = mp.get_context("fork")
    live, k, done, miss = [], 0, 0, 0
    free = list(range(NPAR))
    log = open(outp, "a")
    while jobs or live:
        while jobs and free:
            rel, m, line, src = jobs.pop()
            ch = sorted(cov[(rel, m[0])], key=lambda p: (prio.index(p) if p in prio else 99, p))[:MAXCHECKS]
            slot = free.pop()
            a, b = ctx.Pipe(duplex=False)
            root = f"/dev/shm/mut/{slot}"
            p = ctx.Process(target=child, args=((rel, m[6]), ch, b, root))
            p.start()
            b.close()
            live.append((p, a, slot, time.time(), rel, m, line, src, ch))
        time.sleep(0.2)
        for x in list(live):
            p, a, slot, t0, rel, m, line, src, ch = x
            res = None
            if a.poll():
                try:
                    res = (a.recv(),)
                except EOFError:
                    res = ("CRASH",)
            elif not p.is_alive():
                res = ("CRASH",)
            elif time.time() - t0 > BUDGET * len(ch) + 120:
                res = ("TIMEOUT",)
            if res is None:
                continue
            if p.is_alive():
                p.join(1)
                p.kill()
            p.join()
            live.remove(x)
            free.append(slot)
            done += 1
            r = res[0]
            tag = "MISSED" if r is None else ("ERROR" if r.startswith("ERROR") else "caught")
            miss += r is None
            old = src[m[2]:m[3]].replace("\n", " ")
            log.write(f"{tag} {rel}:{m[0]} [{m[5]}] {m[1]}: {old!r} -> {m[4]!r} | {line} | {','.join(ch)} | {r}\n")
            log.flush()
    print("done", done, "missed", miss)
    shutil.rmtree("/dev/shm/mut", ignore_errors=True)


if __name__ == "__main__":
    main()
