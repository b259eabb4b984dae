"""C20: UVFlag selection, combination, conversion and collapse."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_flag import build_flag, check_flag, fill, flag_spec, same_flag
from vp.gen_uv import build_uv, chance

P = Prop(
    "C20",
    "UVFlag objects of the three types and two modes (unordered times, channels and antennas, "
    "infinite metrics, zero weights, optional squared weights) under select, split and add, mode "
    "and type conversion, polarization collapse, OR and metric combination; non-trivial: at least "
    "two entries on the affected axis.",
    ["weights after collapsing flags with a mean are not compared",
     "adding along the baseline (time) axis needs equal time (baseline) arrays, else it may refuse"],
)


def take(s, ax, idx):
    """Index selection on axis 'time', 'blt', 'ant', 'freq' or 'pol' of a snapshot."""
    s = dict(s)
    pos = {"waterfall": {"time": 0, "freq": 1, "pol": 2},
           "baseline": {"blt": 0, "freq": 1, "pol": 2},
           "antenna": {"ant": 0, "freq": 1, "time": 2, "pol": 3}}[s["type"]][ax]
    for n in ("flag_array", "metric_array", "weights_array", "weights_square_array"):
        if s[n] is not None:
            s[n] = np.take(s[n], idx, axis=pos)
    per = {"time": ["time_array", "lst_array"], "ant": ["ant_array"],
           "blt": ["time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array"],
           "freq": ["freq_array", "channel_width", "flex_spw_id_array"],
           "pol": ["polarization_array"]}[ax]
    for n in per:
        s[n] = np.asarray(s[n])[idx]
    if ax == "freq":
        s["spw_array"] = np.array([w for w in s["spw_array"] if w in s["flex_spw_id_array"]])
    return s


POLS = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
        1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
CONJ = {"xy": "yx", "yx": "xy", "rl": "lr", "lr": "rl"}


# ------------------------------------------------------------------ selection
@st.composite
def sel_case(draw):
    idx = lambda: draw(st.lists(st.integers(0, 9), min_size=1, max_size=5))  # noqa: E731
    return {
        "f": draw(flag_spec()),
        "time": draw(st.sampled_from([None, None, "times", "blt_inds"])), "ti": idx(),
        "freq": draw(st.sampled_from([None, None, "frequencies", "freq_chans", "both"])), "fi": idx(),
        "fi2": idx(),
        "pol": draw(st.sampled_from([None, None, "num", "str"])), "pi": idx(),
        "ant": draw(st.sampled_from([None, "antenna_nums", "ant_inds", "bls", "bls3", "both"])),
        "ai": idx(), "rev": draw(st.lists(st.booleans(), min_size=5, max_size=5)),
        "inplace": draw(st.booleans()), "form": draw(st.sampled_from(["list", "array", "nested"])),
        "miss": draw(chance(10)),
    }


def form(v, how):
    if how == "array":
        return np.array(v)
    if how == "nested":
        return [list(v)]
    return list(v)


@P.sub("select", sel_case, 1600)
def select(case):
    f = build_flag(case["f"])
    s = snap(f)
    tp = f.type
    kw, want, refuse = {}, dict(s), False
    what = f"select on {tp} {f.mode}"
    fm = case["form"]
    ok = np.ones(len(s["time_array"]), bool)
    ants = None
    if case["time"] == "times":
        tm = [float(s["time_array"][i % len(ok)]) for i in case["ti"]]
        kw["times"] = form(tm, fm)
        ok &= np.isin(s["time_array"], tm)
    elif case["time"] == "blt_inds":
        ii = [i % len(ok) for i in case["ti"]]
        kw["blt_inds"] = form(ii, fm)
        ok &= np.isin(np.arange(len(ok)), ii)
    polreq = None
    if case["pol"]:
        pl = [int(s["polarization_array"][i % f.Npols]) for i in case["pi"]]
        kw["polarizations"] = form(pl if case["pol"] == "num" else [POLS[p] for p in pl], fm)
        polreq = {POLS[p] for p in pl}
    if tp == "baseline":
        a1, a2 = s["ant_1_array"], s["ant_2_array"]
        if case["ant"] in ("antenna_nums", "both"):
            al = np.unique(np.append(a1, a2))
            aa = [int(al[i % len(al)]) for i in case["ai"]]
            kw["antenna_nums"] = form(aa, fm)
            ok &= np.isin(a1, aa) & np.isin(a2, aa)
        if case["ant"] in ("bls", "bls3", "both"):
            bl, m, pp = [], np.zeros(len(ok), bool), set()
            for k, i in enumerate(case["ai"]):
                i = i % len(ok)
                p, q = int(a1[i]), int(a2[i])
                if case["rev"][k]:
                    p, q = q, p
                m1, m2 = (a1 == p) & (a2 == q), (a1 == q) & (a2 == p)
                # the order within a pair does not matter
                m |= m1 | m2
                if case["ant"] == "bls3":
                    ps = POLS[int(s["polarization_array"][i % f.Npols])]
                    for has, x in ((m1, ps), (m2, CONJ.get(ps, ps))):
                        if np.any(has):
                            pp.add(x)
                    bl.append((p, q, ps))
                else:
                    bl.append((p, q))
            kw["bls"] = bl if case["rev"][4] or len(bl) > 1 else bl[0]
            ok &= m
            if case["ant"] == "bls3":
                if "polarizations" in kw:
                    refuse = True
                polreq = pp
                if not pp <= {POLS[int(x)] for x in s["polarization_array"]}:
                    refuse = True
    elif tp == "antenna":
        if case["ant"] in ("antenna_nums", "both"):
            ai = sorted({i % f.Nants_data for i in case["ai"]})
            kw["antenna_nums"] = form([int(s["ant_array"][i % f.Nants_data]) for i in case["ai"]], fm)
            ants = ai
        elif case["ant"] == "ant_inds":
            ants = sorted({i % f.Nants_data for i in case["ai"]})
            kw["ant_inds"] = form(ants[::-1], "array" if fm == "array" else "list")
        elif case["ant"] == "bls":
            kw["bls"] = [(int(s["ant_array"][0]), int(s["ant_array"][0]))]
            refuse = True
    elif case["ant"] == "antenna_nums":
        kw["antenna_nums"] = [0]
        refuse = True
    if not np.any(ok):
        refuse = True
    chans = None
    if case["freq"]:
        ci = sorted({i % f.Nfreqs for i in case["fi"]})
        # frequencies are not unique when windows overlap
        cf = [float(s["freq_array"][i % f.Nfreqs]) for i in case["fi2"]]
        byf = np.nonzero(np.isin(s["freq_array"], cf))[0].tolist()
        if case["freq"] == "freq_chans":
            kw["freq_chans"] = form([i % f.Nfreqs for i in case["fi"]], fm)
            chans = ci
        elif case["freq"] == "frequencies":
            kw["frequencies"] = form(cf, fm)
            chans = byf
        else:
            kw["freq_chans"], kw["frequencies"] = form(ci, "list"), form(cf, "list")
            chans = sorted(set(ci) | set(byf))
    if case["miss"]:
        if case["time"] == "times":
            kw["times"] = [1.0]
            refuse = True
        elif case["freq"] == "frequencies":
            kw["frequencies"] = [1.0]
            refuse = True
        elif case["pol"] == "num" and "bls" not in kw:
            kw["polarizations"] = [-8 if -8 not in s["polarization_array"] else 4]
            refuse = True
        elif "antenna_nums" in kw:
            kw["antenna_nums"] = [99999]
            refuse = True
    what += f" {kw}"
    try:
        out = f.select(**kw, inplace=case["inplace"])
    except ValueError as err:
        require(refuse, f"{what}: refused: {err}")
        return label("refused")
    require(not refuse, f"{what}: accepted a selection that matches nothing")
    if case["inplace"]:
        out = f
    else:
        same_snap(snap(f), s, f"{what}: changed the input")
    want = take(want, "blt" if tp == "baseline" else "time", np.nonzero(ok)[0])
    if ants is not None:
        want = take(want, "ant", ants)
    if chans is not None:
        want = take(want, "freq", chans)
    if polreq is not None:
        pi = [i for i, p in enumerate(s["polarization_array"]) if POLS[int(p)] in polreq]
        want = take(want, "pol", pi)
    g = snap(out)
    same_flag(g, want, what)
    check_flag(out, what)
    for n in ("label", "extra_keywords", "telescope.antenna_numbers", "telescope.antenna_names",
              "telescope.antenna_positions"):
        same(g[n], s[n], f"{what}: {n}")
    label(tp, f.mode)
    nontrivial(len(kw) > 0 and len(ok) * f.Nfreqs > 1)


# ------------------------------------------------------------------ add
AXES = {"waterfall": ["time", "freq", "pol"], "baseline": ["time", "freq", "pol", "blt"],
        "antenna": ["time", "freq", "pol", "ant"]}
NAME = {"time": "time", "freq": "frequency", "pol": "polarization", "blt": "baseline",
        "ant": "antenna"}
SEL = {"time": "times", "freq": "freq_chans", "pol": "polarizations", "ant": "antenna_nums",
       "blt": "bls"}


@st.composite
def add_case(draw):
    f = draw(flag_spec())
    return {"f": f, "axis": draw(st.sampled_from(AXES[f["type"]])),
            "parts": draw(st.lists(st.integers(0, 2), min_size=8, max_size=8)),
            "how": draw(st.sampled_from(["add", "iadd", "call"])), "rev": draw(st.booleans()),
            "alias": draw(st.sampled_from(["polarization", "pol", "jones"])),
            "bad": draw(st.sampled_from([None] * 6 + ["freq", "pol", "tel", "mode"])),
            "trimtel": draw(chance(4))}


@P.sub("add", add_case, 1200)
def add(case):
    f = build_flag(case["f"])
    s = snap(f)
    tp, ax = f.type, case["axis"]
    what = f"adding {tp} {f.mode} along {ax}"
    if ax == "time":
        keys = sorted(set(s["time_array"].tolist()))
    elif ax == "freq":
        keys = list(range(f.Nfreqs))
    elif ax == "pol":
        keys = s["polarization_array"].tolist()
    elif ax == "ant":
        keys = s["ant_array"].tolist()
    else:
        keys = sorted(set(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist())))
    parts = [[k for i, k in enumerate(keys) if case["parts"][i % 8] == g] for g in range(3)]
    parts = [p for p in parts if p]
    if case["rev"]:
        parts = parts[::-1]
    objs = []
    for p in parts:
        if ax == "blt":
            # select with blt_inds, so that only one direction of a pair is taken
            m = [i for i, k in enumerate(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist()))
                 if k in p]
            o = f.select(blt_inds=m, inplace=False)
        else:
            o = f.select(**{SEL[ax]: p}, inplace=False)
        if case["trimtel"] and ax == "ant":
            tn = o.telescope.antenna_numbers.tolist()
            ii = sorted(tn.index(a) for a in o.ant_array)
            o.telescope.antenna_numbers = o.telescope.antenna_numbers[ii]
            o.telescope.antenna_names = o.telescope.antenna_names[ii]
            o.telescope.antenna_positions = o.telescope.antenna_positions[ii]
            if o.telescope.antenna_diameters is not None:
                o.telescope.antenna_diameters = o.telescope.antenna_diameters[ii]
            o.telescope.Nants = len(ii)
            o.check()
        objs.append(o)
    name = NAME[ax] if ax != "pol" else case["alias"]
    if len(objs) < 2:
        return label("one part")
    bad = case["bad"]
    may = False
    if bad:
        o = objs[1]
        if bad == "freq" and ax != "freq":
            o.freq_array = o.freq_array + 1e6
        elif bad == "pol" and ax != "pol":
            o.polarization_array = np.array([4, 3, 2, 1][: o.Npols]) if s["polarization_array"][
                0] < 0 else np.array([-5, -6, -7, -8][: o.Npols])
        elif bad == "tel":
            o.telescope.name = "elsewhere"
        elif bad == "mode":
            if o.mode == "flag":
                o.to_metric()
            else:
                o.to_flag(threshold=0.0)
        else:
            return label("nothing to refuse")
    if ax == "blt":
        may = any(not np.array_equal(o.time_array, objs[0].time_array) for o in objs)
        # the sum of the first two is longer than the third
        may = may or len(objs) > 2
    elif tp == "baseline" and ax == "time":
        may = any(not np.array_equal(o.baseline_array, objs[0].baseline_array) for o in objs)
        may = may or len(objs) > 2
    snaps = [snap(o) for o in objs]
    res = objs[0]
    try:
        for i, o in enumerate(objs[1:]):
            if case["how"] == "add":
                res = res.__add__(o, axis=name)
            elif case["how"] == "iadd":
                if i == 0:
                    res = res.copy()
                res.__iadd__(o, axis=name)
            else:
                if i == 0:
                    res = res.copy()
                res.__add__(o, axis=name, inplace=True)
            if bad:
                break
    except ValueError as err:
        if bad or may:
            return label("refused")
        fail(f"{what}: refused: {err}")
    require(not bad, f"{what}: combined parts that do not match ({bad})")
    for o, q in zip(objs, snaps):
        same_snap(snap(o), q, f"{what}: changed a part")
    g = snap(res)
    same_flag(g, s, what)
    check_flag(res, what)
    tn = res.telescope.antenna_numbers.tolist()
    sn = s["telescope.antenna_numbers"].tolist()
    if not (case["trimtel"] and ax == "ant"):
        require(set(tn) == set(sn), f"{what}: telescope antennas {tn} != {sn}")
    for i, a in enumerate(tn):
        j = sn.index(a)
        require(str(res.telescope.antenna_names[i]) == str(s["telescope.antenna_names"][j]),
                f"{what}: antenna {a} has another name")
        same(res.telescope.antenna_positions[i], s["telescope.antenna_positions"][j],
             f"{what}: position of antenna {a}")
        if res.telescope.antenna_diameters is not None:
            same(res.telescope.antenna_diameters[i], s["telescope.antenna_diameters"][j],
                 f"{what}: diameter of antenna {a}")
    label(tp, ax)
    nontrivial(True)


# ------------------------------------------------------------------ mode, collapse
def mean_rule(method, d, w, axis):
    """Documented weighted mean: infinite entries carry no weight."""
    d = np.asarray(d, dtype=float)
    w = np.asarray(w, dtype=float)
    if method in ("absmean", "quadmean"):
        d = np.abs(d)
    if method == "quadmean":
        d = d**2
    inf = np.isinf(d)
    w = np.where(inf, 0.0, w)
    d = np.where(inf, 0.0, d)
    tot = w.sum(axis)
    num = (w * d).sum(axis)
    with np.errstate(divide="ignore", invalid="ignore"):
        out = np.where(tot > 1e-10, num / tot, np.inf)
    if method == "quadmean":
        out = np.sqrt(out)
    return out, tot, (w**2).sum(axis)


def collapse_rule(method, mode, d, w, axis):
    """Result mode, values, weights (None: not specified), sum of squared weights."""
    if method in ("or", "and"):
        out = np.any(d, axis) if method == "or" else np.all(d, axis)
        return "flag", out, None, None
    if mode == "flag":
        out, tot, sq = mean_rule(method, d, np.ones(d.shape), axis)
        return "metric", out, None, None
    return ("metric", *mean_rule(method, d, w, axis))


METHODS = ["quadmean", "absmean", "mean", "or", "and"]


@st.composite
def col_case(draw):
    return {"f": draw(flag_spec()),
            "op": draw(st.sampled_from(["pol", "wf", "wf", "flag", "metric"])),
            "method": draw(st.sampled_from(METHODS)), "keep": draw(st.sampled_from([True, True, False])),
            "rws": draw(st.booleans()), "upper": draw(chance(4)),
            "thr": draw(st.sampled_from([0.0, 0.5, -1.0, None, 1e9])), "cw": draw(st.booleans())}


@P.sub("collapse", col_case, 1600)
def collapse(case):
    f = build_flag(case["f"])
    s = snap(f)
    tp, mode, op, meth = f.type, f.mode, case["op"], case["method"]
    what = f"{tp} {mode}"
    darr = s["flag_array"] if mode == "flag" else s["metric_array"]
    warr = s["weights_array"]
    want = dict(s)
    SK = ["weights_array", "weights_square_array"]
    if op == "flag":
        thr = np.inf if case["thr"] is None else case["thr"]
        f.to_flag(threshold=thr)
        what += f": to_flag({thr})"
        want["mode"], want["flag_array"] = "flag", darr if mode == "flag" else darr >= thr
        g = snap(f)
        same_flag(g, want, what)
        check_flag(f, what)
        label("to_flag")
        return nontrivial(f.flag_array.size > 1)
    if op == "metric":
        f.to_metric(convert_wgts=case["cw"])
        what += f": to_metric(convert_wgts={case['cw']})"
        if mode == "flag":
            w = np.ones(darr.shape)
            if case["cw"]:
                # weights are zero on rows and columns that are flagged entirely
                if tp == "waterfall":
                    for p in range(f.Npols):
                        w[:, :, p] = rowcol(darr[:, :, p])
                elif tp == "antenna":
                    for a in range(f.Nants_data):
                        for p in range(f.Npols):
                            w[a, :, :, p] = rowcol(darr[a, :, :, p])
                else:
                    prs = list(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist()))
                    for pr in set(prs):
                        ii = [i for i, x in enumerate(prs) if x == pr]
                        for p in range(f.Npols):
                            w[ii, :, p] = rowcol(darr[ii, :, p])
            want["mode"], want["metric_array"], want["weights_array"] = "metric", darr.astype(float), w
        same_flag(snap(f), want, what)
        check_flag(f, what)
        label("to_metric")
        return nontrivial(darr.size > 1)
    refuse = meth in ("or", "and") and mode == "metric"
    m2 = meth.upper() if case["upper"] else meth
    kw = {"method": m2}
    if op == "pol":
        what += f": collapse_pol({m2})"
    else:
        kw["keep_pol"], kw["return_weights_square"] = case["keep"], case["rws"]
        what += f": to_waterfall({kw})"
    if op == "wf" and tp == "waterfall" and (case["keep"] or f.Npols == 1):
        refuse = False
    if op == "pol" and f.Npols == 1:
        refuse = False
    try:
        (f.collapse_pol if op == "pol" else f.to_waterfall)(**kw)
    except ValueError as err:
        require(refuse, f"{what}: refused: {err}")
        return label("refused")
    require(not refuse, f"{what}: accepted a boolean method on metrics")
    dopol = f_npols(s) > 1 and (op == "pol" or not case["keep"])
    w = warr
    d = darr
    sqs = s["weights_square_array"]
    cmpw, cmpsq = True, True
    if dopol:
        mode, d, w, _ = collapse_rule(meth, mode, d, w, -1)
        d = d[..., None]
        if w is None:
            cmpw = False
            w = np.ones(d.shape)  # replaced below if it matters
        else:
            w = w[..., None]
        want["polarization_array"] = np.array(
            [",".join(str(p) for p in s["polarization_array"])])
        sqs = None
        if mode == "metric" and not cmpw and op == "wf" and tp != "waterfall":
            # weights of collapsed flags: uniform over the object
            cmpw = False
    if op == "wf" and tp != "waterfall":
        sqs = None
        if tp == "antenna":
            mode, d, w2, _ = collapse_rule(meth, mode, d, w, 0)
            d = np.swapaxes(d, 0, 1)
            w2 = None if w2 is None else np.swapaxes(w2, 0, 1)
        else:
            ut = np.unique(s["time_array"])
            res = [collapse_rule(meth, mode, d[s["time_array"] == t],
                                 None if w is None else w[s["time_array"] == t], 0) for t in ut]
            mode = res[0][0]
            d = np.array([r[1] for r in res])
            w2 = None if res[0][2] is None else np.array([r[2] for r in res])
            if case["rws"] and w2 is not None:
                sqs = np.array([r[3] for r in res])
            want["time_array"] = ut
            want["lst_array"] = np.array(
                [s["lst_array"][np.nonzero(s["time_array"] == t)[0][0]] for t in ut])
        if w2 is None:
            cmpw = False
        w = w2
        want["type"] = "waterfall"
    want["mode"] = mode
    if mode == "flag":
        want["flag_array"] = d
    else:
        want["metric_array"], want["weights_array"], want["weights_square_array"] = d, w, sqs
    skip = []
    if not cmpw:
        skip = SK
    elif not np.array_equal(want["metric_array"] if mode == "metric" else d, darr):
        # a stale sum of squares is caught by its shape; its value is only specified when asked
        if sqs is None:
            skip = ["weights_square_array"]
    if not cmpw and mode == "metric":
        want["weights_array"] = want["weights_square_array"] = None
    same_flag(snap(f), want, what, rtol=1e-12, atol=1e-12, skip=skip)
    check_flag(f, what)
    label(op, meth)
    nontrivial(darr.size > d.size)


def f_npols(s):
    return len(s["polarization_array"])


def rowcol(wf):
    """1 where neither the row nor the column is entirely flagged."""
    return (~(np.all(wf, axis=0)[None, :] | np.all(wf, axis=1)[:, None])).astype(float)


# ------------------------------------------------------------------ type conversion
@st.composite
def conv_case(draw):
    return {"f": draw(flag_spec(types=["waterfall", "waterfall", "antenna"],
                                polsets=[[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8]])),
            "to": draw(st.sampled_from(["baseline", "baseline", "antenna"])),
            "with": draw(st.sampled_from(["uvd", "flag"])),
            "collapse": draw(chance(3)), "force": draw(st.booleans()),
            "antperm": draw(chance(3)), "blperm": draw(chance(3)),
            "times": draw(st.sampled_from(["same", "same", "drop", "extra"])),
            "freq": draw(chance(8)), "dropant": draw(chance(3)), "seed": draw(st.integers(0, 10**6))}


def permute_antennas(obj, rng):
    """Same antennas listed in another order."""
    tel = obj.telescope
    pm = rng.permutation(tel.Nants)
    for n in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters",
              "mount_type"):
        v = getattr(tel, n, None)
        if v is not None and np.ndim(v) > 0:
            setattr(tel, n, np.asarray(v)[pm])


@P.sub("convert", conv_case, 1400)
def convert(case):
    from pyuvdata import UVFlag

    uv = build_uv(case["f"]["uv"])
    f = build_flag(case["f"], uv=uv)
    rng = np.random.default_rng(case["seed"])
    tp, mode = f.type, f.mode
    if case["collapse"] and f.Npols > 1:
        f.collapse_pol(method="or" if mode == "flag" else "mean")
    if case["dropant"] and tp == "antenna" and f.Nants_data > 1:
        f.select(antenna_nums=f.ant_array[1:].tolist())
    if case["times"] == "drop" and f.Ntimes > 1:
        f.select(times=f.time_array[1:])
    elif case["times"] == "extra" and uv.Ntimes > 1:
        uv.select(times=np.unique(uv.time_array)[1:])
    if case["blperm"]:
        uv.reorder_blts(order=rng.permutation(uv.Nblts))
    if case["antperm"]:
        permute_antennas(uv, rng)
    target = uv
    to = case["to"]
    if to == "antenna":
        target = UVFlag(uv, mode="flag", waterfall=True)
        ants = np.unique(np.append(uv.ant_1_array, uv.ant_2_array))
        target.ant_array, target.Nants_data = ants[::-1], len(ants)
        target._set_type_antenna()
        fill(target, rng, "flag", False, False)
        target.check()
    elif case["with"] == "flag":
        target = UVFlag(uv, mode="flag")
    if case["freq"]:
        target.freq_array = target.freq_array + 1e6
    s, t = snap(f), snap(target)
    what = f"{tp} {mode} to {to} force_pol={case['force']}"
    npol = len(s["polarization_array"])
    match = [str(p) for p in s["polarization_array"]] == [str(p) for p in t["polarization_array"]]
    refuse = bool(case["freq"]) and tp != to
    if not (case["force"] and npol == 1) and not match:
        refuse = True
    may = False
    if to == "antenna" and tp == "antenna":
        refuse = False
    if to == "baseline" and tp == "antenna" and mode == "metric":
        refuse = True
    try:
        if to == "antenna":
            f.to_antenna(target, force_pol=case["force"])
        else:
            f.to_baseline(target, force_pol=case["force"])
    except (ValueError, NotImplementedError) as err:
        require(refuse or may, f"{what}: refused: {err}")
        return label("refused")
    require(not refuse, f"{what}: accepted objects that do not match")
    same_snap(snap(target), t, f"{what}: changed the object matched to")
    if tp == to:
        same_snap(snap(f), s, f"{what}: changed an object of that type")
        return label("no change")
    check_flag(f, what)
    g = snap(f)
    require(g["type"] == to and g["mode"] == mode, f"{what}: type {g['type']} mode {g['mode']}")
    pol = t["polarization_array"]
    same(g["polarization_array"], pol, f"{what}: polarizations")
    pidx = [0] * len(pol) if npol == 1 else list(range(len(pol)))
    names = ["flag_array"] if mode == "flag" else ["metric_array", "weights_array"]
    if mode == "metric" and s["weights_square_array"] is not None:
        if g["weights_square_array"] is not None:
            names.append("weights_square_array")
    for n in ("freq_array", "channel_width", "flex_spw_id_array", "label"):
        same(g[n], s[n], f"{what}: {n}")
    if to == "antenna":
        same(g["ant_array"], t["ant_array"], f"{what}: antennas")
        same(g["time_array"], s["time_array"], f"{what}: times")
        for n in names:
            v = np.swapaxes(s[n][:, :, pidx], 0, 1)
            same(g[n], np.repeat(v[None], len(t["ant_array"]), axis=0), f"{what}: {n}")
    else:
        for n in ("ant_1_array", "ant_2_array", "time_array", "lst_array", "baseline_array"):
            same(g[n], t[n], f"{what}: {n}")
        for n in names:
            if tp == "antenna":
                want = np.ones(g[n].shape, bool)
            else:
                want = np.zeros(g[n].shape, dtype=s[n].dtype)
            for b in range(len(t["time_array"])):
                k = np.nonzero(np.abs(s["time_array"] - t["time_array"][b]) < 1e-8)[0]
                if not len(k):
                    continue
                if tp == "waterfall":
                    want[b] = s[n][k[0]][:, pidx]
                else:
                    ii = [np.nonzero(s["ant_array"] == a)[0]
                          for a in (t["ant_1_array"][b], t["ant_2_array"][b])]
                    if all(len(i) for i in ii):
                        want[b] = s[n][ii[0][0], :, k[0]][:, pidx] | s[n][ii[1][0], :, k[0]][:, pidx]
            same(g[n], want, f"{what}: {n}")
    # nothing is shared with the object matched to
    for n in ("ant_1_array", "time_array", "lst_array", "baseline_array", "ant_array",
              "polarization_array"):
        v = getattr(f, n)
        if isinstance(v, np.ndarray) and v.dtype.kind in "if" and v.size:
            v += 1
    same_snap(snap(target), t, f"{what}: shares state with the object matched to")
    label(tp, to, mode)
    nontrivial(f.Ntimes > 1)


# ------------------------------------------------------------------ or, combine, waterfall of flags
@st.composite
def comb_case(draw):
    return {"f": draw(flag_spec()), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6)),
            "method": draw(st.sampled_from(["quadmean", "absmean", "mean", "Mean"])),
            "inplace": draw(st.booleans()), "form": draw(st.sampled_from(["list", "tuple", "array"])),
            "sym": draw(st.booleans()), "keep": draw(st.booleans()), "own": draw(st.booleans())}


@P.sub("combine", comb_case, 900)
def combine(case):
    from pyuvdata.uvflag import flags2waterfall

    uv = build_uv(case["f"]["uv"])
    f = build_flag(case["f"], uv=uv)
    rng = np.random.default_rng(case["seed"])
    others = []
    for _ in range(case["n"]):
        o = f.copy()
        fill(o, rng, f.mode, False, case["f"]["inf"])
        others.append(o)
    s, so = snap(f), [snap(o) for o in others]
    if f.mode == "flag":
        what = f"or of {f.type}"
        want = s["flag_array"].copy()
        res = f
        for o in others:
            want |= o.flag_array
            if case["sym"]:
                res = res | o
            elif case["inplace"]:
                res |= o
            else:
                res = res.__or__(o)
        inpl = case["inplace"] and not case["sym"]
        want = {**s, "flag_array": want}
        skip = []
    else:
        m = case["method"]
        what = f"combine_metrics({m}) of {f.type}"
        arg = others
        if case["form"] == "tuple":
            arg = tuple(others)
        elif case["n"] == 1 and case["form"] == "array":
            arg = others[0]
        res = f.combine_metrics(arg, method=m, inplace=case["inplace"])
        inpl = case["inplace"]
        res = f if inpl else res
        d, w, _ = mean_rule(m.lower(), np.array([s["metric_array"]] + [o["metric_array"] for o in so]),
                            np.array([s["weights_array"]] + [o["weights_array"] for o in so]), 0)
        want = {**s, "metric_array": d, "weights_array": w}
        skip = ["weights_square_array"]
    if inpl:
        require(res is f, f"{what}: not in place")
    else:
        same_snap(snap(f), s, f"{what}: changed the input")
    for o, q in zip(others, so):
        same_snap(snap(o), q, f"{what}: changed another object")
    same_flag(snap(res), want, what, rtol=1e-12, atol=1e-12, skip=skip)
    check_flag(res, what)
    # occupancy of the flags per time and frequency
    fa = uv.flag_array if case["own"] else rng.random(uv.flag_array.shape) < 0.5
    su = snap(uv)
    wf = flags2waterfall(uv, flag_array=None if case["own"] else fa, keep_pol=case["keep"])
    ut = np.unique(uv.time_array)
    exp = np.array([fa[uv.time_array == t].mean(axis=0 if case["keep"] else (0, 2)) for t in ut])
    same(wf, exp, "flags2waterfall", rtol=1e-12, atol=1e-12)
    same_snap(snap(uv), su, "flags2waterfall changed its input")
    label(f.type, f.mode)
    nontrivial(uv.Nblts > 1)
