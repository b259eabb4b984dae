"""C17: UVCal select, combine, reorder and convert."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_cal import (CDATA, CFREQ, CSPW, TIMEP, build_cal, cal_canon, cal_spec, check_cal, fax,
                        same_cal, take)
from vp.gen_uv import chance

P = Prop(
    "C17",
    "UVCal objects (gain, wide band, delay; times or time ranges; 1-3 windows; flex-Jones; "
    "optional qualities, phase centers, reference antennas) under selection, split and "
    "recombination, reordering, keyed access and delay conversion; non-trivial: at least two "
    "entries on the affected axis.",
    ["expected objects are index selections of the original arrays; solutions no part holds "
     "must be flagged"],
)
TWO_PI = 2 * np.pi
POLNAMES = {-5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx", -1: "Jrr", -2: "Jll", -3: "Jrl", -4: "Jlr"}


# ------------------------------------------------------------------ selection
@st.composite
def sel_case(draw):
    idx = lambda: draw(st.lists(st.integers(0, 7), min_size=1, max_size=4))  # noqa: E731
    return {
        "cal": draw(cal_spec(spw_overlap=True)),
        "meta": draw(chance(8)),
        "ant": draw(st.sampled_from([None, None, "num", "name"])), "ai": idx(),
        "time": draw(st.sampled_from([None, "times", "time_range", "lsts", "lst_range"])),
        "ti": idx(), "flip": draw(st.booleans()),
        "freq": draw(st.sampled_from([None, None, "frequencies", "freq_chans", "spws"])), "fi": idx(),
        "jones": draw(st.sampled_from([None, None, "num", "name"])), "ji": idx(),
        "pc": draw(st.sampled_from([None, None, None, "id", "name"])), "pi": idx(),
        "inplace": draw(st.booleans()), "miss": draw(chance(12)),
    }


def mod(lst, n):
    return sorted({i % n for i in lst})


def in_lst(lo, hi, x):
    return lo <= x <= hi if lo <= hi else (x >= lo or x <= hi)


def lst_parts(lo, hi):
    return [(lo, hi)] if lo <= hi else [(lo, TWO_PI), (0.0, hi)]


@P.sub("select", sel_case, 1500)
def select(case):
    cal = build_cal(case["cal"], meta_only=case["meta"])
    s = snap(cal)
    kw = {}
    na, nt = len(s["ant_array"]), s["Ntimes"]
    ant = None
    if case["ant"]:
        ant = mod(case["ai"], na)
        ask = [s["ant_array"][i] for i in (reversed(ant) if case["flip"] else ant)]
        if case["ant"] == "num":
            kw["antenna_nums"] = [int(a) for a in ask]
        else:
            nums = s["telescope.antenna_numbers"].tolist()
            kw["antenna_names"] = [s["telescope.antenna_names"][nums.index(a)] for a in ask]
    tset = set(range(nt))
    tk = case["time"]
    if tk:
        ti = mod(case["ti"], nt)
        if s["time_array"] is not None:
            if tk == "times":
                kw["times"] = [s["time_array"][i] for i in reversed(ti)]
                tset &= set(ti)
            elif tk == "lsts":
                kw["lsts"] = [s["lst_array"][i] for i in ti]
                d = np.abs(s["lst_array"][:, None] - s["lst_array"][ti][None])
                if np.any((d < 1e-6) & (d > 0)):
                    return label("lst-ambiguous")
                tset &= set(np.nonzero(np.min(d, axis=1) < 1e-9)[0].tolist())
            elif tk == "time_range":
                ts = s["time_array"][ti]
                kw["time_range"] = [ts.min() - 1e-6, ts.max() + 1e-6]
                tset &= {i for i in range(nt)
                         if kw["time_range"][0] <= s["time_array"][i] <= kw["time_range"][1]}
            else:
                a, b = s["lst_array"][ti[0]], s["lst_array"][ti[-1]]
                lo, hi = (a - 1e-5) % TWO_PI, (b + 1e-5) % TWO_PI
                kw["lst_range"] = [lo, hi]
                tset &= {i for i in range(nt) if in_lst(lo, hi, s["lst_array"][i])}
                if lo > hi:
                    label("lst-wrap")
        else:
            tr, lr = s["time_range"], s["lst_range"]
            if tk == "times":
                x = [0.5 * (tr[i, 0] + tr[i, 1]) for i in ti]
                kw["times"] = x
                tset &= {i for i in range(nt) if any(tr[i, 0] <= v <= tr[i, 1] for v in x)}
            elif tk == "lsts":
                w = (lr[:, 1] - lr[:, 0]) % TWO_PI
                x = [(lr[i, 0] + 0.5 * w[i]) % TWO_PI for i in ti]
                kw["lsts"] = x
                tset &= {i for i in range(nt) if any(in_lst(lr[i, 0], lr[i, 1], v) for v in x)}
            elif tk == "time_range":
                q = 0.25 * (tr[:, 1] - tr[:, 0])
                lo = min(tr[i, 0] + q[i] for i in ti)
                hi = max(tr[i, 1] - q[i] for i in ti)
                kw["time_range"] = [lo, hi]
                tset &= {i for i in range(nt) if tr[i, 0] < hi and tr[i, 1] > lo}
            else:
                w = (lr[:, 1] - lr[:, 0]) % TWO_PI
                lo = (lr[ti[0], 0] + 0.3 * w[ti[0]]) % TWO_PI
                hi = (lr[ti[-1], 1] - 0.3 * w[ti[-1]]) % TWO_PI
                kw["lst_range"] = [lo, hi]
                tset &= {i for i in range(nt)
                         if any(p[0] < q[1] and q[0] < p[1] for p in lst_parts(*lr[i])
                                for q in lst_parts(lo, hi))}
                if lo > hi:
                    label("lst-wrap")
        label("time:" + tk)
    if case["pc"] and s["phase_center_catalog"] is not None:
        ids = list(s["phase_center_catalog"])
        pick = [ids[i] for i in mod(case["pi"], len(ids))]
        if case["pc"] == "id":
            kw["phase_center_ids"] = pick
        else:
            kw["catalog_names"] = [s["phase_center_catalog"][i]["cat_name"] for i in pick]
        tset &= {i for i in range(nt) if s["phase_center_id_array"][i] in pick}
        label("phase-center")
    f = None
    fk = case["freq"]
    if s["wide_band"] and fk in ("frequencies", "freq_chans"):
        fk = "spws"
    if fk == "spws":
        if s["Nspws"] > 1:
            w = [int(s["spw_array"][i]) for i in mod(case["fi"], s["Nspws"])]
            kw["spws"] = w
            src = s["spw_array"] if s["wide_band"] else s["flex_spw_id_array"]
            f = [i for i in range(len(src)) if src[i] in w]
    elif fk:
        f = mod(case["fi"], s["Nfreqs"])
        if fk == "freq_chans":
            kw["freq_chans"] = f[::-1] if case["flip"] else f
        else:
            kw["frequencies"] = [s["freq_array"][i] for i in f]
            f = [i for i in range(s["Nfreqs"]) if s["freq_array"][i] in kw["frequencies"]]
    j = None
    if case["jones"]:
        if s["flex_jones_array"] is not None:
            vals = sorted(set(s["flex_jones_array"].tolist()))
            pick = [vals[i] for i in mod(case["ji"], len(vals))]
            keepw = {int(w) for w, v in zip(s["spw_array"], s["flex_jones_array"]) if v in pick}
            src = s["spw_array"] if s["wide_band"] else s["flex_spw_id_array"]
            jf = [i for i in range(len(src)) if int(src[i]) in keepw]
            f = jf if f is None else [i for i in f if i in jf]
        else:
            j = mod(case["ji"], s["Njones"])
            pick = [int(s["jones_array"][i]) for i in j]
        kw["jones"] = pick if case["jones"] == "num" else [named(p, s) for p in pick]
        label("jones")
    if not kw:
        return
    t = sorted(tset)
    empty = (tk or "phase_center_ids" in kw or "catalog_names" in kw) and not t
    empty = empty or (f is not None and not f)
    if case["miss"]:
        # something that is not there must be refused
        bad = dict(kw)
        which = ["antenna_nums", "times", "jones", "spws", "catalog_names"][case["ai"][0] % 5]
        if which == "spws" and s["Nspws"] < 2:
            return
        if which == "catalog_names" and s["phase_center_catalog"] is None:
            return
        bad.pop("phase_center_ids", None)
        bad.pop("antenna_names", None)
        for n in ("times", "time_range", "lsts", "lst_range"):
            if which == "times":
                bad.pop(n, None)
        for n in ("frequencies", "freq_chans"):
            if which == "spws":
                bad.pop(n, None)
        bad[which] = {"antenna_nums": [999999], "spws": [99], "catalog_names": "nothing",
                      "times": [s["integration_time"][0]],
                      "jones": [-4 if s["jones_array"][0] < -4 or s["flex_jones_array"] is not None
                                and s["flex_jones_array"][0] < -4 else -8]}[which]
        try:
            cal.select(inplace=False, **bad)
        except ValueError:
            same_snap(snap(cal), s, "refused selection changed the object")
            return label("refused")
        fail(f"select({which}=absent value) was accepted")
    if empty:
        try:
            cal.select(inplace=False, **kw)
        except ValueError:
            return label("refused-empty")
        fail(f"a selection that matches nothing was accepted: {sorted(kw)}")
    e = take(s, ant=ant, f=f, t=None if t == list(range(nt)) else t, j=j)
    if case["inplace"]:
        got = cal.copy()
        require(got.select(**kw) is None, "in-place select returned something")
    else:
        got = cal.select(inplace=False, **kw)
        same_snap(snap(cal), s, "select(inplace=False) changed the object")
    g = check_cal(got, "select")
    same_snap(g, e, "select", skip=("history", "phase_center_catalog", "Nphase"))
    if g["phase_center_catalog"] is not None:
        for i in g["phase_center_id_array"].tolist():
            same(g["phase_center_catalog"][i], s["phase_center_catalog"][i], "phase center entry")
    nontrivial(len(kw) > 1 or (na > 1 and nt > 1))
    label(s["cal_type"], "wide" if s["wide_band"] else "narrow", s["cal_style"])


def named(p, s):
    """Jones name as the user would write it."""
    n = POLNAMES[p]
    if p <= -5:
        xo = s["telescope.x_orientation"]
        m = {"x": "e", "y": "n"} if xo == "east" else {"x": "n", "y": "e"}
        n = "J" + "".join(m[c] for c in n[1:])
    return n


# ------------------------------------------------------------------ combining
@st.composite
def split_case(draw, two=True):
    n = draw(st.integers(2, 4))
    axes = ["ant", "freq", "time", "jones"]
    if two:
        axes += ["ant+freq", "time+jones", "freq+time", "ant+time", "freq+jones", "ant+jones"]
    return {
        "cal": draw(cal_spec(max_chan=3, spw_overlap=True)), "meta": draw(chance(10)),
        "axes": draw(st.sampled_from(axes)), "n": n,
        "lab": draw(st.lists(st.integers(0, n - 1), min_size=4, max_size=10)),
        "lab2": draw(st.lists(st.integers(0, 1), min_size=2, max_size=6)),
        "order": draw(st.integers(0, 1000)), "drop": draw(st.integers(0, 12)),
        "shuf": draw(st.booleans()), "iadd": draw(st.booleans()), "renum": draw(st.booleans()),
        "noq": draw(chance(6)), "unused": draw(st.booleans()),
    }


def sel_kw(s, ax, idx):
    if ax == "ant":
        return {"antenna_nums": s["ant_array"][idx]}
    if ax == "time":
        if s["time_array"] is not None:
            return {"times": s["time_array"][idx]}
        return {"times": s["time_range"][idx].mean(axis=1)}
    if ax == "jones":
        return {"jones": s["jones_array"][idx].tolist()}
    if s["wide_band"]:
        return {"spws": s["spw_array"][idx].tolist()}
    return {"freq_chans": list(idx)}


def shuffle(cal, idx, rng):
    """Reorder a part at random, keeping track of the original indices."""
    q = rng.permutation(len(idx["ant"]))
    cal.reorder_antennas(q)
    idx["ant"] = idx["ant"][q]
    q = rng.permutation(len(idx["time"]))
    cal.reorder_times(q)
    idx["time"] = idx["time"][q]
    q = rng.permutation(len(idx["jones"]))
    cal.reorder_jones(q)
    idx["jones"] = idx["jones"][q]


def renumber(cal, k):
    cat = cal.phase_center_catalog
    ids = sorted(cat)
    if k % 2:
        ids = ids[::-1]
    m = {i: jj for jj, i in enumerate(ids)}
    cal.phase_center_catalog = {m[i]: cat[i] for i in ids}
    cal.phase_center_id_array = np.array([m[i] for i in cal.phase_center_id_array.tolist()])


def make_parts(cal, s, case):
    dims = {"ant": len(s["ant_array"]), "freq": fax(s), "time": s["Ntimes"], "jones": s["Njones"]}
    ax = case["axes"].split("+")
    l1 = np.array([case["lab"][i % len(case["lab"])] for i in range(dims[ax[0]])])
    cells = []
    for a in sorted(set(l1.tolist())):
        c = {ax[0]: np.nonzero(l1 == a)[0]}
        if len(ax) == 1:
            cells.append(c)
            continue
        l2c = case["lab2"][a % 2:] + case["lab2"][: a % 2]
        l2 = np.array([l2c[i % len(l2c)] for i in range(dims[ax[1]])])
        for b in sorted(set(l2.tolist())):
            cells.append({**c, ax[1]: np.nonzero(l2 == b)[0]})
    if len(ax) > 1 and case["drop"] < len(cells) and len(cells) > 2:
        cells.pop(case["drop"])
        label("with-hole")
    rng = np.random.default_rng(case["order"])
    parts = []
    for k, c in enumerate(cells):
        idx = {a: c.get(a, np.arange(dims[a])) for a in dims}
        kw = {}
        for a in c:
            if len(c[a]) < dims[a]:
                kw.update(sel_kw(s, a, c[a]))
        o = cal.select(inplace=False, **kw) if kw else cal.copy()
        if case["unused"] and o.phase_center_catalog is not None:
            o._clear_unused_phase_centers()
        if case["shuf"]:
            shuffle(o, idx, rng)
        parts.append((o, idx, tuple(kw)))
    return [parts[i] for i in rng.permutation(len(parts))]


def union_expected(s, parts, hasq, hast, ants_added):
    got = {a: np.array(sorted({int(i) for p in parts for i in p[1][a]})) for a in parts[0][1]}
    e = dict(s)
    for n in CDATA + ["total_quality_array"]:
        if s[n] is None:
            continue
        have = np.zeros(s[n].shape, dtype=bool)
        for k, p in enumerate(parts):
            i = p[1]
            if n == "total_quality_array":
                if hast[k]:
                    have[np.ix_(i["freq"], i["time"], i["jones"])] = True
            elif n != "quality_array" or hasq[k]:
                have[np.ix_(i["ant"], i["freq"], i["time"], i["jones"])] = True
        e[n] = np.where(have, s[n], True if n == "flag_array" else 0)
    if s["quality_array"] is not None and not any(hasq):
        e["quality_array"] = None
    if s["total_quality_array"] is not None and (ants_added or not any(hast)):
        e["total_quality_array"] = None
    return take(e, ant=got["ant"], f=got["freq"], t=got["time"], j=got["jones"])


def prepare(case):
    cal = build_cal(case["cal"], meta_only=case["meta"])
    s = snap(cal)
    case = dict(case)
    if s["flex_jones_array"] is not None and "jones" in case["axes"]:
        case["axes"] = "time"
    parts = make_parts(cal, s, case)
    if len(parts) < 2:
        return None
    hasq = [s["quality_array"] is not None] * len(parts)
    hast = [s["total_quality_array"] is not None] * len(parts)
    if case["noq"] and not case["meta"]:
        parts[case["order"] % len(parts)][0].quality_array = None
        hasq[case["order"] % len(parts)] = False
        parts[case["lab"][0] % len(parts)][0].total_quality_array = None
        hast[case["lab"][0] % len(parts)] = False
        label("missing-quality")
    if case["renum"] and case["axes"] == "time" and s["phase_center_catalog"] is not None:
        for k, p in enumerate(parts):
            renumber(p[0], k)
        label("renumbered-catalogs")
    return cal, s, parts, hasq, hast


@P.sub("add", split_case, 2200)
def add(case):
    pre = prepare(case)
    if pre is None:
        return
    cal, s, parts, hasq, hast = pre
    acc = parts[0][0].copy()
    # once antennas were added the total quality is gone; a later part may bring it back
    # only by defining the whole of it, which the documentation does not say: skip that mix
    fuzzy_tq = s["total_quality_array"] is not None and "ant" in case["axes"]
    box = {a: set(v.tolist()) for a, v in parts[0][1].items()}
    for k, p in enumerate(parts[1:], start=1):
        so = snap(p[0])
        if all(box[a] & set(p[1][a].tolist()) for a in box):
            # the sum so far is a full grid over its axes that holds this part already
            try:
                acc + p[0]
            except ValueError:
                parts, hasq, hast = parts[:k], hasq[:k], hast[:k]
                label("grid-overlap-refused")
                break
            fail("adding solutions that overlap was accepted")
        for a in box:
            box[a] |= set(p[1][a].tolist())
        if case["iadd"]:
            acc += p[0]
        else:
            sa = snap(acc)
            new = acc + p[0]
            same_snap(snap(acc), sa, "a + b changed a")
            acc = new
        same_snap(snap(p[0]), so, "addition changed its right operand")
    ants_added = not box["ant"] <= set(parts[0][1]["ant"].tolist())
    g = check_cal(acc, "sum of the parts")
    e = union_expected(s, parts, hasq, hast, ants_added)
    same_cal(cal_canon(g), cal_canon(e), "sum of the parts",
             skip=("total_quality_array",) if fuzzy_tq else ())
    nontrivial(len(parts) > 2 or "+" in case["axes"])
    label(case["axes"], s["cal_type"], s["cal_style"])
    # adding a part again is refused
    try:
        acc + parts[0][0]
    except ValueError:
        return
    fail("adding solutions that are already there was accepted")


def concat_strategy():
    return split_case(two=False)


@P.sub("concat", concat_strategy, 1100)
def concat(case):
    case = dict(case, shuf=False)
    pre = prepare(case)
    if pre is None:
        return
    cal, s, parts, hasq, hast = pre
    ax = {"ant": "antenna", "freq": "spw" if s["wide_band"] else "freq", "time": "time",
          "jones": "jones"}
    name = case["axes"]
    if s["flex_jones_array"] is not None and name == "jones":
        name = "time"
    first, rest = parts[0][0], [p[0] for p in parts[1:]]
    befores = [snap(p[0]) for p in parts]
    e = union_expected(s, parts, hasq, hast, name == "ant")
    if name == "freq" and not s["wide_band"]:
        ids = np.concatenate([p[0].flex_spw_id_array for p in parts])
        runs = 1 + int(np.sum(np.diff(ids) != 0))
        if runs != len(set(ids.tolist())):
            # documented: channels of a window have to be grouped together
            try:
                first.fast_concat(rest, ax[name])
            except ValueError as err:
                require("interspersed" in str(err), f"unexpected refusal: {err}")
                return label("interspersed-refused")
    if case["iadd"]:
        got = first.copy()
        got.fast_concat(rest, ax[name], inplace=True)
    else:
        got = first.fast_concat(rest, ax[name])
    for p, b in zip(parts, befores):
        same_snap(snap(p[0]), b, "concatenation changed an input")
    g = check_cal(got, "concatenation")
    same_cal(cal_canon(g), cal_canon(e), "concatenation")
    # the concatenated axis keeps the order of the parts
    key = {"ant": "ant_array", "freq": "spw_array" if s["wide_band"] else "freq_array",
           "jones": "jones_array",
           "time": "time_array" if s["time_array"] is not None else "time_range"}[name]
    same(g[key], np.concatenate([b[key] for b in befores]), f"concatenation: order of {key}")
    nontrivial(len(parts) > 2 or len(set(g[key].ravel().tolist())) > 2)
    label(name, s["cal_type"])


# ------------------------------------------------------------------ clashes
@st.composite
def clash_case(draw):
    return {
        "cal": draw(cal_spec(max_chan=2, kinds=("gain", "delay", "wide"), flexjones=False,
                             times=("array",))),
        "what": draw(st.sampled_from([
            "overlap", "gain_convention", "cal_style", "telescope", "cal_type", "phase", "ref",
            "wide", "time_kind", "concat_times", "concat_ants", "freq_range", "concat_range",
            "concat_spw"])),
    }


@P.sub("refuse", clash_case, 500)
def refuse(case):
    cal = build_cal(case["cal"])
    s = snap(cal)
    if s["Ntimes"] < 2 or s["time_array"] is None:
        return
    a = cal.select(times=[s["time_array"][0]], inplace=False)
    b = cal.select(times=s["time_array"][1:], inplace=False)
    w = case["what"]
    op = lambda: a + b  # noqa: E731
    if w == "overlap":
        b = cal.copy()
    elif w == "gain_convention":
        b.gain_convention = {"divide": "multiply", "multiply": "divide"}[b.gain_convention]
    elif w == "cal_style":
        if b.cal_style == "sky":
            b._set_redundant()
        else:
            b._set_sky()
            b.sky_catalog, b.ref_antenna_name = "x", "y"
    elif w == "telescope":
        b.telescope.antenna_positions = b.telescope.antenna_positions + 5.0
    elif w == "cal_type":
        if b.cal_type != "delay" or b.Nspws > 1:
            return
        fr = b.freq_range[0]
        b.convert_to_gain(freq_array=np.array([fr.mean()]), channel_width=np.array([1e4]))
    elif w == "phase":
        if b.phase_center_catalog is None:
            return
        b.phase_center_catalog = b.phase_center_id_array = b.Nphase = None
    elif w == "ref":
        if b.ref_antenna_array is None:
            return
        b.ref_antenna_array = None
    elif w == "wide":
        if b.wide_band or b.Nfreqs != b.Nspws:
            return
        fr = np.stack([b.freq_array - 1e3, b.freq_array + 1e3], axis=1)
        b.spw_array = b.flex_spw_id_array
        b.freq_array = b.channel_width = b.flex_spw_id_array = None
        b.freq_range = fr
        b._set_wide_band()
        b.Nfreqs = 1
    elif w == "time_kind":
        b.time_range = np.stack([b.time_array - 1e-6, b.time_array + 1e-6], axis=1)
        b.time_array = b.lst_array = None
        b.set_lsts_from_time_array()
    elif w == "concat_times":
        b.integration_time = b.integration_time + 5.0
        c = cal.copy()
        c.integration_time = c.integration_time + 5.0
        ax = "jones"
        op = lambda: cal.fast_concat(c, ax)  # noqa: E731
    elif w == "concat_ants":
        c = cal.copy()
        if len(c.ant_array) < 2:
            return
        c.reorder_antennas(np.arange(len(c.ant_array))[::-1])
        op = lambda: cal.fast_concat(c, "time")  # noqa: E731
    elif w in ("freq_range", "concat_range"):
        if not b.wide_band:
            return
        b.freq_range = b.freq_range + 5e6
        if w == "concat_range":
            op = lambda: a.fast_concat(b, "time")  # noqa: E731
    elif w == "concat_spw":
        b.spw_array = b.spw_array + 1
        if not b.wide_band:
            b.flex_spw_id_array = b.flex_spw_id_array + 1
        op = lambda: a.fast_concat(b, "time")  # noqa: E731
    sa, sb = snap(a), snap(b)
    try:
        op()
    except ValueError:
        same_snap(snap(a), sa, "refused combination changed its input")
        same_snap(snap(b), sb, "refused combination changed its input")
        nontrivial()
        return label("refused:" + w)
    fail(f"combining solutions with conflicting {w} was accepted")


# ------------------------------------------------------------------ reordering
@st.composite
def order_case(draw):
    return {
        "cal": draw(cal_spec(max_chan=4, spw_overlap=True)), "meta": draw(chance(10)),
        "ops": draw(st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(["ant", "freq", "time", "jones"]),
            "how": st.integers(0, 6), "seed": st.integers(0, 99), "spw": st.integers(0, 3),
        }), min_size=1, max_size=4)),
    }


def is_sorted(v, rev):
    v = list(v)
    return v == sorted(v, reverse=rev)


@P.sub("reorder", order_case, 900)
def reorder(case):
    cal = build_cal(case["cal"], meta_only=case["meta"])
    s0 = snap(cal)
    c0 = cal_canon(s0)
    for o in case["ops"]:
        before = snap(cal)
        rng = np.random.default_rng(o["seed"])
        rev = o["how"] % 2 == 1
        pre = "-" if rev else ""
        if o["op"] == "ant":
            k = o["how"] % 3
            if k == 2:
                q = rng.permutation(cal.Nants_data)
                cal.reorder_antennas(q)
                same(cal.ant_array, before["ant_array"][q], "reorder_antennas by index")
            elif k == 1:
                cal.reorder_antennas(pre + "name")
                nums = list(before["telescope.antenna_numbers"])
                nm = [before["telescope.antenna_names"][nums.index(a)] for a in cal.ant_array]
                require(is_sorted(nm, rev), f"reorder_antennas({pre}name): {nm}")
            else:
                cal.reorder_antennas(pre + "number")
                require(is_sorted(cal.ant_array, rev), f"reorder_antennas({pre}number)")
        elif o["op"] == "time":
            if o["how"] % 3 == 2:
                q = rng.permutation(cal.Ntimes)
                cal.reorder_times(list(q))
                same(cal.integration_time, before["integration_time"][q], "reorder_times by index")
            else:
                cal.reorder_times(pre + "time")
                v = cal.time_array if cal.time_array is not None else cal.time_range[:, 0]
                require(is_sorted(v, rev), f"reorder_times({pre}time)")
        elif o["op"] == "jones":
            if o["how"] % 3 == 2:
                q = rng.permutation(cal.Njones)
                cal.reorder_jones(q)
                same(cal.jones_array, before["jones_array"][q], "reorder_jones by index")
            elif cal.flex_jones_array is not None:
                continue
            elif o["how"] % 3 == 1:
                cal.reorder_jones(pre + "number")
                require(is_sorted(cal.jones_array, rev), f"reorder_jones({pre}number)")
            else:
                cal.reorder_jones(pre + "name")
                nm = [named(int(p), before) for p in cal.jones_array]
                require(is_sorted(nm, rev), f"reorder_jones({pre}name): {nm}")
        elif cal.wide_band:
            k = o["how"] % 3
            if k == 2:
                q = rng.permutation(cal.Nspws)
                cal.reorder_freqs(spw_order=list(q))
                same(cal.spw_array, before["spw_array"][q], "reorder_freqs(spw_order=index)")
            else:
                cal.reorder_freqs(spw_order=pre + ["number", "freq"][k])
                v = cal.spw_array if k == 0 else cal.freq_range.mean(axis=1)
                require(is_sorted(v, rev), f"reorder_freqs(spw_order {k} {pre})")
        else:
            so = [None, pre + "number", pre + "freq", "idx"][o["how"] % 4]
            co = [None, "freq", "-freq"][o["seed"] % 3]
            kw = {}
            sp = so
            if so == "idx":
                sp = list(rng.permutation(cal.Nspws))
            if sp is not None:
                kw["spw_order"] = sp
            if co is not None:
                kw["channel_order"] = co
            one = None
            if so is None and co is not None and o["spw"] < cal.Nspws:
                one = int(cal.spw_array[o["spw"]])
                kw["select_spw"] = one
            if not kw:
                continue
            cal.reorder_freqs(**kw)
            ids = cal.flex_spw_id_array
            seq = list(dict.fromkeys(ids.tolist()))
            if so == "idx":
                require(seq == [int(before["spw_array"][i]) for i in sp], f"window order {seq}")
            elif so is not None and "number" in so:
                require(is_sorted(seq, rev), f"window order {so}: {seq}")
            elif so is not None:
                m = [cal.freq_array[ids == w].mean() for w in seq]
                require(is_sorted(m, rev), f"window order {so}: {m}")
            for w in seq:
                if co is not None and one in (None, w):
                    require(is_sorted(cal.freq_array[ids == w], co[0] == "-"),
                            f"channel order {co} in window {w}")
            if one is not None:
                for w in seq:
                    if w != one:
                        same(cal.freq_array[ids == w],
                             before["freq_array"][before["flex_spw_id_array"] == w],
                             "channels of a window that was not selected")
        s = check_cal(cal, "reorder " + o["op"])
        same_cal(cal_canon(s), c0, f"reorder {o['op']}")
        label("reorder:" + o["op"])
    nontrivial(cal.Nants_data > 1 and cal.Ntimes > 1)


# ------------------------------------------------------------------ keyed access
@st.composite
def key_case(draw):
    return {"cal": draw(cal_spec(flexjones=False)), "ai": draw(st.integers(0, 9)),
            "ji": draw(st.integers(0, 9)), "named": draw(st.booleans()), "sq": draw(st.booleans()),
            "tup": draw(st.booleans())}


@P.sub("keys", key_case, 300)
def keys(case):
    cal = build_cal(case["cal"])
    s = snap(cal)
    ai, ji = case["ai"] % cal.Nants_data, case["ji"] % cal.Njones
    ant = int(s["ant_array"][ai])
    jp = int(s["jones_array"][ji])
    jk = named(jp, s) if case["named"] else jp
    d = s["gain_array"] if s["cal_type"] == "gain" else None
    for meth, arr in (("get_gains", d), ("get_flags", s["flag_array"]),
                      ("get_quality", s["quality_array"])):
        if arr is None:
            continue
        f = getattr(cal, meth)
        got = f((ant, jk)) if case["tup"] else f(ant, jpol=jk)
        same(got, arr[ai, :, :, ji], f"{meth}(ant, jpol)")
        exp = arr[ai]
        if case["sq"] and cal.Njones == 1:
            exp = exp[..., 0]
        same(f(ant, squeeze_pol=case["sq"]), exp, f"{meth}(ant)")
    require(cal.ant2ind(ant) == ai, "ant2ind")
    require(cal.jpol2ind(jk) == ji, "jpol2ind")
    require(not cal._has_key(antnum=12345678), "_has_key") if hasattr(cal, "_has_key") else None
    tc = cal.get_time_array()
    exp = s["time_array"] if s["time_array"] is not None else s["time_range"].mean(axis=1)
    same(tc, exp, "get_time_array", atol=1e-9)
    lst = cal.get_lst_array()
    if s["lst_array"] is not None:
        same(lst, s["lst_array"], "get_lst_array")
    else:
        w = (s["lst_range"][:, 1] - s["lst_range"][:, 0]) % TWO_PI
        mid = s["lst_range"][:, 0] + 0.5 * w
        same(np.exp(1j * lst), np.exp(1j * mid), "get_lst_array", atol=1e-3)
    same_snap(snap(cal), s, "keyed access changed the object")
    nontrivial(cal.Nants_data > 1)


# ------------------------------------------------------------------ delay to gain
@st.composite
def delay_case(draw):
    return {"cal": draw(cal_spec(kinds=("delay",), max_spws=1, max_chan=5)),
            "nf": draw(st.integers(1, 5)), "conv": draw(st.sampled_from(["minus", "plus"])),
            "out": draw(chance(5)), "rev": draw(st.booleans())}


@P.sub("delay", delay_case, 300)
def delay(case):
    cal = build_cal(case["cal"])
    s = snap(cal)
    lo, hi = s["freq_range"][0]
    f = np.linspace(lo, hi, case["nf"] + 2)[1:-1]
    w = np.full(case["nf"], (hi - lo) / (case["nf"] + 1))
    if case["rev"]:
        f = f[::-1].copy()
    if case["out"]:
        f[0] = hi + 1e6
        try:
            cal.convert_to_gain(freq_array=f, channel_width=w)
        except ValueError:
            same_snap(snap(cal), s, "refused conversion changed the object")
            return label("refused")
        fail("convert_to_gain accepted frequencies outside the range of validity")
    cal.convert_to_gain(freq_array=f, channel_width=w, delay_convention=case["conv"])
    sign = -1 if case["conv"] == "minus" else 1
    g = check_cal(cal, "convert_to_gain")
    d = s["delay_array"][:, 0]
    exp = np.exp(sign * 2j * np.pi * d[:, None] * f[None, :, None, None])
    same(g["gain_array"], exp, "gains of the delays", atol=1e-9)
    require(g["delay_array"] is None and g["freq_range"] is None, "left-over delay metadata")
    require(g["cal_type"] == "gain" and not g["wide_band"], "cal_type")
    same(g["freq_array"], f, "freq_array")
    same(g["channel_width"], w, "channel_width")
    for n in ("flag_array", "quality_array"):
        if s[n] is None:
            require(g[n] is None, n)
        else:
            same(g[n], np.repeat(s[n], case["nf"], axis=1), n)
    if s["total_quality_array"] is not None:
        same(g["total_quality_array"], np.repeat(s["total_quality_array"], case["nf"], axis=0),
             "total_quality_array")
    same_snap(g, s, "convert_to_gain", skip=(
        "gain_array", "delay_array", "flag_array", "quality_array", "total_quality_array",
        "freq_array", "channel_width", "freq_range", "flex_spw_id_array", "Nfreqs", "cal_type",
        "wide_band", "history"))
    same(g["flex_spw_id_array"], np.full(case["nf"], s["spw_array"][0]), "flex_spw_id_array")
    nontrivial(case["nf"] > 1)
