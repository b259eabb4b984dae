"""C27: objects built from arrays hold what was asked for."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import sky
from vp.cmp import loc_xyz, same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_beam import beam_spec, build_beam, check_beam
from vp.gen_cal import check_cal
from vp.gen_uv import (ANTNUM_BLOCKS, LOCS, build_freqs, build_tel, build_uv, chance, enu_of, location, pc_entry,
                       pc_spec, spw_spec, tel_spec, uv_spec)
from vp.uvmodel import check_blt_order, check_counts, check_rect

P = Prop(
    "C27",
    "Telescopes, visibility, calibration and beam objects built with .new (and UVCal.initialize_from_uvdata) from "
    "arguments in every documented form: lists, arrays, dictionaries by name or number, unique lists to be "
    "multiplied out or full lists, in any order, given or inferred widths and durations, strings or integers for "
    "polarizations, complete, partial or no data; inconsistent arguments; two objects from the same arguments. "
    "Non-trivial: at least two records, antennas or pixels.",
    ["inferred channel widths are only compared within a single window, where their documentation is meaningful",
     "the deprecated way of passing telescope attributes is left out"],
)
POLN = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy",
        -8: "yx"}
JN = {-5: "Jxx", -6: "Jyy", -7: "Jxy", -8: "Jyx", -1: "Jrr", -2: "Jll", -3: "Jrl", -4: "Jlr"}
XM = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}
XO = {"east": ["east", "e", "ew", "East", "EW"], "north": ["north", "n", "ns", "North", "NS"]}


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def strs(pols, table, how, xori):
    """Polarization numbers as given: integers, names or names by orientation."""
    if how == "num":
        return list(pols)
    out = [table[p] for p in pols]
    if how == "xname" and xori:
        m = XM[xori]
        out = [x if (x[0] == "p") else x[0] * (x[0] == "J") + "".join(m.get(c, c) for c in x.lstrip("J")) for x in out]
    return out


def form(v, how, dtype=None):
    return {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=dtype)}[how](v)


# ------------------------------------------------------------------ telescopes
@st.composite
def tel_case(draw):
    return {"tel": draw(tel_spec()), "how": draw(st.sampled_from(["array", "num", "npnum", "name"])),
            "nums": draw(st.booleans()), "names": draw(st.booleans()),
            "numform": draw(st.sampled_from(["list", "array", "tuple"])), "perm": draw(st.integers(0, 10**6)),
            "fmt": draw(st.sampled_from([None, "ant{0:02d}", "{0:d}"])), "x": draw(st.integers(0, 4)),
            "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(
                ["dupnum", "dupname", "mixed", "short", "words", "shape", "loc", "diam"])))}


@P.sub("tel", tel_case, 900)
def tel(case):
    from pyuvdata import Telescope

    t = case["tel"]
    ref = build_tel(t)
    n = len(t["antnums"])
    p = np.random.default_rng(case["perm"]).permutation(n)
    nums, names = np.array(t["antnums"])[p], ref.antenna_names[p]
    pos = ref.antenna_positions[p]
    dia = ref.antenna_diameters[p] if t["diam"] else None
    kw = {"name": "verif", "location": location(t["loc"])}
    how = case["how"]
    f = lambda v: form(v, case["numform"])  # noqa: E731
    want_nums, want_names = nums, names
    if how == "array":
        kw["antenna_positions"] = pos.copy()
        if case["nums"] or not case["names"]:
            kw["antenna_numbers"] = f([int(x) for x in nums])
        if case["names"]:
            if "antenna_numbers" not in kw:
                names = np.array([f"{x:04d}" for x in nums])
                want_names = names
            kw["antenna_names"] = f([str(x) for x in names])
    elif how in ("num", "npnum"):
        kw["antenna_positions"] = {(int(a) if how == "num" else np.int64(a)): pos[i].copy() for i, a in
                                   enumerate(nums)}
        if case["names"]:
            kw["antenna_names"] = f([str(x) for x in names])
    else:
        if not case["nums"]:
            names = np.array([f"{x:04d}" for x in nums])
            want_names = names
        else:
            kw["antenna_numbers"] = f([int(x) for x in nums])
        kw["antenna_positions"] = {str(a): pos[i].copy() for i, a in enumerate(names)}
    if "antenna_names" not in kw and how != "name":
        fmt = case["fmt"] or "{0:03d}"
        if case["fmt"]:
            kw["antname_format"] = fmt
        want_names = np.array([fmt.format(x) for x in nums])
    if dia is not None:
        kw["antenna_diameters"] = f([float(x) for x in dia])
    if t["xori"]:
        kw["x_orientation"] = XO[t["xori"]][case["x"]]
    kw["instrument"] = "vinst"
    bad = case["bad"]
    if bad == "dupnum" and "antenna_numbers" in kw and n > 1:
        kw["antenna_numbers"] = f([int(nums[0])] + [int(x) for x in nums[:-1]])
    elif bad == "dupname" and "antenna_names" in kw and n > 1:
        kw["antenna_names"] = f([str(names[0])] + [str(x) for x in names[:-1]])
    elif bad == "mixed" and how in ("num", "name") and n > 1:
        d = kw["antenna_positions"]
        k = list(d)[0]
        d["m1" if how == "num" else 987654] = d.pop(k)
    elif bad == "short" and "antenna_numbers" in kw:
        kw["antenna_numbers"] = f([int(x) for x in nums[:-1]])
    elif bad == "words" and "antenna_names" in kw and "antenna_numbers" not in kw and how == "array":
        kw["antenna_names"] = f([f"w{x}" for x in names])
    elif bad == "shape" and how == "array":
        kw["antenna_positions"] = pos[:, :2].copy()
    elif bad == "loc":
        kw["location"] = (1.0, 2.0, 3.0)
    elif bad == "diam" and dia is not None and n > 1:
        kw["antenna_diameters"] = f([float(x) for x in dia[:-1]])
    else:
        bad = None
    before = copy.deepcopy(kw["antenna_positions"])
    try:
        g = quiet(Telescope.new, **kw)
    except (ValueError, KeyError) as e:
        if bad:
            label("refused " + bad)
            return nontrivial()
        fail(f"Telescope.new({kw}) refused: {e}")
    require(not bad, f"Telescope.new accepted {bad}: {kw}")
    same(kw["antenna_positions"], before, "antenna_positions argument of Telescope.new")
    g.check()
    what = f"Telescope.new by {how}"
    require(g.name == "verif" and g.instrument == "vinst" and g.x_orientation == t["xori"], f"{what}: {g.name} "
            f"{g.instrument} {g.x_orientation}")
    same(loc_xyz(g.location), loc_xyz(location(t["loc"])), f"{what}: location")
    require(g.Nants == n, f"{what}: Nants")
    got = {int(a): (str(g.antenna_names[i]), g.antenna_positions[i],
                    None if dia is None else float(g.antenna_diameters[i])) for i, a in enumerate(g.antenna_numbers)}
    for i in range(n):
        a = int(want_nums[i])
        require(a in got, f"{what}: antenna {a} missing")
        require(got[a][0] == str(want_names[i]), f"{what}: antenna {a} is called {got[a][0]}, not {want_names[i]}")
        same(got[a][1], pos[i], f"{what}: position of {a}")
        if dia is not None:
            require(got[a][2] == float(dia[i]), f"{what}: diameter of {a}")
    if dia is None:
        require(g.antenna_diameters is None, f"{what}: diameters appeared")
    label(how)
    nontrivial(n > 1)


# ------------------------------------------------------------------ visibilities
@st.composite
def uv_case(draw):
    t = draw(tel_spec(max_ants=4))
    n = len(t["antnums"])
    allp = [[i, j] for i in range(n) for j in range(n)]
    order = draw(st.permutations(allp))
    npc = draw(st.integers(0, 3))
    return {"tel": t, "pairs": [list(p) for p in order[:draw(st.integers(1, 6))]],
            "allpairs": draw(chance(4)), "nt": draw(st.integers(1, 4)), "tord": draw(st.integers(0, 10**6)),
            "gap": draw(st.booleans()), "how": draw(st.sampled_from(["outer", "outer", "full", "rect"])),
            "say": draw(st.booleans()), "tfast": draw(st.sampled_from([None, True, False])),
            "mask": draw(st.integers(0, 2**24 - 1)), "pform": draw(st.sampled_from(["list", "array", "tuple"])),
            "int": draw(st.sampled_from([None, "scalar", "array", "list"])),
            "cw": draw(st.sampled_from([None, "scalar", "array", "list"])),
            "spws": draw(spw_spec(max_chan=4)), "ids": draw(st.booleans()),
            "pols": draw(st.sampled_from([[-5], [-6, -5], [-5, -7], [-5, -6, -7, -8], [-1, -3], [1, 2], [4, 1]])),
            "phow": draw(st.sampled_from(["num", "name", "xname"])), "polform": draw(st.sampled_from(
                ["list", "array", "tuple"])),
            "pcs": [draw(pc_spec()) for _ in range(npc)], "giveid": draw(st.booleans()),
            "data": draw(st.sampled_from(["none", "empty", "data", "data", "all", "empty+data"])),
            "seed": draw(st.integers(0, 10**6)), "units": draw(st.sampled_from(["uncalib", "Jy", "K str"])),
            "rect": draw(st.sampled_from([None, True, False])), "kwargs": draw(st.booleans()),
            "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(
                ["times", "int", "cw", "data", "flag", "units", "kw", "dup", "pcid", "pair", "ids"])))}


@P.sub("uv", uv_case, 1500)
def uv(case):
    from pyuvdata import UVData

    t = case["tel"]
    rng = np.random.default_rng(case["seed"])
    T = build_tel(t)
    an = np.array(t["antnums"])
    nt = case["nt"]
    times = 2458661.2348 + np.arange(nt) * 10.0 / 86400
    if case["gap"] and nt > 2:
        times[-1] += 30.0 / 86400
    times = np.round(times, 7)[np.random.default_rng(case["tord"]).permutation(nt)]
    pairs = [[int(an[i]), int(an[j])] for i, j in case["pairs"]]
    if case["allpairs"]:
        pairs = [[int(an[i]), int(an[j])] for i in range(len(an)) for j in range(i, len(an))]
    how = case["how"]
    kw = {"telescope": T, "vis_units": case["units"]}
    k = len(pairs)
    # the records in the order they are asked for
    if how == "outer":
        tf = case["tfast"]
        rec = [(i, j) for j in range(k) for i in range(nt)] if tf else [(i, j) for i in range(nt) for j in range(k)]
        if tf is not None:
            kw["time_axis_faster_than_bls"] = tf
        ta, pa = times, pairs
        if case["say"] or k == nt:
            kw["do_blt_outer"] = True
        if case["allpairs"] and len(an) > 1:
            pa = None
    else:
        tf = case["tfast"]
        rec = [(i, j) for j in range(k) for i in range(nt)] if tf else [(i, j) for i in range(nt) for j in range(k)]
        if how == "full":
            rec = [r for q, r in enumerate(rec) if case["mask"] >> q & 1] or rec[:1]
            rec = [rec[i] for i in rng.permutation(len(rec))]
        ta, pa = times[[i for i, j in rec]], [pairs[j] for i, j in rec]
        kw["do_blt_outer"] = False
        if how == "rect" and case["rect"] is not None:
            kw["blts_are_rectangular"] = case["rect"]
    RT = times[[i for i, j in rec]]
    RA = np.array([pairs[j] for i, j in rec])
    nblt = len(rec)
    if pa is not None:
        pa = np.array(pa) if case["pform"] == "array" else form([tuple(x) for x in pa], case["pform"])
        kw["antpairs"] = pa
    kw["times"] = ta.copy()
    # durations
    if case["int"] == "scalar":
        kw["integration_time"], RI = 7.5, np.full(nblt, 7.5)
    elif case["int"]:
        v = np.round(5 + rng.random(len(ta)), 3)
        kw["integration_time"] = v if case["int"] == "array" else list(v)
        RI = v[[i for i, j in rec]] if how == "outer" else v
    else:
        ut = sorted(set(RT.tolist())) if how != "outer" else sorted(times.tolist())
        d = [(b - a) * 86400 for a, b in zip(ut, ut[1:])]
        d = d + d[-1:] if d else [1.0]
        RI = np.array([d[ut.index(x)] for x in RT.tolist()])
    # channels
    one = not case["ids"]
    spws = case["spws"][:1] if one else case["spws"]
    fr, ids, cw = build_freqs(spws)
    kw["freq_array"] = fr.copy()
    if not one:
        kw["flex_spw_id_array"] = ids
    RID = np.zeros(len(fr), int) if one else ids
    if case["cw"] == "scalar":
        kw["channel_width"], RC = 1.5e5, np.full(len(fr), 1.5e5)
    elif case["cw"]:
        kw["channel_width"], RC = (cw if case["cw"] == "array" else list(cw)), cw
    else:
        d = np.abs(np.diff(fr)).tolist()
        RC = np.array(d + d[-1:] if d else [1.0]) if len(spws) == 1 else None
    pols = case["pols"]
    pg = strs(pols, POLN, case["phow"], t["xori"])
    kw["polarization_array"] = form(pg, case["polform"])
    # fields
    moon = LOCS[t["loc"]][0] == "moon"
    cat, pid = {}, None
    for q, s in enumerate(case["pcs"]):
        e = pc_entry(s, 2458661.2348, moon)
        if any(v["cat_name"] == e["cat_name"] for v in cat.values()):
            e["cat_name"] += f"_{q}"
        cat[[3, 0, 7][q]] = e
    if cat:
        kw["phase_center_catalog"] = cat
        if len(cat) > 1 or case["giveid"]:
            keys = sorted(cat)
            pid = rng.permutation(np.array([keys[q % len(keys)] for q in range(nblt)]))
            kw["phase_center_id_array"] = pid
        else:
            pid = np.full(nblt, list(cat)[0])
    # data
    shape = (nblt, len(fr), len(pols))
    D = (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    Fl, N = rng.random(shape) < 0.3, rng.random(shape)
    dd = case["data"]
    if "data" in dd or dd == "all":
        kw["data_array"] = D
    if dd in ("all", "empty+data"):
        kw["flag_array"], kw["nsample_array"] = Fl, N
    if "empty" in dd:
        kw["empty"] = True
    if case["kwargs"]:
        kw["extra_keywords"] = {"foo": 3}
        kw["scan_number_array"] = np.arange(nblt)
    kw["history"] = "made by hand. "
    bad = case["bad"]
    if bad == "times" and how != "outer" and nblt > 1:
        kw["times"] = ta[:-1]
        kw["do_blt_outer"] = False
        for x in ("integration_time", "phase_center_id_array"):
            kw.pop(x, None)
    elif bad == "int" and case["int"] in ("array", "list") and len(ta) > 1:
        kw["integration_time"] = kw["integration_time"][:-1]
    elif bad == "cw" and case["cw"] in ("array", "list") and len(fr) > 1:
        kw["channel_width"] = kw["channel_width"][:-1]
    elif bad == "data" and "data_array" in kw and nblt > 1:
        kw["data_array"] = D[:-1]
    elif bad == "flag" and dd in ("all", "empty+data") and nblt > 1:
        kw["flag_array"] = Fl[:-1]
    elif bad == "units":
        kw["vis_units"] = "mJy"
    elif bad == "kw":
        kw["no_such_attribute"] = 3
    elif bad == "dup" and how == "outer" and pa is not None and nt > 1:
        kw["times"][0] = kw["times"][1]
        kw["do_blt_outer"] = True
    elif bad == "pcid" and len(cat) > 1:
        kw.pop("phase_center_id_array")
    elif bad == "pair" and pa is not None:
        pl = [tuple(x) for x in pa]
        pl[0] = (pl[0][0], 123456)
        kw["antpairs"] = pl
    elif bad == "ids" and not one and len(fr) > 1:
        kw["flex_spw_id_array"] = ids[:-1]
    else:
        bad = None
    before = copy.deepcopy({x: v for x, v in kw.items() if x != "telescope"})
    tb = snap(T)
    try:
        u = quiet(UVData.new, **kw)
    except (ValueError, KeyError, IndexError) as e:
        if bad and isinstance(e, ValueError) or bad in ("ids", "pair", "kw"):
            label("refused " + bad)
            return nontrivial()
        raise
    what = f"UVData.new({how}, {sorted(kw)})"
    require(not bad, f"{what}: accepted although {bad} is inconsistent")
    same({x: v for x, v in kw.items() if x != "telescope"}, before, f"{what}: arguments")
    same_snap(snap(T), tb, f"{what}: telescope argument")
    u.check()
    s = snap(u)
    check_counts(s, what)
    check_rect(s, what)
    check_blt_order(s, what)
    for q, v in tb.items():
        same(s["telescope." + q], v, f"{what}: telescope {q}")
    same(s["time_array"], RT, f"{what}: time_array")
    same(np.stack([s["ant_1_array"], s["ant_2_array"]], 1), RA, f"{what}: antenna pairs")
    same(s["baseline_array"], u.antnums_to_baseline(RA[:, 0], RA[:, 1]), f"{what}: baseline_array")
    same(s["integration_time"], RI, f"{what}: integration_time", 1e-12, 1e-9)
    same(s["freq_array"], fr, f"{what}: freq_array")
    if RC is not None:
        same(s["channel_width"], RC, f"{what}: channel_width")
    same(s["flex_spw_id_array"], RID, f"{what}: flex_spw_id_array")
    require(sorted(s["spw_array"].tolist()) == sorted(set(RID.tolist())), f"{what}: spw_array")
    same(np.asarray(u.polarization_array), np.array(pols), f"{what}: polarization_array")
    require(isinstance(u.polarization_array, np.ndarray), f"{what}: polarization_array is no array")
    require(u.vis_units == case["units"] and u.history.startswith("made by hand. "), f"{what}: units or history")
    if case["kwargs"]:
        require(u.extra_keywords == {"foo": 3}, f"{what}: extra_keywords")
        same(u.scan_number_array, np.arange(nblt), f"{what}: scan_number_array")
    # local sidereal time, against astropy
    from astropy.time import Time
    import astropy.units as un

    if moon:
        from lunarsky import Time as LTime

        L = np.array([LTime(x, format="jd", scale="utc", location=T.location).sidereal_time("mean").rad for x in RT])
    else:
        L = Time(RT, format="jd", scale="utc").sidereal_time("apparent", longitude=LOCS[t["loc"]][2] * un.deg).rad
    dl = (s["lst_array"] - L + np.pi) % (2 * np.pi) - np.pi
    require(np.abs(dl).max() < 2e-7, f"{what}: LST off by {np.abs(dl).max()}")
    # fields
    if not cat:
        require(set(s["phase_center_id_array"].tolist()) == set(s["phase_center_catalog"]) and
                [v["cat_type"] for v in s["phase_center_catalog"].values()] == ["unprojected"], f"{what}: default field")
    else:
        same(s["phase_center_id_array"], pid, f"{what}: phase_center_id_array")
        require(set(s["phase_center_catalog"]) == set(cat), f"{what}: catalog ids")
        for q, e in cat.items():
            for z, v in e.items():
                same(s["phase_center_catalog"][q][z], v, f"{what}: field {q} {z}")
    ra, dec = s["phase_center_app_ra"], s["phase_center_app_dec"]
    for q, e in (cat or {0: {"cat_type": "unprojected"}}).items():
        if e["cat_type"] == "ephem":
            continue
        m = s["phase_center_id_array"] == (q if cat else s["phase_center_id_array"][0])
        if m.any():
            r, d = sky.app_coords(e, t["loc"], RT[m], s["lst_array"][m])
            require(np.all(sky.sep(r, d, ra[m], dec[m]) < 1e-5), f"{what}: apparent position of field {q}")
    enu = enu_of(t)
    w = {int(a): enu[i] for i, a in enumerate(an)}
    want = sky.uvw(np.array([w[int(b)] - w[int(a)] for a, b in RA]), np.deg2rad(LOCS[t["loc"]][1]), s["lst_array"],
                   ra, dec, s["phase_center_frame_pa"])
    same(s["uvw_array"], want, f"{what}: uvw_array", 0, 1e-6)
    # data
    if dd == "none":
        require(u.data_array is None and u.flag_array is None and u.nsample_array is None, f"{what}: data appeared")
    else:
        same(u.data_array, D if "data_array" in kw else np.zeros(shape, complex), f"{what}: data_array")
        same(u.flag_array, Fl if "flag_array" in kw else np.zeros(shape, bool), f"{what}: flag_array")
        same(u.nsample_array, N if "nsample_array" in kw else np.ones(shape), f"{what}: nsample_array")
    # another object of the same telescope has a life of its own
    if case["seed"] % 3 == 0:
        u2 = quiet(UVData.new, **kw)
        keep = snap(u2)
        a = int(RA[0, 0])
        quiet(u.select, antenna_nums=sorted({int(x) for x in RA[0]}), keep_all_metadata=False)
        u.telescope.name = f"other{a}"
        u.telescope.antenna_positions += 5.0
        same_snap(snap(u2), keep, f"{what}: a second object after the first was changed")
        same_snap(snap(T), tb, f"{what}: the telescope after the first object was changed")
    label(how, "int " + str(case["int"]), dd)
    nontrivial(nblt > 1)


# ------------------------------------------------------------------ calibrations
@st.composite
def cal_case(draw):
    return {"tel": draw(tel_spec()), "ants": draw(st.sampled_from([None, "some", "perm"])), "k": draw(
        st.integers(0, 10**6)), "nt": draw(st.integers(1, 4)), "tord": draw(st.integers(0, 10**6)),
        "range": draw(st.booleans()), "int": draw(st.sampled_from([None, "scalar", "array"])),
        "wide": draw(chance(3)), "delay": draw(st.sampled_from([None, True, False])),
        "spws": draw(spw_spec(max_chan=4)), "ids": draw(st.booleans()), "cw": draw(st.sampled_from(
            [None, "scalar", "array"])), "jones": draw(st.sampled_from(
                ["linear", "circular", [-5], [-6, -5], [-5, -6, -7, -8], [-7], [-1, -2], [-3, -1]])),
        "jhow": draw(st.sampled_from(["num", "name", "xname"])), "jform": draw(st.sampled_from(
            ["list", "array", "tuple"])), "sky": draw(st.booleans()), "conv": draw(st.sampled_from(
                ["divide", "multiply"])), "data": draw(st.lists(st.sampled_from(
                    ["main", "flag_array", "quality_array", "total_quality_array"]), unique=True)), "empty": draw(st.booleans()),
        "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(
            ["ant", "both", "neither", "fboth", "style", "sky", "int", "cw", "data", "kw"])))}


@P.sub("cal", cal_case, 900)
def cal(case):
    from pyuvdata import UVCal

    t = dict(case["tel"], xori=case["tel"]["xori"] or "east")
    rng = np.random.default_rng(case["k"])
    T = build_tel(t)
    an = np.array(t["antnums"])
    kw = {"telescope": T, "gain_convention": case["conv"], "cal_style": "sky" if case["sky"] else "redundant"}
    if case["sky"]:
        kw["ref_antenna_name"], kw["sky_catalog"] = str(T.antenna_names[0]), "cat"
    ants = an.copy()
    if case["ants"]:
        ants = an[rng.permutation(len(an))]
        if case["ants"] == "some":
            ants = ants[: max(1, len(an) // 2)]
        kw["ant_array"] = ants.copy()
    nt = case["nt"]
    times = np.round(2458661.2348 + np.arange(nt) * 10.0 / 86400, 7)[np.random.default_rng(case["tord"]).permutation(nt)]
    RI = None
    if case["range"]:
        tr = np.stack([times, times + (6.0 + np.arange(nt)) / 86400], 1)
        kw["time_range"] = tr.copy()
        RI = np.diff(tr, axis=1)[:, 0] * 86400
    else:
        kw["time_array"] = times.copy()
        ut = sorted(times.tolist())
        d = [(b - a) * 86400 for a, b in zip(ut, ut[1:])]
        d = d + d[-1:] if d else [1.0]
        RI = np.array([d[ut.index(x)] for x in times.tolist()])
    if case["int"] == "scalar":
        kw["integration_time"], RI = 7.5, np.full(nt, 7.5)
    elif case["int"]:
        RI = np.round(3 + rng.random(nt), 3)
        kw["integration_time"] = RI.copy()
    one = not case["ids"]
    spws = case["spws"][:1] if one else case["spws"]
    fr, ids, cw = build_freqs(spws)
    RC = None
    ctype = "gain"
    if case["wide"]:
        kw["freq_range"] = np.array([[s["f0"], s["f0"] + s["w"] * s["n"]] for s in spws])
        if case["delay"] is not None:
            kw["cal_type"] = "delay" if case["delay"] else "gain"
        ctype = kw.get("cal_type", "delay")
        nf = len(spws)
    else:
        kw["freq_array"] = fr.copy()
        nf = len(fr)
        if not one:
            kw["flex_spw_id_array"] = ids
        if case["cw"] == "scalar":
            kw["channel_width"], RC = 1.5e5, np.full(nf, 1.5e5)
        elif case["cw"]:
            kw["channel_width"], RC = cw, cw
        elif len(spws) == 1:
            d = np.abs(np.diff(fr)).tolist()
            RC = np.array(d + d[-1:] if d else [1.0])
    j = case["jones"]
    if isinstance(j, str):
        kw["jones_array"] = j
        RJ = [-5, -6, -7, -8] if j == "linear" else [-1, -2, -3, -4]
    else:
        kw["jones_array"] = form(strs(j, JN, case["jhow"], t["xori"]), case["jform"])
        RJ = j
    shape = (len(ants), nf, nt, len(RJ))
    main = "delay_array" if ctype == "delay" else "gain_array"
    full = {main: rng.normal(size=shape) + (0 if ctype == "delay" else 1j * rng.normal(size=shape)),
            "flag_array": rng.random(shape) < 0.3, "quality_array": rng.random(shape),
            "total_quality_array": rng.random(shape[1:])}
    data = {(main if x == "main" else x): full[main if x == "main" else x] for x in sorted(case["data"])}
    if data:
        kw["data"] = data
    if case["empty"]:
        kw["empty"] = True
    bad = case["bad"]
    if bad == "ant":
        kw["ant_array"] = np.append(ants, 987654)
    elif bad == "both":
        kw["time_array"], kw["time_range"] = times, np.stack([times, times + 1e-4], 1)
    elif bad == "neither":
        kw.pop("time_array", None), kw.pop("time_range", None)
    elif bad == "fboth":
        kw["freq_array"], kw["freq_range"] = fr, np.array([[1e8, 2e8]])
    elif bad == "style":
        kw["cal_style"] = "guess"
    elif bad == "sky" and case["sky"]:
        kw.pop("sky_catalog")
    elif bad == "int" and case["int"] == "array" and nt > 1:
        kw["integration_time"] = RI[:-1]
    elif bad == "cw" and RC is not None and "channel_width" in kw and nf > 1 and case["cw"] == "array":
        kw["channel_width"] = cw[:-1]
    elif bad == "data" and "flag_array" in data and nt > 1:
        kw["data"] = dict(data, flag_array=data["flag_array"][:, :, :-1])
    elif bad == "kw":
        kw["no_such_attribute"] = 1
    else:
        bad = None
    before = copy.deepcopy({x: v for x, v in kw.items() if x != "telescope"})
    tb = snap(T)
    try:
        c = quiet(UVCal.new, **kw)
    except (ValueError, KeyError, TypeError) as e:
        if bad:
            label("refused " + bad)
            return nontrivial()
        fail(f"UVCal.new({kw}) refused: {e!r}")
    what = f"UVCal.new({sorted(kw)})"
    require(not bad, f"{what}: accepted although {bad} is inconsistent")
    same({x: v for x, v in kw.items() if x != "telescope"}, before, f"{what}: arguments")
    same_snap(snap(T), tb, f"{what}: telescope argument")
    c.check()
    check_cal(c, what)
    s = snap(c)
    for q, v in tb.items():
        same(s["telescope." + q], v, f"{what}: telescope {q}")
    same(s["ant_array"], ants, f"{what}: ant_array")
    same(s["time_range" if case["range"] else "time_array"], tr if case["range"] else times, f"{what}: times")
    require(s["time_array" if case["range"] else "time_range"] is None, f"{what}: times twice")
    same(s["integration_time"], RI, f"{what}: integration_time", 1e-12, 1e-9)
    same(np.asarray(c.jones_array), np.array(RJ), f"{what}: jones_array")
    require(isinstance(c.jones_array, np.ndarray), f"{what}: jones_array is no array")
    require(c.cal_type == ctype and c.cal_style == kw["cal_style"] and c.gain_convention == case["conv"]
            and bool(c.wide_band) == case["wide"], f"{what}: {c.cal_type} {c.cal_style} {c.gain_convention}")
    if case["sky"]:
        require(c.ref_antenna_name == kw["ref_antenna_name"] and c.sky_catalog == "cat", f"{what}: sky calibration")
    if case["wide"]:
        same(s["freq_range"], kw["freq_range"], f"{what}: freq_range")
        require(s["freq_array"] is None, f"{what}: freq_array appeared")
    else:
        same(s["freq_array"], fr, f"{what}: freq_array")
        same(s["flex_spw_id_array"], np.zeros(nf, int) if one else ids, f"{what}: ids")
        if RC is not None:
            same(s["channel_width"], RC, f"{what}: channel_width")
    if not LOCS[t["loc"]][0] == "moon":
        from astropy.time import Time
        import astropy.units as un

        x = tr if case["range"] else times
        L = Time(x, format="jd", scale="utc").sidereal_time("apparent", longitude=LOCS[t["loc"]][2] * un.deg).rad
        dl = (s["lst_range" if case["range"] else "lst_array"] - L + np.pi) % (2 * np.pi) - np.pi
        require(np.abs(dl).max() < 2e-7, f"{what}: LST off by {np.abs(dl).max()}")
    if data or case["empty"]:
        default = {"gain_array": np.ones(shape, complex), "delay_array": np.zeros(shape), "flag_array":
                   np.zeros(shape, bool)}
        for q in (main, "flag_array", "quality_array", "total_quality_array"):
            exp = data.get(q, default.get(q))
            got = getattr(c, q)
            require((got is None) == (exp is None), f"{what}: {q}")
            if exp is not None:
                same(got, exp, f"{what}: {q}")
    else:
        require(all(getattr(c, q) is None for q in ("gain_array", "delay_array", "flag_array", "quality_array",
                                                     "total_quality_array")), f"{what}: data appeared")
    if case["k"] % 3 == 0 and len(an) > 1:
        c2 = quiet(UVCal.new, **kw)
        keep = snap(c2)
        c.telescope.antenna_positions += 5.0
        c.telescope.name = "other"
        same_snap(snap(c2), keep, f"{what}: a second object after the first was changed")
        same_snap(snap(T), tb, f"{what}: the telescope after the first object was changed")
    label("wide" if case["wide"] else "channels", "range" if case["range"] else "times")
    nontrivial(len(ants) > 1 or nt > 1)


# ------------------------------------------------------------------ calibration for a data set
@st.composite
def caluv_case(draw):
    s = draw(uv_spec(flexpol=False, max_times=3))
    return {"uv": s, "delay": draw(st.booleans()), "wide": draw(st.booleans()),
            "ants": draw(st.sampled_from([None, "numbers", "names", "ant_array"])), "k": draw(st.integers(0, 99)),
            "jones": draw(st.sampled_from([None, "linear", [-5], [-6, -5]])), "empty": draw(st.booleans()),
            "conv": draw(st.sampled_from(["divide", "multiply"])), "time": draw(chance(4)),
            "xori": draw(st.sampled_from(["east", "n"])), "hist": draw(st.booleans())}


@P.sub("caluv", caluv_case, 700)
def caluv(case):
    from pyuvdata import UVCal

    u = build_uv(case["uv"])
    T = u.telescope
    before = snap(u)
    kw = {"gain_convention": case["conv"], "cal_style": "redundant", "metadata_only": not case["empty"]}
    if case["delay"]:
        kw["cal_type"] = "delay"
    if case["wide"]:
        kw["wide_band"] = True
    wide = case["wide"] or case["delay"]
    pols = u.polarization_array
    if case["jones"] is not None or np.any(pols > 0):
        kw["jones_array"] = case["jones"] or [-5, -6]
        RJ = [-5, -6, -7, -8] if kw["jones_array"] == "linear" else kw["jones_array"]
    else:
        b = -5 if np.all(pols < -4) else -1
        RJ = [int(pols[0])] if len(pols) == 1 and pols[0] > b - 2 else [b, b - 1]
    if T.x_orientation is None:
        kw["x_orientation"] = case["xori"]
    if not case["hist"]:
        kw["include_uvdata_history"] = False
    nums = [int(x) for x in T.antenna_numbers]
    data_ants = sorted(set(u.ant_1_array.tolist()) | set(u.ant_2_array.tolist()))
    sub = sorted({nums[case["k"] % len(nums)], nums[(case["k"] // 7) % len(nums)], data_ants[case["k"] % len(
        data_ants)]}, key=lambda x: (x * 7 + case["k"]) % 11)
    name = {int(a): str(b) for a, b in zip(T.antenna_numbers, T.antenna_names)}
    telants, ants = set(nums), data_ants
    if case["ants"] == "numbers":
        kw["antenna_numbers"] = np.array(sub)
    elif case["ants"] == "names":
        kw["antenna_names"] = np.array([name[a] for a in sub])
    elif case["ants"]:
        kw["ant_array"] = np.array(sub)
        ants = sorted(sub)
    if case["ants"] in ("numbers", "names"):
        telants = set(sub)
        ants = sorted(set(sub) & set(data_ants))
    ut = np.unique(u.time_array)
    if case["time"]:
        ut = ut[:1] + 0.25
        kw["time_array"], kw["integration_time"] = ut, 5.0
    c = quiet(UVCal.initialize_from_uvdata, u, **kw)
    what = f"initialize_from_uvdata({kw})"
    same_snap(snap(u), before, f"{what}: the data set")
    c.check()
    check_cal(c, what)
    s = snap(c)
    require(sorted(c.ant_array.tolist()) == ants, f"{what}: ant_array {c.ant_array}, expected {ants}")
    got = {int(a): i for i, a in enumerate(c.telescope.antenna_numbers)}
    require(set(got) == telants, f"{what}: telescope antennas {sorted(got)}")
    for i, a in enumerate(nums):
        if a in got:
            q = got[a]
            require(str(c.telescope.antenna_names[q]) == name[a], f"{what}: name of {a}")
            same(c.telescope.antenna_positions[q], T.antenna_positions[i], f"{what}: position of {a}")
            if T.antenna_diameters is not None:
                require(c.telescope.antenna_diameters[q] == T.antenna_diameters[i], f"{what}: diameter of {a}")
    require(c.telescope.x_orientation == (T.x_orientation or {"n": "north"}.get(case["xori"], case["xori"])),
            f"{what}: x_orientation")
    same(c.time_array, ut, f"{what}: time_array")
    if not case["time"]:
        for i, x in enumerate(ut):
            ok = u.integration_time[u.time_array == x]
            require(c.integration_time[i] in ok, f"{what}: integration_time {c.integration_time[i]} is of no record")
            same(c.lst_array[i], u.lst_array[u.time_array == x][0], f"{what}: lst", 0, 2e-7)
    same(np.asarray(c.jones_array), np.array(RJ), f"{what}: jones_array")
    if wide:
        for i, w in enumerate(c.spw_array):
            f = u.freq_array[u.flex_spw_id_array == w]
            same(c.freq_range[i], np.array([f.min(), f.max()]), f"{what}: range of window {w}")
    else:
        for p in ("freq_array", "channel_width", "flex_spw_id_array"):
            same(s[p], before[p], f"{what}: {p}")
    require(set(c.spw_array.tolist()) == set(u.spw_array.tolist()), f"{what}: spw_array")
    require((u.history in c.history) == case["hist"], f"{what}: history")
    shape = (len(ants), len(u.spw_array) if wide else u.Nfreqs, len(ut), len(RJ))
    main = c.delay_array if case["delay"] else c.gain_array
    if case["empty"]:
        same(main, np.zeros(shape) if case["delay"] else np.ones(shape, complex), f"{what}: data")
        same(c.flag_array, np.zeros(shape, bool), f"{what}: flags")
    else:
        require(main is None and c.flag_array is None, f"{what}: data appeared")
    c.telescope.antenna_positions += 1.0
    if c.freq_array is not None:
        c.freq_array += 1.0
        c.channel_width += 1.0
    c.time_array += 1.0
    c.integration_time += 1.0
    same_snap(snap(u), before, f"{what}: the data set after changing the new object")
    label(str(case["ants"]))
    nontrivial(len(data_ants) > 1)


# ------------------------------------------------------------------ beams
@st.composite
def beam_case(draw):
    return {"beam": draw(beam_spec()), "phow": draw(st.sampled_from(["num", "name", "xname"])),
            "form": draw(st.sampled_from(["list", "array", "tuple"])), "x": draw(st.integers(0, 4)),
            "give": draw(st.lists(st.sampled_from(["data", "basis", "band", "pcs", "order", "delay", "gain", "coup",
                                                   "pix", "elem"]), unique=True)),
            "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(
                ["both", "neither", "nopix", "data", "band", "pcs", "freq", "hpx+az", "basis"])))}


@P.sub("beam", beam_case, 900)
def beam(case):
    from pyuvdata import UVBeam

    b = build_beam(case["beam"])
    g = case["give"]
    xo = b.x_orientation
    kw = {"telescope_name": "tn", "data_normalization": b.data_normalization, "freq_array": b.freq_array.copy(),
          "feed_name": "fn", "feed_version": "fv", "model_name": "mn", "model_version": "mv", "history": "hh "}
    if xo:
        kw["x_orientation"] = XO[xo][case["x"]]
    ef = b.beam_type == "efield"
    if not ef and b.Naxes_vec != 1:
        return  # not something .new makes
    if ef:
        kw["feed_array"] = form([str(x) for x in b.feed_array], case["form"])
    else:
        pl = [int(x) for x in b.polarization_array]
        kw["polarization_array"] = form(strs(pl, POLN, case["phow"], xo), case["form"])
    hp = b.pixel_coordinate_system == "healpix"
    if hp:
        kw["nside"] = int(b.nside)
        pix = b.pixel_array.copy()
        if "pix" in g:
            kw["healpix_pixel_array"] = pix
        else:
            pix = np.arange(12 * b.nside**2)
        if "order" in g:
            kw["ordering"] = b.ordering
        sky_ = (len(pix),)
    else:
        kw["axis1_array"], kw["axis2_array"] = b.axis1_array.copy(), b.axis2_array.copy()
        if "pcs" in g or b.pixel_coordinate_system != "az_za":
            kw["pixel_coordinate_system"] = b.pixel_coordinate_system
        sky_ = (b.Naxes2, b.Naxes1)
    npol = len(b.feed_array) if ef else len(b.polarization_array)
    rng = np.random.default_rng(7)
    nax = 2 if ef else 1
    shape = (nax, npol, b.Nfreqs) + sky_
    cross = ef or any(p in (-3, -4, -7, -8) for p in b.polarization_array)
    D = rng.normal(size=shape) + (1j * rng.normal(size=shape) if cross else 0)
    if "data" in g:
        kw["data_array"] = D
    bs = np.zeros((2, 2) + sky_)
    bs[0, 0], bs[1, 1] = 1, 1
    if "basis" in g and ef:
        bs = np.round(rng.uniform(-0.7, 0.7, bs.shape), 3)
        kw["basis_vector_array"] = bs
    if "band" in g:
        kw["bandpass_array"] = b.bandpass_array.copy()
    elem = ef and "elem" in g
    ne = 3
    if elem:
        kw["element_location_array"] = rng.normal(size=(2, ne))
        if "delay" in g:
            kw["delay_array"] = rng.random(ne)
        if "gain" in g:
            kw["gain_array"] = rng.random(ne)
        if "coup" in g:
            kw["coupling_matrix"] = rng.normal(size=(ne, ne, npol, npol, b.Nfreqs)) + 0j
        if "order" in g:
            kw["element_coordinate_system"] = "n-e"
    bad = case["bad"]
    if bad == "both":
        kw["feed_array"], kw["polarization_array"] = ["x", "y"], [-5, -6]
    elif bad == "neither":
        kw.pop("feed_array", None), kw.pop("polarization_array", None)
    elif bad == "nopix":
        for x in ("nside", "healpix_pixel_array", "axis1_array"):
            kw.pop(x, None)
    elif bad == "data" and "data" in g:
        kw["data_array"] = D[:, :, :, :-1]
    elif bad == "band" and "band" in g:
        kw["bandpass_array"] = np.ones(b.Nfreqs + 1)
    elif bad == "pcs" and not hp:
        kw["pixel_coordinate_system"] = "ra_dec"
    elif bad == "freq":
        kw["freq_array"] = b.freq_array[np.newaxis]
    elif bad == "hpx+az" and hp:
        kw["axis1_array"], kw["axis2_array"] = np.linspace(0, 6, 5), np.linspace(0, 1, 3)
    elif bad == "basis" and "basis_vector_array" in kw:
        kw["basis_vector_array"] = bs[..., :-1]
    else:
        bad = None
    before = copy.deepcopy(kw)
    try:
        n = quiet(UVBeam.new, **kw)
    except (ValueError, KeyError) as e:
        if bad:
            label("refused " + bad)
            return nontrivial()
        fail(f"UVBeam.new({sorted(kw)}) refused: {e!r}; {kw}")
    what = f"UVBeam.new({sorted(kw)})"
    require(not bad, f"{what}: accepted although {bad} is inconsistent")
    same(kw, before, f"{what}: arguments")
    check_beam(n, what)
    exp = {"telescope_name": "tn", "feed_name": "fn", "feed_version": "fv", "model_name": "mn", "model_version": "mv",
           "data_normalization": b.data_normalization, "freq_array": b.freq_array, "x_orientation": xo,
           "beam_type": b.beam_type, "bandpass_array": b.bandpass_array if "band" in g else np.ones(b.Nfreqs),
           "data_array": D if "data" in g else np.zeros(shape, complex if cross else float),
           "pixel_coordinate_system": b.pixel_coordinate_system, "antenna_type": "phased_array" if elem else "simple"}
    if ef:
        exp["feed_array"] = b.feed_array
        exp["basis_vector_array"] = bs
    else:
        exp["polarization_array"] = b.polarization_array
    if hp:
        exp.update(nside=b.nside, pixel_array=pix, ordering=b.ordering if "order" in g else "ring")
    else:
        exp.update(axis1_array=b.axis1_array, axis2_array=b.axis2_array)
    if elem:
        cm = np.zeros((ne, ne, npol, npol, b.Nfreqs), complex)
        cm[np.arange(ne), np.arange(ne)] = 1
        exp.update(element_location_array=kw["element_location_array"], element_coordinate_system=kw.get(
            "element_coordinate_system", "x-y"), delay_array=kw.get("delay_array", np.zeros(ne)),
            gain_array=kw.get("gain_array", np.ones(ne)), coupling_matrix=kw.get("coupling_matrix", cm))
    for k, v in exp.items():
        same(getattr(n, k), v, f"{what}: {k}")
    require(n.history.startswith("hh "), f"{what}: history")
    label(b.pixel_coordinate_system, b.beam_type, "array" if elem else "simple")
    nontrivial(np.prod(sky_) > 1)
