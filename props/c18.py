"""C18: calibration files give back what was written."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require, scratch
from vp.gen_cal import CDATA, build_cal, cal_canon, cal_spec, check_cal, same_cal, take
from vp.gen_uv import chance

P = Prop(
    "C18",
    "a UVCal object (gain, wide band, delay; times or time ranges; several windows; optional "
    "qualities, phase centers, reference antennas, extra keywords) written to a calh5, calfits or "
    "CASA calibration file and read back whole, with a selection, metadata only or from several "
    "files; non-trivial: at least two antennas, channels, times or Jones terms.",
    ["calfits and CASA tables: attributes the format documents as not stored are left out of the "
     "comparison; objects they cannot hold must be refused or read back right",
     "CASA tables pad the antenna axis: antennas without solutions read back flagged",
     "reading with a selection is compared with UVCal.select, which C17 decides"],
)
META = ["history", "filename"]
Q = {"quality_array": (2e-7, 0), "total_quality_array": (2e-7, 0)}


def size(cal):
    return max(cal.Nants_data, cal.Ntimes, cal.Njones, cal.flag_array.shape[1])


def refused_overwrite(cal, fn, write, what):
    with open(fn, "w") as f:
        f.write("precious")
    try:
        write(fn)
    except OSError:
        pass
    except ValueError:
        pass
    else:
        fail(f"{what}: an existing file was overwritten without clobber")
    with open(fn) as f:
        require(f.read() == "precious", f"{what}: a refused write changed the file")
    os.remove(fn)


def hist(r, cal, what):
    require("".join(cal.history.split()) in "".join(r.history.split()),
            f"{what}: history {r.history!r}")


# ------------------------------------------------------------------ calh5
@P.sub("calh5", lambda: st.fixed_dictionaries({
    "cal": cal_spec(spw_overlap=True), "exists": chance(5), "again": chance(5), "meta": chance(6),
    "via": st.sampled_from(["read", "read_calh5", "from_file"]), "chunks": st.booleans(),
    "comp": st.sampled_from([None, "lzf"]), "unused": chance(5)}), 600)
def calh5(case):
    from pyuvdata import UVCal

    cal = build_cal(case["cal"])
    if case["unused"] and cal.phase_center_catalog is not None:
        cal._add_phase_center("unused", cat_type="sidereal", cat_lon=1.0, cat_lat=0.5,
                              cat_frame="icrs", cat_epoch=2000.0)
    what = f"calh5 {({k: v for k, v in case.items() if k != 'cal'})}"
    fn = os.path.join(scratch(), "a.calh5")
    if case["exists"]:
        refused_overwrite(cal, fn, cal.write_calh5, what)
    kw = {}
    if case["comp"]:
        kw["data_compression"] = case["comp"]
    if not case["chunks"] and not case["comp"]:
        kw["chunks"] = None
    s = snap(cal)
    if case["again"]:
        o = cal.copy()
        for n in CDATA:
            if getattr(o, n) is not None and n != "flag_array":
                setattr(o, n, getattr(o, n) + 1)
        o.write_calh5(fn)
        kw["clobber"] = True
    cal.write_calh5(fn, **kw)
    same_snap(snap(cal), s, f"{what}: writing changed the object")
    if case["via"] == "read_calh5":
        r = UVCal()
        r.read_calh5(fn, read_data=not case["meta"])
    elif case["via"] == "from_file":
        r = UVCal.from_file(fn, read_data=not case["meta"])
    else:
        r = UVCal()
        r.read(fn, read_data=not case["meta"])
    require(r.filename == ["a.calh5"], f"{what}: filename {r.filename}")
    want = dict(s)
    if case["meta"]:
        for n in CDATA + ["total_quality_array"]:
            want[n] = None
    same_snap(snap(r), want, what, skip=META, tols={
        "lst_array": (0, 1e-9), "lst_range": (0, 1e-9), **Q})
    hist(r, cal, what)
    r.history = cal.history
    require(r == (cal if not case["meta"] else cal.copy(metadata_only=True)),
            f"{what}: the object read is not equal to the one written")
    if not case["meta"]:
        if cal.gain_array is not None:
            require(r.gain_array.dtype == cal.gain_array.dtype, f"{what}: dtype of the gains")
        check_cal(r, what)
    label(case["cal"]["kind"], case["cal"]["times"])
    nontrivial(size(cal) > 1)


# ------------------------------------------------------------------ calfits
def even(cal, spec):
    cal.time_array = spec["t0"] + np.arange(cal.Ntimes) * spec["dt"] / 86400.0
    cal.set_lsts_from_time_array()


def fits_spec():
    return cal_spec(max_spws=1, dts=(10.7, 3000.3), extra=True)


@P.sub("calfits", lambda: st.fixed_dictionaries({
    "cal": fits_spec(), "easy": st.sampled_from([True, True, True, False]), "exists": chance(5),
    "again": chance(5), "via": st.sampled_from(["read", "read_calfits"]), "meta": chance(6),
    "jones": st.sampled_from([[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-5, -7], [-1, -2]]),
    "gap": st.booleans()}), 500)
def calfits(case):
    from pyuvdata import UVCal

    spec = copy.deepcopy(case["cal"])
    if case["easy"]:
        spec["jones"] = case["jones"]
        spec["flexjones"] = spec["tshuf"] = False
        spec["spws"][0]["irreg"] = False
        if spec["kind"] == "wide":
            spec["kind"] = "delay"
        if spec["times"] == "range":
            spec["nt"] = 1
    cal = build_cal(spec)
    if case["easy"]:
        cal.integration_time = np.full(cal.Ntimes, spec["dt"] * (0.5 if case["gap"] else 1.0))
        if cal.time_array is not None:
            even(cal, spec)
    what = f"calfits {({k: v for k, v in case.items() if k != 'cal'})}"
    names = {}
    bad = None
    for k, v in cal.extra_keywords.items():
        if isinstance(v, (dict, list, np.ndarray)):
            bad = TypeError
        if len(k) > 8 or k[:8].upper() in names:
            names[k[:8].upper()] = None
        else:
            names[k[:8].upper()] = v
    if bad:
        label("extra keywords not holdable")
        cal.extra_keywords = {}
        names = {}
    fn = os.path.join(scratch(), "a.calfits")
    s = snap(cal)
    if case["exists"]:
        refused_overwrite(cal, fn, cal.write_calfits, what)
    try:
        if case["again"]:
            o = cal.copy()
            o.flag_array = ~o.flag_array
            o.write_calfits(fn)
            cal.write_calfits(fn, clobber=True)
        else:
            cal.write_calfits(fn)
    except ValueError as err:
        if case["easy"]:
            fail(f"{what}: refused: {err}")
        label("refused")
        return
    same_snap(snap(cal), s, f"{what}: writing changed the object")
    r = UVCal()
    if case["via"] == "read":
        r.read(fn, read_data=not case["meta"])
    else:
        r.read_calfits(fn, read_data=not case["meta"])
    want = dict(s)
    if case["meta"]:
        for n in CDATA + ["total_quality_array"]:
            want[n] = None
    got = snap(r)
    for n in ("phase_center_catalog", "phase_center_id_array", "Nphase", "scan_number_array",
              "ref_antenna_array"):
        require(got[n] is None, f"{what}: {n} appeared")
        want[n] = None
    # the format has no window numbers
    want["spw_array"] = np.zeros_like(want["spw_array"])
    if want["flex_spw_id_array"] is not None:
        want["flex_spw_id_array"] = np.zeros_like(want["flex_spw_id_array"])
    tt = (0, 2e-10 * max(1, cal.Ntimes))
    ft = (1e-12, 1e-3)
    same_snap(got, want, what, skip=META + ["extra_keywords"], tols={
        "time_array": (0, 1e-8), "time_range": tt, "lst_array": (0, 1e-7), "lst_range": (0, 1e-7),
        "freq_array": ft, "freq_range": ft, "channel_width": (1e-9, 1e-3)})
    got_k = got["extra_keywords"]
    require(set(got_k) == set(names), f"{what}: extra keywords {got_k} for {s['extra_keywords']}")
    for k, v in names.items():
        if v is not None:
            same(got_k[k], v, f"{what}: extra keyword {k}")
    hist(r, cal, what)
    if not case["meta"]:
        check_cal(r, what)
    label("accepted:" + cal.cal_type)
    nontrivial(size(cal) > 1)


# ------------------------------------------------------------------ CASA tables
def ms_spec():
    return cal_spec(locs=[0, 1, 2, 3], blocks=[[0, 1, 2, 3], [2, 0, 1, 3], [1, 0], [10, 4, 7, 0]],
                    jones=[[-5, -6], [-6, -5], [-1, -2], [-2, -1], [-5], [-6], [-1], [-7, -8]],
                    dts=(10.7, 2.1, 3000.3))


@P.sub("ms", lambda: st.fixed_dictionaries({
    "cal": ms_spec(), "exists": chance(6), "again": chance(6),
    "via": st.sampled_from(["read", "read_ms_cal"])}), 220)
def ms(case):
    from pyuvdata import UVCal

    spec = copy.deepcopy(case["cal"])
    for p in spec["pcs"]:
        p["pm"] = p["dist"] = False
        if p["type"] not in ("sidereal", "ephem"):
            p.update({"type": "sidereal", "frame": "icrs", "lon": p.get("lon", 0.3),
                      "lat": p.get("lat", -0.2)})
    cal = build_cal(spec)
    what = f"ms cal {({k: v for k, v in case.items() if k != 'cal'})}"
    fn = os.path.join(scratch(), "a.ms")
    if case["exists"]:
        refused_overwrite(cal, fn, cal.write_ms_cal, what)
    s = snap(cal)
    if cal.gain_convention != "divide":
        try:
            cal.write_ms_cal(fn)
        except ValueError:
            pass
        else:
            fail(f"{what}: gains to multiply by were written to a table of gains to divide by")
        require(not os.path.exists(fn), f"{what}: a refused write left a table")
        cal.gain_convention = s["gain_convention"] = "divide"
        label("convention refused")
    if case["again"]:
        o = cal.copy()
        o.flag_array = ~o.flag_array
        if o.Ntimes > 1:
            o.select(times=o.time_array[:1]) if o.time_array is not None else None
        o.write_ms_cal(fn)
        cal.write_ms_cal(fn, clobber=True)
    else:
        cal.write_ms_cal(fn)
    same_snap(snap(cal), s, f"{what}: writing changed the object")
    r = UVCal()
    if case["via"] == "read":
        r.read(fn)
    else:
        r.read_ms_cal(fn)
    got = check_cal(r, what)
    for n in ("CASA_Version", "MSName"):
        got["extra_keywords"].pop(n, None)
    hist(r, cal, what)
    # antennas without solutions are padded and flagged
    same(sorted(got["ant_array"].tolist()), sorted(s["telescope.antenna_numbers"].tolist()),
         f"{what}: antennas")
    pad = ~np.isin(got["ant_array"], s["ant_array"])
    require(np.all(got["flag_array"][pad]), f"{what}: antennas without solutions are not flagged")
    got = take(got, ant=np.nonzero(~pad)[0])
    want = dict(s)
    q = np.ones(s["flag_array"].shape) if s["quality_array"] is None else s["quality_array"].copy()
    if s["total_quality_array"] is not None:
        q = q * s["total_quality_array"][None]
    want["quality_array"], want["total_quality_array"] = q, None
    if want["scan_number_array"] is None:
        want["scan_number_array"] = np.zeros(cal.Ntimes, int)
    if want["ref_antenna_array"] is not None:
        u = np.unique(want["ref_antenna_array"])
        if len(u) == 1:
            i = s["telescope.antenna_numbers"].tolist().index(u[0])
            want["ref_antenna_name"] = s["telescope.antenna_names"][i]
            want["ref_antenna_array"] = None
    skip = ["telescope.antenna_names", "telescope.antenna_numbers", "telescope.antenna_positions",
            "telescope.antenna_diameters", "telescope.location", "telescope.instrument",
            "telescope.name", "git_origin_cal", "git_hash_cal", "Nsources", "baseline_range",
            "diffuse_model", "Nants_data"]
    ft = (1e-12, 1e-3)
    tols = {
        "time_array": (0, 2e-9), "time_range": (0, 2e-9), "lst_array": (0, 2e-8),
        "lst_range": (0, 2e-8), "freq_array": ft, "freq_range": ft, "channel_width": (1e-9, 1e-4),
        "gain_array": (2e-7, 1e-12), "delay_array": (2e-7, 1e-20), "quality_array": (2e-7, 1e-9),
        "integration_time": (1e-12, 0), "pc_entries": (1e-9, 1e-9)}
    c1, c2 = cal_canon(got), cal_canon(want)
    same_cal(c1, c2, what, tols=tols, skip=skip + ["pc_entries"])
    if c2["pc_entries"] is not None:
        require(c1["pc_entries"] is not None, f"{what}: phase centers lost")
        for i, (x, y) in enumerate(zip(c1["pc_entries"], c2["pc_entries"])):
            require(x["cat_name"] == y["cat_name"], f"{what}: phase center name of time {i}: "
                    f"{x['cat_name']} != {y['cat_name']}")
            if y["cat_frame"] in ("icrs", "fk5") and y["cat_type"] == "sidereal":
                same(x["cat_lon"], y["cat_lon"], f"{what}: phase center lon", 0, 1e-9)
                same(x["cat_lat"], y["cat_lat"], f"{what}: phase center lat", 0, 1e-9)
        same(np.sort(list(got["phase_center_catalog"])), np.sort(list(s["phase_center_catalog"])),
             f"{what}: phase center ids")
        same(got["phase_center_id_array"], s["phase_center_id_array"], f"{what}: phase center ids")
    # telescope, by antenna number
    t1, t2 = r.telescope, cal.telescope
    require(t1.name == t2.name, f"{what}: telescope name")
    x1, x2 = t1._location.xyz(), t2._location.xyz()
    require(np.max(np.abs(x1 - x2)) < 1e-5, f"{what}: location off by {np.max(np.abs(x1 - x2))}")
    pm = [t1.antenna_numbers.tolist().index(a) for a in t2.antenna_numbers]
    same(np.asarray(t1.antenna_names)[pm], t2.antenna_names, f"{what}: antenna names")
    same(t1.antenna_positions[pm], t2.antenna_positions, f"{what}: antenna positions", 0, 1e-5)
    if t2.antenna_diameters is not None:
        same(t1.antenna_diameters[pm], t2.antenna_diameters, f"{what}: diameters", 1e-9)
    label(spec["kind"], spec["times"])
    nontrivial(size(cal) > 1)


# ------------------------------------------------------------------ partial and multiple reads
@st.composite
def part_case(draw):
    idx = lambda: draw(st.lists(st.integers(0, 7), min_size=1, max_size=4))  # noqa: E731
    return {
        "cal": draw(cal_spec(max_chan=6, spw_overlap=True)), "fmt": draw(st.sampled_from(["calh5"] * 4 + ["calfits"])),
        "ant": draw(st.sampled_from([None, "num", "name"])), "ai": idx(),
        "time": draw(st.sampled_from([None, "times", "time_range", "lsts", "lst_range"])), "ti": idx(),
        "freq": draw(st.sampled_from([None, "frequencies", "freq_chans", "spws"])), "fi": idx(),
        "both": draw(chance(6)),
        "jones": draw(st.sampled_from([None, "num"])), "ji": idx(),
        "pc": draw(st.sampled_from([None, None, "id", "name"])), "pi": idx(),
        "how": draw(st.sampled_from(["read", "read", "direct"])), "meta": draw(chance(8)),
    }


def mod(lst, n):
    return sorted({i % n for i in lst})


@P.sub("partial", part_case, 700)
def partial(case):
    from pyuvdata import UVCal

    spec = copy.deepcopy(case["cal"])
    fmt = case["fmt"]
    if fmt == "calfits":
        spec.update({"kind": "gain", "flexjones": False, "tshuf": False, "times": "array",
                     "jones": [-5, -6], "pcs": [], "scan": False, "refarr": False})
        spec["spws"] = [dict(spec["spws"][0], irreg=False, id=0)]
        if spec["opt"]:
            spec["opt"]["extra"] = 0
    cal = build_cal(spec)
    if fmt == "calfits":
        cal.integration_time = np.full(cal.Ntimes, 2.0)
        even(cal, spec)
    s = snap(cal)
    kw = {}
    if case["ant"]:
        pick = [s["ant_array"][i] for i in mod(case["ai"], len(s["ant_array"]))]
        nums = s["telescope.antenna_numbers"].tolist()
        if case["ant"] == "num":
            kw["antenna_nums"] = [int(a) for a in pick]
        else:
            kw["antenna_names"] = [str(s["telescope.antenna_names"][nums.index(a)]) for a in pick]
    nt = s["Ntimes"]
    ti = mod(case["ti"], nt)
    tk = case["time"]
    if tk and s["time_array"] is not None:
        t, ls = s["time_array"], s["lst_array"]
        if tk == "times":
            kw["times"] = t[ti]
        elif tk == "time_range":
            kw["time_range"] = [t[ti].min() - 1e-6, t[ti].max() + 1e-6]
        elif tk == "lsts":
            d = np.abs(ls[:, None] - ls[None])
            if not np.any((d < 1e-6) & (d > 0)):
                kw["lsts"] = ls[ti]
        else:
            kw["lst_range"] = [(ls[ti[0]] - 1e-5) % (2 * np.pi), (ls[ti[-1]] + 1e-5) % (2 * np.pi)]
    elif tk:
        tr = s["time_range"]
        if tk in ("times", "lsts"):
            kw["times"] = np.mean(tr[ti], axis=1)
        else:
            kw["time_range"] = [np.mean(tr[ti[0]]) - 1e-7, np.mean(tr[ti[-1]]) + 1e-7]
            if kw["time_range"][0] >= kw["time_range"][1]:
                kw["time_range"] = kw["time_range"][::-1]
    fk = case["freq"]
    if s["wide_band"] and fk in ("frequencies", "freq_chans"):
        fk = "spws"
    if fk == "spws" and s["Nspws"] > 1:
        kw["spws"] = [int(s["spw_array"][i]) for i in mod(case["fi"], s["Nspws"])]
    elif fk in ("frequencies", "freq_chans"):
        fi = mod(case["fi"], s["Nfreqs"])
        kw[fk] = s["freq_array"][fi] if fk == "frequencies" else fi
        if case["both"] and s["Nspws"] > 1:
            kw["spws"] = [int(s["flex_spw_id_array"][fi[0]])]
    if case["jones"] and s["flex_jones_array"] is None:
        kw["jones"] = [int(s["jones_array"][i]) for i in mod(case["ji"], s["Njones"])]
    if case["pc"] and s["phase_center_catalog"] is not None:
        ids = list(s["phase_center_catalog"])
        pick = [ids[i] for i in mod(case["pi"], len(ids))]
        if case["pc"] == "id":
            kw["phase_center_ids"] = pick
        else:
            kw["catalog_names"] = [s["phase_center_catalog"][i]["cat_name"] for i in pick]
    if case["meta"]:
        kw = {}
    what = f"{fmt} {case['how']} {kw}"
    fn = os.path.join(scratch(), "a." + fmt)
    getattr(cal, "write_" + fmt)(fn)
    try:
        want = cal.select(inplace=False, **kw)
    except ValueError:
        want = None
    r = UVCal()
    try:
        if case["how"] == "direct" and fmt == "calh5":
            r.read_calh5(fn, read_data=not case["meta"], **kw)
        else:
            r.read(fn, read_data=not case["meta"], **kw)
    except ValueError as err:
        if want is not None:
            fail(f"{what}: refused: {err}")
        label("nothing matches")
        return
    require(want is not None, f"{what}: read where the selection is refused")
    if case["meta"]:
        want = want.copy(metadata_only=True)
    w = snap(want)
    tols = {"lst_array": (0, 1e-9), "lst_range": (0, 1e-9), **Q}
    if fmt == "calfits":
        tols = {"time_array": (0, 1e-8), "lst_array": (0, 1e-7), "freq_array": (1e-12, 1e-3),
                "channel_width": (1e-9, 1e-3)}
    same_snap(snap(r), w, what, skip=META, tols=tols)
    if not case["meta"]:
        check_cal(r, what)
    label(fmt, *[k for k in kw])
    nontrivial(bool(kw) and size(cal) > 1)


@P.sub("several", lambda: st.fixed_dictionaries({
    "cal": cal_spec(spw_overlap=True, flexjones=False, max_chan=4), "axis": st.sampled_from(
        ["antenna", "time", "freq", "jones"]), "named": st.booleans(),
    "n": st.integers(2, 3), "sel": st.booleans()}), 250)
def several(case):
    from pyuvdata import UVCal

    cal = build_cal(case["cal"])
    ax = case["axis"]
    wide = cal.wide_band
    n = {"antenna": cal.Nants_data, "time": cal.Ntimes, "jones": cal.Njones,
         "freq": cal.Nspws if wide else cal.Nfreqs}[ax]
    if n < 2:
        return label("one entry")
    k = min(case["n"], n)
    parts = np.array_split(np.arange(n), k)
    fns = []
    for i, ix in enumerate(parts):
        if ax == "antenna":
            kw = {"antenna_nums": cal.ant_array[ix]}
        elif ax == "jones":
            kw = {"jones": cal.jones_array[ix]}
        elif ax == "freq":
            kw = {"spws": cal.spw_array[ix]} if wide else {"freq_chans": ix}
        elif cal.time_array is not None:
            kw = {"times": cal.time_array[ix]}
        else:
            kw = {"times": np.mean(cal.time_range[ix], axis=1)}
        fns.append(os.path.join(scratch(), f"{i}.calh5"))
        cal.select(inplace=False, **kw).write_calh5(fns[-1])
    what = f"reading {k} files along {ax}, axis given: {case['named']}"
    kw = {}
    if case["named"]:
        kw["axis"] = "spw" if ax == "freq" and wide else ax
    want = cal
    if case["sel"] and ax != "antenna" and cal.Nants_data > 1:
        kw["antenna_nums"] = [int(cal.ant_array[1])]
        want = cal.select(antenna_nums=kw["antenna_nums"], inplace=False)
    r = UVCal()
    r.read(fns, **kw)
    same_cal(cal_canon(check_cal(r, what)), cal_canon(snap(want)), what, tols={
        "lst_array": (0, 1e-9), "lst_range": (0, 1e-9), **Q},
        skip=["total_quality_array"] if ax == "antenna" else [])
    require(sorted(r.filename) == sorted(os.path.basename(f) for f in fns),
            f"{what}: filename {r.filename}")
    label(ax)
    nontrivial(True)
