"""Strategies of UVCal specs, the builder and a reference view of UVCal objects."""
import numpy as np
from hypothesis import strategies as st

from .cmp import same, value_diff
from .core import Violation, require
from .gen_uv import EXTRA, LOCS, build_freqs, build_tel, chance, pc_entry, pc_spec, spw_spec, tel_spec

JONES = [[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-7, -5, -8, -6], [-1, -2], [-2, -1],
         [-1, -2, -3, -4], [-6], [-7, -8], [-5, -7, -6]]
JONES_EVEN = [[-5], [-5, -6], [-5, -6, -7, -8], [-1, -2], [-1, -2, -3, -4], [-6], [-7, -8],
              [-6, -5]]

TIMEP = ["time_array", "time_range", "lst_array", "lst_range", "integration_time",
         "phase_center_id_array", "ref_antenna_array", "scan_number_array"]
CFREQ = ["freq_array", "channel_width", "flex_spw_id_array"]
CSPW = ["spw_array", "freq_range", "flex_jones_array"]
CDATA = ["gain_array", "delay_array", "flag_array", "quality_array"]


@st.composite
def cal_spec(draw, locs=None, max_ants=5, max_times=4, jones=None, max_spws=3, max_chan=4,
             regular=False, kinds=("gain", "gain", "wide", "delay"), times=("array", "range"),
             flexjones=True, pcs=True, optional=True, spw_ids=None, rev=True, single=None,
             dts=(10.7, 2.1, 3000.3, 20000.0), blocks=None, refarr=True, max_nt_range=None,
             sky=None, min_spws=1, scan=True, qual=True, min_chan=1, extra=True,
             spw_overlap=False):
    tel = draw(tel_spec(locs=locs, max_ants=max_ants, blocks=blocks, xori=False))
    tel["xori"] = draw(st.sampled_from(["east", "north"]))
    n = len(tel["antnums"])
    ants = list(draw(st.permutations(range(n))))[: draw(st.integers(1, n))]
    kind = draw(st.sampled_from(list(kinds)))
    jn = list(draw(st.sampled_from(jones if jones is not None else JONES)))
    fj = bool(flexjones) and draw(chance(6))
    tk = draw(st.sampled_from(list(times)))
    nt = draw(st.integers(1, max_times))
    if tk == "range" and max_nt_range:
        nt = min(nt, max_nt_range)
    isky = draw(st.booleans()) if sky is None else sky
    spec = {
        "seed": draw(st.integers(0, 10**6)), "tel": tel, "ants": ants, "kind": kind,
        "jones": jn, "flexjones": fj, "times": tk, "nt": nt,
        "t0": draw(st.sampled_from([2457698.40355, 2458661.2348, 2456865.60537])),
        "dt": draw(st.sampled_from(list(dts))),
        "spws": draw(spw_spec(max_spws=max_spws, max_chan=max_chan, regular=regular,
                              ids=spw_ids, rev=rev, min_spws=min_spws, min_chan=min_chan,
                              overlap=spw_overlap)),
        "single": draw(st.booleans()) if single is None else single,
        "sky": isky, "conv": draw(st.sampled_from(["divide", "multiply"])),
        "tshuf": draw(chance(3)),
        "qual": bool(qual) and draw(st.booleans()), "tqual": bool(qual) and draw(st.booleans()),
        "refarr": bool(refarr) and isky and draw(st.booleans()),
        "scan": bool(scan) and draw(st.booleans()),
        "pcs": [], "opt": None,
    }
    if pcs and draw(st.booleans()):
        spec["pcs"] = [draw(pc_spec()) for _ in range(draw(st.integers(1, 3)))]
    if optional:
        spec["opt"] = {
            "extra": draw(st.integers(0, len(EXTRA) - 1)) if extra else 0,
            "scale": draw(st.sampled_from([None, "Jy", "K str"])),
            "polconv": draw(st.sampled_from([None, "sum", "avg"])),
            "info": draw(st.booleans()),
        }
    return spec


def build_cal(spec, meta_only=False):
    from pyuvdata import UVCal
    from pyuvdata.utils.phase_center_catalog import generate_phase_center_cat_entry

    rng = np.random.default_rng(spec["seed"])
    tel = build_tel(spec["tel"])
    an = np.array(spec["tel"]["antnums"])
    cal = UVCal()
    cal.telescope = tel
    cal._set_telescope_requirements()
    cal.ant_array = an[spec["ants"]]
    cal.Nants_data = len(spec["ants"])
    nt = spec["nt"]
    t = np.round(spec["t0"] + np.arange(nt) * spec["dt"] / 86400.0, 8)
    integ = spec["dt"] * (1 + (np.arange(nt) % 2) * 0.5)
    order = rng.permutation(nt) if spec["tshuf"] else np.arange(nt)
    t, integ = t[order], integ[order]
    cal.Ntimes = nt
    if spec["times"] == "array":
        cal.time_array = t
    else:
        half = 0.4 * spec["dt"] / 86400.0
        cal.time_range = np.stack([t - half, t + half], axis=1)
    cal.set_lsts_from_time_array()
    cal.integration_time = integ
    freqs, ids, cw = build_freqs(spec["spws"])
    spwid = np.array([s["id"] for s in spec["spws"]])
    cal.spw_array = spwid
    cal.Nspws = len(spwid)
    kind = spec["kind"]
    if kind == "gain":
        cal._set_gain()
        cal.freq_array, cal.channel_width, cal.flex_spw_id_array = freqs, cw, ids
        cal.Nfreqs = nf = len(freqs)
        cal._set_wide_band(wide_band=False)
    else:
        (cal._set_gain if kind == "wide" else cal._set_delay)()
        cal.freq_range = np.array([
            [freqs[ids == i].min() - cw[ids == i][0] / 2, freqs[ids == i].max() + cw[ids == i][0] / 2]
            for i in spwid])
        cal._set_wide_band()
        cal.Nfreqs = 1
        nf = len(spwid)
    jones = spec["jones"]
    if spec["flexjones"]:
        cal.flex_jones_array = np.array([jones[i % len(jones)] for i in range(len(spwid))])
        jones = [0]
    cal.jones_array = np.array(jones)
    cal.Njones = len(jones)
    shape = (len(spec["ants"]), nf, nt, len(jones))
    if kind == "delay":
        cal.delay_array = np.round(rng.normal(size=shape) * 1e-8, 12)
    else:
        g = 1.0 + 0.3 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
        g = g.astype(np.complex64)
        cal.gain_array = g if spec["single"] else g.astype(np.complex128)
    cal.flag_array = rng.random(size=shape) < 0.25
    if spec["qual"]:
        cal.quality_array = np.round(rng.random(size=shape), 4)
    if spec["tqual"]:
        cal.total_quality_array = np.round(rng.random(size=shape[1:]), 4)
    cal.gain_convention = spec["conv"]
    if spec["sky"]:
        cal._set_sky()
        cal.sky_catalog = "gleam"
        cal.ref_antenna_name = str(tel.antenna_names[spec["ants"][0]])
        if spec["refarr"]:
            cal.ref_antenna_array = cal.ant_array[rng.integers(0, len(cal.ant_array), nt)]
            cal.ref_antenna_name = "various"
    else:
        cal._set_redundant()
    if spec["scan"]:
        cal.scan_number_array = rng.integers(1, 6, nt)
    if spec["pcs"]:
        base = [0, 4, 1]
        cat = {}
        for i, p in enumerate(spec["pcs"]):
            e = pc_entry(p, spec["t0"], LOCS[spec["tel"]["loc"]][0] == "moon")
            if any(v["cat_name"] == e["cat_name"] for v in cat.values()):
                e["cat_name"] += f"_{i}"
            cat[base[i]] = generate_phase_center_cat_entry(**e)
        pid = np.array([base[k % len(cat)] for k in order])
        cal.phase_center_catalog = {k: v for k, v in cat.items() if k in pid}
        cal.phase_center_id_array = pid
        cal.Nphase = len(cal.phase_center_catalog)
    cal.history = "made by verif"
    opt = spec["opt"]
    if opt:
        cal.extra_keywords = dict(EXTRA[opt["extra"]])
        cal.gain_scale = opt["scale"]
        if opt["scale"] and opt["polconv"]:
            cal.pol_convention = opt["polconv"]
        if opt["info"]:
            cal.observer = "someone"
            cal.git_origin_cal = "origin"
            cal.git_hash_cal = "hash"
            cal.Nsources = 3
            cal.baseline_range = np.array([1.5, 300.0])
            cal.diffuse_model = "gsm"
    if meta_only:
        for n in CDATA + ["total_quality_array"]:
            setattr(cal, n, None)
    cal.check()
    return cal


def fax(s):
    """Number of entries of the frequency-like data axis."""
    return len(s["spw_array"]) if s["wide_band"] else len(s["freq_array"])


def take(s, ant=None, f=None, t=None, j=None):
    """Snapshot restricted to these indices of each axis (f: windows if wide band)."""
    e = dict(s)

    def cut(n, idx, ax):
        if e[n] is not None:
            e[n] = np.take(e[n], idx, axis=ax)

    if ant is not None:
        cut("ant_array", ant, 0)
        for n in CDATA:
            cut(n, ant, 0)
        e["Nants_data"] = len(ant)
    if t is not None:
        for n in TIMEP:
            cut(n, t, 0)
        for n in CDATA:
            cut(n, t, 2)
        cut("total_quality_array", t, 1)
        e["Ntimes"] = len(t)
    if j is not None:
        cut("jones_array", j, 0)
        for n in CDATA:
            cut(n, j, 3)
        cut("total_quality_array", j, 2)
        e["Njones"] = len(j)
    if f is not None:
        for n in CDATA:
            cut(n, f, 1)
        cut("total_quality_array", f, 0)
        if s["wide_band"]:
            for n in CSPW:
                cut(n, f, 0)
            e["Nspws"] = len(f)
        else:
            for n in CFREQ:
                cut(n, f, 0)
            e["Nfreqs"] = len(f)
            keep = np.array([i for i, w in enumerate(e["spw_array"]) if w in e["flex_spw_id_array"]])
            for n in CSPW:
                cut(n, keep, 0)
            e["Nspws"] = len(keep)
    return e


def cal_canon(s):
    """Order-free view: every axis sorted by its physical key."""
    ao = np.argsort(s["ant_array"], kind="stable")
    tk = s["time_array"] if s["time_array"] is not None else s["time_range"][:, 0]
    to = np.argsort(tk, kind="stable")
    jo = np.argsort(s["jones_array"], kind="stable")
    if s["wide_band"]:
        fo = np.argsort(s["spw_array"], kind="stable")
    else:
        fo = np.lexsort((s["freq_array"], s["flex_spw_id_array"]))
    c = {}
    e = take(s, ant=ao, t=to, j=jo)
    if s["wide_band"]:
        e = take(e, f=fo)
    else:
        e = take(e, f=fo)
        so = np.argsort(e["spw_array"], kind="stable")
        for n in CSPW:
            if e[n] is not None:
                e[n] = e[n][so]
    for n, v in e.items():
        if n in ("history", "filename", "phase_center_catalog", "phase_center_id_array", "Nphase"):
            continue
        c[n] = v
    c["pc_entries"] = None
    if s["phase_center_id_array"] is not None:
        c["pc_entries"] = [
            {k: v for k, v in s["phase_center_catalog"][i].items() if k != "info_source"}
            for i in s["phase_center_id_array"][to].tolist()]
    return c


def same_cal(c1, c2, what, tols=None, skip=()):
    tols = tols or {}
    for n in sorted(set(c1) | set(c2)):
        if n in skip:
            continue
        rt, at = tols.get(n, (0.0, 0.0))
        if n == "pc_entries" and c1[n] is not None and c2[n] is not None:
            require(len(c1[n]) == len(c2[n]), f"{what}: number of times")
            for i, (x, y) in enumerate(zip(c1[n], c2[n])):
                d = value_diff(x, y, rt, at)
                if d:
                    raise Violation(f"{what}: phase center of time {i}: {d}")
            continue
        same(c1[n], c2[n], f"{what}: {n}", rt, at)


def check_cal(cal, what):
    """Counts, shapes and ids agree with each other (not via cal.check)."""
    from .cmp import snap

    s = snap(cal)
    nt = len(s["time_array"] if s["time_array"] is not None else s["time_range"])
    exp = {"Ntimes": nt, "Nants_data": len(s["ant_array"]), "Njones": len(s["jones_array"]),
           "Nspws": len(s["spw_array"]),
           "Nfreqs": 1 if s["wide_band"] else len(s["freq_array"])}
    for k, v in exp.items():
        require(s[k] == v, f"{what}: {k} is {s[k]}, the arrays have {v}")
    for n in TIMEP:
        if s[n] is not None:
            require(len(s[n]) == nt, f"{what}: {n} has length {len(s[n])}, Ntimes {nt}")
    shape = (len(s["ant_array"]), fax(s), nt, len(s["jones_array"]))
    for n in CDATA:
        if s[n] is not None:
            require(s[n].shape == shape, f"{what}: {n} shape {s[n].shape} expected {shape}")
    if s["total_quality_array"] is not None:
        require(s["total_quality_array"].shape == shape[1:],
                f"{what}: total_quality_array shape {s['total_quality_array'].shape}")
    for n in CSPW:
        if s[n] is not None:
            require(len(s[n]) == exp["Nspws"], f"{what}: {n} has length {len(s[n])}")
    if not s["wide_band"]:
        require(set(s["flex_spw_id_array"].tolist()) == set(s["spw_array"].tolist()),
                f"{what}: spw_array {s['spw_array']} vs ids {s['flex_spw_id_array']}")
    require(len(set(s["ant_array"].tolist())) == len(s["ant_array"]), f"{what}: repeated antenna")
    if s["phase_center_catalog"] is not None:
        require(s["Nphase"] == len(s["phase_center_catalog"]), f"{what}: Nphase")
        require(set(s["phase_center_id_array"].tolist()) <= set(s["phase_center_catalog"]),
                f"{what}: phase center ids without a catalog entry")
    cal.check()
    return s
