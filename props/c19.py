"""C19: applying calibration solutions and flags."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import build_tel, build_uv, chance, uv_spec

P = Prop(
    "C19",
    "a UVData object (any order of records, missing records, several windows) with a UVCal object "
    "whose antennas, times, channels and Jones terms are in another order, a superset or partly "
    "missing, or with a UVFlag object of each type; non-trivial: at least two times, channels or "
    "baselines.",
    ["data of antennas without solutions are flagged; their values are not compared",
     "pairs stored in the opposite direction in the flag object count as missing, as documented"],
)
OPT = ["flag_array", "data_array", "history", "vis_units", "pol_convention"]


def feeds(pol, xori):
    """The two feed names of a polarization number."""
    if pol >= -4:
        return {-1: "rr", -2: "ll", -3: "rl", -4: "lr"}[pol]
    m = {"x": "e", "y": "n"} if xori == "east" else {"x": "n", "y": "e"}
    return "".join(m[c] for c in {-5: "xx", -6: "yy", -7: "xy", -8: "yx"}[pol])


@st.composite
def cal_case(draw):
    uv = draw(uv_spec(max_ants=4, max_times=4, max_pairs=6, flexpol=False, chan_shuffle=True,
                      polsets=[[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-7, -5], [-8, -7, -6, -5],
                            [-1, -2, -3, -4], [-2], [-3, -1]]))
    n = len(uv["tel"]["antnums"])
    return {
        "uv": uv, "seed": draw(st.integers(0, 10**6)),
        "kind": draw(st.sampled_from(["gain", "gain", "gain", "delay"])),
        "times": draw(st.sampled_from(["same", "perm", "super", "one", "range", "ranges", "rangesrev"])),
        "freqs": draw(st.sampled_from(["same", "perm", "super", "reverse"])),
        "renum": draw(st.booleans()), "permants": draw(st.booleans()),
        "drop": draw(st.sampled_from([[], [], [], [0], [1, 2]])) if n > 1 else [],
        "extra_ant": draw(st.booleans()),
        "jrev": draw(st.booleans()), "jextra": draw(st.booleans()),
        "conv": draw(st.sampled_from(["divide", "multiply"])),
        "undo": draw(chance(3)), "prop": draw(st.sampled_from([True, True, False])),
        "flip": draw(chance(4)), "zero": draw(chance(4)), "inplace": draw(st.booleans()),
        "calx": draw(st.sampled_from(["east", "north"])),
        "scale": draw(st.sampled_from([None, "Jy"])),
        "ucpol": draw(st.sampled_from([None, "sum", "avg"])), "ucattr": draw(st.booleans()),
        "udpol": draw(st.sampled_from([None, "sum", "avg"])), "plus": draw(chance(3)),
        "toff": draw(st.sampled_from([0.0, 3e-9, -3e-9])),
    }


def make_cal(case, uv):
    from pyuvdata import UVCal

    rng = np.random.default_rng(case["seed"])
    tel = uv.telescope
    nant = tel.Nants
    order = rng.permutation(nant) if case["permants"] else np.arange(nant)
    names, pos = np.asarray(tel.antenna_names)[order], tel.antenna_positions[order]
    nums = np.asarray(tel.antenna_numbers)[order]
    if case["renum"]:
        nums = rng.permutation(nant) + 3
    ct = tel.copy()
    ct.antenna_names, ct.antenna_numbers, ct.antenna_positions = names, nums, pos
    ct.antenna_diameters = None
    ct.x_orientation = case["calx"]
    used = sorted({int(a) for a in np.append(uv.ant_1_array, uv.ant_2_array)})
    tnum = np.asarray(tel.antenna_numbers).tolist()
    usednames = [str(tel.antenna_names[tnum.index(a)]) for a in used]
    have = [x for i, x in enumerate(usednames) if i not in case["drop"]]
    if case["extra_ant"]:
        have += [str(x) for x in names if str(x) not in usednames]
    if not have:
        have = usednames
    have = [have[i] for i in rng.permutation(len(have))]
    cal = UVCal()
    cal.telescope = ct
    cal._set_telescope_requirements()
    nl = [str(x) for x in names]
    cal.ant_array = np.array([nums[nl.index(x)] for x in have])
    cal.Nants_data = len(have)
    ut = np.unique(uv.time_array)
    tk = case["times"]
    dt = case["uv"]["dt"] / 86400.0
    if tk in ("same", "perm", "super"):
        t = ut + case["toff"]
        if tk == "super":
            t = np.concatenate([t, [t[-1] + 3 * dt, t[0] - 2 * dt]])
        if tk != "same":
            t = t[rng.permutation(len(t))]
        cal.time_array = t
    elif tk == "one":
        cal.time_array = np.array([ut[0] + 1.0])
    elif tk == "range":
        cal.time_range = np.array([[ut[0] - dt, ut[-1] + dt]])
    else:
        # cut between times, in order or in reverse
        cut = [i for i in range(1, len(ut)) if rng.random() < 0.6]
        grp = np.split(ut, cut)
        tr = np.array([[g[0] - 0.3 * dt, g[-1] + 0.3 * dt] for g in grp])
        cal.time_range = tr[::-1].copy() if tk == "rangesrev" else tr
    cal.Ntimes = len(cal.time_array if cal.time_array is not None else cal.time_range)
    cal.set_lsts_from_time_array()
    cal.integration_time = np.full(cal.Ntimes, case["uv"]["dt"])
    lin = uv.polarization_array[0] < -4
    need = {f for p in uv.polarization_array for f in feeds(int(p), case["uvx"] or case["calx"])}
    if lin:
        jn = [j for j in (-5, -6) if feeds(j, case["calx"])[0] in need]
        allj = [-5, -6, -7, -8]
    else:
        jn = [j for j in (-1, -2) if feeds(j, None)[0] in need]
        allj = [-1, -2, -3, -4]
    if case["jextra"]:
        jn = jn + [j for j in allj if j not in jn]
    if case["jrev"]:
        jn = jn[::-1]
    cal.jones_array = np.array(jn)
    cal.Njones = len(jn)
    cal.gain_convention = case["conv"]
    cal._set_redundant()
    cal.history = "cal"
    cal.gain_scale = case["scale"]
    if case["kind"] == "delay":
        cal._set_delay()
        cal._set_wide_band()
        cal.Nspws = 1
        cal.spw_array = np.array([0])
        cal.Nfreqs = 1
        cal.freq_range = np.array([[uv.freq_array.min() - 1e6, uv.freq_array.max() + 1e6]])
        shape = (len(have), 1, cal.Ntimes, len(jn))
        cal.delay_array = rng.normal(size=shape) * 1e-8
    else:
        cal._set_gain()
        cal._set_wide_band(wide_band=False)
        f, ids, cw = uv.freq_array.copy(), uv.flex_spw_id_array.copy(), uv.channel_width.copy()
        if case["freqs"] == "super":
            f = np.concatenate([f, [f.max() + 3e6, f.min() - 2e6]])
            ids = np.concatenate([ids, ids[:1], ids[:1]])
            cw = np.concatenate([cw, cw[:1], cw[:1]])
        if case["freqs"] in ("perm", "super"):
            pm = rng.permutation(len(f))
        elif case["freqs"] == "reverse":
            pm = np.arange(len(f))[::-1]
        else:
            pm = np.arange(len(f))
        cal.freq_array, cal.flex_spw_id_array, cal.channel_width = f[pm], ids[pm], cw[pm]
        cal.Nfreqs = len(f)
        cal.spw_array, cal.Nspws = uv.spw_array.copy(), uv.Nspws
        shape = (len(have), len(f), cal.Ntimes, len(jn))
        cal.gain_array = 1.0 + 0.4 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
        if case["zero"]:
            cal.gain_array[rng.random(size=shape) < 0.2] = 0.0
    cal.flag_array = rng.random(size=shape) < 0.2
    if case["ucpol"] and case["ucattr"] and case["scale"]:
        cal.pol_convention = case["ucpol"]
    cal.check()
    return cal, have


@P.sub("calibrate", cal_case, 700)
def calibrate(case):
    import copy

    from pyuvdata import utils

    case = copy.deepcopy(case)
    spec = case["uv"]
    if spec["opt"]:
        spec["opt"]["units"] = case["scale"] if (case["undo"] and case["scale"]) else "uncalib"
        spec["opt"]["polconv"] = case["udpol"] if case["undo"] and case["ucattr"] else None
    uv = build_uv(spec)
    if case["undo"] and case["scale"]:
        uv.vis_units = case["scale"]
    case["uvx"] = uv.telescope.x_orientation
    cal, have = make_cal(case, uv)
    kw = {"prop_flags": case["prop"], "flip_gain_conj": case["flip"], "undo": case["undo"],
          "time_check": case["times"] != "one", "ant_check": not case["drop"],
          "inplace": case["inplace"]}
    if case["kind"] == "delay" and case["plus"]:
        kw["delay_convention"] = "plus"
    if case["ucpol"]:
        kw["uvc_pol_convention"] = case["ucpol"]
    ud = case["udpol"]
    if ud and not (case["undo"] and uv.pol_convention not in (None, ud)):
        kw["uvd_pol_convention"] = ud
    s, c = snap(uv), snap(cal)
    what = f"uvcalibrate {kw} times={case['times']} freqs={case['freqs']} kind={case['kind']}"
    missing = [x for x in np.asarray(uv.telescope.antenna_names)[np.isin(
        uv.telescope.antenna_numbers, np.append(uv.ant_1_array, uv.ant_2_array))] if x not in have]
    try:
        out = utils.uvcalibrate(uv, cal, **kw)
    except ValueError as err:
        # documented refusals
        nt = len(np.unique(s["time_array"]))
        if 1 < cal.Ntimes < nt and cal.time_array is not None:
            return label("refused")
        fail(f"{what}: refused: {err}")
    same_snap(snap(cal), c, f"{what}: the calibration object changed",
              skip=["telescope.antenna_names"])
    if case["inplace"]:
        require(out is None, f"{what}: returned something")
        out = uv
    else:
        same_snap(snap(uv), s, f"{what}: the input changed", skip=["telescope.antenna_names"])
    g = snap(out)
    same_snap(g, s, f"{what}: changed something else", skip=OPT)
    # the model
    nl = [str(x) for x in have]
    tn = s["telescope.antenna_numbers"].tolist()
    tnames = [str(x) for x in s["telescope.antenna_names"]]
    jl = c["jones_array"].tolist()
    calx = case["calx"]
    xo = case["uvx"] or calx
    if case["kind"] == "delay":
        sign = 1 if case["plus"] else -1
        gains = np.exp(sign * 2j * np.pi * c["delay_array"] * s["freq_array"][None, :, None, None])
        cflag = np.repeat(c["flag_array"], len(s["freq_array"]), axis=1)
        fi = np.arange(len(s["freq_array"]))
    else:
        gains, cflag = c["gain_array"], c["flag_array"]
        fi = np.array([int(np.argmin(np.abs(c["freq_array"] - f))) for f in s["freq_array"]])
    nb, nf, npol = s["data_array"].shape
    want = s["data_array"].astype(complex)
    wflag = s["flag_array"].copy()
    skipdata = np.zeros(want.shape, bool)
    jidx = {}
    for j in jl:
        fd = feeds(int(j), calx)
        if fd[0] == fd[1]:
            jidx[fd[0]] = jl.index(j)
    mult = (case["conv"] == "multiply") != case["undo"]
    for b in range(nb):
        t = s["time_array"][b]
        if cal.Ntimes == 1:
            ti = 0
        elif c["time_array"] is not None:
            ti = int(np.argmin(np.abs(c["time_array"] - t)))
        else:
            ti = int(np.nonzero((c["time_range"][:, 0] <= t) & (t <= c["time_range"][:, 1]))[0][0])
        n1 = tnames[tn.index(s["ant_1_array"][b])]
        n2 = tnames[tn.index(s["ant_2_array"][b])]
        if n1 not in nl or n2 not in nl:
            wflag[b] = True
            skipdata[b] = True
            continue
        i1, i2 = nl.index(n1), nl.index(n2)
        for p in range(npol):
            f1, f2 = feeds(int(s["polarization_array"][p]), xo)
            g1, g2 = gains[i1, fi, ti, jidx[f1]], gains[i2, fi, ti, jidx[f2]]
            gg = np.conj(g1) * g2 if case["flip"] else g1 * np.conj(g2)
            if case["prop"]:
                m = np.isclose(gg, 0) | cflag[i1, fi, ti, jidx[f1]] | cflag[i2, fi, ti, jidx[f2]]
                gg = np.where(m, 1.0, gg)
                wflag[b, :, p] |= m
            with np.errstate(all="ignore"):
                want[b, :, p] = want[b, :, p] * gg if mult else want[b, :, p] / gg
    corr = 1.0
    ucp = case["ucpol"] or c["pol_convention"]
    udp = kw.get("uvd_pol_convention") or (s["pol_convention"] if case["undo"] else None)
    if ucp is None:
        ucp = udp
    if udp is None:
        udp = ucp
    if case["scale"] is not None:
        if ucp != udp:
            # "avg" values are twice the "sum" values
            corr = 0.5 if ucp == "avg" else 2.0
            if case["undo"]:
                corr = 1 / corr
        require(g["pol_convention"] == (None if case["undo"] else udp),
                f"{what}: pol_convention {g['pol_convention']}")
    want = want * corr
    bad = ~np.isfinite(want)
    a, b_ = np.where(skipdata | bad, 0, g["data_array"]), np.where(skipdata | bad, 0, want)
    rt = 3e-6 if s["data_array"].dtype == np.complex64 else 1e-9
    same(a, b_, f"{what}: data", rt, rt)
    same(g["flag_array"], wflag, f"{what}: flags")
    units = "uncalib" if case["undo"] else (case["scale"] or s["vis_units"])
    require(g["vis_units"] == units, f"{what}: vis_units {g['vis_units']}, not {units}")
    require(g["history"].startswith(s["history"]), f"{what}: history lost")
    require(g["data_array"].dtype == s["data_array"].dtype, f"{what}: dtype")
    out.check()
    # undoing it restores the data
    if not case["undo"] and case["prop"] and not missing and case["scale"]:
        kw2 = {k: v for k, v in kw.items() if k not in ("undo", "inplace")}
        back = utils.uvcalibrate(out, cal, undo=True, inplace=False, **kw2)
        same(back.data_array, s["data_array"], f"{what}: calibrating and undoing it", 10 * rt, 10 * rt)
        label("undone")
    label(case["kind"], "times:" + case["times"], "missing" if missing else "all ants")
    nontrivial(nb > 1 and (nf > 1 or npol > 1))


# ------------------------------------------------------------------ flags
@st.composite
def flag_case(draw):
    return {
        "uv": draw(uv_spec(max_ants=4, max_times=4, max_pairs=6, flexpol=False, chan_shuffle=True,
                           polsets=[[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-7, -5]])),
        "seed": draw(st.integers(0, 10**6)),
        "type": draw(st.sampled_from(["baseline", "baseline", "waterfall", "antenna"])),
        "order": draw(st.sampled_from(["same", "perm"])), "dropbl": draw(chance(3)),
        "droprec": draw(chance(5)), "freqs": draw(st.sampled_from(["same", "same", "perm", "one"])),
        "times": draw(st.sampled_from(["same", "same", "same", "one", "other"])),
        "pols": draw(st.sampled_from(["same", "perm", "one", "other"])),
        "dropant": draw(chance(3)), "wtperm": draw(chance(3)),
        "unflag": draw(chance(3)), "missing": draw(st.sampled_from([True, True, False])),
        "force": draw(st.sampled_from([True, True, False])), "inplace": draw(st.booleans()),
        "toff": draw(st.sampled_from([0.0, 3e-9])),
    }


@P.sub("flags", flag_case, 700)
def flags(case):
    from pyuvdata import UVFlag, utils

    uv = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    s = snap(uv)
    src = uv.copy()
    tp = case["type"]
    ch = np.arange(uv.Nfreqs)
    if tp == "baseline":
        keep = np.arange(uv.Nblts)
        if case["times"] == "one":
            keep = np.nonzero(src.time_array == src.time_array[0])[0]
        if case["dropbl"]:
            keep = keep[src.baseline_array[keep] != src.baseline_array[keep[-1]]]
        if case["droprec"]:
            keep = keep[rng.random(len(keep)) < 0.8]
        if len(keep) == 0:
            return label("empty")
        src.select(blt_inds=keep)
        if case["order"] == "perm":
            src.reorder_blts(order=rng.permutation(src.Nblts))
        if case["freqs"] == "one":
            src.select(freq_chans=[0])
            ch = np.zeros(uv.Nfreqs, int)
    if case["pols"] == "perm" and tp == "baseline":
        src.reorder_pols(order=rng.permutation(src.Npols))
    elif case["pols"] in ("one", "other"):
        src.select(polarizations=[int(src.polarization_array[0])])
        if case["pols"] == "other":
            src.polarization_array = np.array([-8])
    if tp == "antenna":
        uvf = UVFlag(src, mode="flag", waterfall=True)
        ants = np.unique(np.append(s["ant_1_array"], s["ant_2_array"]))
        ants = ants[rng.permutation(len(ants))]
        if case["dropant"] and len(ants) > 1:
            ants = ants[1:]
        uvf.ant_array, uvf.Nants_data = ants, len(ants)
        uvf.flag_array = rng.random((len(ants), uvf.Nfreqs, uvf.Ntimes, uvf.Npols)) < 0.3
        uvf._set_type_antenna()
        if case["wtperm"]:
            pm = rng.permutation(uvf.Ntimes)
            uvf.time_array, uvf.lst_array = uvf.time_array[pm], uvf.lst_array[pm]
        uvf.check()
    else:
        uvf = UVFlag(src, mode="flag", waterfall=tp == "waterfall")
        uvf.flag_array = rng.random(uvf.flag_array.shape) < 0.3
        if tp == "waterfall":
            if case["wtperm"]:
                pm = rng.permutation(uvf.Ntimes)
                uvf.time_array, uvf.lst_array = uvf.time_array[pm], uvf.lst_array[pm]
            if case["times"] == "one":
                uvf.time_array, uvf.lst_array = uvf.time_array[:1], uvf.lst_array[:1]
                uvf.flag_array, uvf.Ntimes = uvf.flag_array[:1], 1
        elif case["freqs"] == "perm":
            pm = rng.permutation(uvf.Nfreqs)
            uvf.freq_array, uvf.channel_width = uvf.freq_array[pm], uvf.channel_width[pm]
            uvf.flex_spw_id_array = uvf.flex_spw_id_array[pm]
            uvf.flag_array = uvf.flag_array[:, pm]
            ch = np.argsort(pm)
        uvf.check()
    uvf.time_array = uvf.time_array + case["toff"]
    if case["times"] == "other" and tp == "baseline":
        uvf.time_array = uvf.time_array + 1.0
    f = snap(uvf)
    kw = {"unflag_first": case["unflag"], "flag_missing": case["missing"],
          "force_pol": case["force"], "inplace": case["inplace"]}
    what = (f"apply_uvflag {kw} type={tp} order={case['order']} pols={case['pols']} "
            f"freqs={case['freqs']} times={case['times']}")
    upol, fpol = s["polarization_array"].tolist(), f["polarization_array"].tolist()
    may_refuse = must_refuse = False
    if sorted(upol) != sorted(fpol):
        must_refuse = not (len(fpol) == 1 and case["force"])
    elif upol != fpol and tp != "baseline":
        may_refuse = True
    nt = s["Ntimes"]
    if tp == "baseline":
        if f["Ntimes"] not in (1, nt):
            must_refuse = True
        elif case["times"] == "other" and f["Ntimes"] > 1:
            must_refuse = True
    try:
        out = utils.apply_uvflag(uv, uvf, **kw)
    except ValueError as err:
        same_snap(snap(uv), s, f"{what}: refused but changed the data")
        if must_refuse or may_refuse:
            return label("refused")
        part = case["droprec"] and tp == "baseline"
        if part:
            return label("refused: records missing")
        fail(f"{what}: refused: {err}")
    require(not must_refuse, f"{what}: accepted objects that do not match")
    same_snap(snap(uvf), f, f"{what}: the flag object changed")
    if case["inplace"]:
        out = uv
    else:
        same_snap(snap(uv), s, f"{what}: the input changed")
    g = snap(out)
    same_snap(g, s, f"{what}: changed something else", skip=["flag_array", "history"])
    want = s["flag_array"].copy()
    if case["unflag"]:
        want[:] = False
    care = np.ones(want.shape, bool)
    pidx = [fpol.index(p) if p in fpol else 0 for p in upol]
    tol = 1.2e-8
    for b in range(uv.Nblts):
        a1, a2, t = s["ant_1_array"][b], s["ant_2_array"][b], s["time_array"][b]
        if tp == "waterfall":
            k = np.nonzero(np.abs(f["time_array"] - t) < tol)[0]
            if len(k):
                want[b] |= f["flag_array"][k[0]][:, pidx]
        elif tp == "antenna":
            k = np.nonzero(np.abs(f["time_array"] - t) < tol)[0]
            for a in (a1, a2):
                i = np.nonzero(f["ant_array"] == a)[0]
                if len(i) == 0:
                    want[b] = True
                else:
                    want[b] |= f["flag_array"][i[0], :, k[0]][:, pidx]
        else:
            m = (f["ant_1_array"] == a1) & (f["ant_2_array"] == a2)
            if not np.any(m):
                if case["missing"]:
                    want[b] = True
                continue
            if f["Ntimes"] > 1:
                m &= np.abs(f["time_array"] - t) < tol
            k = np.nonzero(m)[0]
            if len(k) == 0:
                # the pair is there but not at this time
                care[b] = False
                continue
            want[b] |= f["flag_array"][k[0]][ch][:, pidx]
    same(g["flag_array"] & care, want & care, f"{what}: flags")
    require(g["history"].startswith(s["history"]), f"{what}: history lost")
    label(tp, "pols:" + case["pols"])
    nontrivial(uv.Nblts > 1)
