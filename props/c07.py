"""C07: time resampling conserves the weighted data it averages or splits."""
import numpy as np
from hypothesis import strategies as st

from vp import sky
from vp.cmp import same, snap
from vp.core import Prop, Reject, label, nontrivial, require
from vp.gen_uv import LOCS, build_uv, chance, enu_of, uv_spec
from vp.uvmodel import check_blt_order, check_counts, check_rect

P = Prop(
    "C07",
    "a UVData object (irregular times, integration times that vary between records, several "
    "phase centers) and a time averaging or splitting; non-trivial: at least one output record "
    "covers several inputs, or one input was split, and some input is flagged.",
    ["records that are unprojected or drift scans are averaged after phasing to the zenith of "
     "the first record (UVData.phase, decided by C05), tolerance 1e-3; other data 2e-5",
     "the value of an output whose weights are all zero is not specified"],
)

SUBSET = ["sidereal", "sidereal", "ephem", "unprojected", "driftscan"]


def base(**kw):
    a = dict(max_spws=2, max_chan=2, max_times=6, min_times=2, max_pairs=4, conj_dups=True,
             max_pcs=3)
    a.update(kw)
    return uv_spec(**a)


common = {
    "uv": base(), "perint": st.sampled_from([0, 0, 1, 2]), "gap": chance(3),
    "onepc": st.sampled_from([True, True, False]), "contig": st.booleans(),
    "summing": chance(4), "drift": st.booleans(), "meta": chance(12),
    "order": st.sampled_from(["time", "baseline", "ant1", None]),
    "zero": chance(4),
}


def prepare(case):
    spec = case["uv"]
    spec = dict(spec)
    if case["onepc"]:
        spec["pcs"] = spec["pcs"][:1]
    uv = build_uv(spec)
    if case["contig"] and len(uv.phase_center_catalog) > 1:
        # first half of the times at the first phase center, so that windows can be clean
        ids = np.array(list(uv.phase_center_catalog))
        ut = np.unique(uv.time_array)
        k = np.searchsorted(ut, uv.time_array)
        new = ids[(k * len(ids)) // len(ut)]
        if set(new.tolist()) == set(ids.tolist()):
            uv.phase_center_id_array = new
            uv._set_app_coords_helper()
            uv.set_uvws_from_antenna_positions(update_vis=False)
    dt = spec["dt"]
    rng = np.random.default_rng(spec["seed"] + 5)
    if case["gap"]:
        ut = np.unique(uv.time_array)
        t = uv.time_array
        late = t > ut[len(ut) // 2]
        uv.time_array = np.where(late, t + 4 * dt / 86400, t)
        uv.set_lsts_from_time_array()
        uv._set_app_coords_helper()
        uv.set_uvws_from_antenna_positions(update_vis=False)
    if case["perint"] == 1:
        uv.integration_time = dt * rng.choice([0.5, 1.0, 2.0], uv.Nblts)
    elif case["perint"] == 2:
        uv.integration_time = dt * (1 + 2e-5 * rng.integers(0, 3, uv.Nblts))
    if case["zero"]:
        uv.nsample_array[uv.flag_array] = 0
    if case["meta"]:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    uv.check()
    return uv, spec


def ent(uv, i):
    e = uv.phase_center_catalog[int(uv.phase_center_id_array[i])]
    drop = ("info_source", "cat_epoch") if e["cat_type"] == "driftscan" else ("info_source",)
    return {k: v for k, v in e.items() if k not in drop}


def by_bl(uv):
    out = {}
    for i in np.argsort(uv.time_array, kind="stable"):
        out.setdefault((int(uv.ant_1_array[i]), int(uv.ant_2_array[i])), []).append(int(i))
    return out


def isclose(a, b):
    return abs(a - b) <= 1e-3


def zenith_phased(uv, t):
    """Copy with unprojected and drift records phased to the zenith at t, and its arguments."""
    u = uv.copy()
    m = np.array([uv.phase_center_catalog[int(i)]["cat_type"] in ("unprojected", "driftscan")
                  for i in uv.phase_center_id_array])
    if m.any():
        u.phase_to_time(float(t), select_mask=m)
    return u, m


def windows(uv, idx, ints, mode, val, ragged):
    """Lists of record indices averaged together for one baseline."""
    out, cur, run = [], [], 0.0
    for i in idx:
        cur.append(i)
        run += ints[i]
        full = (run > val or isclose(run, val)) if mode == "min" else len(cur) >= val
        if full:
            out.append(cur)
            cur, run = [], 0.0
    if cur and ragged:
        out.append(cur)
    return out


def check_result(res, exp, uv0, spec, what, drift, order, t0, tol):
    """exp: {bl: [dict(time, int, data, flag, nsample, zero, entry, scan)]}"""
    s = snap(res)
    check_counts(s, what)
    check_rect(s, what)
    check_blt_order(s, what)
    got = by_bl(res)
    want = {k: v for k, v in exp.items() if v}
    require(set(got) == set(want), f"{what}: baselines {sorted(got)} expected {sorted(want)}")
    zu, zm = (res, None) if (drift or res.data_array is None) else zenith_phased(res, t0)
    for bl, idx in got.items():
        w = sorted(want[bl], key=lambda r: r["time"])
        require(len(idx) == len(w), f"{what}: baseline {bl} has {len(idx)} records, "
                                    f"expected {len(w)}")
        for i, r in zip(idx, w):
            at = f"{what}: baseline {bl} at {r['time']}"
            require(abs(res.time_array[i] - r["time"]) * 86400 < 2e-3,
                    f"{at}: time off by {(res.time_array[i] - r['time']) * 86400} s")
            same(res.integration_time[i], r["int"], f"{at}: integration time", 0, 1e-6)
            same(ent(res, i), r["entry"], f"{at}: phase center", 0, 1e-9)
            if r["scan"] is not None:
                same(res.scan_number_array[i], r["scan"], f"{at}: scan number")
            if res.data_array is None:
                continue
            same(res.flag_array[i], r["flag"], f"{at}: flags")
            same(res.nsample_array[i], r["nsample"], f"{at}: nsample", 1e-5, 1e-6)
            ok = ~r["zero"]
            same(zu.data_array[i][ok], r["data"][ok], f"{at}: data", tol, tol)
    # geometry of the new records
    enu = enu_of(spec["tel"]).astype(float)
    ix = {a: i for i, a in enumerate(spec["tel"]["antnums"])}
    i1 = np.array([ix[a] for a in res.ant_1_array.tolist()])
    i2 = np.array([ix[a] for a in res.ant_2_array.tolist()])
    lat = np.deg2rad(LOCS[spec["tel"]["loc"]][1])
    same(res.uvw_array, sky.uvw(enu[i2] - enu[i1], lat, res.lst_array, res.phase_center_app_ra,
                                res.phase_center_app_dec, res.phase_center_frame_pa),
         f"{what}: uvw_array", 0, 1e-5)
    for cid in set(res.phase_center_id_array.tolist()):
        m = np.nonzero(res.phase_center_id_array == cid)[0]
        e = res.phase_center_catalog[cid]
        slow = e.get("cat_frame") == "fk4" and sky.is_moon(spec["tel"]["loc"])
        if e["cat_type"] == "unprojected":
            ra, dec = res.lst_array[m], np.full(len(m), lat)
        else:
            ra, dec = sky.app_coords(e, spec["tel"]["loc"], res.time_array[m], res.lst_array[m])
        d = sky.sep(ra, dec, res.phase_center_app_ra[m], res.phase_center_app_dec[m])
        require(np.all(d < (5e-6 if slow else 2e-7)), f"{what}: apparent position off by {d.max()}")
    for n in ("freq_array", "channel_width", "flex_spw_id_array", "spw_array",
              "polarization_array", "eq_coeffs", "extra_keywords", "vis_units",
              "telescope.antenna_numbers", "telescope.antenna_positions"):
        same(s[n], uv0[n], f"{what}: {n}")
    if order == "time":
        require(np.all(np.diff(res.time_array) >= 0), f"{what}: not in time order")
    elif order == "baseline":
        require(np.all(np.diff(res.baseline_array.astype(int)) >= 0), f"{what}: not in order")
    elif order == "ant1":
        require(np.all(np.diff(res.ant_1_array) >= 0), f"{what}: not in ant1 order")


def window_record(uv, zu, win, summing, ints, scan):
    w = np.array(win)
    it = ints[w]
    t0 = uv.time_array[w[0]]
    r = {
        "time": t0 + np.sum((uv.time_array[w] - t0) * it) / np.sum(it), "int": np.sum(it),
        "entry": ent(uv, win[0]),
        "scan": None if scan is None or len(set(scan[w].tolist())) > 1 else scan[w[0]],
    }
    if uv.data_array is not None:
        f = uv.flag_array[w]
        allf = f.all(axis=0)
        use = ~f | allf[None]
        ns = uv.nsample_array[w].astype(float)
        wt = ns * it[:, None, None] * use
        d = zu.data_array[w].astype(complex)
        tot = wt.sum(axis=0)
        zero = (tot == 0) & (not summing)
        with np.errstate(all="ignore"):
            r["data"] = (d * use).sum(axis=0) if summing else (d * wt).sum(axis=0) / tot
        r["zero"] = zero
        r["flag"] = allf
        r["nsample"] = tot / it.sum()
    return r


def split_record(uv, zu, i, n, summing, scan):
    it = uv.integration_time[i] / n
    out = []
    for k in range(n):
        r = {"time": uv.time_array[i] + (k - (n - 1) / 2) * it / 86400, "int": it,
             "entry": ent(uv, i), "scan": None if scan is None else scan[i]}
        if uv.data_array is not None:
            r["data"] = zu.data_array[i] / (n if summing and n > 1 else 1)
            r["flag"] = uv.flag_array[i]
            r["nsample"] = uv.nsample_array[i]
            r["zero"] = np.zeros(r["flag"].shape, dtype=bool)
        out.append(r)
    return out


def model_down(uv, mode, val, ragged, summing, drift):
    """Expected records and phase time; None when windows mix phase centers."""
    # time of the first record in baseline, time order
    first = min(range(uv.Nblts), key=lambda i: (uv.baseline_array[i], uv.time_array[i]))
    t0 = uv.time_array[first]
    zu = uv if (drift or uv.data_array is None) else zenith_phased(uv, t0)[0]
    exp, mixed, many = {}, False, False
    for bl, idx in by_bl(uv).items():
        need = mode == "n" or any(
            uv.integration_time[i] < val and not isclose(uv.integration_time[i], val)
            for i in idx)
        ws = (windows(uv, idx, uv.integration_time, mode, val, ragged) if need
              else [[i] for i in idx])
        for w in ws:
            if len({int(uv.phase_center_id_array[i]) for i in w}) > 1:
                mixed = True
            many |= len(w) > 1
        exp[bl] = []
        for w in ws:
            if need:
                exp[bl].append(window_record(uv, zu, w, summing, uv.integration_time,
                                             uv.scan_number_array))
            else:
                exp[bl] += split_record(uv, zu, w[0], 1, False, uv.scan_number_array)
    return exp, t0, mixed, many


def down_strategy():
    return st.fixed_dictionaries({
        **common, "mode": st.sampled_from(["min", "min", "n"]),
        "val": st.sampled_from([2, 2, 3, 4, 1.5, 0.9, 1.0, 6]),
        "ragged": st.booleans(),
    })


def tolerance(uv, drift):
    return 1e-3 if not drift else 2e-5


def any_drift(uv):
    return any(e["cat_type"] in ("unprojected", "driftscan")
               for e in uv.phase_center_catalog.values())


@P.sub("downsample", down_strategy, 900)
def downsample(case):
    uv, spec = prepare(case)
    before = snap(uv)
    src = uv.copy()
    dt = spec["dt"]
    mode = case["mode"]
    val = case["val"] * dt if mode == "min" else max(1, int(case["val"]))
    kw = {"min_int_time": val} if mode == "min" else {"n_times_to_avg": val}
    minor = None if case["order"] is None else "baseline" if case["order"] == "time" else "time"
    if case["order"] is not None:
        kw.update(blt_order=case["order"], minor_order=minor)
    exp, t0, mixed, many = model_down(src, mode, val, case["ragged"], case["summing"],
                                      case["drift"])
    left = any(exp.values())
    act = mode == "n" or any(v < val and not isclose(v, val) for v in src.integration_time)
    what = f"downsample {kw} keep_ragged={case['ragged']} summing={case['summing']} " \
           f"allow_drift={case['drift']}"
    if src.Ntimes == 1:
        raise Reject
    try:
        uv.downsample_in_time(keep_ragged=case["ragged"], allow_drift=case["drift"],
                              summing_correlator_mode=case["summing"], **kw)
    except ValueError as e:
        if mixed and "phase centers" in str(e):
            label("mixed windows refused")
            return
        if not left:
            label("nothing left")
            return
        raise
    if not act:
        label("no-op")
        from vp.cmp import same_snap
        same_snap(snap(uv), before, f"{what} no-op")
        return
    require(not mixed, f"{what}: a window over several phase centers was averaged")
    require(left, f"{what}: nothing is left but no error")
    d = case["drift"] or not any_drift(src)
    check_result(uv, exp, before, spec, what, case["drift"], case["order"] or "time", t0,
                 tolerance(src, d))
    label("down " + mode)
    nontrivial(many and (src.flag_array is None or src.flag_array.any()))


def model_up(uv, val, summing, drift, t0=None):
    t0 = uv.time_array[0]
    zu = uv if (drift or uv.data_array is None) else zenith_phased(uv, t0)[0]
    exp, many = {}, False
    for bl, idx in by_bl(uv).items():
        exp[bl] = []
        for i in idx:
            it = uv.integration_time[i]
            n = 1
            if it > val and not isclose(it, val):
                q = it / val
                n = int(np.floor(q)) if np.isclose(q, np.floor(q)) else int(np.ceil(q))
            many |= n > 1
            exp[bl] += split_record(uv, zu, i, n, summing, uv.scan_number_array)
    return exp, t0, many


def up_strategy():
    return st.fixed_dictionaries({
        **common, "val": st.sampled_from([0.5, 0.5, 0.34, 1.0, 0.25, 0.99, 1.5]),
    })


@P.sub("upsample", up_strategy, 600)
def upsample(case):
    uv, spec = prepare(case)
    before = snap(uv)
    src = uv.copy()
    val = case["val"] * spec["dt"]
    kw = {}
    if case["order"] is not None:
        kw.update(blt_order=case["order"],
                  minor_order="baseline" if case["order"] == "time" else "time")
    exp, t0, many = model_up(src, val, case["summing"], case["drift"])
    act = any(v > val and not isclose(v, val) for v in src.integration_time)
    what = f"upsample {val} {kw} summing={case['summing']} allow_drift={case['drift']}"
    uv.upsample_in_time(val, allow_drift=case["drift"],
                        summing_correlator_mode=case["summing"], **kw)
    if not act:
        from vp.cmp import same_snap
        same_snap(snap(uv), before, f"{what} no-op")
        label("no-op")
        return
    d = case["drift"] or not any_drift(src)
    check_result(uv, exp, before, spec, what, case["drift"], case["order"] or "time", t0,
                 tolerance(src, d))
    label("up")
    nontrivial(many and (src.flag_array is None or src.flag_array.any()))


def re_strategy():
    return st.fixed_dictionaries({
        "uv": base(pcs=("sidereal", "ephem")), "perint": st.sampled_from([1, 1, 0]),
        "gap": chance(3), "onepc": st.just(True), "contig": st.just(False),
        "summing": chance(4), "drift": st.just(True), "meta": chance(12),
        "order": st.just("time"), "zero": chance(4),
        "val": st.sampled_from([1.0, 1.0, 2.0, 0.5, 3.0, 0.7]),
        "only": st.sampled_from([None, None, "down", "up"]), "ragged": st.booleans(),
    })


@P.sub("resample", re_strategy, 400)
def resample(case):
    uv, spec = prepare(case)
    if uv.Ntimes == 1:
        raise Reject
    before = snap(uv)
    src = uv.copy()
    val = case["val"] * spec["dt"]
    lo, hi = src.integration_time.min(), src.integration_time.max()
    down = np.floor(val / lo) >= 2 and case["only"] != "up"
    up = np.floor(hi / val) >= 2 and case["only"] != "down"
    kw = {"only_downsample": case["only"] == "down", "only_upsample": case["only"] == "up"}
    what = f"resample {val} {kw}"
    if down:
        exp, _, _, _ = model_down(src, "min", val, case["ragged"], case["summing"], True)
        if not any(exp.values()):
            raise Reject
    uv.resample_in_time(val, keep_ragged=case["ragged"], summing_correlator_mode=case["summing"],
                        **kw)
    if not (down or up):
        from vp.cmp import same_snap
        same_snap(snap(uv), before, f"{what} no-op")
        return
    if down and up:
        # a list of records as the input of the second model
        for bl in exp:
            out = []
            for r in exp[bl]:
                it, n = r["int"], 1
                if it > val and not isclose(it, val):
                    q = it / val
                    n = int(np.floor(q)) if np.isclose(q, np.floor(q)) else int(np.ceil(q))
                for k in range(n):
                    q = dict(r)
                    q["time"] = r["time"] + (k - (n - 1) / 2) * it / n / 86400
                    q["int"] = it / n
                    if n > 1 and case["summing"] and "data" in r:
                        q["data"] = r["data"] / n
                    out.append(q)
            exp[bl] = out
    elif up:
        exp, _, _ = model_up(src, val, case["summing"], True)
    check_result(uv, exp, before, spec, what, True, "time", 0, 2e-5)
    label(f"down={down} up={up}")
    nontrivial(True)
