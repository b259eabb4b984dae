"""Reference views of a UVData object, read straight from its arrays."""
import numpy as np

from .cmp import same, snap, value_diff
from .core import Violation, require

BLT = ["uvw_array", "time_array", "lst_array", "ant_1_array", "ant_2_array",
       "baseline_array", "integration_time", "phase_center_app_ra",
       "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array",
       "scan_number_array"]
DATA = ["data_array", "flag_array", "nsample_array"]
FREQ = ["freq_array", "channel_width", "flex_spw_id_array"]
COUNTS = ["Nblts", "Nbls", "Ntimes", "Nfreqs", "Npols", "Nspws", "Nants_data", "Nphase"]
# never compared by the model helpers unless asked for
ORDERISH = ["blt_order", "blts_are_rectangular", "time_axis_faster_than_bls"]


def expected_select(s, blt=None, freq=None, pol=None):
    """Snapshot expected after keeping these indices (sorted, unique) of snapshot s."""
    e = {k: v for k, v in s.items()}
    if blt is not None:
        for n in BLT:
            if e[n] is not None:
                e[n] = e[n][blt]
        for n in DATA:
            if e[n] is not None:
                e[n] = e[n][blt]
        e["Nblts"] = len(blt)
        e["Nbls"] = len(set(zip(e["ant_1_array"].tolist(), e["ant_2_array"].tolist())))
        e["Ntimes"] = len(set(e["time_array"].tolist()))
        e["Nants_data"] = len(set(e["ant_1_array"].tolist()) | set(e["ant_2_array"].tolist()))
    if freq is not None:
        for n in FREQ:
            e[n] = e[n][freq]
        for n in DATA:
            if e[n] is not None:
                e[n] = e[n][:, freq]
        if e["eq_coeffs"] is not None:
            e["eq_coeffs"] = e["eq_coeffs"][:, freq]
        e["Nfreqs"] = len(freq)
        keep = np.array([i for i, sp in enumerate(e["spw_array"]) if sp in e["flex_spw_id_array"]])
        e["spw_array"] = e["spw_array"][keep]
        e["Nspws"] = len(keep)
        if e["flex_spw_polarization_array"] is not None:
            e["flex_spw_polarization_array"] = e["flex_spw_polarization_array"][keep]
    if pol is not None:
        e["polarization_array"] = e["polarization_array"][pol]
        for n in DATA:
            if e[n] is not None:
                e[n] = e[n][:, :, pol]
        e["Npols"] = len(pol)
    fp = e["flex_spw_polarization_array"]
    if fp is not None and len(set(fp.tolist())) == 1:
        e["polarization_array"] = np.array([fp[0]])
        e["flex_spw_polarization_array"] = None
    return e


def drop_antennas(e):
    """Telescope metadata restricted to antennas with data, in telescope order."""
    an = e["telescope.antenna_numbers"]
    used = set(e["ant_1_array"].tolist()) | set(e["ant_2_array"].tolist())
    k = np.array([i for i, a in enumerate(an) if a in used])
    e = dict(e)
    for n in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
        v = e["telescope." + n]
        if v is not None:
            e["telescope." + n] = np.asarray(v)[k]
    e["telescope.Nants"] = len(k)
    if e["eq_coeffs"] is not None:
        e["eq_coeffs"] = e["eq_coeffs"][k]
    return e


def true_rect(s):
    """What the blt axis really is: (is_rect_time_fast, is_rect_bl_fast)."""
    t, bl = s["time_array"], s["baseline_array"]
    nt, nb = len(set(t.tolist())), len(set(bl.tolist()))
    if len(t) != nt * nb:
        return False, False
    tt, bb = t.reshape(nb, nt), bl.reshape(nb, nt)
    fast_t = bool(np.all(tt == tt[0]) and np.all(bb == bb[:, :1]))
    tt, bb = t.reshape(nt, nb), bl.reshape(nt, nb)
    fast_b = bool(np.all(bb == bb[0]) and np.all(tt == tt[:, :1]))
    return fast_t, fast_b


def check_rect(s, what):
    """Rectangularity attributes, where set to True, must be true of the arrays."""
    ft, fb = true_rect(s)
    if s["blts_are_rectangular"]:
        tf = s["time_axis_faster_than_bls"]
        require(ft or fb, f"{what}: blts_are_rectangular is True but the axis is not")
        if tf is not None:
            require(ft if tf else fb,
                    f"{what}: time_axis_faster_than_bls={tf} contradicts the blt axis")
    else:
        require(not s["time_axis_faster_than_bls"],
                f"{what}: time_axis_faster_than_bls set on a non rectangular axis")


def check_blt_order(s, what):
    """blt_order, where set, must describe the real order of the blt axis."""
    bo = s["blt_order"]
    if bo is None:
        return
    arr = {"time": s["time_array"], "baseline": s["baseline_array"],
           "ant1": s["ant_1_array"], "ant2": s["ant_2_array"]}
    keys = [arr[b] for b in bo if b in arr]
    if len(keys) != len(bo):
        return
    prev = None
    for i in range(len(keys[0])):
        cur = tuple(k[i].item() for k in keys)
        require(prev is None or prev <= cur, f"{what}: blt_order {bo} is not the order")
        prev = cur


def check_counts(s, what):
    """Every count agrees with the arrays it counts, and every shape with the counts."""
    a1, a2 = s["ant_1_array"], s["ant_2_array"]
    exp = {
        "Nblts": len(s["time_array"]),
        "Nbls": len(set(zip(a1.tolist(), a2.tolist()))),
        "Ntimes": len(set(s["time_array"].tolist())),
        "Nants_data": len(set(a1.tolist()) | set(a2.tolist())),
        "Nfreqs": len(s["freq_array"]), "Npols": len(s["polarization_array"]),
        "Nspws": len(s["spw_array"]), "Nphase": len(s["phase_center_catalog"]),
        "telescope.Nants": len(s["telescope.antenna_numbers"]),
    }
    for k, v in exp.items():
        require(s[k] == v, f"{what}: {k} is {s[k]}, the arrays have {v}")
    nb, nf, npol = exp["Nblts"], exp["Nfreqs"], exp["Npols"]
    for n in BLT:
        if s[n] is not None:
            require(len(s[n]) == nb, f"{what}: {n} has length {len(s[n])}, Nblts {nb}")
    for n in FREQ:
        require(len(s[n]) == nf, f"{what}: {n} has length {len(s[n])}, Nfreqs {nf}")
    for n in DATA:
        if s[n] is not None:
            require(s[n].shape == (nb, nf, npol), f"{what}: {n} shape {s[n].shape}")
    require(set(s["flex_spw_id_array"].tolist()) == set(s["spw_array"].tolist()),
            f"{what}: spw_array {s['spw_array']} vs ids {s['flex_spw_id_array']}")
    require(set(s["phase_center_id_array"].tolist()) <= set(s["phase_center_catalog"]),
            f"{what}: phase center ids without a catalog entry")
    require(set(a1.tolist()) | set(a2.tolist()) <= set(np.asarray(
        s["telescope.antenna_numbers"]).tolist()), f"{what}: unknown antenna numbers")
    # baseline numbers are a function of the antenna pair, one to one
    d = {}
    for b, x, y in zip(s["baseline_array"].tolist(), a1.tolist(), a2.tolist()):
        require(d.setdefault(b, (x, y)) == (x, y),
                f"{what}: baseline number {b} stands for two antenna pairs")


def same_cat(c1, c2, what, atol=0.0):
    d = value_diff(c1, c2, 0.0, atol)
    if d:
        raise Violation(f"{what}: phase_center_catalog {d}")


def canon(s, conj=False):
    """Order-free view of a snapshot: everything sorted by physical keys.

    conj=True also makes the baseline direction canonical (first antenna number
    smaller); needs a polarisation set closed under exchange.
    """
    s = dict(s)
    out = {}
    a1, a2 = s["ant_1_array"].copy(), s["ant_2_array"].copy()
    d = {n: (None if s[n] is None else s[n].copy()) for n in DATA}
    uvw = s["uvw_array"].copy()
    pols = s["polarization_array"]
    if conj:
        flip = a1 > a2
        a1[flip], a2[flip] = a2[flip].copy(), a1[flip].copy()
        uvw[flip] *= -1
        cp = {-3: -4, -4: -3, -7: -8, -8: -7}
        inv = [list(pols).index(cp.get(int(p), int(p))) for p in pols]
        for n in DATA:
            if d[n] is not None:
                x = d[n][flip][:, :, inv]
                d[n][flip] = np.conj(x) if n == "data_array" else x
    bo = np.lexsort((a2, a1, s["time_array"]))
    fo = np.lexsort((s["freq_array"], s["flex_spw_id_array"]))
    po = np.argsort(pols, kind="stable")
    out["ant_1_array"], out["ant_2_array"] = a1[bo], a2[bo]
    out["uvw_array"] = uvw[bo]
    for n in ("time_array", "lst_array", "integration_time", "phase_center_app_ra",
              "phase_center_app_dec", "phase_center_frame_pa", "scan_number_array"):
        out[n] = None if s[n] is None else s[n][bo]
    out["pc_entries"] = [
        {k: v for k, v in s["phase_center_catalog"][i].items() if k != "info_source"}
        for i in s["phase_center_id_array"][bo].tolist()
    ]
    for n in FREQ:
        out[n] = s[n][fo]
    out["spw_array"] = np.sort(s["spw_array"])
    fp = s["flex_spw_polarization_array"]
    out["flex_spw_polarization_array"] = None if fp is None else fp[np.argsort(s["spw_array"])]
    out["polarization_array"] = pols[po]
    for n in DATA:
        out[n] = None if d[n] is None else d[n][bo][:, fo][:, :, po]
    out["eq_coeffs"] = None if s["eq_coeffs"] is None else s["eq_coeffs"][:, fo]
    for n in ("vis_units", "extra_keywords", "eq_coeffs_convention", "pol_convention",
              "gst0", "rdate", "earth_omega", "dut1", "timesys", "uvplane_reference_time"):
        out[n] = s[n]
    for n in s:
        if n.startswith("telescope."):
            out[n] = s[n]
    return out


def same_canon(c1, c2, what, tols=None, skip=()):
    tols = tols or {}
    for n in sorted(c1):
        if n in skip:
            continue
        rt, at = tols.get(n, (0.0, 0.0))
        if n == "pc_entries":
            require(len(c1[n]) == len(c2[n]), f"{what}: number of blts")
            for i, (x, y) in enumerate(zip(c1[n], c2[n])):
                dd = value_diff(x, y, rt, at)
                if dd:
                    raise Violation(f"{what}: phase center of blt {i}: {dd}")
            continue
        same(c1[n], c2[n], f"{what}: {n}", rt, at)


__all__ = [k for k in globals() if not k.startswith("_")]
