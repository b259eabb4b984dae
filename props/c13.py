"""C13: measurement sets give back what was written."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from props.c12 import match
from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require, scratch
from vp.filecmp import check_file_read
from vp.gen_uv import build_uv, chance, real_autos, uv_spec
from vp.uvmodel import check_counts

P = Prop(
    "C13",
    "a UVData object with any spectral windows (of uneven size, direction and spacing), projected "
    "phase centers in several frames, scan numbers, and the writer's and reader's options; "
    "non-trivial: at least two records and at least two channels or polarizations.",
    ["autocorrelations are real, because the writer requires it",
     "visibilities and weights are stored in single precision",
     "equalisation coefficients, the instrument name and blt_order are not stored by the format"],
)
BLOCKS = [[0, 1, 2, 3], [2, 0, 1, 3], [1, 0], [10, 4, 7, 0], [100, 50, 60, 12], [1, 2, 3, 5]]


def ms_uv(pcs=("sidereal", "ephem"), flexpol=True):
    return uv_spec(max_ants=4, max_times=3, max_chan=4, max_spws=3, max_pairs=6,
                   locs=[0, 1, 2, 3], pcs=pcs, flexpol=flexpol, blocks=BLOCKS,
                   chan_shuffle=True)


def make(case):
    spec = copy.deepcopy(case["uv"])
    for p in spec["pcs"]:
        p["pm"] = p["dist"] = False
    spec["pols"] = [-4 - x if x > 0 else x for x in spec["pols"]]
    uv = real_autos(build_uv(spec))
    if case["spwid"]:
        uv.spw_array = uv.spw_array[::-1].copy()
    if case["hist"]:
        uv.history = "some text\nwith lines  and  spaces " + "x" * 200
    return uv


def opts():
    return {"spwid": chance(3), "hist": chance(4)}


@P.sub("roundtrip", lambda: st.fixed_dictionaries({
    "uv": ms_uv(), **opts(), "model": chance(3), "flip": chance(5), "col": st.sampled_from(
        ["DATA", "MODEL_DATA", "CORRECTED_DATA"]), "polorder": st.sampled_from(["AIPS", "CASA"]),
    "exists": chance(4), "single_chan": chance(4), "flexread": st.booleans()}), 420)
def roundtrip(case):
    from pyuvdata import UVData

    uv = make(case)
    what = f"ms {({k: v for k, v in case.items() if k != 'uv'})}"
    fn = os.path.join(scratch(), "a.ms")
    flex = uv.flex_spw_polarization_array is not None
    if case["exists"]:
        with open(fn, "w") as f:
            f.write("precious")
        try:
            uv.write_ms(fn)
        except OSError:
            pass
        else:
            require(False, f"{what}: an existing file was overwritten without clobber")
        with open(fn) as f:
            require(f.read() == "precious", f"{what}: a refused write changed the file")
        os.remove(fn)
    s = snap(uv)
    kw = {}
    md = cd = None
    if case["model"]:
        md = np.conj(uv.data_array) * 2
        cd = uv.data_array * (1 + 0.5j)
        kw = {"model_data": md.copy(), "corrected_data": cd.copy()}
    uv.write_ms(fn, flip_conj=case["flip"], **kw)
    same_snap(snap(uv), s, f"{what}: writing changed the object", skip=["scan_number_array"])
    col = case["col"] if case["model"] else "DATA"
    r = UVData()
    r.read(fn, fix_autos=False, check_autos=False, data_column=col, pol_order=case["polorder"],
           ignore_single_chan=False, allow_flex_pol=flex and case["flexread"])
    want = uv.copy()
    if col == "MODEL_DATA":
        want.data_array = md
    elif col == "CORRECTED_DATA":
        want.data_array = cd
    if case["flip"]:
        # written in the other convention; the reader undoes it when the uvws and the antenna
        # positions show it, and then must do so for both
        pm = match(r, want)
        if np.any(np.abs(want.uvw_array) > 1e-3):
            flipped = np.allclose(r.uvw_array, -want.uvw_array[pm], atol=1e-6)
        else:
            flipped = not np.allclose(
                np.sum(r.data_array), np.sum(want.data_array), rtol=1e-5)
        if flipped:
            want.data_array = np.conj(want.data_array)
            want.uvw_array = -want.uvw_array
        label("flip undone" if not flipped else "flip kept")
    if flex and not (case["flexread"] and r.flex_spw_polarization_array is not None):
        # one polarization axis, with missing combinations flagged
        pols = sorted(set(uv.flex_spw_polarization_array.tolist()))
        require(sorted(r.polarization_array.tolist()) == pols,
                f"{what}: polarizations {r.polarization_array}")
        n = np.array(pols)
        sh = (uv.Nblts, uv.Nfreqs, len(n))
        d, f, ns = np.zeros(sh, complex), np.ones(sh, bool), np.full(sh, np.nan)
        for k, sp in enumerate(uv.spw_array):
            m = uv.flex_spw_id_array == sp
            q = pols.index(int(uv.flex_spw_polarization_array[k]))
            d[:, m, q] = want.data_array[:, m, 0]
            f[:, m, q] = uv.flag_array[:, m, 0]
            ns[:, m, q] = uv.nsample_array[:, m, 0]
        want.flex_spw_polarization_array = None
        want.polarization_array = n
        want.Npols = len(n)
        want.data_array, want.flag_array = d, f
        perm = match(r, want)
        pp = [int(np.nonzero(r.polarization_array == p)[0][0]) for p in n]
        ch = np.array([int(np.argmin(np.abs(r.freq_array - x))) for x in uv.freq_array])
        got = r.nsample_array[np.ix_(np.arange(r.Nblts), ch, np.array(pp))]
        want.nsample_array = np.empty(sh)
        want.nsample_array[perm] = np.where(np.isnan(ns[perm]), got, ns[perm])
    elif flex:
        label("flex-pol kept")
        for sp, pl in zip(uv.spw_array, uv.flex_spw_polarization_array):
            k = int(np.nonzero(r.spw_array == sp)[0][0])
            require(int(r.flex_spw_polarization_array[k]) == int(pl),
                    f"{what}: polarization of window {sp}")
    perm = match(r, want)
    for i, e in want.phase_center_catalog.items():
        if e["cat_type"] == "driftscan":
            label("driftscan")
    xk = dict(r.extra_keywords)
    require(xk.pop("DATA_COL", None) == col, f"{what}: DATA_COL")
    xk.pop("observer", None)
    r2 = r.copy()
    r2.extra_keywords = xk
    check_file_read(
        r2, want, what, single=True, perm=perm, blt_order_kept=False, diam_rtol=1e-9,
        uvw_tol=1e-7, skip=["instrument", "history", "antorder"] + (
            ["vis_units"] if col != "DATA" else []), lst_tol=2e-8, inttime_rtol=1e-12, width_rtol=1e-9,
        freq_tol=1e-4, sky_tol=2e-9)
    same(sorted(r.spw_array.tolist()), sorted(uv.spw_array.tolist()), f"{what}: window numbers")
    ch = [int(np.argmin(np.abs(r.freq_array - f))) for f in uv.freq_array]
    same(r.flex_spw_id_array[ch], uv.flex_spw_id_array, f"{what}: flex_spw_id_array")
    if s["scan_number_array"] is not None:
        same(r.scan_number_array, s["scan_number_array"][perm], f"{what}: scan_number_array")
    same(r.phase_center_id_array, uv.phase_center_id_array[perm], f"{what}: phase center IDs")
    if not flex:
        order = {"AIPS": [1, 2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -8],
                 "CASA": [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]}[case["polorder"]]
        same(r.polarization_array, sorted(uv.polarization_array.tolist(), key=order.index),
             f"{what}: order of polarizations")
    require("".join(uv.history.split()) in "".join(r.history.split()),
            f"{what}: history {r.history!r}")
    check_counts(snap(r), what)
    # windows with one channel are left out on request
    if case["single_chan"] and not flex and col == "DATA":
        n1 = [int((uv.flex_spw_id_array == sp).sum()) for sp in uv.spw_array]
        if any(x > 1 for x in n1) and any(x == 1 for x in n1):
            q = UVData()
            q.read(fn, fix_autos=False, check_autos=False, pol_order=case["polorder"])
            keep = [sp for sp, x in zip(uv.spw_array, n1) if x > 1]
            m = np.isin(r.flex_spw_id_array, keep)
            require(q.Nblts == r.Nblts, f"{what}: ignoring single channels: {q.Nblts} records")
            pq = match(q, r)
            same(q.freq_array, r.freq_array[m], f"{what}: frequencies without single channels")
            same(q.data_array, r.data_array[:, m][pq], f"{what}: data without single channels")
            same(q.flag_array, r.flag_array[:, m][pq], f"{what}: flags without single channels")
            label("single channel ignored")
    label(f"{uv.Nspws} windows", f"{uv.Npols} pols")
    nontrivial(uv.Nblts > 1 and uv.Nfreqs * uv.Npols > 1)
