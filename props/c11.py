"""C11: UVFITS files give back what was written."""
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require, scratch
from vp.filecmp import check_file_read
from vp.gen_uv import POLSETS_EVEN, build_uv, chance, real_autos, uv_spec

P = Prop(
    "C11",
    "a UVData object with equal-sized, evenly spaced spectral windows (in any order and "
    "direction) and evenly spaced polarizations, and the writer's options; non-trivial: at "
    "least two records and at least two channels or polarizations.",
    ["visibilities of autocorrelations are real, window sizes are equal and channels evenly "
     "spaced, because the writer requires it",
     "names fit the format (antennas 8, sources 20 characters); proper motion, distance, "
     "equalisation coefficients and scan numbers are not stored by the format"],
)

ORDERS = [None, ["time", "baseline"], ["baseline", "time"], ["ant1", "time"], ["time", "ant2"],
          ["time"], ["bda"]]


def fits_uv(max_spws=3, pcs=("sidereal",), locs=(0, 1, 2, 3, 4, 5)):
    return uv_spec(max_ants=4, max_times=3, max_chan=4, max_spws=max_spws, max_pairs=6,
                   locs=list(locs), regular_freq=True, polsets=POLSETS_EVEN, pcs=pcs,
                   flexpol=False)


def equal_windows(spec, n=None):
    n = n or spec["spws"][0]["n"]
    f0 = spec["spws"][0]["f0"]
    for s in spec["spws"]:
        s["n"] = n
        s["f0"] = f0
        f0 += n * s["w"] + 1e6
    return spec


def make(case):
    import copy

    spec = copy.deepcopy(case["uv"])
    equal_windows(spec)
    for p in spec["pcs"]:
        p["pm"] = p["dist"] = False
    uv = real_autos(build_uv(spec))
    if case["winshuf"] and uv.Nspws > 1:
        # the windows are listed in another order than the channels come in
        uv.spw_array = uv.spw_array[::-1].copy()
    if case["chanmix"] and uv.Nspws > 1:
        # channels of the windows are interleaved
        o = np.argsort(np.arange(uv.Nfreqs) % (uv.Nfreqs // uv.Nspws), kind="stable")
        uv.freq_array = uv.freq_array[o]
        uv.channel_width = uv.channel_width[o]
        uv.flex_spw_id_array = uv.flex_spw_id_array[o]
        uv.data_array = uv.data_array[:, o]
        uv.flag_array = uv.flag_array[:, o]
        uv.nsample_array = uv.nsample_array[:, o]
        if uv.eq_coeffs is not None:
            uv.eq_coeffs = uv.eq_coeffs[:, o]
    if case["order"] == ["bda"]:
        uv.blt_order = ("bda",)
        uv._blt_order.form = (1,)
    elif case["order"]:
        uv.reorder_blts(order=case["order"][0], minor_order=(case["order"] + [None])[1])
    if case["hist"]:
        uv.history = "some text\nwith lines  and  spaces " + "x" * 200
    return uv


def opts():
    return {"order": st.sampled_from(ORDERS), "winshuf": chance(3), "chanmix": chance(4),
            "hist": chance(4)}


@P.sub("roundtrip", lambda: st.fixed_dictionaries({
    "uv": fits_uv(), **opts(), "lst": st.booleans(), "miriad": chance(5),
    "drift": chance(6)}), 700)
def roundtrip(case):
    from pyuvdata import UVData

    if case["drift"]:
        case["uv"] = dict(case["uv"])
        case["uv"]["pcs"] = [{"type": "unprojected", "name": "unprojected"}]
    case["chanmix"] = False
    uv = make(case)
    s = snap(uv)
    what = f"uvfits {({k: v for k, v in case.items() if k != 'uv'})}"
    fn = os.path.join(scratch(), "a.uvfits")
    mir = case["miriad"] and int(np.max(uv.telescope.antenna_numbers)) < 2047
    kw = {}
    if case["drift"]:
        try:
            uv.write_uvfits(fn)
        except ValueError:
            require(not os.path.exists(fn), f"{what}: a refused write left a file")
        else:
            require(False, f"{what}: unprojected data written without force_phase")
        kw["force_phase"] = True
        label("force_phase")
    uv.write_uvfits(fn, write_lst=case["lst"], use_miriad_convention=mir, **kw)
    if not case["drift"]:  # force_phase phases the object that is written
        same_snap(snap(uv), s, f"{what}: writing changed the object")
    r = UVData()
    r.read(fn, fix_autos=False)
    want = uv
    if case["drift"]:
        from astropy.time import Time

        want = make(case)
        want.history = uv.history
        want.phase_to_time(Time(uv.time_array[0], format="jd"))
    off = 0
    if mir and np.min(uv.telescope.antenna_numbers) == 0:
        off = 1
    check_file_read(
        r, want, what, single=uv.data_array.dtype == np.complex64, ant_offset=off,
        pols=want.polarization_array[np.argsort(np.abs(want.polarization_array))],
        cat_offset=int(0 in want.phase_center_catalog), flag_zero_nsample=True,
        upper_keys=True, fits=True, name_len=20)
    # metadata only read agrees with the full read
    m = UVData()
    m.read(fn, read_data=False)
    full = snap(r)
    for k in ("data_array", "flag_array", "nsample_array"):
        full[k] = None
    same_snap(snap(m), full, f"{what}: metadata only")
    # second generation is exact
    fn2 = os.path.join(scratch(), "b.uvfits")
    r.write_uvfits(fn2, write_lst=case["lst"])
    r2 = UVData()
    r2.read(fn2, fix_autos=False)
    f2 = snap(r2)
    same_snap(f2, snap(r), f"{what}: second generation",
              {"telescope.antenna_positions": (0, 1e-6), "lst_array": (0, 1e-9),
               "phase_center_app_ra": (0, 1e-8), "phase_center_app_dec": (0, 1e-8),
               "phase_center_frame_pa": (0, 1e-8), "uvw_array": (1e-7, 1e-9),
               "time_array": (0, 1e-9), "freq_array": (0, 1e-3),
               "phase_center_catalog": (1e-12, 1e-12)}, skip=["filename", "history"])
    label("single" if case["uv"]["single"] else "double", f"{uv.Nspws} windows")
    nontrivial(uv.Nblts > 1 and uv.Nfreqs * uv.Npols > 1)


@P.sub("refuse", lambda: st.fixed_dictionaries({
    "uv": fits_uv(), **opts(), "what": st.sampled_from(
        ["pols", "sizes", "spacing", "autos", "timesys", "pc", "mix"])}), 150)
def refuse(case):
    """What the format cannot hold is refused rather than written wrongly."""
    from pyuvdata import UVData

    w = case["what"]
    case["chanmix"] = w == "mix"
    uv = make(case)
    fn = os.path.join(scratch(), "a.uvfits")
    if w == "pols":
        if uv.Npols < 4:
            return
        uv.select(polarizations=uv.polarization_array[[0, 1, 3]].tolist())
    elif w == "sizes":
        if uv.Nspws < 2 or uv.Nfreqs // uv.Nspws < 2:
            return
        uv.select(freq_chans=np.arange(1, uv.Nfreqs))
    elif w == "spacing":
        if uv.Nfreqs // uv.Nspws < 3:
            return
        i = np.nonzero(uv.flex_spw_id_array == uv.spw_array[0])[0][1]
        uv.freq_array[i] += 0.3 * uv.channel_width[i]
    elif w == "mix":
        if uv.Nspws < 2 or uv.Nfreqs // uv.Nspws < 2:
            return
    elif w == "timesys":
        uv.timesys = "IAT"
    elif w == "pc":
        uv.phase_center_catalog[list(uv.phase_center_catalog)[0]].update(
            cat_type="driftscan", cat_frame="altaz")
    else:
        m = np.nonzero((uv.ant_1_array == uv.ant_2_array))[0]
        if not m.size or not set(uv.polarization_array) & {-5, -6, -1, -2, 1, 2}:
            return
        p = [i for i, x in enumerate(uv.polarization_array) if x in (-5, -6, -1, -2, 1, 2)]
        uv.data_array[m[0], :, p[0]] += 1j * (1 + np.abs(uv.data_array[m[0], :, p[0]]))
    try:
        uv.write_uvfits(fn, fix_autos=False)
    except (ValueError, IndexError):
        label("refused")
    else:
        require(w == "autos", f"uvfits: {w} was written")
        r = UVData()
        r.read(fn, fix_autos=False, check_autos=False)
    nontrivial()
