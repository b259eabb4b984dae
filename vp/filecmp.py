"""Oracle for files that store visibilities with limited precision (UVFITS, MIRIAD, MS)."""
import numpy as np

from .cmp import loc_xyz, same
from .core import require


def sky(entry, t0):
    """ICRS direction of a sidereal catalog entry, by astropy alone."""
    import astropy.units as u
    from astropy.coordinates import GCRS, FK4, FK5, ICRS, SkyCoord
    from astropy.time import Time

    f = entry["cat_frame"]
    ep = entry.get("cat_epoch")
    if f == "icrs":
        fr = ICRS()
    elif f == "fk5":
        fr = FK5(equinox=Time(ep if ep is not None else 2000.0, format="jyear"))
    elif f == "fk4":
        fr = FK4(equinox=Time(ep if ep is not None else 1950.0, format="byear"),
                 obstime=Time(t0, format="jd"))
    elif f == "gcrs":
        fr = GCRS(obstime=Time(t0, format="jd"))
    else:
        raise ValueError(f)
    lon, lat = np.atleast_1d(entry["cat_lon"])[0], np.atleast_1d(entry["cat_lat"])[0]
    return SkyCoord(lon * u.rad, lat * u.rad, frame=fr).icrs


def angle_diff(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi)


def near(a, b, what, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}")
    if a.size:
        d = np.max(np.abs(a - b))
        require(d <= tol, f"{what}: differ by up to {d} (tolerance {tol})")


def check_file_read(
    r, uv, what, *, single, ant_offset=0, pols=None, cat_offset=None, flag_zero_nsample=False,
    upper_keys=False, fits=False, blt_order_kept=True, perm=None, uvw_tol=None,
    data_rtol=None, time_tol=2e-9, lst_tol=None, app_tol=1e-7, inttime_rtol=None,
    diam_rtol=3e-7, antpos_tol=1e-5, skip=(), nsample=True, sky_tol=5e-9, freq_tol=1e-2,
    width_rtol=3e-7, loc_tol=1e-5, name_len=None,
):
    """r (read back) describes the same records as uv (written). perm: blts of uv in r's order."""
    n = uv.Nblts
    perm = np.arange(n) if perm is None else np.asarray(perm)
    require(r.Nblts == n, f"{what}: {r.Nblts} records, {n} written")
    for k in ("Ntimes", "Nbls", "Nfreqs", "Npols", "Nspws", "Nants_data"):
        require(int(getattr(r, k)) == int(getattr(uv, k)),
                f"{what}: {k} {getattr(r, k)} != {getattr(uv, k)}")
    near(r.time_array, uv.time_array[perm], f"{what}: time_array", time_tol)
    lt = lst_tol or 1e-7
    d = angle_diff(r.lst_array, uv.lst_array[perm])
    require(np.max(d) <= lt, f"{what}: lst_array off by {np.max(d)}")
    same(r.ant_1_array, uv.ant_1_array[perm] + ant_offset, f"{what}: ant_1_array")
    same(r.ant_2_array, uv.ant_2_array[perm] + ant_offset, f"{what}: ant_2_array")
    if not ant_offset and "baseline_array" not in skip:
        same(r.baseline_array, uv.baseline_array[perm], f"{what}: baseline_array")
    ut = uvw_tol or (2e-7 * (1 + np.max(np.abs(uv.uvw_array))) if single else 1e-7)
    near(r.uvw_array, uv.uvw_array[perm], f"{what}: uvw_array", ut)
    it = inttime_rtol or (3e-7 if single else 1e-12)
    same(r.integration_time, uv.integration_time[perm], f"{what}: integration_time", it, 0)
    # channels, by frequency
    ch = []
    for i, f in enumerate(uv.freq_array):
        j = int(np.argmin(np.abs(r.freq_array - f)))
        require(abs(r.freq_array[j] - f) <= freq_tol, f"{what}: channel {i} at {f} Hz missing, "
                f"got {r.freq_array}")
        ch.append(j)
    require(len(set(ch)) == len(ch), f"{what}: channels {r.freq_array} for {uv.freq_array}")
    ch = np.array(ch)
    same(r.channel_width[ch], uv.channel_width, f"{what}: channel_width", width_rtol)
    # windows group the same channels
    wr = r.flex_spw_id_array[ch]
    m = {}
    for a, b in zip(uv.flex_spw_id_array.tolist(), wr.tolist()):
        require(m.setdefault(a, b) == b, f"{what}: channels of window {a} in different windows")
    require(len(set(m.values())) == len(m), f"{what}: windows merged")
    require(sorted(int(x) for x in r.spw_array) == sorted(set(wr.tolist())),
            f"{what}: spw_array {r.spw_array}, windows in use {sorted(set(wr.tolist()))}")
    # polarizations
    if pols is not None:
        same(r.polarization_array, pols, f"{what}: polarization_array")
    pp = []
    for p in uv.polarization_array:
        w = np.nonzero(r.polarization_array == p)[0]
        require(w.size == 1, f"{what}: polarization {p} in {r.polarization_array}")
        pp.append(int(w[0]))
    ix = np.ix_(np.arange(n), ch, np.array(pp))
    if r.data_array is not None:
        dr = data_rtol if data_rtol is not None else (3e-7 if single else 0)
        same(r.data_array[ix], uv.data_array[perm], f"{what}: data_array", dr, dr)
        wf = uv.flag_array[perm]
        if flag_zero_nsample:
            wf = wf | (uv.nsample_array[perm] == 0)
        same(r.flag_array[ix], wf, f"{what}: flag_array")
        if nsample:
            same(r.nsample_array[ix], uv.nsample_array[perm], f"{what}: nsample_array",
                 3e-7 if single else 0)
    # phase centers
    t0 = np.mean(uv.time_array)
    if cat_offset is not None:
        same(r.phase_center_id_array, uv.phase_center_id_array[perm] + cat_offset,
             f"{what}: phase_center_id_array")
    require(r.Nphase == len(r.phase_center_catalog), f"{what}: Nphase {r.Nphase}")
    for i in range(n):
        a = uv.phase_center_catalog[uv.phase_center_id_array[perm[i]]]
        b = r.phase_center_catalog.get(int(r.phase_center_id_array[i]))
        require(b is not None, f"{what}: record {i} points outside the catalog")
        if i and (r.phase_center_id_array[i], uv.phase_center_id_array[perm[i]]) == (
                r.phase_center_id_array[i - 1], uv.phase_center_id_array[perm[i - 1]]):
            continue
        require(a["cat_name"][:name_len] == b["cat_name"],
                f"{what}: record {i} is of {a['cat_name']!r}, read {b['cat_name']!r}")
        require(a["cat_type"] == b["cat_type"], f"{what}: cat_type {b['cat_type']}")
        if a["cat_type"] == "sidereal":
            sep = sky(a, t0).separation(sky(b, t0)).rad
            require(sep <= sky_tol, f"{what}: phase center {a} read as {b}, {sep} rad apart")
        elif a["cat_type"] == "ephem":
            same(b["cat_times"], a["cat_times"], f"{what}: cat_times", 0, 1e-7)
            same(b["cat_lon"], a["cat_lon"], f"{what}: cat_lon", 0, 1e-8)
            same(b["cat_lat"], a["cat_lat"], f"{what}: cat_lat", 0, 1e-8)
    for k in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
        if k in skip:
            continue
        x = angle_diff(getattr(r, k), getattr(uv, k)[perm])
        if k == "phase_center_app_ra":
            x = x * np.cos(uv.phase_center_app_dec[perm])
        if k == "phase_center_frame_pa":
            x = x * np.cos(uv.phase_center_app_dec[perm])
            # frames may be merged, which changes the position angle
            ok = np.array([uv.phase_center_catalog[c].get("cat_frame")
                           == r.phase_center_catalog[int(e)].get("cat_frame")
                           for c, e in zip(uv.phase_center_id_array[perm],
                                           r.phase_center_id_array)])
            x = x[ok]
        require(not x.size or np.max(x) <= app_tol, f"{what}: {k} off by {np.max(x)}")
    # telescope
    a, b = uv.telescope, r.telescope
    require(a.name == b.name, f"{what}: telescope name {b.name!r}")
    if "instrument" not in skip:
        require(a.instrument == b.instrument, f"{what}: instrument {b.instrument!r}")
    require(type(a.location).__name__ == type(b.location).__name__, f"{what}: location type")
    near(loc_xyz(b.location), loc_xyz(a.location), f"{what}: telescope location", loc_tol)
    if hasattr(a.location, "ellipsoid") and hasattr(a.location, "selenodetic"):
        require(a.location.ellipsoid == b.location.ellipsoid, f"{what}: ellipsoid")
    an = list(np.asarray(a.antenna_numbers) + ant_offset)
    bn = [int(x) for x in b.antenna_numbers]
    if "antorder" not in skip:
        require([int(x) for x in an] == bn, f"{what}: antenna numbers {bn}")
    for i, x in enumerate(an):
        require(int(x) in bn, f"{what}: antenna {x} missing")
        j = bn.index(int(x))
        require(str(a.antenna_names[i]) == str(b.antenna_names[j]),
                f"{what}: antenna {x} is named {b.antenna_names[j]!r}")
        near(b.antenna_positions[j], a.antenna_positions[i], f"{what}: antenna {x} position",
             antpos_tol)
        if a.antenna_diameters is not None and "diameters" not in skip:
            require(b.antenna_diameters is not None, f"{what}: diameters lost")
            same(b.antenna_diameters[j], a.antenna_diameters[i], f"{what}: diameter", diam_rtol)
    if a.antenna_diameters is None:
        require(b.antenna_diameters is None, f"{what}: diameters appeared")
    for k in ("x_orientation",):
        require(getattr(a, k) == getattr(b, k), f"{what}: {k} {getattr(b, k)!r}")
    for k in ("vis_units", "pol_convention"):
        if k not in skip:
            require(getattr(uv, k) == getattr(r, k), f"{what}: {k} {getattr(r, k)!r}")
    if blt_order_kept:
        x = None if r.blt_order is None else tuple(r.blt_order)
        y = None if uv.blt_order is None else tuple(uv.blt_order)
        require(x == y, f"{what}: blt_order {x}, written {y}")
    if fits:
        for k in ("dut1", "earth_omega", "gst0"):
            if getattr(uv, k) is not None:
                same(getattr(r, k), getattr(uv, k), f"{what}: {k}", 1e-9)
        if uv.rdate is not None:
            require(r.rdate == uv.rdate, f"{what}: rdate {r.rdate}")
    if "history" not in skip:
        h0, h1 = "".join(uv.history.split()), "".join(r.history.split())
        require(h1.startswith(h0), f"{what}: history {r.history[:100]!r}")
    if "extra" not in skip:
        want = uv.extra_keywords or {}
        if upper_keys:
            want = {str(k)[:8].upper(): v for k, v in want.items()}
        got = r.extra_keywords or {}
        require(set(want) == set(got), f"{what}: extra_keywords {got}, written {want}")
        for k, v in want.items():
            g = got[k]
            ok = np.isclose(g, v, rtol=1e-7) if isinstance(v, float) else g == v
            require(ok, f"{what}: extra_keywords[{k!r}] {g!r} != {v!r}")
            if "keytype" not in skip:
                require(isinstance(g, str) == isinstance(v, str), f"{what}: type of {k}")
