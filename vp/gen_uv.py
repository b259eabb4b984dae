"""Strategies of UVData specs (plain JSON values) and the builder from spec to object."""
import numpy as np
from hypothesis import strategies as st

LOCS = [
    # kind, lat deg, lon deg, alt m
    ("earth", -30.72152612068957, 21.42830382686301, 1051.69),
    ("earth", 34.0784, -107.6184, 2124.0),
    ("earth", 5.3, 179.2, 12.0),
    ("earth", 52.9, 6.6, 5.0),
    ("moon", 0.6875, 24.433, 0.0, "SPHERE"),
    ("moon", -11.0, 200.0, 50.0, "GRAIL23"),
]
EARTH = [i for i, v in enumerate(LOCS) if v[0] == "earth"]

POLSETS = [
    [-5], [-6], [-7], [-5, -6], [-5, -7], [-5, -6, -7, -8], [-8, -7, -6, -5],
    [-7, -5, -8, -6], [-1, -2], [-1, -2, -3, -4], [-3, -1], [1, 2, 3, 4], [1], [2, 1],
    [-6, -5], [-7, -8],
]
# polarisation sets closed under exchange of the two antennas
POLSETS_CLOSED = [
    p for p in POLSETS
    if all({-7: -8, -8: -7, -3: -4, -4: -3}.get(x, x) in p for x in p)
]
POLSETS_EVEN = [  # constant spacing, as FITS axes need
    [-5], [-6], [-7], [-5, -6], [-5, -6, -7, -8], [-8, -7, -6, -5], [-1, -2],
    [-1, -2, -3, -4], [1, 2, 3, 4], [1], [2, 1], [-6, -5], [-7, -8], [-5, -7],
]

ANTNUM_BLOCKS = [
    [0, 1, 2, 3, 4, 5, 6],
    [1, 2, 3, 5, 8, 13, 21],
    [10, 4, 7, 0, 2, 11, 9],
    [100, 250, 255, 256, 300, 12, 1],
    [2046, 2047, 3, 1000, 0, 511, 512],
    [2048, 2049, 5, 70000, 3000, 1, 0],
]


def chance(n):
    """True once in n, with False the simplest value."""
    return st.integers(0, n - 1).map(lambda x: x == n - 1)


def location(idx):
    import astropy.units as u
    from astropy.coordinates import EarthLocation

    v = LOCS[idx]
    if v[0] == "earth":
        return EarthLocation.from_geodetic(
            lat=v[1] * u.deg, lon=v[2] * u.deg, height=v[3] * u.m
        )
    from lunarsky import MoonLocation

    return MoonLocation.from_selenodetic(
        lat=v[1] * u.deg, lon=v[2] * u.deg, height=v[3] * u.m, ellipsoid=v[4]
    )


@st.composite
def tel_spec(draw, locs=None, min_ants=2, max_ants=5, blocks=None, xori=True,
             diam=True, extra_ants=True):
    blk = draw(st.sampled_from(blocks if blocks is not None else ANTNUM_BLOCKS))
    n = draw(st.integers(min_ants, min(max_ants, len(blk))))
    return {
        "loc": draw(st.sampled_from(locs if locs is not None else [0, 0, 0, 1, 2, 3, 4, 5])),
        "antnums": list(blk[:n]),
        "seed": draw(st.integers(0, 50)),
        "grid": draw(st.booleans()),
        "diam": draw(st.booleans()) if diam else False,
        "xori": draw(st.sampled_from([None, "east", "north"])) if xori else None,
        "names": draw(st.sampled_from(["num", "alpha"])),
    }


def enu_of(t):
    """East, north, up offsets of the antennas of a telescope spec."""
    rng = np.random.default_rng(t["seed"])
    n = len(t["antnums"])
    if t["grid"]:
        k = np.arange(n)
        return np.stack([14.0 * (k % 3), 14.0 * (k // 3), 0.0 * k], axis=1)
    enu = np.round(rng.uniform(-80, 80, size=(n, 3)) * [1, 1, 0.03], 3)
    enu[:, 0] += 7.0 * np.arange(n)
    return enu


def build_tel(t, name="verif", instrument="vinst"):
    from pyuvdata import Telescope

    rng = np.random.default_rng(t["seed"] + 1000)
    n = len(t["antnums"])
    loc = location(t["loc"])
    # ENU offsets, rotated to ECEF by our own rotation
    enu = enu_of(t)
    lat, lon = np.deg2rad(LOCS[t["loc"]][1]), np.deg2rad(LOCS[t["loc"]][2])
    sl, cl, sp, cp = np.sin(lon), np.cos(lon), np.sin(lat), np.cos(lat)
    rot = np.array([[-sl, -sp * cl, cp * cl], [cl, -sp * sl, cp * sl], [0, cp, sp]])
    ecef = enu @ rot.T
    if t["names"] == "num":
        names = [f"{a:03d}" for a in t["antnums"]]
    else:
        names = [f"A{chr(97 + i)}{a}" for i, a in enumerate(t["antnums"])]
    tel = Telescope.new(
        name=name, location=loc, antenna_positions=ecef,
        antenna_names=np.array(names), antenna_numbers=np.array(t["antnums"]),
        instrument=instrument, x_orientation=t["xori"],
        antenna_diameters=(np.round(rng.uniform(2, 30, n), 2) if t["diam"] else None),
    )
    return tel


@st.composite
def pc_spec(draw, types=("unprojected", "sidereal", "ephem", "driftscan")):
    ty = draw(st.sampled_from(list(types)))
    d = {"type": ty, "name": draw(st.sampled_from(["zen", "src", "fld_b", "J0000"]))}
    if ty == "unprojected":
        d["name"] = draw(st.sampled_from(["unprojected", "zen"]))
    elif ty == "sidereal":
        d["lon"] = draw(st.sampled_from([0.1, 1.3, 4.7, 6.2]))
        d["lat"] = draw(st.sampled_from([-0.5, 0.0, 0.6, -1.2]))
        d["frame"] = draw(st.sampled_from(["icrs", "icrs", "fk5", "gcrs", "fk4"]))
        d["pm"] = draw(st.booleans()) and d["frame"] == "icrs"
        d["dist"] = draw(st.booleans()) and d["frame"] in ("icrs",)
    elif ty == "ephem":
        d["lon"] = draw(st.sampled_from([0.2, 3.0]))
        d["lat"] = draw(st.sampled_from([-0.3, 0.4]))
    else:
        d["lon"] = draw(st.sampled_from([0.0, 2.0, 5.5]))
        d["lat"] = draw(st.sampled_from([1.0, 1.4]))
    return d


def pc_entry(p, t0, moon=False):
    if p["type"] == "unprojected":
        return {"cat_name": p["name"], "cat_type": "unprojected"}
    if p["type"] == "driftscan":
        return {"cat_name": p["name"], "cat_type": "driftscan", "cat_lon": p["lon"],
                "cat_lat": p["lat"], "cat_frame": "altaz"}
    if p["type"] == "ephem":
        tt = t0 + np.array([-0.5, 0.0, 0.5])
        return {
            "cat_name": p["name"], "cat_type": "ephem",
            "cat_lon": p["lon"] + np.array([0.0, 0.01, 0.02]),
            "cat_lat": p["lat"] + np.array([0.0, 0.005, 0.01]),
            "cat_times": tt, "cat_frame": "icrs",
        }
    d = {"cat_name": p["name"], "cat_type": "sidereal", "cat_lon": p["lon"],
         "cat_lat": p["lat"], "cat_frame": p["frame"]}
    if p["frame"] == "fk5":
        d["cat_epoch"] = 2000.0
    if p["frame"] == "fk4":
        d["cat_epoch"] = 1950.0
    if p.get("pm") and not moon:
        d["cat_pm_ra"] = 25.0
        d["cat_pm_dec"] = -12.5
        if p["frame"] == "icrs":
            d["cat_epoch"] = 2000.0
    if p.get("dist") and not moon:
        d["cat_dist"] = 120.0
    return d


@st.composite
def spw_spec(draw, max_spws=3, max_chan=5, regular=False, ids=None, min_chan=1,
             rev=True, min_spws=1, overlap=False):
    ns = draw(st.integers(min_spws, max_spws))
    idpool = ids if ids is not None else [0, 1, 2, 5, 7, 3]
    chosen = draw(st.permutations(idpool))[:ns]
    out = []
    f0 = 100e6 + 1e6 * draw(st.integers(0, 5)) + draw(st.sampled_from([0.0, 61035.15625, 33333.3]))
    for i in range(ns):
        n = draw(st.integers(min_chan, max_chan))
        w = draw(st.sampled_from([1e5, 97656.25, 133333.3]))
        out.append({
            "id": int(chosen[i]), "n": n, "w": w, "f0": f0,
            "rev": draw(st.booleans()) if rev else False,
            "irreg": (not regular) and draw(chance(4)),
        })
        if overlap and draw(chance(4)):
            f0 = out[0]["f0"]  # the next window covers the same frequencies
        else:
            f0 += n * w + 1e6 * draw(st.integers(1, 3))
    return out


def build_freqs(spws):
    fr, ids, cw = [], [], []
    for s in spws:
        f = s["f0"] + s["w"] * np.arange(s["n"])
        w = np.full(s["n"], s["w"])
        if s["irreg"] and s["n"] > 1:
            f = f + s["w"] * 0.25 * (np.arange(s["n"]) % 2)
            w = w * (1 + 0.5 * (np.arange(s["n"]) % 2))
        if s["rev"]:
            f, w = f[::-1], w[::-1]
        fr.append(f)
        ids.append(np.full(s["n"], s["id"], dtype=int))
        cw.append(w)
    return np.concatenate(fr), np.concatenate(ids), np.concatenate(cw)


EXTRA = [
    {}, {"foo": 3}, {"bar": 2.5, "word": "hello"}, {"flagk": True, "n": -7},
    {"comment": "a longer comment text\nwith two lines"}, {"cplx": 1.5},
]


@st.composite
def uv_spec(
    draw, locs=None, max_ants=5, max_times=4, polsets=None, max_spws=3, max_chan=4,
    regular_freq=False, pcs=("unprojected", "sidereal", "ephem", "driftscan"), max_pcs=3,
    conj_dups=True, layouts=("rect_t", "rect_b", "irr", "shuf"), flexpol=True,
    optional=True, blocks=None, min_chan=1, min_times=1, dup_pair=True, spw_ids=None,
    xori=True, vary_int=True, autos=True, spw_rev=True, single=None, min_pairs=1, min_ants=2,
    max_pairs=8, chan_shuffle=False, min_spws=1, spw_overlap=False,
):
    tel = draw(tel_spec(locs=locs, max_ants=max_ants, blocks=blocks, xori=xori,
                        min_ants=min_ants))
    n = len(tel["antnums"])
    allp = [[i, j] for i in range(n) for j in range(n)
            if (autos or i != j) and (conj_dups or i <= j)]
    order = draw(st.permutations(allp))
    k = draw(st.integers(min(min_pairs, len(allp)), min(len(allp), max_pairs)))
    pairs = list(order[:k])
    if not conj_dups and draw(st.booleans()):
        pairs = [[j, i] if draw(st.booleans()) else [i, j] for i, j in pairs]
    nt = draw(st.integers(min_times, max_times))
    lay = draw(st.sampled_from(list(layouts)))
    mask = None
    if lay == "irr":
        m = draw(st.lists(st.booleans(), min_size=nt * k, max_size=nt * k))
        if not any(m):
            m[0] = True
        mask = [int(x) for x in m]
    spws = draw(spw_spec(max_spws=max_spws, max_chan=max_chan, regular=regular_freq,
                         ids=spw_ids, min_chan=min_chan, rev=spw_rev, min_spws=min_spws,
                         overlap=spw_overlap))
    fp = bool(flexpol) and draw(chance(5))
    pols = draw(st.sampled_from(polsets if polsets is not None else POLSETS))
    npc = draw(st.integers(1, max_pcs))
    pcl = [draw(pc_spec(types=pcs)) for _ in range(npc)]
    spec = {
        "seed": draw(st.integers(0, 10**6)),
        "tel": tel, "pairs": [list(map(int, p)) for p in pairs], "nt": nt,
        "t0": draw(st.sampled_from([2457698.40355, 2458661.2348, 2456865.60537])),
        "dt": draw(st.sampled_from([2.1, 10.7, 10.0])),
        "layout": lay, "mask": mask,
        "spws": spws, "pols": list(pols), "flexpol": fp,
        "chanshuf": bool(chan_shuffle) and draw(chance(4)),
        "pcs": pcl,
        "pc_how": draw(st.sampled_from(["time", "blt"])) if npc > 1 else "time",
        "setrect": draw(st.booleans()),
        "vint": vary_int and draw(st.booleans()),
        "single": draw(st.booleans()) if single is None else single,
    }
    if optional:
        spec["opt"] = {
            "extra": draw(st.integers(0, len(EXTRA) - 1)),
            "eq": draw(st.sampled_from([None, None, "divide", "multiply"])),
            "scan": draw(st.booleans()),
            "units": draw(st.sampled_from(["uncalib", "Jy", "K str"])),
            "polconv": draw(st.sampled_from([None, "sum", "avg"])),
            "fits": draw(st.booleans()),
        }
    return spec


def blt_layout(spec):
    """(time index, pair index) of every blt, in order."""
    nt, k = spec["nt"], len(spec["pairs"])
    if spec["layout"] == "rect_b":
        tb = [(t, b) for b in range(k) for t in range(nt)]
    else:
        tb = [(t, b) for t in range(nt) for b in range(k)]
    if spec["layout"] == "irr":
        tb = [x for x, m in zip(tb, spec["mask"]) if m]
    tb = np.array(tb)
    if spec["layout"] in ("irr", "shuf"):
        rng = np.random.default_rng(spec["seed"] + 17)
        tb = tb[rng.permutation(len(tb))]
    return tb


def build_uv(spec, meta_only=False):
    from pyuvdata import UVData

    rng = np.random.default_rng(spec["seed"])
    tel = build_tel(spec["tel"])
    an = np.array(spec["tel"]["antnums"])
    tb = blt_layout(spec)
    times = spec["t0"] + np.arange(spec["nt"]) * spec["dt"] / 86400.0
    times = np.round(times, 8)
    pairs = np.array(spec["pairs"])
    time_array = times[tb[:, 0]]
    antpairs = an[pairs[tb[:, 1]]]
    freqs, ids, cw = build_freqs(spec["spws"])
    if spec.get("chanshuf"):
        pm = rng.permutation(freqs.size)
        freqs, ids, cw = freqs[pm], ids[pm], cw[pm]
    inttime = np.full(len(tb), spec["dt"])
    if spec["vint"]:
        inttime = spec["dt"] * (1 + (tb[:, 1] % 3)).astype(float)
    cat, pcid = {}, np.zeros(len(tb), dtype=int)
    base_ids = [0, 4, 1]
    used = []
    for i, p in enumerate(spec["pcs"]):
        e = pc_entry(p, spec["t0"], LOCS[spec["tel"]["loc"]][0] == "moon")
        same = [k for k, v in cat.items() if v["cat_name"] == e["cat_name"]]
        if same:
            e["cat_name"] = e["cat_name"] + f"_{i}"
        cat[base_ids[i]] = e
        used.append(base_ids[i])
    if spec["pc_how"] == "time":
        pcid = np.array(used)[tb[:, 0] % len(used)]
    else:
        pcid = np.array(used)[(tb[:, 0] + tb[:, 1]) % len(used)]
    for k in list(cat):
        if k not in pcid:
            del cat[k]
    flexpol = spec["flexpol"]
    pols = [spec["pols"][0]] if flexpol else spec["pols"]
    shape = (len(tb), freqs.size, len(pols))
    data = (rng.normal(size=shape) + 1j * rng.normal(size=shape)).astype(np.complex64)
    flags = rng.random(size=shape) < 0.25
    nsamp = rng.integers(0, 9, size=shape).astype(np.float32) / 4
    if not spec["single"]:
        data = data.astype(np.complex128)
        nsamp = nsamp.astype(np.float64)
    kw = {}
    opt = spec.get("opt")
    if opt:
        kw["extra_keywords"] = dict(EXTRA[opt["extra"]])
        kw["vis_units"] = opt["units"]
        if opt["polconv"] and opt["units"] != "uncalib":
            kw["pol_convention"] = opt["polconv"]
    uv = UVData.new(
        freq_array=freqs, channel_width=cw, flex_spw_id_array=ids,
        polarization_array=np.array(pols), times=time_array, antpairs=antpairs,
        do_blt_outer=False, integration_time=inttime, telescope=tel,
        phase_center_catalog=cat, phase_center_id_array=pcid,
        data_array=data, flag_array=flags, nsample_array=nsamp, **kw,
    )
    if np.unique(ids).size != len(spec["spws"]):
        raise ValueError("bad spec")
    # spw_array in order of appearance of the spec
    uv.spw_array = np.array([s["id"] for s in spec["spws"]])
    if flexpol:
        uv.polarization_array = np.array([0])
        pl = spec["pols"]
        uv.flex_spw_polarization_array = np.array(
            [pl[i % len(pl)] for i in range(len(spec["spws"]))]
        )
    if opt:
        if opt["eq"]:
            uv.eq_coeffs = np.round(
                rng.uniform(0.5, 2.0, size=(len(an), freqs.size)), 4
            )
            uv.eq_coeffs_convention = opt["eq"]
        if opt["scan"]:
            uv.scan_number_array = 1 + (tb[:, 0] // 2)
        if opt["fits"]:
            uv.dut1 = 0.25
            uv.earth_omega = 360.985
            uv.gst0 = 12.5
            uv.rdate = "2018-01-01"
            uv.timesys = "UTC"
    if spec.get("setrect"):
        uv.set_rectangularity(force=True)
    if meta_only:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    return uv


def real_autos(uv):
    """Files refuse autos with imaginary parts in parallel polarizations."""
    m = uv.ant_1_array == uv.ant_2_array
    uv.data_array[m] = uv.data_array[m].real
    return uv
