"""C24: coordinate, baseline-number and polarization conversions."""

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import build_tel, chance, tel_spec

P = Prop(
    "C24",
    "positions anywhere near the Earth and Moon surface (poles, meridian and equator included), "
    "antenna numbers over the whole supported range with emphasis on the limits of the numbering "
    "conventions, every polarization and Jones name and spelling; scalars, lists and arrays; "
    "non-trivial: more than one value.",
    ["baseline numbers mix conventions only as the encoder itself produces them",
     "the MIRIAD convention is used with ant1 <= ant2, numbered from 1, as in MIRIAD"],
)


# ------------------------------------------------------------------ positions
ANG = [0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, np.pi / 4, 1e-9, np.pi / 2 - 1e-7, -1.5]
ELL = ["SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"]


@st.composite
def pos_case(draw):
    n = draw(st.integers(1, 5))
    lat = st.one_of(st.floats(-np.pi / 2, np.pi / 2), st.sampled_from([a for a in ANG if abs(a) < 1.6]))
    lon = st.one_of(st.floats(-np.pi, np.pi), st.sampled_from(ANG))
    alt = st.one_of(st.floats(-500, 8000), st.sampled_from([0.0, 1000.0]))
    enu = st.floats(-4000, 4000)
    return {
        "body": draw(st.sampled_from(["earth", "earth", "moon"])), "ell": draw(st.sampled_from(ELL)),
        "pts": [[draw(lat), draw(lon), draw(alt)] for _ in range(n)],
        "ctr": [draw(lat), draw(lon), draw(alt)],
        "enu": [[draw(enu), draw(enu), draw(st.floats(-500, 500))] for _ in range(n)],
        "rot": draw(lon), "form": draw(st.sampled_from(["array", "list", "one", "fortran"])),
        "ctrform": draw(st.sampled_from(["loc", "lla"])), "case": draw(st.booleans()),
        "bad": draw(chance(10)), "snap": draw(st.booleans()),
    }


def ref_xyz(lat, lon, alt, body, ell):
    """Geocentric position from astropy / lunarsky."""
    import astropy.units as u

    if body == "earth":
        from astropy.coordinates import EarthLocation

        loc = EarthLocation.from_geodetic(lon=lon * u.rad, lat=lat * u.rad, height=alt * u.m)
    else:
        from lunarsky import MoonLocation

        loc = MoonLocation.from_selenodetic(lon=lon * u.rad, lat=lat * u.rad, height=alt * u.m,
                                            ellipsoid=ell)
    return loc, np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])


def ref_enu(xyz, ctr, lat, lon):
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    n = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    d = np.asarray(xyz) - ctr
    return np.stack([d @ e, d @ n, d @ u], axis=-1)


@P.sub("positions", pos_case, 2500)
def positions(case):
    from pyuvdata import utils

    body, ell = case["body"], case["ell"]
    pts = np.array(case["pts"])
    if case["form"] == "one":
        pts = pts[:1]
    frame = {"earth": "ITRS", "moon": "MCMF"}[body]
    if case["case"]:
        frame = frame.lower()
    kw = {"frame": frame}
    if body == "moon":
        kw["ellipsoid"] = ell
    want = np.array([ref_xyz(*p, body, ell)[1] for p in pts])
    if case["snap"]:
        # exactly on the pole, a meridian or the equator
        want[np.abs(want) < 1e-6] = 0.0
    what = f"{body} {case['form']} {pts.tolist()}"

    def give(a):
        if case["form"] == "one":
            return a[0]
        if case["form"] == "list":
            return a.tolist()
        if case["form"] == "fortran":
            return np.asfortranarray(a)
        return a

    xyz = utils.XYZ_from_LatLonAlt(*(give(pts[:, i]) for i in range(3)), **kw)
    same(np.reshape(xyz, (-1, 3)), want, f"XYZ_from_LatLonAlt {what}", atol=1e-3)
    lla = utils.LatLonAlt_from_XYZ(give(want), **kw)
    for i in range(3):
        require(np.ndim(lla[i]) == (0 if case["form"] == "one" else 1), f"LatLonAlt_from_XYZ {what}: shape")
    back = np.array([ref_xyz(*p, body, ell)[1] for p in np.stack([np.atleast_1d(v) for v in lla], 1)])
    same(back, want, f"LatLonAlt_from_XYZ {what} -> {lla}", atol=1e-3)
    rt = utils.XYZ_from_LatLonAlt(*lla, **kw)
    same(np.reshape(rt, (-1, 3)), want, f"geocentric to geodetic and back, {what}", atol=1e-3)
    one = [utils.LatLonAlt_from_XYZ(w, **kw) for w in want]
    same(np.array(one).T, np.array([np.atleast_1d(v) for v in lla]), f"LatLonAlt_from_XYZ one at a time, {what}")
    # rotation about the pole
    r = utils.rotECEF_from_ECEF(want, case["rot"])
    c, s = np.cos(case["rot"]), np.sin(case["rot"])
    exp = np.stack([c * want[:, 0] + s * want[:, 1], -s * want[:, 0] + c * want[:, 1], want[:, 2]], 1)
    same(r, exp, f"rotECEF_from_ECEF by {case['rot']}", atol=1e-6)
    same(utils.ECEF_from_rotECEF(r, case["rot"]), want, f"rotated and back by {case['rot']}", atol=1e-6)
    same(utils.rotECEF_from_ECEF(want[0], case["rot"]), exp[0], "rotECEF_from_ECEF of one", atol=1e-6)
    # local frame
    lat, lon, alt = case["ctr"]
    loc, ctr = ref_xyz(lat, lon, alt, body, ell)
    if case["ctrform"] == "loc":
        ck = {"center_loc": loc}
    else:
        ck = {"latitude": lat, "longitude": lon, "altitude": alt, **kw}
    enu = np.array(case["enu"])
    if case["form"] == "one":
        enu = enu[:1]
    x = utils.ECEF_from_ENU(give(enu), **ck)
    require(np.shape(x) == ((3,) if case["form"] == "one" else enu.shape), f"ECEF_from_ENU shape {np.shape(x)}")
    same(ref_enu(np.reshape(x, (-1, 3)), ctr, lat, lon), enu, f"ECEF_from_ENU {what} at {case['ctr']}", atol=1e-3)
    e = utils.ENU_from_ECEF(give(np.reshape(x, (-1, 3))), **ck)
    same(np.reshape(e, (-1, 3)), enu, f"local to geocentric and back, {what} at {case['ctr']}", atol=1e-6)
    if case["bad"]:
        for bad in (want * 1.1, want * 0.5):
            for fn, k in ((utils.LatLonAlt_from_XYZ, kw), (utils.ENU_from_ECEF, ck)):
                try:
                    fn(bad, **k)
                except ValueError:
                    continue
                fail(f"{fn.__name__} accepted positions far from the surface of the {body}")
    label(body, case["form"])
    nontrivial(len(pts) > 1)


@st.composite
def rot_case(draw):
    n = draw(st.integers(1, 5))
    return {"xyz": [[draw(st.floats(-1, 1)) for _ in range(3)] for _ in range(n)],
            "a1": draw(st.floats(-7, 7)), "a2": draw(st.floats(-7, 7)),
            "ax1": draw(st.integers(0, 2)), "ax2": draw(st.integers(0, 2)),
            "arr": draw(st.booleans()), "lon": draw(st.floats(-7, 7)), "lat": draw(st.floats(-1.57, 1.57)),
            "one": draw(st.booleans()), "tel": draw(tel_spec())}


def rmat(a, ax):
    c, s = np.cos(a), np.sin(a)
    m = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = -s, s
    return m


@P.sub("rotations", rot_case, 900)
def rotations(case):
    from pyuvdata.utils import phasing

    v = np.array(case["xyz"])
    n = len(v)
    a1, a2, x1, x2 = case["a1"], case["a2"], case["ax1"], case["ax2"]
    # a rotation and its inverse; one or two axes; one amount for all vectors or one for each
    if case["arr"]:
        A1, A2 = a1 + np.arange(n), a2 * np.ones(n)
        vin = v[:, :, None].copy()
    else:
        A1, A2 = a1, a2
        vin = v.T.copy()

    def out(r):
        return np.reshape(r, (n, 3)) if case["arr"] else np.reshape(r, (3, n)).T

    keep = vin.copy()
    r = phasing._rotate_one_axis(vin, rot_amount=A1, rot_axis=x1)
    exp = np.stack([rmat(a, x1) @ p for a, p in zip(np.broadcast_to(A1, n), v)])
    same(out(r), exp, f"rotation by {A1} about {x1}", atol=1e-12)
    b = phasing._rotate_one_axis(np.array(r), rot_amount=-A1, rot_axis=x1)
    same(out(b), v, f"rotated back by {A1} about {x1}", atol=1e-12)
    r2 = phasing._rotate_two_axis(vin, rot_amount1=A1, rot_amount2=A2, rot_axis1=x1, rot_axis2=x2)
    exp = np.stack([rmat(p2, x2) @ rmat(p1, x1) @ p for p1, p2, p in
                    zip(np.broadcast_to(A1, n), np.broadcast_to(A2, n), v)])
    same(out(r2), exp, f"rotation by {A1} about {x1}, {A2} about {x2}", atol=1e-12)
    same(vin, keep, "rotations: the input")
    # polar to cartesian and back
    lon, lat = case["lon"], case["lat"]
    if not case["one"]:
        lon, lat = lon + np.arange(n), np.clip(lat + 0.1 * np.arange(n), -1.57, 1.57)
    c = phasing.polar2_to_cart3(lon_array=lon, lat_array=lat)
    exp = np.array([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat) + 0 * np.asarray(lon)])
    same(c, exp, "polar2_to_cart3", atol=1e-14)
    lo, la = phasing.cart3_to_polar2(c)
    d = np.mod(np.asarray(lo) - lon + np.pi, 2 * np.pi) - np.pi
    require(np.all(np.abs(d * np.cos(lat)) < 1e-12), f"cart3_to_polar2: longitude off by {d}")
    same(la, lat, "cart3_to_polar2: latitude", atol=1e-9)
    require(np.all(np.asarray(lo) >= 0) and np.all(np.asarray(lo) <= 2 * np.pi), "longitude out of [0, 2 pi]")
    # local positions of a telescope's antennas
    tel = build_tel(case["tel"])
    from vp.cmp import loc_xyz

    loc = tel.location
    la, lo = loc.lat.rad, loc.lon.rad
    want = ref_enu(tel.antenna_positions, 0.0, la, lo)
    same(tel.get_enu_antpos(), want, "get_enu_antpos", atol=2e-3)
    require(np.all(np.isfinite(loc_xyz(loc))), "location")
    label("rot")
    nontrivial(n > 1)


# ------------------------------------------------------------------ sidereal time
@st.composite
def lst_case(draw):
    n = draw(st.integers(1, 6))
    base = draw(st.floats(2445000.0, 2460500.0))
    step = st.one_of(st.floats(0, 1.2), st.sampled_from([0.0, 0.0, 10 / 86400, 0.5]))
    return {"jd": [base + draw(step) for _ in range(n)], "body": draw(st.sampled_from(["earth"] * 4 + ["moon"])),
            "lla": [draw(st.floats(-1.55, 1.55)), draw(st.floats(-np.pi, np.pi)), draw(st.floats(0, 3000))],
            "form": draw(st.sampled_from(["loc", "lla", "tuple"])),
            "lib": draw(st.sampled_from([None, "erfa", "astropy"]))}


@P.sub("sidereal", lst_case, 300)
def sidereal(case):
    import astropy.units as u
    from astropy.time import Time

    from pyuvdata import utils

    jd = np.array(case["jd"])
    body, lib = case["body"], case["lib"]
    lat, lon, alt = case["lla"]
    loc, _ = ref_xyz(lat, lon, alt, body, "SPHERE")
    if body == "moon":
        from lunarsky import Time

        lib = None if lib == "erfa" else lib
    # (the interface takes degrees here)
    deg = (np.degrees(lat), np.degrees(lon), alt)
    fk = {"frame": "mcmf"} if body == "moon" else {}
    kw = {"loc": {"telescope_loc": loc}, "tuple": {"telescope_loc": deg, **fk},
          "lla": {"latitude": deg[0], "longitude": deg[1], "altitude": deg[2], **fk}}[case["form"]]
    keep = jd.copy()
    got = utils.get_lst_for_time(jd, astrometry_library=lib, **kw)
    what = f"LST at {case['jd']} {body} {case['lla']} {case['form']} {lib}"
    require(np.shape(got) == jd.shape, f"{what}: shape {np.shape(got)}")
    require(np.array_equal(jd, keep), f"{what}: changed its input")
    require(np.all(got >= 0) and np.all(got < 2 * np.pi), f"{what}: out of range {got}")
    want = np.array([Time(t, format="jd", scale="utc", location=loc).sidereal_time("apparent").to_value(u.rad)
                     for t in case["jd"]])
    d = np.mod(got - want + np.pi, 2 * np.pi) - np.pi
    require(np.all(np.abs(d) < 1e-7), f"{what}: {got}, expected {want}")
    one = np.array([utils.get_lst_for_time(np.array([t]), astrometry_library=lib, **kw)[0] for t in case["jd"]])
    d = np.mod(got - one + np.pi, 2 * np.pi) - np.pi
    require(np.all(np.abs(d) < 1e-9), f"{what}: {got}, one at a time {one}")
    label(body, case["form"])
    nontrivial(len(set(case["jd"])) > 1)


# ------------------------------------------------------------------ baselines
EDGE = [0, 1, 2, 127, 254, 255, 256, 257, 511, 512, 1023, 2046, 2047, 2048, 2049, 4096, 65535, 65536,
        70000, 2**31 - 2, 2**31 - 1]


@st.composite
def bl_case(draw):
    top = draw(st.sampled_from([255, 256, 2047, 2048, 2**31 - 1]))
    num = st.one_of(st.integers(0, top), st.sampled_from([e for e in EDGE if e <= top]))
    prs = draw(st.lists(st.tuples(num, num).map(list), min_size=1, max_size=8))
    return {"pairs": prs, "nants": draw(st.sampled_from([3, 256, 2048, 2049, 100000])),
            "conv": draw(st.sampled_from(["default", "default", "256", "miriad"])),
            "form": draw(st.sampled_from(["array", "int32", "list", "tuple", "strided"])),
            "mix": draw(st.booleans()),
            "bad": draw(st.sampled_from([None] * 5 + ["neg", "big", "nants", "blneg", "blbig", "len"]))}


@P.sub("baselines", bl_case, 3000)
def baselines(case):
    from pyuvdata import utils

    a1 = np.array([p[0] for p in case["pairs"]], dtype=np.int64)
    a2 = np.array([p[1] for p in case["pairs"]], dtype=np.int64)
    n = case["nants"]
    kw = {"Nants_telescope": n}
    conv = case["conv"]
    if conv == "256":
        kw["attempt256"] = True
    elif conv == "miriad":
        if max(a1.max(), a2.max()) > 2046:
            return label("outside MIRIAD")
        kw["use_miriad_convention"] = True
        a1, a2 = np.minimum(a1, a2) + 1, np.maximum(a1, a2) + 1

    def give(a):
        if case["form"] == "int32":
            return a.astype(np.int32)
        if case["form"] == "list":
            return a.tolist()
        if case["form"] == "tuple":
            return tuple(a.tolist())
        if case["form"] == "strided":
            return np.repeat(a, 2)[::2]
        return a

    what = f"{list(zip(a1.tolist(), a2.tolist()))} with {n} antennas, {conv}"
    bad = case["bad"]
    if bad:
        calls = {
            "neg": lambda: utils.antnums_to_baseline(-1 - a1, a2, **kw),
            "big": lambda: utils.antnums_to_baseline(a1, a2 + 2**31, **kw),
            "nants": lambda: utils.antnums_to_baseline(a1, a2, Nants_telescope=2**31 + 1),
            "blneg": lambda: utils.baseline_to_antnums(-1 - a1, Nants_telescope=n),
            "blbig": lambda: utils.baseline_to_antnums(a1 + 4611686018498691073, Nants_telescope=n),
            "len": lambda: utils.antnums_to_baseline(np.append(a1, [1, 2]), a2, **kw),
        }
        try:
            out = calls[bad]()
        except ValueError:
            return label("refused")
        fail(f"{what}: accepted input outside the range ({bad}): {out}")
    bl = utils.antnums_to_baseline(give(a1), give(a2), **kw)
    require(isinstance(bl, np.ndarray) and bl.shape == a1.shape, f"{what}: {bl!r}")
    # the documented numbers
    m = max(a1.max(), a2.max())
    big = 2**31 * a1.astype(object) + a2 + 2**16 + 2**22
    mid = 2048 * a1 + a2 + 2**16
    small = 256 * a1 + a2
    if conv == "miriad":
        want = [int(s) if q < 256 else int(x) for s, x, q in zip(small, mid, a2)]
    elif conv == "256" and m < 256:
        want = small.tolist()
    elif m < 2048 and n <= 2048:
        want = mid.tolist()
    else:
        want = [int(x) for x in big]
    require([int(x) for x in bl] == want, f"{what}: baselines {bl.tolist()}, expected {want}")
    prs = list(zip(a1.tolist(), a2.tolist()))
    require(len(set(want)) == len(set(prs)), f"{what}: two pairs share a number")
    back = utils.baseline_to_antnums(give(bl) if case["form"] != "int32" else bl, Nants_telescope=n)
    require(list(zip(back[0].tolist(), back[1].tolist())) == prs, f"{what}: back to {back} from {want}")
    one = [utils.baseline_to_antnums(b, Nants_telescope=n) for b in want]
    require(one == prs, f"{what}: one at a time back to {one}")
    require(all(type(x) is int for p in one for x in p), f"{what}: not plain integers")
    if conv == "miriad" or conv == "default" and (n > 2048 or m < 2048):
        single = [utils.antnums_to_baseline(int(p), int(q), **kw) for p, q in prs]
        require(single == want, f"{what}: one at a time {single}, expected {want}")
    # conventions mixed in one array
    if case["mix"]:
        parts = [small.tolist() if m < 256 else [], mid.tolist() if m < 2048 else [], [int(x) for x in big]]
        if conv != "miriad":
            allb = np.array([b for p in parts for b in p], dtype=np.int64)
            exp = prs * sum(1 for p in parts if p)
            got = utils.baseline_to_antnums(allb, Nants_telescope=n)
            require(list(zip(got[0].tolist(), got[1].tolist())) == exp,
                    f"{what}: numbers of several conventions decoded to {got}, expected {exp}")
    if conv == "default":
        fl = utils.bls.baseline_index_flip(bl, Nants_telescope=n)
        fb = utils.baseline_to_antnums(fl, Nants_telescope=n)
        require(list(zip(fb[1].tolist(), fb[0].tolist())) == prs, f"{what}: flipped {fb}")
    label(conv, "top%d" % (0 if m < 256 else 1 if m < 2048 else 2))
    nontrivial(len(prs) > 1)


# ------------------------------------------------------------------ polarizations
PN = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy",
      -7: "xy", -8: "yx"}
CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}
XM = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}


def name(num, xo, jones=False):
    s = PN[num]
    if xo and s[0] in "xy":
        s = "".join(XM[xo][c] for c in s)
    return "J" + s if jones else s


@st.composite
def pol_case(draw):
    jones = draw(st.booleans())
    nums = [x for x in PN if not (jones and x > 0)]
    return {"jones": jones, "nums": draw(st.lists(st.sampled_from(nums), min_size=1, max_size=6)),
            "xo": draw(st.sampled_from([None, "east", "north", "East", "E", "ns", "EW", "n"])),
            "form": draw(st.sampled_from(["one", "list", "tuple", "array", "int32"])),
            "up": draw(st.sampled_from(["asis", "upper", "lower"])), "bad": draw(chance(8)),
            "order": draw(st.sampled_from(["AIPS", "CASA"])), "mutate": draw(st.booleans()),
            "uniq": draw(st.permutations(list(range(1, 5)) + list(range(-8, 0))))}


def form(v, how):
    if how == "one":
        return v[0]
    if how == "array":
        return np.array(v)
    if how == "int32":
        return np.array(v, dtype=np.int32) if isinstance(v[0], int) else np.array(v)
    return tuple(v) if how == "tuple" else list(v)


def spell(s, how):
    return s.upper() if how == "upper" else s.lower() if how == "lower" else s


@P.sub("polarizations", pol_case, 2500)
def polarizations(case):
    from pyuvdata import utils

    xo = case["xo"]
    key = None if xo is None else {"e": "east", "ew": "east", "n": "north", "ns": "north"}.get(
        xo.lower(), xo.lower())
    nums = case["nums"]
    j = case["jones"]
    n2s, s2n = (utils.jnum2str, utils.jstr2num) if j else (utils.polnum2str, utils.polstr2num)
    parse = utils.parse_jpolstr if j else utils.parse_polstr
    strs = [name(x, key, j) for x in nums]
    fm = case["form"]
    what = f"{nums} x_orientation={xo} {fm}"
    one = fm == "one"
    for rep in range(2):
        got = n2s(form(nums, fm), x_orientation=xo)
        require(got == (strs[0] if one else strs), f"{what}: names {got}, expected {strs}")
        arg = [spell(s, case["up"]) for s in strs]
        b = s2n(form(arg, fm), x_orientation=xo)
        require((b if one else list(b)) == (nums[0] if one else nums), f"{what}: back to {b}")
        p = parse(form(arg, fm), x_orientation=xo)
        require(p == (strs[0] if one else strs), f"{what}: parsed {p}, expected {strs}")
        # the plain names are understood with any orientation
        plain = [name(x, None, j) for x in nums]
        require(list(s2n(tuple(plain), x_orientation=xo)) == nums, f"{what}: plain names")
        if case["mutate"] and not one:
            # what the caller does with a result does not change later results
            for r in (got, b, p):
                if isinstance(r, list):
                    r.append(99)
        else:
            break
    if not j:
        c = utils.conj_pol(form(nums, fm))
        exp = [CONJ.get(x, x) for x in nums]
        require((c if one else list(c)) == (exp[0] if one else exp), f"{what}: conjugates {c}")
        cs = utils.conj_pol(form([spell(name(x, key), case["up"]) for x in nums], fm))
        es = [name(x, key) for x in exp]
        require((cs if one else list(cs)) == (es[0] if one else es), f"{what}: conjugate names {cs}")
        u = sorted(set(nums), key=nums.index)
        closed = all(CONJ.get(x, x) in u for x in u)
        try:
            o = utils.pol.reorder_conj_pols(u)
            require(closed, f"{u}: conjugate order of an incomplete set {o}")
            require([u[i] for i in o] == [CONJ.get(x, x) for x in u], f"{u}: conjugate order {o}")
        except ValueError:
            require(not closed, f"{u}: conjugate order refused")
        # orders
        fam = [x for x in case["uniq"] if (x > 0) == (nums[0] > 0) and (x < -4) == (nums[0] < -4)]
        idx = utils.pol.determine_pol_order(np.array(fam), order=case["order"])
        got = [fam[i] for i in idx]
        casa = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]
        exp = sorted(fam, key=abs) if case["order"] == "AIPS" else sorted(fam, key=casa.index)
        require(got == exp, f"{case['order']} order of {fam}: {got}")
    if case["bad"]:
        for call in (lambda: s2n("zz"), lambda: s2n("ee"), lambda: n2s(0), lambda: n2s(-9),
                     lambda: s2n(["xx", "qq"]), lambda: n2s("xx")):
            try:
                r = call()
            except (KeyError, ValueError):
                continue
            fail(f"accepted an unknown polarization: {r}")
        if key:
            for call in (lambda: utils.x_orientation_pol_map("up"),):
                try:
                    call()
                except ValueError:
                    continue
                fail("accepted an unknown orientation")
    label("jones" if j else "pol", fm)
    nontrivial(len(nums) > 1)


