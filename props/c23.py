"""C23: UVBeam interpolation, conversion and normalisation."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_beam import FREQP, basics, beam_spec, build_beam, check_beam, same_beam, take
from vp.gen_uv import chance

P = Prop(
    "C23",
    "Azimuth/zenith-angle beams (periodic azimuth grids, with both 0 and 360 degrees, with a column missing, or "
    "partial) and full-sky HEALPix beams (either ordering), E-field or power, interpolated at their own samples, "
    "between them (smooth analytic beams), in any grouping and order, with saved splines across arbitrary "
    "histories of edits, onto grids, HEALPix and frequencies; conversion to power and pseudo-Stokes, peak "
    "normalisation and beam areas; non-trivial: at least two query points or frequencies.",
    ["basis vectors aligned with the grid for interpolation (others are refused)",
     "accuracy between samples is judged on smooth beams only",
     "changing single elements of data_array by hand while reusing splines is outside the property"],
)
POLN = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}
PN = {v: k for k, v in POLN.items()} | {1: "pI", 2: "pQ", 3: "pU", 4: "pV"}


@st.composite
def grid_spec(draw, css=("az_za", "az_za", "az_za", "healpix"), smooth=None, min_freqs=1):
    bt = draw(st.sampled_from(["efield", "power"]))
    return {"cs": draw(st.sampled_from(list(css))), "type": bt, "naz": draw(st.integers(24, 36)),
            "nza": draw(st.integers(10, 19)),
            "az": draw(st.sampled_from(["full", "full", "both", "miss", "part", "off"])),
            "zamax": draw(st.sampled_from([90, 180])), "nf": draw(st.integers(min_freqs, 5)),
            "feeds": draw(st.sampled_from([["x"], ["x", "y"], ["y", "x"]])),
            "pols": draw(st.sampled_from([[-5], [-5, -6], [-6, -5, -7], [1, 2, 3, 4], [-5, -6, -7, -8]])),
            "nside": draw(st.sampled_from([8, 16])), "order": draw(st.sampled_from(["ring", "nested"])),
            "smooth": draw(st.booleans()) if smooth is None else smooth, "seed": draw(st.integers(0, 10**6)),
            "frev": draw(chance(5)), "keep": bt == "power" and draw(chance(4)),
            "fdeg": draw(st.integers(0, 3)), "phased": bt == "efield" and draw(chance(6))}


def field(spec):
    """Coefficients of the smooth beam: value(az, za, t) with t the scaled frequency."""
    rng = np.random.default_rng(spec["seed"] + 5)
    nv = 2 if spec["type"] == "efield" or spec["keep"] else 1
    npol = len(spec["feeds"] if spec["type"] == "efield" else spec["pols"])
    cplx = spec["type"] == "efield" or any(p in (-7, -8) for p in spec["pols"])
    c = rng.uniform(-1, 1, (nv, npol, 4, 4)) + (1j * rng.uniform(-1, 1, (nv, npol, 4, 4)) if cplx else 0)
    c[:, :, :, spec["fdeg"] + 1:] = 0

    def val(az, za, t):
        az, za = np.broadcast_arrays(az, za)
        terms = np.stack([np.ones(az.shape), np.cos(za), np.sin(za) * np.cos(az), np.sin(za) * np.sin(az)])
        pw = np.stack([np.ones_like(t), t, t**2, t**3])
        return np.einsum("vpab,a...,bf->vpf...", c, terms, pw)

    return val


def tscale(f):
    return (np.asarray(f) - 1e8) / 2e6


def build(spec):
    from pyuvdata import UVBeam

    rng = np.random.default_rng(spec["seed"])
    b = UVBeam()
    basics(b)
    b.Nfreqs = spec["nf"]
    b.freq_array = 1e8 + 1e6 * np.arange(spec["nf"], dtype=float)
    if spec["frev"]:
        b.freq_array = b.freq_array[::-1].copy()
    b.bandpass_array = rng.uniform(1, 2, spec["nf"])
    b.pixel_coordinate_system = spec["cs"]
    if spec["cs"] == "healpix":
        from astropy_healpix import HEALPix

        b.nside, b.ordering = spec["nside"], spec["order"]
        b.Npixels = 12 * spec["nside"] ** 2
        b.pixel_array = np.arange(b.Npixels)
        lon, lat = HEALPix(nside=spec["nside"], order=spec["order"]).healpix_to_lonlat(b.pixel_array)
        az, za = lon.rad, np.pi / 2 - lat.rad
    else:
        n, d = spec["naz"], 2 * np.pi / spec["naz"]
        n = {"full": n, "both": n + 1, "miss": n - 1, "part": n // 2, "off": n}[spec["az"]]
        b.axis1_array = d * np.arange(n) - (np.pi if spec["az"] == "off" else 0)
        b.axis2_array = np.linspace(0, np.deg2rad(spec["zamax"]), spec["nza"])
        b.Naxes1, b.Naxes2 = n, spec["nza"]
        az, za = np.meshgrid(b.axis1_array, b.axis2_array)
    b.Naxes_vec = 2 if spec["type"] == "efield" or spec["keep"] else 1
    val = field(spec)(az, za, tscale(b.freq_array))
    if not spec["smooth"]:
        noise = rng.normal(size=val.shape) + (1j * rng.normal(size=val.shape) if np.iscomplexobj(val) else 0)
        if spec["cs"] != "healpix" and spec["az"] == "both":
            noise[..., -1] = noise[..., 0]
        val = noise
    if b.Naxes_vec == 2:
        b.Ncomponents_vec = 2
        bv = np.zeros((2, 2) + az.shape)
        bv[0, 0] = bv[1, 1] = 1
        b.basis_vector_array = bv
    if spec["type"] == "efield":
        b.feed_array, b.Nfeeds = np.array(spec["feeds"]), len(spec["feeds"])
        b._set_efield()
    else:
        b.polarization_array, b.Npols = np.array(spec["pols"]), len(spec["pols"])
        if np.iscomplexobj(val):
            for i, p in enumerate(spec["pols"]):
                if p not in (-7, -8):
                    val[:, i] = val[:, i].real
        b._set_power()
    b.data_array = val
    b.antenna_type = "simple"
    if spec["phased"]:
        b._set_phased_array()
        b.Nelements, b.element_coordinate_system = 2, "x-y"
        b.element_location_array = rng.uniform(-1, 1, (2, 2))
        b.delay_array, b.gain_array = rng.uniform(0, 1e-9, 2), rng.uniform(1, 2, 2)
        cs = (2, 2, b.Nfeeds, b.Nfeeds, spec["nf"])
        b.coupling_matrix = rng.normal(size=cs) + 1j * rng.normal(size=cs)
    b.check()
    return b


def span(b):
    return b.axis1_array.min(), b.axis1_array.max(), b.axis2_array.min(), b.axis2_array.max()


def points(b, rng, n, az="part"):
    """Random directions inside the sampled area."""
    if b.pixel_coordinate_system == "healpix":
        return rng.uniform(0, 2 * np.pi, n), np.arccos(rng.uniform(-1, 1, n))
    a0, a1, z0, z1 = span(b)
    if az != "part":
        a1 = a0 + 2 * np.pi
    return rng.uniform(a0, a1, n), rng.uniform(z0, z1, n)


# ------------------------------------------------------------------ own samples
@st.composite
def own_case(draw):
    return {"beam": draw(grid_spec()), "n": draw(st.integers(1, 40)), "seed": draw(st.integers(0, 10**6)),
            "freq": draw(st.sampled_from([None, "all", "some", "near"])), "reuse": draw(st.booleans()),
            "pols": draw(st.sampled_from([None, "one", "rev"])), "wrap": draw(chance(3)),
            "check": draw(st.booleans()), "form": draw(st.sampled_from(["points", "points", "grid", "freq"])),
            "new": draw(st.booleans())}


@P.sub("own", own_case, 500)
def own(case):
    spec = case["beam"]
    b = build(spec)
    s = snap(b)
    rng = np.random.default_rng(case["seed"])
    hp = spec["cs"] == "healpix"
    n = case["n"]
    kw, fi, pi = {}, np.arange(spec["nf"]), None
    if case["freq"]:
        if case["freq"] != "all":
            fi = rng.permutation(spec["nf"])[: rng.integers(1, spec["nf"] + 1)]
        kw["freq_array"] = b.freq_array[fi] + (rng.uniform(-0.9, 0.9, len(fi)) if case["freq"] == "near" else 0)
    if case["pols"] and spec["type"] == "power":
        pi = np.arange(len(spec["pols"]))
        pi = rng.permutation(pi)[:1] if case["pols"] == "one" else pi[::-1]
        kw["polarizations"] = [PN[spec["pols"][i]] for i in pi]
    form = case["form"] if not (hp and case["form"] == "grid") else "points"
    exp = take(s, f=fi, **({"p": pi} if pi is not None else {}))
    real = spec["type"] == "power" and not any(p in (-7, -8) for p in exp["polarization_array"])
    want = exp["data_array"]
    bv = None if s["basis_vector_array"] is None else np.eye(2)
    if form == "freq":
        if case["new"]:
            nb = b.interp(new_object=True, **kw)
            if real:
                exp["data_array"] = want.real
            if case["freq"] == "near":
                exp["freq_array"] = kw["freq_array"]
            same_beam(snap(nb), exp, f"interp(new_object, {kw})", rtol=1e-12)
            check_beam(nb, "interp in frequency")
            return nontrivial(len(fi) > 1)
        got, gbv, bp = b.interp(return_bandpass=True, **kw)[:3]
        same(np.asarray(got), want, f"interp({kw}): data")
        return same(bp, exp["bandpass_array"], "interp: bandpass")
    if hp:
        # bilinear interpolation at a pixel centre is that pixel
        from astropy_healpix import HEALPix

        i = rng.integers(0, b.Npixels, n)
        lon, lat = HEALPix(nside=b.nside, order=b.ordering).healpix_to_lonlat(i)
        az, za = lon.rad, np.pi / 2 - lat.rad
        want = want[..., i]
    elif form == "grid":
        i, j = np.sort(rng.choice(b.Naxes1, min(n, b.Naxes1), False)), np.sort(rng.choice(b.Naxes2, min(n, 5), False))
        az, za = b.axis1_array[i], b.axis2_array[j]
        want = want[..., j[:, None], i[None, :]]
        kw["az_za_grid"] = True
    else:
        i, j = rng.integers(0, b.Naxes1, n), rng.integers(0, b.Naxes2, n)
        az, za = b.axis1_array[i], b.axis2_array[j]
        if case["wrap"] and spec["az"] in ("full", "miss", "off"):
            k = rng.integers(0, 2, n)
            k = np.where(i == 0, k, 0)        # the first column again, one turn further
            az = az + 2 * np.pi * k
        want = want[..., j, i]
    if not hp:
        kw["reuse_spline"], kw["check_azza_domain"] = case["reuse"], case["check"]
    what = f"interp at own samples ({spec['cs']}, {spec['az']}, {kw})"
    if form == "grid" and case["new"]:
        nb = b.interp(az_array=az, za_array=za, new_object=True, **kw)
        g = snap(nb)
        same(g["axis1_array"], az, f"{what}: axis1")
        same(g["axis2_array"], za, f"{what}: axis2")
        check_beam(nb, what)
        require(nb.data_array is not b.data_array and nb.axis1_array is not az, f"{what}: shares arrays")
        got, bp = g["data_array"], g["bandpass_array"]
        if spec["type"] == "power":
            same(g["polarization_array"], exp["polarization_array"], f"{what}: polarizations")
        if real:
            want = want.real
    else:
        res = b.interp(az_array=az, za_array=za, return_bandpass=True,
                       **({"return_coupling": True} if spec["phased"] else {}), **kw)
        got, gbv, bp = res[:3]
        if form == "grid":
            got = got.reshape(want.shape)
            gbv = None if gbv is None else gbv.reshape(2, 2, -1)
        if bv is None:
            require(gbv is None, f"{what}: basis vectors for a scalar beam")
        else:
            same(gbv, np.broadcast_to(bv[:, :, None], gbv.shape), f"{what}: basis vectors")
        if spec["phased"]:
            same(res[3], exp["coupling_matrix"], f"{what}: coupling", rtol=1e-12)
    require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    at = (1e-7 if hp else 1e-9) * np.abs(s["data_array"]).max()
    same(got, want, f"{what}: data", atol=at)
    same(bp, exp["bandpass_array"], f"{what}: bandpass", rtol=1e-12)
    same_snap(snap(b), s, f"{what}: the beam")
    label(form, spec["cs"], spec["az"], str(case["freq"]))
    nontrivial(want.shape[-1] > 1 or want.shape[2] > 1)


# ------------------------------------------------------------------ between samples
@st.composite
def smooth_case(draw):
    return {"beam": draw(grid_spec(smooth=True)), "n": draw(st.integers(2, 30)), "seed": draw(st.integers(0, 10**6)),
            "kind": draw(st.sampled_from([None, None, "cubic", "linear", "quadratic"])), "fint": draw(st.booleans()),
            "out": draw(st.sampled_from(["points", "points", "grid", "healpix", "to_healpix"])),
            "nside": draw(st.sampled_from([4, 8])), "inplace": draw(st.booleans()), "edge": draw(chance(3))}


@P.sub("smooth", smooth_case, 500)
def smooth(case):
    spec = dict(case["beam"])
    deg = {"linear": 1, "quadratic": 2}.get(case["kind"], 3)
    spec["fdeg"] = min(spec["fdeg"], deg)
    b = build(spec)
    s = snap(b)
    rng = np.random.default_rng(case["seed"])
    f, kw = s["freq_array"], {}
    if case["fint"] and spec["nf"] > deg:
        f = rng.uniform(s["freq_array"].min(), s["freq_array"].max(), rng.integers(1, 4))
        kw["freq_array"] = f
        if case["kind"]:
            kw["freq_interp_kind"] = case["kind"]
    hp = spec["cs"] == "healpix"
    val = field(spec)
    periodic = hp or spec["az"] in ("full", "both", "miss", "off")
    out = case["out"]
    if out == "to_healpix" and (hp or kw):
        out = "points"
    if out in ("healpix", "to_healpix") and (spec["az"] != "full" or spec["zamax"] != 180 or spec["phased"]) and not hp:
        out = "points"
    what = f"{out} between samples ({spec['cs']} {spec['az']} {kw})"
    if out == "points":
        az, za = points(b, rng, case["n"], "full" if periodic else "part")
        if case["edge"] and periodic and not hp:     # near the seam
            a0 = b.axis1_array[0] + 2 * np.pi * rng.integers(0, 2, len(az))
            az = a0 + rng.uniform(-1, 1, len(az)) * 2 * np.pi / spec["naz"]
        got = b.interp(az_array=az, za_array=za, **kw)[0]
    elif out == "grid":
        az, za = points(b, rng, case["n"], "full" if periodic else "part")
        ga, gz = np.sort(az), np.sort(za)[:6]
        nb = b.interp(az_array=ga, za_array=gz, az_za_grid=True, new_object=True, **kw)
        check_beam(nb, what)
        require(nb.pixel_coordinate_system == "az_za" and nb.pixel_array is None, f"{what}: grid kind")
        same(nb.axis1_array, ga, f"{what}: axis1_array")
        same(nb.axis2_array, gz, f"{what}: axis2_array")
        az, za = np.meshgrid(ga, gz)
        got = nb.data_array
    else:
        from astropy_healpix import HEALPix

        if out == "healpix":
            inds = np.sort(rng.choice(12 * case["nside"] ** 2, case["n"], False))
            nb = b.interp(healpix_nside=case["nside"], healpix_inds=inds, new_object=True, **kw)
            same(nb.pixel_array, inds, f"{what}: pixels")
        elif case["inplace"]:
            nb = b
            b.to_healpix(nside=case["nside"])
        else:
            nb = b.to_healpix(nside=case["nside"], inplace=False)
            same_snap(snap(b), s, f"{what}: the input")
        if out == "to_healpix":
            same(np.asarray(nb.pixel_array), np.arange(12 * case["nside"] ** 2), f"{what}: pixels of a full-sky beam")
        require(nb.nside == case["nside"] and nb.ordering == "ring" and nb.axis1_array is None, f"{what}: pixels")
        check_beam(nb, what)
        lon, lat = HEALPix(nside=nb.nside, order=nb.ordering).healpix_to_lonlat(nb.pixel_array)
        az, za = lon.rad, np.pi / 2 - lat.rad
        got = nb.data_array
    if out != "points":
        same(nb.freq_array, f, f"{what}: frequencies")
        if not kw:
            same(nb.bandpass_array, s["bandpass_array"], f"{what}: bandpass")
    want = val(az, za, tscale(f))
    if spec["type"] == "power":
        for i, p in enumerate(spec["pols"]):
            if p not in (-7, -8):
                want[:, i] = want[:, i].real
    scale = np.abs(s["data_array"]).max()
    if hp:
        tol = 3.0 / spec["nside"] ** 2 * 1.5 + 1e-6
    else:
        h = max(2 * np.pi / spec["naz"], np.deg2rad(spec["zamax"]) / (spec["nza"] - 1))
        tol = 0.05 * h**3 + 1e-6
        if spec["az"] == "miss":
            tol = 0.05 * (2 * h) ** 3 + 1e-6
    require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    err = np.abs(got - want).max() / scale
    if err > tol:
        k = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
        fail(f"{what}: at index {k} the smooth beam is {want[k]}, interpolated {got[k]} (relative error {err:.3g}, "
             f"allowed {tol:.3g})")
    label(out, spec["cs"], spec["az"], "freq" if kw else "nofreq")
    nontrivial()


# ------------------------------------------------------------------ grouping, order and reuse
@st.composite
def hist_case(draw):
    op = st.sampled_from(["interp", "interp", "interp", "interp", "select_f", "select_p", "peak", "power", "pstokes",
                          "data", "copy", "join", "select_az"])
    return {"beam": draw(grid_spec(css=("az_za",), min_freqs=2)), "seed": draw(st.integers(0, 10**6)),
            "ops": draw(st.lists(st.tuples(op, st.integers(0, 5)), min_size=2, max_size=7))}


@P.sub("history", hist_case, 350)
def history(case):
    """With saved splines every answer is the one a fresh beam gives."""
    spec = dict(case["beam"], phased=False)
    b = build(spec)
    rng = np.random.default_rng(case["seed"])
    npts, done, edited = 0, [], False
    for op, k in case["ops"] + [("interp", 0)]:
        done.append(op)
        if op == "interp":
            az, za = points(b, rng, 6)
            kw = {}
            if k % 3 == 1 and b.Nfreqs > 1:
                kind = ["linear", "cubic" if b.Nfreqs > 3 else "linear", "nearest"][k % 3 if k < 3 else 0]
                kw = {"freq_array": np.linspace(b.freq_array.min(), b.freq_array.max(), 3) + [0, 0.2e6, 0],
                      "freq_interp_kind": "linear" if k == 1 else kind}
                if b.Nfreqs > 3 and rng.integers(2):
                    kw["freq_interp_kind"] = "cubic"
            if k == 2:
                kw["spline_opts"] = {"kx": 1, "ky": 1}
            if b.beam_type == "power" and k == 3:
                kw["polarizations"] = [PN[p] for p in rng.permutation(b.polarization_array)[:1]]
            fresh = b.copy()
            if hasattr(fresh, "saved_interp_functions"):
                del fresh.saved_interp_functions
            want = fresh.interp(az_array=az, za_array=za, **kw)[0]
            at = 1e-9 * np.abs(fresh.data_array).max()
            got = b.interp(az_array=az, za_array=za, reuse_spline=True, **kw)[0]
            same(got, want, f"interp({kw}) with saved splines after {done}", atol=at)
            perm = rng.permutation(6)
            got = b.interp(az_array=az[perm], za_array=za[perm], reuse_spline=True, **kw)[0]
            same(got, want[..., perm], f"interp({kw}) in another order after {done}", atol=at)
            cut = int(rng.integers(1, 6))
            parts = [fresh.interp(az_array=az[sl], za_array=za[sl], **kw)[0] for sl in (slice(cut), slice(cut, 6))]
            same(np.concatenate(parts, axis=-1), want, f"interp({kw}) in two groups", atol=at)
            if "freq_array" in kw:
                one = [fresh.interp(az_array=az, za_array=za, **dict(kw, freq_array=kw["freq_array"][i:i + 1]))[0]
                       for i in range(3) if np.abs(b.freq_array - kw["freq_array"][i]).min() > 1]
                idx = [i for i in range(3) if np.abs(b.freq_array - kw["freq_array"][i]).min() > 1]
                if one:
                    same(np.concatenate(one, axis=2), want[:, :, idx], "frequencies one at a time", atol=at)
            npts += 1
            if edited:
                label("interp-after-edit")
        elif op == "select_f" and b.Nfreqs > 2:
            b.select(freq_chans=[i for i in range(b.Nfreqs) if i != k % b.Nfreqs])
            edited = True
        elif op == "select_p":
            if b.beam_type == "power" and b.Npols > 1:
                b.select(polarizations=b.polarization_array[np.arange(b.Npols) != k % b.Npols].tolist())
            elif b.beam_type == "efield" and b.Nfeeds > 1:
                b.select(feeds=[b.feed_array[k % 2]])
            edited = True
        elif op == "select_az" and b.Naxes2 > 8:
            b.select(axis2_inds=np.arange(k % 3, b.Naxes2))
            edited = True
        elif op == "peak":
            b.peak_normalize()
            edited = True
        elif op == "power" and b.beam_type == "efield":
            b.efield_to_power(calc_cross_pols=bool(k % 2), keep_basis_vector=k > 3)
            edited = True
        elif op == "pstokes" and b.beam_type == "efield" and b.Nfeeds == 2:
            b.efield_to_pstokes()
            edited = True
        elif op == "data":
            b.data_array = b.data_array * (2 + k)
            edited = True
        elif op == "copy":
            b = b.copy()
        elif op == "join" and b.Nfreqs > 1:
            o = b.select(freq_chans=[0], inplace=False)
            o.data_array = o.data_array * 3
            b.select(freq_chans=np.arange(1, b.Nfreqs))
            b += o
            edited = True
    nontrivial(npts > 1)


# ------------------------------------------------------------------ definitions
@st.composite
def def_case(draw):
    return {"beam": draw(beam_spec(types=("efield",), phased=False, xori=True)),
            "do": draw(st.sampled_from(["power", "power", "pstokes", "peak", "area"])), "cross": draw(st.booleans()),
            "keep": draw(st.booleans()), "inplace": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "pb": draw(beam_spec(phased=False, norms=("physical", "peak")))}


def run(b, how, inplace, what, *a, **kw):
    s = snap(b)
    if inplace:
        getattr(b, how)(*a, **kw)
        return b
    r = getattr(b, how)(*a, inplace=False, **kw)
    same_snap(snap(b), s, f"{what}: the input")
    return r


@P.sub("define", def_case, 1200)
def define(case):
    spec = dict(case["beam"], ncomp=2)
    do = case["do"]
    if do == "pstokes":
        spec["feeds"] = spec["feeds"] if len(spec["feeds"]) == 2 else ["x", "y"]
    if any(f in "en" for f in spec["feeds"]):
        spec["feeds"] = [{"e": "x", "n": "y"}.get(f, f) for f in spec["feeds"]]
    if do in ("peak", "area"):
        return peak_area(case)
    b = build_beam(spec)
    rng = np.random.default_rng(case["seed"])
    s = snap(b)
    ev, bv = s["data_array"].astype(complex), s["basis_vector_array"]
    tol = 1e-5 if spec["single"] else 1e-12
    exp = dict(s)
    if do == "power":
        cross = case["cross"] and s["Nfeeds"] > 1
        what = f"efield_to_power(cross={case['cross']}, keep={case['keep']}, feeds {spec['feeds']})"
        try:
            r = run(b, "efield_to_power", case["inplace"], what, calc_cross_pols=case["cross"],
                    keep_basis_vector=case["keep"])
        except ValueError as e:
            fail(f"{what}: {e}")
        g = snap(r)
        pairs = [(i, i) for i in range(s["Nfeeds"])] + ([(0, 1), (1, 0)] if cross else [])
        want = {}
        if not case["keep"]:
            # field components along the two orthogonal directions
            comp = np.stack([sum(bv[v, c] * ev[v] for v in range(2)) for c in range(2)])
        for i, j in pairs:
            p = POLN[s["feed_array"][i] + s["feed_array"][j]]
            if case["keep"]:
                want[p] = ev[:, i] * np.conj(ev[:, j])
            else:
                want[p] = np.sum(comp[:, i] * np.conj(comp[:, j]), axis=0)[None]
        require(sorted(g["polarization_array"]) == sorted(want), f"{what}: polarizations {g['polarization_array']}")
        sc = max(np.abs(w).max() for w in want.values())
        for k, p in enumerate(g["polarization_array"]):
            w = want[int(p)]
            same(g["data_array"][:, k], w if cross else w.real, f"{what}: {PN[int(p)]}", rtol=tol, atol=tol * sc)
        require(g["feed_array"] is None and g["Nfeeds"] is None and g["beam_type"] == "power", f"{what}: kind")
        if case["keep"]:
            same(g["basis_vector_array"], bv, f"{what}: basis vectors")
            require(g["Naxes_vec"] == 2, f"{what}: Naxes_vec")
        else:
            require(g["basis_vector_array"] is None and g["Naxes_vec"] == 1, f"{what}: basis vectors kept")
    else:
        what = "efield_to_pstokes"
        r = run(b, "efield_to_pstokes", case["inplace"], what)
        g = snap(r)
        same(g["polarization_array"], np.array([1, 2, 3, 4]), f"{what}: polarizations")
        J = np.moveaxis(ev, (0, 1), (-2, -1))
        sig = [np.eye(2), np.diag([1, -1]), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]
        for k, m in enumerate(sig):
            w = np.abs(0.5 * np.trace(m @ J @ m @ np.conj(np.swapaxes(J, -1, -2)), axis1=-2, axis2=-1))
            same(g["data_array"][0, k], w, f"{what}: {PN[k + 1]}", rtol=max(tol, 1e-9), atol=1e-9)
    check_beam(r, what)
    for k in ("freq_array", "bandpass_array", "axis1_array", "axis2_array", "pixel_array", "data_normalization",
              "x_orientation", "nside", "ordering", "s_parameters", *FREQP):
        same(g[k], exp[k], f"{what}: {k}")
    label(do, spec["cs"])
    nontrivial(s["Nfreqs"] > 1)


def peak_area(case):
    b = build_beam(case["pb"])
    s = snap(b)
    b.peak_normalize()
    g = snap(b)
    sg = 1e-5 if case["pb"]["single"] else 1e-12
    for i in range(s["Nfreqs"]):
        mx = np.abs(s["data_array"][:, :, i]).max()
        same(g["data_array"][:, :, i] * mx, s["data_array"][:, :, i], f"peak_normalize: channel {i}", rtol=sg, atol=0)
        same(g["bandpass_array"][i], s["bandpass_array"][i] * mx, "peak_normalize: bandpass", rtol=1e-6)
    require(g["data_normalization"] == "peak", "peak_normalize: normalization")
    for k in s:
        if k not in ("data_array", "bandpass_array", "data_normalization"):
            same(g[k], s[k], f"peak_normalize: {k}")
    check_beam(b, "peak_normalize")
    if b.pixel_coordinate_system == "healpix" and b.beam_type == "power" and b.Naxes_vec == 1:
        area = 4 * np.pi / (12 * b.nside**2)
        for k, p in enumerate(b.polarization_array):
            if p in (-3, -4, -7, -8):
                continue
            for name in (int(p), PN[int(p)]):
                same(b.get_beam_area(name), g["data_array"][0, k].sum(axis=-1) * area, "get_beam_area", rtol=sg)
                same(b.get_beam_sq_area(name), (g["data_array"][0, k] ** 2).sum(axis=-1) * area, "get_beam_sq_area",
                     rtol=sg)
        label("area")
    nontrivial(s["Nfreqs"] > 1)
