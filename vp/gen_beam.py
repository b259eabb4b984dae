"""Generated UVBeam objects, built attribute by attribute."""
import numpy as np
from hypothesis import strategies as st

from .cmp import same, snap
from .core import fail, require
from .gen_uv import chance

FREQP = ("receiver_temperature_array", "loss_array", "mismatch_array")
CROSS = (-3, -4, -7, -8)
POLSETS = [[-5], [-6], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-5, -7], [-8, -7], [-1, -2, -3, -4], [1],
           [1, 2], [1, 2, 3, 4], [-1, -2], [-7]]


@st.composite
def beam_spec(draw, css=("az_za", "az_za", "healpix", "orthoslant_zenith"), types=("efield", "power"),
              phased=True, max_freqs=4, min_freqs=1, regular=False, norms=("physical", "peak", "solid_angle"),
              polsets=None, feedsets=None, xori=True, pixperm=True, keepbasis=True, optional=True):
    bt = draw(st.sampled_from(list(types)))
    fs = feedsets or [["x"], ["y"], ["x", "y"], ["y", "x"], ["e", "n"], ["n", "e"], ["r", "l"], ["l", "r"]]
    return {
        "type": bt, "cs": draw(st.sampled_from(list(css))),
        "feeds": draw(st.sampled_from(fs)), "pols": draw(st.sampled_from(polsets or POLSETS)),
        "nf": draw(st.integers(min_freqs, max_freqs)), "freg": regular or draw(chance(1)),
        "frev": draw(chance(3)), "n1": draw(st.integers(1, 5)), "n2": draw(st.integers(1, 4)),
        "nside": draw(st.sampled_from([1, 2])), "npix": draw(st.integers(1, 12)),
        "order": draw(st.sampled_from(["ring", "nested"])), "pixperm": pixperm and draw(chance(3)),
        "opt": optional and draw(chance(2)), "norm": draw(st.sampled_from(list(norms))),
        "xori": draw(st.sampled_from([None, "east", "north"])) if xori else None,
        "phased": phased and bt == "efield" and draw(chance(4)),
        "keep": keepbasis and bt == "power" and draw(chance(3)), "ncomp": draw(st.sampled_from([2, 2, 2, 3])),
        "seed": draw(st.integers(0, 10**6)), "single": draw(chance(6)),
    }


def basics(b, spec=None):
    b.telescope_name, b.feed_name, b.feed_version = "vtel", "vfeed", "1.0"
    b.model_name, b.model_version, b.history = "vmodel", "2.0", "made for the check"
    b.data_normalization = "physical"


def build_beam(spec):
    from pyuvdata import UVBeam

    rng = np.random.default_rng(spec["seed"])
    b = UVBeam()
    basics(b)
    b.data_normalization = spec["norm"]
    nf = spec["nf"]
    b.Nfreqs = nf
    b.freq_array = 1e8 + 1e6 * np.arange(nf, dtype=float)
    if not spec["freg"]:
        b.freq_array = 1e8 + 1e6 * np.cumsum(rng.integers(1, 5, nf)).astype(float)
    if spec["frev"]:
        b.freq_array = b.freq_array[::-1].copy()
    b.bandpass_array = rng.uniform(1, 2, nf)
    b.pixel_coordinate_system = spec["cs"]
    if spec["cs"] == "healpix":
        tot = 12 * spec["nside"] ** 2
        n = min(spec["npix"], tot)
        pix = np.sort(rng.choice(tot, n, replace=False))
        if spec["pixperm"]:
            pix = rng.permutation(pix)
        b.pixel_array, b.Npixels, b.nside, b.ordering = pix.astype(int), n, spec["nside"], spec["order"]
        sky = (n,)
    else:
        b.Naxes1, b.Naxes2 = spec["n1"], spec["n2"]
        b.axis1_array = np.deg2rad(10.0 + 15.0 * np.arange(spec["n1"]))
        b.axis2_array = np.deg2rad(5.0 + 10.0 * np.arange(spec["n2"]))
        sky = (spec["n2"], spec["n1"])
    nv = 2 if spec["type"] == "efield" or spec["keep"] else 1
    b.Naxes_vec = nv
    if nv == 2:
        b.Ncomponents_vec = spec["ncomp"]
        th = rng.uniform(0, np.pi, sky)
        bv = np.zeros((2, spec["ncomp"]) + sky)
        bv[0, 0], bv[0, 1], bv[1, 0], bv[1, 1] = np.cos(th), np.sin(th), -np.sin(th), np.cos(th)
        if spec["ncomp"] == 3:
            bv *= np.sqrt(0.5)
            bv[:, 2] = np.sqrt(0.5) * (0.5 + 0.4 * rng.uniform(size=(2,) + sky))
        b.basis_vector_array = bv * (1 - 1e-12)
    if spec["type"] == "efield":
        b.feed_array, b.Nfeeds = np.array(spec["feeds"]), len(spec["feeds"])
        shape = (nv, b.Nfeeds, nf) + sky
        d = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        b.data_array = d.astype(np.complex64) if spec["single"] else d
        b._set_efield()
    else:
        b.polarization_array, b.Npols = np.array(spec["pols"]), len(spec["pols"])
        shape = (nv, b.Npols, nf) + sky
        d = rng.uniform(0.1, 3, size=shape)
        cross = [i for i, p in enumerate(spec["pols"]) if p in CROSS]
        if cross:
            d = d.astype(complex)
            c = rng.normal(size=shape) + 1j * rng.normal(size=shape)
            d[:, cross] = c[:, cross]
            d = d.astype(np.complex64) if spec["single"] else d
        elif spec["single"]:
            d = d.astype(np.float32)
        b.data_array = d
        b._set_power()
    if spec["xori"] and not any(f in "enrl" for f in (spec["feeds"] if spec["type"] == "efield" else [])):
        b.x_orientation = spec["xori"]
    if spec["opt"]:
        for p in FREQP:
            setattr(b, p, rng.uniform(0, 9, nf))
        b.s_parameters = rng.uniform(-1, 1, (4, nf))
        b.reference_impedance = 50.0
        b.extra_keywords = {"GAMMA": 1.5, "COUNT": 7, "NOTE": "words"}
    b.antenna_type = "simple"
    if spec["phased"]:
        b._set_phased_array()
        ne = 2
        b.Nelements, b.element_coordinate_system = ne, "x-y"
        b.element_location_array = rng.uniform(-1, 1, (2, ne))
        b.delay_array, b.gain_array = rng.uniform(0, 1e-9, ne), rng.uniform(1, 2, ne)
        cs = (ne, ne, b.Nfeeds, b.Nfeeds, nf)
        b.coupling_matrix = rng.normal(size=cs) + 1j * rng.normal(size=cs)
    b.check()
    return b


def take(s, a1=None, a2=None, pix=None, f=None, p=None):
    """The snapshot of the beam restricted (and ordered) as given."""
    e = dict(s)
    hp = s["pixel_coordinate_system"] == "healpix"

    def cut(names, idx, ax):
        for n in names:
            if e.get(n) is not None:
                e[n] = np.take(e[n], idx, axis=ax)

    if a1 is not None:
        cut(["axis1_array", "data_array", "basis_vector_array"], a1, -1)
        e["Naxes1"] = len(a1)
    if a2 is not None:
        cut(["axis2_array"], a2, 0)
        cut(["data_array", "basis_vector_array"], a2, -2)
        e["Naxes2"] = len(a2)
    if pix is not None:
        cut(["pixel_array", "data_array", "basis_vector_array"], pix, -1)
        e["Npixels"] = len(pix)
    if f is not None:
        cut(["freq_array", "bandpass_array", "coupling_matrix", "s_parameters"] + list(FREQP), f, -1)
        cut(["data_array"], f, 2)
        e["Nfreqs"] = len(f)
    if p is not None:
        cut(["data_array"], p, 1)
        if s["beam_type"] == "power":
            cut(["polarization_array"], p, 0)
            e["Npols"] = len(p)
        else:
            cut(["feed_array"], p, 0)
            cut(["coupling_matrix"], p, 2)
            cut(["coupling_matrix"], p, 3)
            e["Nfeeds"] = len(p)
    assert hp or pix is None
    return e


def beam_canon(s):
    """Axis orders that carry no meaning are sorted."""
    hp = s["pixel_coordinate_system"] == "healpix"
    kw = {"f": np.argsort(s["freq_array"])}
    if hp:
        kw["pix"] = np.argsort(s["pixel_array"])
    else:
        kw["a1"], kw["a2"] = np.argsort(s["axis1_array"]), np.argsort(s["axis2_array"])
    kw["p"] = np.argsort(s["polarization_array"] if s["beam_type"] == "power" else s["feed_array"])
    return take(s, **kw)


def same_beam(got, exp, what, skip=("history", "filename"), rtol=0.0, atol=0.0):
    for k, v in exp.items():
        if k in skip:
            continue
        same(got[k], v, f"{what}: {k}", rtol=rtol, atol=atol)


def check_beam(b, what):
    try:
        b.check()
    except Exception as e:
        fail(f"{what}: fails its own check: {e}")
    s = snap(b)
    hp = s["pixel_coordinate_system"] == "healpix"
    sky = (len(s["pixel_array"]),) if hp else (len(s["axis2_array"]), len(s["axis1_array"]))
    np_ = len(s["polarization_array"] if s["beam_type"] == "power" else s["feed_array"])
    require(s["data_array"].shape == (s["Naxes_vec"], np_, len(s["freq_array"])) + sky, f"{what}: shape")
    if s["beam_type"] == "power":
        cross = any(p in CROSS for p in s["polarization_array"])
        require(cross == np.iscomplexobj(s["data_array"]), f"{what}: data type {s['data_array'].dtype}")
    return s
