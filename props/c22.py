"""C22: UVBeam selection, combination and files."""
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require, scratch
from vp.gen_beam import beam_canon, beam_spec, build_beam, check_beam, same_beam, take
from vp.gen_uv import chance

P = Prop(
    "C22",
    "UVBeam objects (E-field, power, power per basis vector; azimuth/zenith-angle, orthoslant and HEALPix "
    "pixels; 1-2 feeds, 1-4 polarizations in any order, 1-4 frequencies in either direction; optional "
    "per-frequency arrays; phased arrays) under selection, split and recombination in any order, and "
    "beam FITS files read whole, in part and in several files; non-trivial: at least two entries on the "
    "affected axis.",
    ["overlapping parts and incomplete grids of parts are not combined",
     "beam FITS needs evenly spaced axes and simple antennas"],
)
PN = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy",
      -8: "yx"}
XM = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}


def mod(lst, n):
    return sorted({i % n for i in lst})


@st.composite
def sel_case(draw):
    idx = lambda: draw(st.lists(st.integers(0, 11), min_size=1, max_size=4))  # noqa: E731
    return {"beam": draw(beam_spec()), "sky": draw(st.sampled_from([None, "1", "2", "both"])), "i1": idx(),
            "i2": idx(), "freq": draw(st.sampled_from([None, "frequencies", "freq_chans", "both"])),
            "fi": idx(), "fj": idx(), "pol": draw(st.sampled_from([None, "num", "name", "xname"])), "pi": idx(),
            "flip": draw(st.booleans()), "inplace": draw(st.booleans()),
            "form": draw(st.sampled_from(["list", "array"])), "miss": draw(chance(12))}


@P.sub("select", sel_case, 2000)
def select(case):
    b = build_beam(case["beam"])
    s = snap(b)
    hp = s["pixel_coordinate_system"] == "healpix"
    power = s["beam_type"] == "power"
    kw, ex = {}, {}

    def give(lst):
        lst = list(lst)
        if case["flip"]:
            lst = lst[::-1] + lst[:1]
        return np.array(lst) if case["form"] == "array" else lst

    if case["sky"]:
        if hp:
            ex["pix"] = mod(case["i1"], s["Npixels"])
            kw["pixels"] = give(s["pixel_array"][ex["pix"]].tolist())
        else:
            if case["sky"] != "2":
                ex["a1"] = mod(case["i1"], s["Naxes1"])
                kw["axis1_inds"] = give(ex["a1"])
            if case["sky"] != "1":
                ex["a2"] = mod(case["i2"], s["Naxes2"])
                kw["axis2_inds"] = give(ex["a2"])
    if case["freq"]:
        fi, fj = mod(case["fi"], s["Nfreqs"]), mod(case["fj"], s["Nfreqs"])
        f = set()
        if case["freq"] != "freq_chans":
            kw["frequencies"] = give(s["freq_array"][fi].tolist())
            f |= set(fi)
        if case["freq"] != "frequencies":
            kw["freq_chans"] = give(fj)
            f |= set(fj)
        ex["f"] = sorted(f)
    if case["pol"]:
        xo = s["x_orientation"]
        if power:
            ex["p"] = mod(case["pi"], s["Npols"])
            nums = s["polarization_array"][ex["p"]].tolist()
            names = [PN[x] for x in nums]
            if case["pol"] == "xname" and xo:
                names = ["".join(XM[xo].get(c, c) for c in n) if n[0] in "xy" else n for n in names]
            kw["polarizations"] = give(nums) if case["pol"] == "num" else list(give(names))
        else:
            ex["p"] = mod(case["pi"], s["Nfeeds"])
            names = s["feed_array"][ex["p"]].tolist()
            if case["pol"] == "xname" and xo:
                names = [XM[xo].get(n, n) for n in names]
            kw["feeds"] = list(give(names))
    if not kw:
        return label("nothing")
    if case["miss"]:
        for bad in ({"frequencies": [1.0]}, {"polarizations": [9]} if power else {"feeds": ["q"]},
                    {"pixels": [10**6]} if hp else {"axis1_inds": [99]}, {"axis2_inds": [0, 99]} if not hp
                    else {"axis1_inds": [0]}, {"feeds": ["x"]} if power else {"polarizations": [-5]}):
            try:
                b.select(inplace=False, **bad)
            except ValueError:
                continue
            fail(f"select({bad}) accepted")
    exp = take(s, **ex)
    what = f"select({kw})"
    if case["inplace"]:
        b.select(**kw)
        res = b
    else:
        res = b.select(inplace=False, **kw)
        same_snap(snap(b), s, f"{what}: the input")
    if power and not any(p in (-3, -4, -7, -8) for p in exp["polarization_array"]):
        exp["data_array"] = exp["data_array"].real
    same_beam(snap(res), exp, what)
    check_beam(res, what)
    require(s["history"] in res.history, f"{what}: history lost")
    label(s["beam_type"], s["pixel_coordinate_system"], *kw)
    nontrivial(any(len(v) > 1 for v in ex.values()))


# ------------------------------------------------------------------ combination
@st.composite
def add_case(draw):
    part = lambda: draw(st.lists(st.integers(0, 2), min_size=12, max_size=12))  # noqa: E731
    return {"beam": draw(beam_spec()), "axes": draw(st.sampled_from(
        ["sky1", "sky2", "freq", "pol", "freq", "pol", "pix"])), "part": part(),
        "axes2": draw(st.sampled_from([None, None, "sky1", "sky2", "freq", "pol"])), "part2": part(),
        "order": draw(st.permutations(range(9))), "shuffle": draw(chance(2)), "inplace": draw(st.booleans()),
        "perm": draw(st.integers(0, 999)), "overlap": draw(chance(8))}


def groups(part, n):
    g = [[i for i in range(n) if part[i % len(part)] == k] for k in range(3)]
    return [x for x in g if x]


def from_snap(b, e):
    """A copy of b holding the restricted arrays."""
    c = b.copy()
    for k, v in e.items():
        setattr(c, k, None if v is None else (v.copy() if hasattr(v, "copy") else v))
    if c.beam_type == "power" and not any(p in (-3, -4, -7, -8) for p in c.polarization_array):
        c.data_array = c.data_array.real.copy()
    c.check()
    return c


@P.sub("combine", add_case, 1500)
def combine(case):
    b = build_beam(case["beam"])
    s = snap(b)
    hp = s["pixel_coordinate_system"] == "healpix"
    power = s["beam_type"] == "power"
    if case["beam"]["phased"] and "pol" in (case["axes"], case["axes2"]):
        return label("phased-pol")   # the coupling between feeds is lost by documentation
    sizes = {"freq": s["Nfreqs"], "pol": s["Npols"] if power else s["Nfeeds"]}
    if hp:
        sizes["pix"] = s["Npixels"]
    else:
        sizes["a1"], sizes["a2"] = s["Naxes1"], s["Naxes2"]
    key = {"sky1": "pix" if hp else "a1", "sky2": "pix" if hp else "a2", "freq": "freq", "pol": "pol",
           "pix": "pix" if hp else "a1"}
    k1 = key[case["axes"]]
    k2 = key.get(case["axes2"])
    g1 = groups(case["part"], sizes[k1])
    g2 = groups(case["part2"], sizes[k2]) if k2 and k2 != k1 else [None]
    short = {"freq": "f", "pol": "p", "pix": "pix", "a1": "a1", "a2": "a2"}
    rng = np.random.default_rng(case["perm"])
    parts = []
    for y in g2:
        row = []
        for x in g1:
            kw = {short[k1]: x}
            if y is not None:
                kw[short[k2]] = y
            if case["shuffle"]:
                for k, n in sizes.items():
                    idx = kw.get(short[k], list(range(n)))
                    kw[short[k]] = rng.permutation(idx).tolist()
            row.append(from_snap(b, take(s, **kw)))
        parts.append(row)
    what = f"splitting along {k1} {g1}" + (f" and {k2} {g2}" if y is not None else "")

    def join(lst):
        o = [i for i in case["order"] if i < len(lst)]
        tot = lst[o[0]]
        for i in o[1:]:
            s1, s2 = snap(tot), snap(lst[i])
            if case["inplace"]:
                keep = tot
                tot += lst[i]
                require(tot is keep, "+= made a new object")
            else:
                new = tot + lst[i]
                same_snap(snap(tot), s1, f"{what}: the first operand of +")
                tot = new
            same_snap(snap(lst[i]), s2, f"{what}: the second operand of +")
        return tot

    if case["overlap"]:
        try:
            parts[0][0] + parts[0][0].copy()
        except ValueError:
            pass
        else:
            fail("adding a beam to itself was accepted")
    tot = join([join(r) for r in parts])
    same_beam(beam_canon(snap(tot)), beam_canon(s), what)
    check_beam(tot, what)
    label(k1, str(k2), s["beam_type"], s["pixel_coordinate_system"])
    nontrivial(len(g1) * len(g2) > 1)


# ------------------------------------------------------------------ files
@st.composite
def file_case(draw):
    b = draw(beam_spec(regular=True, phased=False))
    b["freg"] = True
    return {"beam": b, "read": draw(st.sampled_from(["whole", "whole", "freq", "az", "za", "azza", "list", "rlist"])),
            "i": draw(st.integers(0, 9)), "j": draw(st.integers(0, 9)), "cut": draw(st.integers(1, 3)),
            "again": draw(st.booleans())}


@P.sub("files", file_case, 500)
def files(case):
    from pyuvdata import UVBeam

    b = build_beam(case["beam"])
    s = snap(b)
    hp = s["pixel_coordinate_system"] == "healpix"
    power = s["beam_type"] == "power"
    d = scratch()
    fn = os.path.join(d, "b.fits")
    even = not power or s["Npols"] < 3 or len(set(np.diff(s["polarization_array"]))) == 1
    try:
        b.write_beamfits(fn)
    except ValueError as e:
        if not even:
            return label("uneven")
        fail(f"write_beamfits refused an evenly spaced beam: {e}")
    same_snap(snap(b), s, "write_beamfits: the object")
    exp = dict(s)
    how = case["read"]
    ex, kw = {}, {}

    def rng(i, j, vals, scale=1.0):
        a, c = sorted((i % len(vals), j % len(vals)))
        v = np.sort(vals)
        w = 0.3 * (v[1] - v[0]) if len(v) > 1 else 1e-3
        lo, hi = v[a] - w, v[c] + w
        return (lo * scale, hi * scale), [k for k, x in enumerate(vals) if lo <= x <= hi]

    if how == "freq":
        kw["freq_range"], ex["f"] = rng(case["i"], case["j"], s["freq_array"])
    if how in ("az", "azza") and not hp:
        kw["az_range"], ex["a1"] = rng(case["i"], case["j"], s["axis1_array"], 180 / np.pi)
    if how in ("za", "azza") and not hp:
        kw["za_range"], ex["a2"] = rng(case["j"], case["i"], s["axis2_array"], 180 / np.pi)
    exp = take(s, **ex)
    what = f"beam FITS read with {kw}"
    r = UVBeam()
    if how in ("list", "rlist") and s["Nfreqs"] > 1:
        n = min(case["cut"], s["Nfreqs"] - 1)
        fns = []
        for k, sl in enumerate((range(n), range(n, s["Nfreqs"]))):
            p = os.path.join(d, f"p{k}.fits")
            from_snap(b, take(s, f=list(sl))).write_beamfits(p)
            fns.append(p)
        if how == "list":
            r.read(fns)
        else:
            r.read_beamfits(fns, run_check=True)
        what = "reading a list of beam FITS files"
    else:
        r.read(fn, **kw)
    tols = {"data_array": 1e-12, "freq_array": 1e-3}

    def cmp(r, what):
        got, want = beam_canon(snap(r)), beam_canon(exp)
        for k, v in want.items():
            if k in ("history", "filename", "extra_keywords"):
                continue
            at = {"freq_array": 1e-3, "axis1_array": 1e-9, "axis2_array": 1e-9}.get(k, 0.0)
            same(got[k], v, f"{what}: {k}", atol=at)
        gk = {k: v for k, v in got["extra_keywords"].items()}
        same(gk, want["extra_keywords"], f"{what}: extra_keywords")
        require(s["history"] in r.history, f"{what}: history {r.history!r}")
        check_beam(r, what)

    cmp(r, what)
    if case["again"]:
        fn2 = os.path.join(d, "b2.fits")
        r.write_beamfits(fn2)
        cmp(UVBeam.from_file(fn2), what + ", written and read again")
        try:
            r.write_beamfits(fn2)
        except OSError:
            pass
        else:
            fail("write_beamfits overwrote a file without clobber")
    label(how, s["beam_type"], s["pixel_coordinate_system"], f"pols{s['Npols']}")
    nontrivial(s["Nfreqs"] > 1 or how == "whole")
