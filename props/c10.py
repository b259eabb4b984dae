"""C10: UVH5 files give back what was written, whole or in pieces."""
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require, scratch
from vp.gen_uv import build_uv, chance, real_autos, uv_spec
from vp.uvmodel import check_counts, true_rect

P = Prop(
    "C10",
    "a UVData object (any phase centers, windows, flex-pol, optional parameters, block layouts), "
    "a stored data type, compression and chunking, and (in parts) a partition of the axes with a "
    "write order; non-trivial: at least two records and two channels or polarizations.",
    ["data written with a compound integer type are integers within its range",
     "nsamples are stored in single precision, so generated sample counts are representable"],
)

ORDERS = [None, ["time", "baseline"], ["baseline", "time"], ["ant1", "time"], ["time", "ant2"],
          ["ant2", "ant1"], ["time"]]
DT = {None: None, "c8": "c8", "c16": "c16", "i4": np.dtype([("r", "<i4"), ("i", "<i4")]),
      "i2": np.dtype([("r", "<i2"), ("i", "<i2")]), "f8": np.dtype([("r", "<f8"), ("i", "<f8")]),
      "f4": np.dtype([("r", "<f4"), ("i", "<f4")])}
SKIP = ["filename", "history"]


def file_uv(max_spws=3):
    return uv_spec(spw_overlap=True, max_ants=4, max_times=3, max_chan=4, max_spws=max_spws, max_pairs=6,
                   locs=[0, 1, 2, 3, 4, 5])


def opts():
    return {
        "order": st.sampled_from(ORDERS), "dtype": st.sampled_from(list(DT)),
        "comp": st.sampled_from([None, "lzf", "gzip", "bitshuffle"]),
        "fcomp": st.sampled_from([None, "lzf", "gzip"]),
        "chunks": st.sampled_from([True, None, "small"]),
        "out": st.sampled_from(["c8", "c16"]), "hist": chance(3), "opt2": st.booleans(),
    }


def make(case):
    uv = real_autos(build_uv(case["uv"]))
    dt = case["dtype"]
    if dt in ("i4", "i2"):
        uv.data_array = (np.round(uv.data_array.real * 900)
                         + 1j * np.round(uv.data_array.imag * 900)).astype(uv.data_array.dtype)
    if case["order"]:
        uv.reorder_blts(order=case["order"][0], minor_order=(case["order"] + [None])[1])
    if case["hist"]:
        uv.history = "some text\nwith lines  and  spaces " + "x" * 300
    if case["opt2"]:
        uv.uvplane_reference_time = 3
    return uv


def wkw(case, uv):
    ch = case["chunks"]
    if ch == "small":
        ch = (1, min(2, uv.Nfreqs), 1)
    comp = case["comp"]
    if ch is None:
        comp, fc = None, None
    else:
        fc = case["fcomp"]
    if comp == "bitshuffle":
        try:
            import hdf5plugin  # noqa: F401
        except ImportError:
            comp = "lzf"
    if ch is None:
        ch = True
    return dict(chunks=ch, data_compression=comp, flags_compression=fc, nsample_compression=fc,
                data_write_dtype=DT[case["dtype"]])


def tols(case, uv):
    eps = 0.0
    if case["dtype"] in ("c8", "f4"):
        eps = 3e-7
    if case["dtype"] in ("i4", "i2", "f8", "f4") and case["out"] == "c8":
        eps = max(eps, 3e-7)
    return {"data_array": (eps, eps)}


def rkw(case):
    return dict(fix_autos=False, check_autos=False, remove_flex_pol=False,
                data_array_dtype=np.complex64 if case["out"] == "c8" else np.complex128)


def compare(got, want, what, tol, extra_skip=()):
    skip = SKIP + list(extra_skip)
    t = dict(tol)
    t["telescope.antenna_positions"] = (0, 0)
    same_snap(got, want, what, t, skip=skip)
    require(got["history"].startswith(want["history"]), f"{what}: history {got['history'][:80]!r}")


def read_back(fn, **kw):
    from pyuvdata import UVData

    r = UVData()
    r.read(fn, **kw)
    return r


@P.sub("roundtrip", lambda: st.fixed_dictionaries({
    "uv": file_uv(), **opts(), "how": st.sampled_from(["read", "read_uvh5", "from_file"]),
    "exists": chance(3)}), 900)
def roundtrip(case):
    from pyuvdata import UVData

    uv = make(case)
    s = snap(uv)
    d = scratch()
    fn = os.path.join(d, "a.uvh5")
    what = f"uvh5 {({k: v for k, v in case.items() if k != 'uv'})}"
    if case["exists"]:
        with open(fn, "wb") as f:
            f.write(b"precious content")
        for go in (lambda: uv.write_uvh5(fn, **wkw(case, uv)),
                   lambda: uv.initialize_uvh5_file(fn, **wkw(case, uv))):
            try:
                go()
            except OSError:
                pass
            else:
                require(False, f"{what}: an existing file was overwritten without clobber")
            with open(fn, "rb") as f:
                require(f.read() == b"precious content", f"{what}: refused write changed the file")
    uv.write_uvh5(fn, clobber=case["exists"], **wkw(case, uv))
    same_snap(snap(uv), s, f"{what}: writing changed the object")
    if case["how"] == "read_uvh5":
        r = UVData()
        r.read_uvh5(fn, **rkw(case))
    elif case["how"] == "from_file":
        r = UVData.from_file(fn, **rkw(case))
    else:
        r = read_back(fn, **rkw(case))
    compare(snap(r), s, what, tols(case, uv))
    require(r.data_array.dtype in (np.complex64, np.complex128), f"{what}: {r.data_array.dtype}")
    check_counts(snap(r), what)
    if r != uv and case["dtype"] in (None, "c16"):
        r.filename = uv.filename
        r.history = uv.history
        require(r == uv, f"{what}: not equal to what was written")
    # metadata only, and without flex-pol
    m = read_back(fn, read_data=False, remove_flex_pol=False)
    compare(snap(m), {**s, "data_array": None, "flag_array": None, "nsample_array": None},
            f"{what}: metadata only", {})
    if case["uv"]["flexpol"]:
        label("flexpol")
    # writing it again gives the same content
    fn2 = os.path.join(d, "b.uvh5")
    r.write_uvh5(fn2)
    compare(snap(read_back(fn2, **rkw({"out": "c16"}))), snap(r), f"{what}: second generation", {})
    label(str(case["dtype"]), str(case["comp"]))
    nontrivial(uv.Nblts > 1 and uv.Nfreqs * uv.Npols > 1)


# ---- writing in parts ---------------------------------------------------------------------
@P.sub("parts", lambda: st.fixed_dictionaries({
    "uv": file_uv(), **opts(), "kb": st.integers(1, 3), "kf": st.integers(1, 3),
    "kp": st.integers(1, 2), "seed": st.integers(0, 10**6),
    "sel": st.sampled_from(["blt_inds", "times", "bls"]), "check": st.booleans(),
    "addhist": chance(3)}), 700)
def parts(case):
    uv = make(case)
    s = snap(uv)
    d = scratch()
    fn = os.path.join(d, "p.uvh5")
    rng = np.random.default_rng(case["seed"])
    what = f"uvh5 in parts {({k: v for k, v in case.items() if k != 'uv'})}"
    meta = uv.copy(metadata_only=True)
    if case["dtype"] is None and case["seed"] % 2:
        meta = uv.copy()
    meta.initialize_uvh5_file(fn, **wkw(case, uv))
    # partition the axes
    if case["sel"] == "times":
        ut = np.unique(uv.time_array)
        g = rng.integers(0, case["kb"], len(ut))
        gb = g[np.searchsorted(ut, uv.time_array)]
    elif case["sel"] == "bls":
        ub = sorted({(min(a, b), max(a, b)) for a, b in zip(uv.ant_1_array.tolist(),
                                                           uv.ant_2_array.tolist())})
        allp = sorted(set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())))
        if len(allp) != len(ub):
            gb = rng.integers(0, case["kb"], uv.Nblts)
        else:
            g = rng.integers(0, case["kb"], len(ub))
            gb = np.array([g[ub.index((min(a, b), max(a, b)))] for a, b in
                           zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())])
    else:
        gb = rng.integers(0, case["kb"], uv.Nblts)
    gf = rng.integers(0, case["kf"], uv.Nfreqs)
    flex = uv.flex_spw_polarization_array is not None
    gp = np.zeros(uv.Npols, int) if flex else rng.integers(0, case["kp"], uv.Npols)
    # channels are selected by frequency: equal frequencies must be in one part
    for f in np.unique(uv.freq_array):
        w = np.nonzero(uv.freq_array == f)[0]
        gf[w] = gf[w[0]]
    blocks = [(b, f, p) for b in np.unique(gb) for f in np.unique(gf) for p in np.unique(gp)]
    for k in rng.permutation(len(blocks)):
        b, f, p = blocks[k]
        bi, fi, pi = np.nonzero(gb == b)[0], np.nonzero(gf == f)[0], np.nonzero(gp == p)[0]
        ix = np.ix_(bi, fi, pi)
        kw = {}
        if len(bi) < uv.Nblts or rng.random() < 0.3:
            if case["sel"] == "times":
                kw["times"] = np.unique(uv.time_array[bi])
            elif case["sel"] == "bls" and len(allp) == len(ub):
                kw["bls"] = [(int(x), int(y)) for x, y in
                             set(zip(uv.ant_1_array[bi], uv.ant_2_array[bi]))]
            else:
                kw["blt_inds"] = bi
        if len(fi) < uv.Nfreqs or rng.random() < 0.3:
            kw["freq_chans"] = fi
        if len(pi) < uv.Npols or (not flex and rng.random() < 0.3):
            kw["polarizations"] = uv.polarization_array[pi].tolist()
        if case["addhist"]:
            kw["add_to_history"] = " part"
        meta.write_uvh5_part(
            fn, data_array=np.ascontiguousarray(uv.data_array[ix]),
            flag_array=uv.flag_array[ix], nsample_array=uv.nsample_array[ix],
            check_header=case["check"] and not case["addhist"], **kw)
    same_snap(snap(uv), s, f"{what}: source changed")
    r = read_back(fn, **rkw(case))
    compare(snap(r), s, what, tols(case, uv))
    label(f"{len(blocks)} blocks" if len(blocks) < 3 else ">=3 blocks")
    nontrivial(len(blocks) > 1)
    # a header that does not match is refused
    if case["check"]:
        bad = uv.copy(metadata_only=True)
        bad.uvw_array = bad.uvw_array + 1.0
        with open(fn, "rb") as f:
            before = f.read()
        try:
            bad.write_uvh5_part(fn, data_array=uv.data_array, flag_array=uv.flag_array,
                                nsample_array=uv.nsample_array)
        except AssertionError:
            pass
        else:
            require(False, f"{what}: part with different metadata accepted")
        with open(fn, "rb") as f:
            require(f.read() == before, f"{what}: refused part changed the file")


# ---- fast metadata -------------------------------------------------------------------------
@P.sub("fastmeta", lambda: st.fixed_dictionaries({
    "uv": file_uv(), **opts(), "determine": st.booleans(), "recompute": st.sampled_from(
        [None, True, False]), "attrs": st.permutations(list(range(40))),
    "close": st.booleans(), "pick": chance(4)}), 700)
def fastmeta(case):
    import pickle

    from pyuvdata import utils
    from pyuvdata.uvdata.uvh5 import FastUVH5Meta

    uv = make(case)
    d = scratch()
    fn = os.path.join(d, "m.uvh5")
    uv.write_uvh5(fn, **wkw(case, uv))
    what = "FastUVH5Meta"
    m = FastUVH5Meta(fn, blt_order="determine" if case["determine"] else None,
                     recompute_nbls=case["recompute"])
    if case["pick"]:
        m = pickle.loads(pickle.dumps(m))
    rect = any(true_rect(snap(uv)))
    xo = uv.telescope.x_orientation
    pairs = list(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    flex = uv.flex_spw_polarization_array is not None
    checks = []

    def eq(name, want, rt=0, at=0, conv=None):
        checks.append((name, want, rt, at, conv))
    for n in ("Nbls", "Nblts", "Ntimes", "Nfreqs", "Npols", "Nspws", "Nants_data", "Nphase",
              "time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array",
              "freq_array", "channel_width", "spw_array", "polarization_array", "uvw_array",
              "integration_time", "vis_units", "phase_center_catalog", "phase_center_app_ra",
              "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array",
              "history", "flex_spw_id_array"):
        eq(n, getattr(uv, n))
    eq("extra_keywords", uv.extra_keywords or {})
    eq("antenna_names", list(uv.telescope.antenna_names), conv=list)
    eq("antenna_numbers", uv.telescope.antenna_numbers)
    eq("antenna_positions", uv.telescope.antenna_positions)
    eq("telescope_name", uv.telescope.name)
    eq("x_orientation", xo)
    eq("times", np.unique(uv.time_array), conv=np.sort)
    eq("lsts", np.unique(uv.lst_array), conv=np.sort)
    eq("antpairs", sorted(set(pairs)), conv=lambda v: sorted((int(a), int(b)) for a, b in v))
    eq("unique_ants", {x for p in pairs for x in p}, conv=lambda v: {int(x) for x in v})
    eq("unique_baseline_array", np.unique(uv.baseline_array), conv=np.sort)
    eq("antpos_enu", uv.telescope.get_enu_antpos(), 0, 1e-6)
    if uv.blt_order is not None:
        eq("blt_order", tuple(uv.blt_order))
    if not flex:
        eq("pols", [utils.polnum2str(p, x_orientation=xo) for p in uv.polarization_array])
    checks.append(("blts_are_rectangular", None, rect, None, None))
    order = [i for i in case["attrs"] if i < len(checks)]
    order += [i for i in range(len(checks)) if i not in order]
    for i in order:
        name, want, rt, at, conv = checks[i]
        if name == "blts_are_rectangular":
            got = m.blts_are_rectangular
            require(bool(got) == bool(rt), f"{what}: blts_are_rectangular {got}, truth {rt}")
            continue
        if case["close"]:
            got = m.get_transactional(name)
        else:
            got = getattr(m, name)
        if conv:
            got = conv(got)
        if name == "extra_keywords":
            require({k: str(v) for k, v in got.items()} == {k: str(v) for k, v in want.items()},
                    f"{what}: extra_keywords {got}")
            continue
        if isinstance(want, (set, tuple)) or (isinstance(want, list) and name == "antpairs"):
            require(got == want, f"{what}: {name} is {got}, expected {want}")
            continue
        same(got, want, f"{what}: {name}", rt, at)
    # time order and antenna order are the ones along the axis, for rectangular data
    if rect:
        require(len(m.times) == uv.Ntimes, f"{what}: times {m.times}")
        seen = list(dict.fromkeys(uv.time_array.tolist()))
        same(m.times, seen, f"{what}: order of times")
    present = set(pairs)
    if not flex:
        names = list(m.pols)
        ants = [int(a) for a in uv.telescope.antenna_numbers]
        for a in ants:
            for b in ants:
                require(m.has_key((a, b)) == ((a, b) in present or (b, a) in present),
                        f"{what}: has_key({a}, {b})")
                for p in ("xx", "xy", "yx", "yy", "ee", "en", "ne", "nn", "rr", "rl", "lr", "ll"):
                    w = ((a, b) in present and p in names) or (
                        (b, a) in present and p[::-1] in names)
                    require(m.has_key((a, b, p)) == w, f"{what}: has_key({(a, b, p)}) is not {w}")
    # objects from the metadata
    u2 = m.to_uvdata()
    s = snap(read_back(fn, read_data=False) if flex else uv.copy(metadata_only=True))
    got = snap(u2)
    compare(got, s, f"{what}.to_uvdata", {}, extra_skip=["blt_order"])
    m.close()
    nontrivial(uv.Nblts > 1)
    label("rect" if rect else "not rect")
