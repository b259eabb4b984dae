"""C14: reading part of a file equals reading it all and selecting."""
import os

import numpy as np
from hypothesis import strategies as st

import props.c02 as c02
import props.c10 as c10
import props.c11 as c11
import props.c12 as c12
import props.c13 as c13
from props.c01 import POLSTR, arr_form, sel
from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require, scratch
from vp.gen_uv import build_uv, chance, real_autos
from vp.uvmodel import check_blt_order, check_counts, check_rect

P = Prop(
    "C14",
    "a file of each format written from a generated UVData object and one to four select "
    "criteria of every kind, or a partition into several files; non-trivial: the selection "
    "keeps something but not everything, or there are at least two files.",
    ["the reference is a whole read followed by select (checked by C01) or addition (C02)",
     "histories are not compared"],
)
SKIP = ["filename", "history", "blts_are_rectangular", "time_axis_faster_than_bls"]


def sel_kwargs(uv, c, fmt):
    """Select keywords for the object, from the criteria of C01's grammar."""
    kw = {}
    a1, a2 = uv.ant_1_array, uv.ant_2_array
    pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
    ants = sorted(set(a1.tolist()) | set(a2.tolist()))
    k = c["ant"]
    nums = sorted({ants[i % len(ants)] for i in k["pick"]})
    bl = [pairs[i % len(pairs)] for i in k["pick"]]
    bl = [q[::-1] if k["flip"] and j % 2 else q for j, q in enumerate(dict.fromkeys(bl))]
    flex = uv.flex_spw_polarization_array is not None
    pols = sorted(set((uv.flex_spw_polarization_array if flex else uv.polarization_array).tolist()))
    if "nums" in k["kind"]:
        kw["antenna_nums"] = arr_form(
            nums, "list" if k["arr"] == "scalar" or fmt == "miriad" else k["arr"])
        if k["flip"]:
            kw["antenna_nums"] = kw["antenna_nums"][::-1]
    elif k["kind"] == "names":
        o = list(uv.telescope.antenna_numbers)
        kw["antenna_names"] = [str(uv.telescope.antenna_names[o.index(x)]) for x in nums]
    if k["kind"] in ("bls", "nums+bls"):
        kw["bls"] = bl
    elif k["kind"] == "blnum":
        kw["bls"] = [int(uv.antnums_to_baseline(*q)) for q in bl]
    elif k["kind"] == "antstr" and not flex:
        kw["ant_str"] = ["cross", "auto", "all", ",".join(f"{x}_{y}" for x, y in bl)][
            k["pick"][0] % 4]
    elif k["kind"] == "bls3" and not flex:
        kw["bls"] = [(x, y, POLSTR[pols[i % len(pols)]]) for (x, y), i in zip(bl, k["pick"])]
    k = c["time"]
    ts = np.unique(uv.time_array)
    tt = np.array(sorted({ts[i % len(ts)] for i in k["pick"]}))
    ls = np.array([uv.lst_array[np.nonzero(uv.time_array == t)[0][0]] for t in tt])
    if k["kind"] == "times":
        kw["times"] = tt
    elif k["kind"] == "time_range":
        kw["time_range"] = [tt[0] - 1e-6 + k["jit"] * 1e-5, tt[-1] + 1e-5]
    elif k["kind"] == "lsts":
        kw["lsts"] = np.unique(ls)
    elif k["kind"] == "lst_range":
        kw["lst_range"] = [max(ls.min() - 1e-6 + k["jit"] * 1e-5, 0), min(ls.max() + 1e-5, 6.28)]
    elif k["kind"] == "lst_wrap":
        kw["lst_range"] = [max(ls.max() - 1e-6, 0), min(ls.min() + 1e-5, 6.28)]
    k = c["freq"]
    n = uv.Nfreqs
    if k["kind"] in ("freqs", "both"):
        kw["frequencies"] = uv.freq_array[sorted({i % n for i in k["pick"]})]
    if k["kind"] in ("chans", "both"):
        kw["freq_chans"] = [i % n for i in (k["pick"] if k["kind"] == "chans" else k["pick2"])]
    k = c["pol"]
    pp = [pols[i % len(pols)] for i in k["pick"]]
    if k["kind"] == "num":
        kw["polarizations"] = pp
    elif k["kind"] in ("str", "feed"):
        kw["polarizations"] = [POLSTR[x] for x in pp]
    if c["blt"]["kind"] == "inds":
        kw["blt_inds"] = [i % uv.Nblts for i in c["blt"]["pick"]]
    ids = sorted(uv.phase_center_catalog)
    ch = sorted({ids[i % len(ids)] for i in c["pc"]["pick"]})
    if c["pc"]["kind"] == "ids":
        kw["phase_center_ids"] = ch
    elif c["pc"]["kind"] == "names":
        kw["catalog_names"] = sorted({uv.phase_center_catalog[i]["cat_name"] for i in ch})
    return kw


def by_name(s):
    """Number the phase centers in use by name."""
    cat = s["phase_center_catalog"]
    used = set(s["phase_center_id_array"].tolist())
    ids = sorted(used, key=lambda i: (cat[i]["cat_name"], repr(cat[i]["cat_lon"])))
    new = {i: k for k, i in enumerate(ids)}
    s["phase_center_catalog"] = {new[i]: cat[i] for i in ids}
    s["phase_center_id_array"] = np.array([new[i] for i in s["phase_center_id_array"].tolist()])
    s["Nphase"] = len(ids)


def compare(fn, case, rkw, skw, what, fmt, skip=(), tols=None):
    """Read with a selection against read and select."""
    from pyuvdata import UVData

    full = UVData.from_file(fn, **rkw)
    kw = sel_kwargs(full, case["sel"], fmt)
    if fmt == "miriad":
        # blt_inds after another selection is documented not to work, and the numbers of the
        # phase centers depend on which records come first
        if isinstance(kw.get("bls", [()])[0], int):
            kw.pop("bls")  # baseline numbers are refused
        if "ant_str" in kw:
            kw.pop("polarizations", None)  # select refuses the pair, the reader need not
        nat = [k for k in ("antenna_nums", "ant_str", "bls", "time_range") if k in kw]
        if nat:
            kw.pop("blt_inds", None)
            kw.pop("phase_center_ids", None)
            # the rest is selected from the records found so: only ask for times they have
            part = full.copy()
            try:
                part.select(**{k: kw[k] for k in nat}, run_check=False)
                for k, arr in (("times", part.time_array), ("lsts", part.lst_array)):
                    if k in kw and not np.isin(np.atleast_1d(kw[k]), arr).all():
                        kw.pop(k)
            except ValueError:
                pass
    if not kw:
        return
    keep = case["sel"]["keep"]
    n0 = (full.Nblts, full.Nfreqs, full.Npols, full.Nspws)
    what = f"{what} {kw} keep_all_metadata={keep}"
    err = None
    want = full.copy()
    try:
        want.select(**kw, keep_all_metadata=keep, run_check=False)
    except ValueError as e:
        err = e
    got = UVData()
    try:
        got.read(fn, **rkw, **skw, **kw, keep_all_metadata=keep)
    except ValueError as e:
        require(err is not None, f"{what}: reading refused ({e}), select did not")
        label("refused")
        return
    require(err is None, f"{what}: read selected {got.Nblts} records, select refused ({err})")
    if (want.flex_spw_polarization_array is None and got.flex_spw_polarization_array is not None
            and len(set(got.flex_spw_polarization_array.tolist())) == 1):
        # select drops flex-pol when one polarization remains, read leaves that to the caller
        got.remove_flex_pol()
    g, w = snap(got), snap(want)
    if fmt == "miriad":
        by_name(g)
        by_name(w)
    same_snap(g, w, what, skip=SKIP + list(skip), tols=tols)
    check_counts(g, what)
    check_blt_order(g, what)
    check_rect(g, what)
    n1 = (got.Nblts, got.Nfreqs, got.Npols, got.Nspws)
    nontrivial(n1 != n0 and kw)
    label(*[f"{fmt}:{k}" for k in kw])


RK = dict(fix_autos=False, check_autos=False, run_check_acceptability=False)


@P.sub("uvh5", lambda: st.fixed_dictionaries({
    "uv": c10.file_uv(), "sel": sel(), **c10.opts(), "multi": st.booleans(),
    "flexread": st.booleans(), "meta": st.booleans()}), 850)
def uvh5(case):
    from pyuvdata import UVData

    uv = c10.make(case)
    fn = os.path.join(scratch(), "a.uvh5")
    uv.write_uvh5(fn, **c10.wkw(case, uv))
    rkw = dict(RK, remove_flex_pol=case["flexread"], data_array_dtype=np.dtype(case["out"]).type)
    # flex-pol is only removed after the selection, so criteria on channels differ then
    rkw["remove_flex_pol"] = False
    what = f"uvh5 multidim={case['multi']}"
    compare(fn, case, rkw, {"multidim_index": case["multi"]}, what, "uvh5")
    if case["meta"]:
        m = UVData()
        m.read(fn, **dict(rkw, read_data=False))
        require(m.data_array is None and m.metadata_only, f"{what}: read_data=False read data")
        full = UVData.from_file(fn, **rkw)
        same_snap(snap(m), snap(full), f"{what}: metadata only",
                  skip=["filename", "data_array", "flag_array", "nsample_array"])
        m.read(fn, **rkw)
        same_snap(snap(m), snap(full), f"{what}: metadata, then data", skip=["filename"])


@P.sub("uvfits", lambda: st.fixed_dictionaries({
    "uv": c11.fits_uv(), "sel": sel(), **c11.opts(), "meta": st.booleans()}), 500)
def uvfits(case):
    from pyuvdata import UVData

    case["chanmix"] = False
    uv = c11.make(case)
    fn = os.path.join(scratch(), "a.uvfits")
    uv.write_uvfits(fn)
    compare(fn, case, RK, {}, "uvfits", "uvfits")
    if case["meta"]:
        m = UVData()
        m.read(fn, **dict(RK, read_data=False))
        require(m.metadata_only, "uvfits: read_data=False read data")
        full = UVData.from_file(fn, **RK)
        same_snap(snap(m), snap(full), "uvfits: metadata only",
                  skip=["filename", "data_array", "flag_array", "nsample_array"])


@P.sub("miriad", lambda: st.fixed_dictionaries({
    "uv": c12.mir_uv(pcs=("unprojected", "sidereal")), "sel": sel(), **c12.opts()}), 330)
def miriad(case):
    uv = c12.make(case)
    fn = os.path.join(scratch(), "a.uv")
    uv.write_miriad(fn)
    compare(fn, case, RK, {}, "miriad", "miriad")


@P.sub("ms", lambda: st.fixed_dictionaries({
    "uv": c13.ms_uv(), "sel": sel(), **c13.opts()}), 100)
def ms(case):
    uv = c13.make(case)
    fn = os.path.join(scratch(), "a.ms")
    uv.write_ms(fn)
    compare(fn, case, dict(RK, ignore_single_chan=False, allow_flex_pol=False), {}, "ms", "ms")


@P.sub("files", lambda: st.fixed_dictionaries({
    "uv": c02.uv_spec(max_chan=2, max_ants=4, max_spws=3, locs=[0, 1, 2]),
    "split": c02.split(axes=("blt", "freq", "pol")), "axis": chance(3),
    "bad": st.sampled_from([None, None, None, "missing", "text"]), "badpos": st.integers(0, 4),
    "multi": st.booleans()}), 260)
def files(case):
    from pyuvdata import UVData

    uv = real_autos(build_uv(case["uv"]))
    if uv.flex_spw_polarization_array is not None:
        uv.remove_flex_pol()
    sp = dict(case["split"], drop=99, meta=False, shuf=[False] * 3)
    parts = c02.make_parts(uv, sp)
    rng = np.random.default_rng(sp["order"])
    d = scratch()
    fns = []
    for k, (o, *_) in enumerate(parts):
        if sp["renum"] and sp["axes"] == "blt":
            c02.renumber(o, k)
        fn = os.path.join(d, f"p{k}.uvh5")
        o.write_uvh5(fn, run_check_acceptability=False, fix_autos=False)
        fns.append(fn)
    axis = None
    if case["axis"] and "+" not in sp["axes"] and (sp["axes"] != "freq" or uv.Nspws == 1):
        axis = {"blt": "blt", "freq": "freq", "pol": "polarization"}[sp["axes"]]
        order = list(range(len(fns)))
    else:
        order = rng.permutation(len(fns)).tolist()
    fns = [fns[i] for i in order]
    kw = dict(RK)
    if case["bad"]:
        bad = os.path.join(d, "bad.uvh5")
        if case["bad"] == "text":
            with open(bad, "w") as f:
                f.write("this is not a file of visibilities")
        fns.insert(case["badpos"] % (len(fns) + 1), bad)
        kw["skip_bad_files"] = True
        # the flag is refused?  then nothing may have been returned
        try:
            UVData().read(fns, axis=axis, file_type="uvh5", **RK)
        except (OSError, ValueError, KeyError):
            pass
        else:
            require(len(fns) == 0, "a list with an unreadable file was read without an error")
    g = UVData()
    g.read(fns, axis=axis, file_type="uvh5", **kw)
    what = f"read {len(fns)} files axis={axis} bad={case['bad']}"
    c02.compare(g, c02.expected(uv, parts), what)
    require(sorted(g.filename) == sorted(os.path.basename(f) for f in fns if "bad" not in f),
            f"{what}: filename {g.filename}")
    label(f"{len(parts)} files", f"axis {axis}")
    nontrivial(len(parts) > 1)
