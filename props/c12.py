"""C12: MIRIAD files give back what was written."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same_snap, snap
from vp.core import Prop, label, nontrivial, require, scratch
from vp.filecmp import angle_diff, check_file_read, near
from vp.gen_uv import POLSETS_CLOSED, build_uv, chance, real_autos, uv_spec
from vp.uvmodel import check_counts

P = Prop(
    "C12",
    "a UVData object on the Earth with evenly spaced windows (uneven in size) and every kind of "
    "phase center, and the writer's options; non-trivial: at least two records and at least "
    "two channels or polarizations.",
    ["autocorrelations are real and channels evenly spaced, because the writer requires it",
     "a baseline is present in one direction only (the format stores one)",
     "proper motion, distance, equalisation coefficients, scan numbers and non-uniform diameters "
     "are not stored by the format"],
)
ORDERS = [None, ["time", "baseline"], ["baseline", "time"], ["ant1", "time"], ["time", "ant2"],
          ["ant2", "ant1"], ["bda"]]
BLOCKS = [[0, 1, 2, 3], [2, 0, 1, 3], [1, 0], [3, 1, 0, 2], [10, 4, 7, 0], [100, 250, 254, 12],
          [1, 2, 3, 5]]


def mir_uv(max_spws=3, pcs=("unprojected", "sidereal", "ephem", "driftscan")):
    return uv_spec(max_ants=4, max_times=3, max_chan=4, max_spws=max_spws, max_pairs=6,
                   locs=[0, 1, 2, 3], regular_freq=True, pcs=pcs, flexpol=False, blocks=BLOCKS,
                   conj_dups=False, single=True, polsets=POLSETS_CLOSED)


def make(case):
    spec = copy.deepcopy(case["uv"])
    for p in spec["pcs"]:
        p["pm"] = p["dist"] = False
    uv = real_autos(build_uv(spec))
    if case["spwid"]:
        uv.spw_array = uv.spw_array[::-1].copy()
    if uv.telescope.antenna_diameters is not None and case["udiam"]:
        uv.telescope.antenna_diameters = np.full(uv.telescope.Nants, 12.5)
    if case["order"] == ["bda"]:
        uv.blt_order = ("bda",)
        uv._blt_order.form = (1,)
    elif case["order"]:
        uv.reorder_blts(order=case["order"][0], minor_order=(case["order"] + [None])[1])
    if case["hist"]:
        uv.history = "some text\nwith lines  and  spaces " + "x" * 200
    if case["allflag"]:
        rng = np.random.default_rng(spec["seed"])
        uv.flag_array[rng.random(uv.Nblts) < 0.5] = True
    return uv


def opts():
    return {"order": st.sampled_from(ORDERS), "spwid": chance(3), "udiam": st.booleans(),
            "hist": chance(4), "allflag": chance(5)}


def match(r, uv):
    """blts of uv in r's order, by time and baseline."""
    key = {}
    for i in range(uv.Nblts):
        key.setdefault((int(uv.ant_1_array[i]), int(uv.ant_2_array[i])), []).append(i)
    out = []
    for i in range(r.Nblts):
        c = key.get((int(r.ant_1_array[i]), int(r.ant_2_array[i])), [])
        c = [j for j in c if abs(uv.time_array[j] - r.time_array[i]) < 1e-6]
        require(len(c) == 1, f"record {i} of the file ({r.ant_1_array[i]}, {r.ant_2_array[i]}, "
                             f"{r.time_array[i]}) matches {len(c)} written records")
        out.append(c[0])
    require(len(set(out)) == len(out), "two records of the file match one written record")
    return out


@P.sub("roundtrip", lambda: st.fixed_dictionaries({
    "uv": mir_uv(), **opts(), "calc": st.booleans(), "rcalc": st.booleans(),
    "exists": chance(4)}), 900)
def roundtrip(case):
    from pyuvdata import UVData

    uv = make(case)
    want = uv.copy()
    want.conjugate_bls("ant1<ant2")
    what = f"miriad {({k: v for k, v in case.items() if k != 'uv'})}"
    fn = os.path.join(scratch(), "a.mir")
    if case["exists"]:
        os.mkdir(fn)
        with open(os.path.join(fn, "keep"), "w") as f:
            f.write("precious")
        try:
            uv.write_miriad(fn)
        except OSError:
            pass
        else:
            require(False, f"{what}: an existing file was overwritten without clobber")
        with open(os.path.join(fn, "keep")) as f:
            require(f.read() == "precious" and os.listdir(fn) == ["keep"],
                    f"{what}: a refused write changed the file")
    uv.write_miriad(fn, clobber=case["exists"], calc_lst=case["calc"])
    same_snap(snap(uv), snap(want), f"{what}: writing changed more than the baseline direction",
              skip=["history"])
    r = UVData()
    r.read(fn, fix_autos=False, calc_lst=case["rcalc"])
    perm = match(r, want)
    udiam = want.telescope.antenna_diameters is None or len(
        set(want.telescope.antenna_diameters)) == 1
    # ephem and driftscan are stored as positions at the times of the records
    w2 = want.copy()
    moving = {k for k, v in want.phase_center_catalog.items()
              if v["cat_type"] in ("ephem", "driftscan")}
    mv = np.isin(want.phase_center_id_array, list(moving))
    for k in moving:
        rec = [i for i in range(r.Nblts) if want.phase_center_id_array[perm[i]] == k]
        ids = {int(r.phase_center_id_array[i]) for i in rec}
        require(len(ids) == 1, f"{what}: records of source {k} point at {ids}")
        w2.phase_center_catalog[k] = dict(r.phase_center_catalog[ids.pop()])
        require(w2.phase_center_catalog[k]["cat_name"] == want.phase_center_catalog[k]["cat_name"],
                f"{what}: name of {want.phase_center_catalog[k]['cat_name']}")
        e = w2.phase_center_catalog[k]
        require(e["cat_type"] in ("ephem", "sidereal"), f"{what}: {e}")
        if want.phase_center_catalog[k]["cat_type"] == "ephem":
            o = want.phase_center_catalog[k]
            for i in rec:
                t = r.time_array[i]
                ra = np.interp(t, o["cat_times"], o["cat_lon"])
                de = np.interp(t, o["cat_times"], o["cat_lat"])
                if e["cat_type"] == "ephem":
                    q = int(np.argmin(np.abs(e["cat_times"] - t)))
                    near(e["cat_times"][q], t, f"{what}: cat_times", 1e-8)
                    g = e["cat_lon"][q], e["cat_lat"][q]
                else:
                    g = np.atleast_1d(e["cat_lon"])[0], np.atleast_1d(e["cat_lat"])[0]
                require(angle_diff(g[0], ra) < 2e-7 and abs(g[1] - de) < 2e-7,
                        f"{what}: ephemeris {g}, expected {(ra, de)}")
    w2.history = want.history
    check_file_read(
        r, w2, what, single=True, perm=perm, pols=want.polarization_array,
        blt_order_kept=True, diam_rtol=1e-9, uvw_tol=1e-6 * (1 + np.max(np.abs(uv.uvw_array))),
        skip=([] if udiam else ["diameters"]), lst_tol=2e-8, fits=True)
    if want.blt_order is not None:
        # the axis really is in that order
        arr = {"time": r.time_array, "baseline": r.baseline_array, "ant1": r.ant_1_array,
               "ant2": r.ant_2_array}
        if tuple(r.blt_order) != ("bda",):
            k = list(zip(*[arr[o].tolist() for o in r.blt_order]))
            require(k == sorted(k), f"{what}: blt_order {r.blt_order} is not true")
    check_counts(snap(r), what)
    label(f"{uv.Nspws} windows", "varying int" if case["uv"]["vint"] else "fixed int",
          "moving" if mv.any() else "fixed")
    nontrivial(uv.Nblts > 1 and uv.Nfreqs * uv.Npols > 1)


@P.sub("refuse", lambda: st.fixed_dictionaries({
    "uv": mir_uv(), **opts(), "what": st.sampled_from(["spacing", "moon", "mix", "type"])}), 120)
def refuse(case):
    """What the format cannot hold is refused and leaves no file behind that reads as data."""
    uv = make(case)
    w = case["what"]
    fn = os.path.join(scratch(), "a.mir")
    if w == "spacing":
        ch = [np.nonzero(uv.flex_spw_id_array == s)[0] for s in uv.spw_array]
        ch = [c for c in ch if c.size > 2]
        if not ch:
            return
        uv.freq_array[ch[0][1]] += 0.3 * uv.channel_width[ch[0][1]]
    elif w == "moon":
        from lunarsky import MoonLocation

        uv.telescope.location = MoonLocation.from_selenodetic(10.0, 20.0, 0.0)
    elif w == "type":
        uv.extra_keywords = {"a": [1, 2]}
    else:
        if uv.Nspws < 2 or uv.Nfreqs < 4:
            return
        o = np.argsort(np.arange(uv.Nfreqs) % 2, kind="stable")
        uv.flex_spw_id_array = uv.flex_spw_id_array[o]
        uv.freq_array, uv.channel_width = uv.freq_array[o], uv.channel_width[o]
        if np.count_nonzero(np.diff(uv.flex_spw_id_array)) < uv.Nspws:
            return
    try:
        uv.write_miriad(fn)
    except (ValueError, TypeError, IndexError):
        label("refused")
    else:
        require(False, f"miriad: {w} was written")
    nontrivial()
