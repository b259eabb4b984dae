"""C01: UVData.select keeps exactly the data the criteria describe."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import LOCS, build_uv, chance, uv_spec
from vp.uvmodel import (check_blt_order, check_counts, check_rect, drop_antennas,
                        expected_select)

P = Prop(
    "C01",
    "UVData objects from a spec grammar (antenna numbering, layouts, spectral windows, "
    "polarisations, flex-pol, phase centers, optional metadata) with one to four random "
    "select criteria; non-trivial: at least two criteria kinds and something, but not "
    "everything, is kept.",
    ["values are compared with the pre-select arrays indexed by a brute-force mask",
     "baseline numbers, antenna strings and baselines with polarizations list both orderings of a pair when "
     "both carry data"],
)

POLSTR = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
          -5: "xx", -6: "yy", -7: "xy", -8: "yx"}
CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}


def pick(n):
    """A subset of range(n) written as a bitmask-free list of small ints."""
    return st.lists(st.integers(0, 7), min_size=1, max_size=n)


@st.composite
def sel(draw):
    crit = {}
    # antenna-ish
    a = draw(st.sampled_from(["none", "none", "nums", "names", "bls", "bls3", "blnum",
                              "nums+bls", "antstr"]))
    crit["ant"] = {"kind": a, "pick": draw(pick(5)), "flip": draw(st.booleans()),
                   "arr": draw(st.sampled_from(["list", "array", "2d", "scalar"]))}
    t = draw(st.sampled_from(["none", "none", "times", "time_range", "lsts", "lst_range",
                              "lst_wrap"]))
    crit["time"] = {"kind": t, "pick": draw(pick(3)), "jit": draw(st.sampled_from([0, 1, -1]))}
    f = draw(st.sampled_from(["none", "none", "freqs", "chans", "both"]))
    crit["freq"] = {"kind": f, "pick": draw(pick(6)), "pick2": draw(pick(3))}
    p = draw(st.sampled_from(["none", "none", "num", "str", "feed"]))
    crit["pol"] = {"kind": p, "pick": draw(pick(3))}
    crit["blt"] = {"kind": draw(st.sampled_from(["none", "none", "none", "inds"])),
                   "pick": draw(st.lists(st.integers(0, 40), min_size=1, max_size=15))}
    crit["pc"] = {"kind": draw(st.sampled_from(["none", "none", "none", "ids", "names"])),
                  "pick": draw(pick(2))}
    crit["inplace"] = draw(st.booleans())
    crit["keep"] = draw(st.booleans())
    crit["meta"] = draw(chance(6))
    return crit


def strat():
    return st.fixed_dictionaries({"uv": uv_spec(chan_shuffle=True, spw_overlap=True), "sel": sel()})


def arr_form(vals, how):
    if how == "list":
        return list(vals)
    if how == "2d":
        return np.array([vals])
    if how == "scalar" and len(vals) == 1:
        return vals[0]
    return np.array(vals)


@P.sub("select", strat, 5200)
def check_select(case):
    uv = build_uv(case["uv"], meta_only=case["sel"]["meta"])
    c = case["sel"]
    s = snap(uv)
    nb, nf = len(s["time_array"]), len(s["freq_array"])
    a1, a2 = s["ant_1_array"], s["ant_2_array"]
    kw = {}
    mask = np.ones(nb, dtype=bool)
    fmask = np.ones(nf, dtype=bool)
    fsel = False
    psel = None
    kinds = 0
    blt_sel = False
    flex = s["flex_spw_polarization_array"]
    pols_here = list(flex) if flex is not None else list(s["polarization_array"])
    pols_uni = sorted(set(int(x) for x in pols_here), key=lambda x: [int(y) for y in pols_here].index(x))

    # --- antennas
    k = c["ant"]
    data_ants = sorted(set(a1.tolist()) | set(a2.tolist()))
    pairs = sorted(set(zip(a1.tolist(), a2.tolist())))
    nums = sorted({data_ants[i % len(data_ants)] for i in k["pick"]})
    bl = []
    for i in k["pick"]:
        p = pairs[i % len(pairs)]
        for q in (p, p[::-1]):
            if q in pairs and q not in bl:
                bl.append(q)
    blset = set(bl)
    in_bl = np.array([(x, y) in blset for x, y in zip(a1.tolist(), a2.tolist())])
    if k["kind"] in ("bls", "nums+bls") and not k["flip"]:
        # one ordering stands for both
        blset = {tuple(sorted(q)) for q in bl}
        bl = [q for i, q in enumerate(bl) if q[::-1] not in bl[:i]]
        in_bl = np.array([(min(x, y), max(x, y)) in blset for x, y in zip(a1.tolist(), a2.tolist())])
        blset = set(bl)
    in_nums = np.isin(a1, nums) & np.isin(a2, nums)
    given_bl = [(q[::-1] if k["flip"] and q[::-1] not in blset else q) for q in bl]
    if k["kind"] in ("nums", "nums+bls"):
        kw["antenna_nums"] = arr_form(nums, k["arr"])
        mask &= in_nums
        blt_sel = True
        kinds += 1
    if k["kind"] == "names":
        nm = [np.asarray(s["telescope.antenna_names"])[
            list(s["telescope.antenna_numbers"]).index(x)] for x in nums]
        kw["antenna_names"] = arr_form([str(x) for x in nm], k["arr"])
        mask &= in_nums
        blt_sel = True
        kinds += 1
    if k["kind"] in ("bls", "nums+bls"):
        kw["bls"] = given_bl
        if len(given_bl) == 1 and k["arr"] == "scalar":
            kw["bls"] = given_bl[0]
        mask &= in_bl
        blt_sel = True
        kinds += 1
    if k["kind"] == "blnum":
        kw["bls"] = sorted(set(int(b) for b in s["baseline_array"][in_bl]))
        mask &= in_bl
        blt_sel = True
        kinds += 1
    if k["kind"] == "antstr" and flex is None:
        kw["ant_str"] = ",".join(f"{x}_{y}" for x, y in given_bl)
        mask &= in_bl
        blt_sel = True
        kinds += 1
    if k["kind"] == "bls3" and flex is None:
        lst, pp = [], set()
        for j, q in enumerate(given_bl):
            pol = pols_uni[k["pick"][j % len(k["pick"])] % len(pols_uni)]
            flipped = q not in blset
            want = CONJ.get(pol, pol) if flipped else pol
            lst.append((q[0], q[1], POLSTR[want]))
            pp.add(pol)
        kw["bls"] = lst
        mask &= in_bl
        blt_sel = True
        psel = pp
        kinds += 1
    # --- phase centers
    k = c["pc"]
    ids = sorted(s["phase_center_catalog"])
    chosen = sorted({ids[i % len(ids)] for i in k["pick"]})
    if k["kind"] != "none":
        if k["kind"] == "ids":
            kw["phase_center_ids"] = chosen
        else:
            kw["catalog_names"] = [s["phase_center_catalog"][i]["cat_name"] for i in chosen]
        mask &= np.isin(s["phase_center_id_array"], chosen)
        blt_sel = True
        kinds += 1
    # --- times
    k = c["time"]
    ut = np.unique(s["time_array"])
    ct = sorted({float(ut[i % len(ut)]) for i in k["pick"]})
    if k["kind"] == "times":
        kw["times"] = [t + k["jit"] * 3e-9 for t in ct]
        mask &= np.isin(s["time_array"], ct)
    elif k["kind"] == "time_range":
        kw["time_range"] = [min(ct), max(ct)]
        mask &= (s["time_array"] >= min(ct)) & (s["time_array"] <= max(ct))
    elif k["kind"] == "lsts":
        lsts = [float(s["lst_array"][s["time_array"] == t][0]) for t in ct]
        kw["lsts"] = lsts
        mask &= np.isin(s["time_array"], ct)
    elif k["kind"] == "lst_range":
        lsts = [float(s["lst_array"][s["time_array"] == t][0]) for t in ct]
        kw["lst_range"] = [min(lsts), max(lsts)]
        if min(lsts) < max(lsts):
            mask &= (s["lst_array"] >= min(lsts)) & (s["lst_array"] <= max(lsts))
        else:
            mask &= s["lst_array"] == lsts[0]
    elif k["kind"] == "lst_wrap":
        lsts = [float(s["lst_array"][s["time_array"] == t][0]) for t in ct]
        hi, lo = max(lsts), min(lsts)
        if hi == lo:
            lo = lo - 0.2
        kw["lst_range"] = [hi, lo]
        mask &= (s["lst_array"] >= hi) | (s["lst_array"] <= lo)
    if k["kind"] != "none":
        blt_sel = True
        kinds += 1
    # --- blt inds
    k = c["blt"]
    if k["kind"] == "inds":
        inds = [i % nb for i in k["pick"]]
        kw["blt_inds"] = inds
        m = np.zeros(nb, dtype=bool)
        m[inds] = True
        mask &= m
        blt_sel = True
        kinds += 1
    # --- frequencies
    k = c["freq"]
    ch = sorted({i % nf for i in k["pick"]})
    ch2 = sorted({i % nf for i in k["pick2"]})
    m = np.zeros(nf, dtype=bool)
    if k["kind"] in ("freqs", "both"):
        kw["frequencies"] = s["freq_array"][ch].tolist()
        # every window that has a channel at this frequency
        m |= np.isin(s["freq_array"], s["freq_array"][ch])
    if k["kind"] == "chans":
        kw["freq_chans"] = ch
        m[ch] = True
    if k["kind"] == "both":
        kw["freq_chans"] = ch2
        m[ch2] = True
    if k["kind"] != "none":
        fmask &= m
        fsel = True
        kinds += 1
    # --- polarisations
    k = c["pol"]
    if k["kind"] != "none" and "ant_str" not in kw and c["ant"]["kind"] != "bls3":
        pp = sorted({pols_uni[i % len(pols_uni)] for i in k["pick"]})
        if k["kind"] == "num":
            kw["polarizations"] = pp
        elif k["kind"] == "feed" and s["telescope.x_orientation"] and min(pp) < -4:
            mp = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}[
                s["telescope.x_orientation"]]
            kw["polarizations"] = ["".join(mp[ch_] for ch_ in POLSTR[x]) for x in pp]
            label("feed-pol-strings")
        else:
            kw["polarizations"] = [POLSTR[x] for x in pp]
        psel = set(pp)
        kinds += 1
    pol = None
    if psel is not None:
        if flex is not None:
            spws = [sp for sp, q in zip(s["spw_array"], flex) if int(q) in psel]
            fmask &= np.isin(s["flex_spw_id_array"], spws)
            fsel = True
        else:
            pol = [i for i, q in enumerate(s["polarization_array"]) if int(q) in psel]

    kw["keep_all_metadata"] = c["keep"]
    empty = (blt_sel and not mask.any()) or (fsel and not fmask.any())
    for kk in ("ant", "time", "freq", "pol", "pc"):
        if c[kk]["kind"] != "none":
            label(kk + ":" + c[kk]["kind"])
    if flex is not None:
        label("flex-pol")
    if empty:
        label("empty-selection")
        try:
            uv.select(inplace=c["inplace"], **kw)
        except ValueError:
            return
        fail("a selection that matches nothing did not raise ValueError")
    ret = uv.select(inplace=c["inplace"], **kw)
    if c["inplace"]:
        require(ret is None, "select(inplace=True) returned something")
        got = uv
    else:
        got = ret
        same_snap(snap(uv), s, "select(inplace=False) changed the original")
    g = snap(got)
    e = expected_select(
        s, np.nonzero(mask)[0] if blt_sel else None,
        np.nonzero(fmask)[0] if fsel else None, pol,
    )
    if not c["keep"] and blt_sel:
        e = drop_antennas(e)
    require(g["history"].startswith(s["history"]), "history lost its earlier text")
    same_snap(g, e, "after select", skip=("history", "blts_are_rectangular",
                                          "time_axis_faster_than_bls"))
    check_counts(g, "after select")
    check_rect(g, "after select")
    check_blt_order(g, "after select")
    nontrivial(kinds >= 2 and ((blt_sel and not mask.all()) or (fsel and not fmask.all())))
    if LOCS[case["uv"]["tel"]["loc"]][0] == "moon":
        label("moon")
