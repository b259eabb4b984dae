"""C02: split a data set, combine the parts, get the records back."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import build_uv, chance, uv_spec
from vp.uvmodel import DATA, FREQ, canon, check_counts, check_rect, same_canon

P = Prop(
    "C02",
    "UVData objects from the spec grammar, split into 2-4 parts along one or two axes with "
    "random labels, parts internally shuffled and with independently renumbered phase "
    "centers, combined in random order by addition or concatenation; non-trivial: parts "
    "interleave, or more than two parts, or two axes.",
    ["expected content is assembled record by record from the parts; records no part holds "
     "must be zero, flagged and without samples"],
)


@st.composite
def split(draw, axes=("blt", "freq", "pol", "blt+freq", "blt+pol", "freq+pol")):
    n = draw(st.integers(2, 4))
    return {
        "axes": draw(st.sampled_from(list(axes))), "n": n,
        "lab": draw(st.lists(st.integers(0, n - 1), min_size=8, max_size=24)),
        "lab2": draw(st.lists(st.integers(0, 1), min_size=4, max_size=8)),
        "drop": draw(st.integers(0, 15)),
        "order": draw(st.integers(0, 1000)),
        "shuf": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
        "iadd": draw(st.booleans()),
        "renum": draw(st.booleans()),
        "meta": draw(chance(8)),
    }


def labels(lab, n):
    return np.array([lab[i % len(lab)] for i in range(n)])


def renumber(uv, k):
    """Give this object its own catalog numbering and drop unused entries."""
    cat = uv.phase_center_catalog
    used = sorted(set(uv.phase_center_id_array.tolist()))
    new, idmap = {}, {}
    for j, i in enumerate(used if k % 2 else used[::-1]):
        idmap[i] = j
        new[j] = cat[i]
    uv.phase_center_catalog = new
    uv.phase_center_id_array = np.array([idmap[i] for i in uv.phase_center_id_array.tolist()])
    uv.Nphase = len(new)


def make_parts(uv, sp):
    """[(object, blt idx, freq idx, pol idx)] of the original object."""
    nb, nf, npol = uv.Nblts, uv.Nfreqs, uv.Npols
    ax = sp["axes"].split("+")
    dims = {"blt": nb, "freq": nf, "pol": npol}
    first, second = ax[0], (ax[1] if len(ax) > 1 else None)
    l1 = labels(sp["lab"], dims[first])
    cells = []
    for a in sorted(set(l1.tolist())):
        i1 = np.nonzero(l1 == a)[0]
        if second is None:
            cells.append({first: i1})
            continue
        # the second axis is cut differently for every part of the first axis
        l2 = labels(sp["lab2"][a % 2:] + sp["lab2"][: a % 2], dims[second])
        for b in sorted(set(l2.tolist())):
            cells.append({first: i1, second: np.nonzero(l2 == b)[0]})
    if second is not None and sp["drop"] < len(cells) and len(cells) > 2:
        cells.pop(sp["drop"])
        label("with-hole")
    rng = np.random.default_rng(sp["order"])
    parts = []
    for k, c in enumerate(cells):
        b = c.get("blt", np.arange(nb))
        f = c.get("freq", np.arange(nf))
        p = c.get("pol", np.arange(npol))
        kw = {}
        if "blt" in c:
            kw["blt_inds"] = b
        if "freq" in c:
            kw["freq_chans"] = f
        if "pol" in c:
            kw["polarizations"] = uv.polarization_array[p]
        o = uv.select(inplace=False, **kw)
        if sp["shuf"][0]:
            q = rng.permutation(len(b))
            o.reorder_blts(q)
            b = b[q]
        if sp["shuf"][1]:
            # shuffle channels inside each window, windows stay grouped
            ids = o.flex_spw_id_array
            q = np.concatenate([rng.permutation(np.nonzero(ids == w)[0])
                                for w in dict.fromkeys(ids.tolist())])
            o.reorder_freqs(channel_order=q)
            f = f[q]
        if sp["shuf"][2]:
            q = rng.permutation(len(p))
            o.reorder_pols(q)
            p = p[q]
        parts.append((o, b, f, p))
    return parts


def expected(uv, parts):
    """Canonical snapshot of the union of the parts."""
    s = snap(uv)
    b = np.array(sorted({int(i) for x in parts for i in x[1]}))
    f = np.array(sorted({int(i) for x in parts for i in x[2]}))
    p = np.array(sorted({int(i) for x in parts for i in x[3]}))
    e = dict(s)
    if s["data_array"] is not None:
        have = np.zeros(s["data_array"].shape, dtype=bool)
        for x in parts:
            have[np.ix_(x[1], x[2], x[3])] = True
        e["data_array"] = np.where(have, s["data_array"], 0)
        e["flag_array"] = np.where(have, s["flag_array"], True)
        e["nsample_array"] = np.where(have, s["nsample_array"], 0)
    from vp.uvmodel import expected_select

    return expected_select(e, b, f, p)


def compare(got, e, what):
    g = snap(got)
    cg, ce = canon(g), canon(e)
    same_canon(cg, ce, what, skip=("extra_keywords", "dut1", "gst0", "rdate", "earth_omega",
                                   "timesys"))
    check_counts(g, what)
    check_rect(g, what)
    got.check()


def add_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_chan=2, max_ants=4, max_spws=4, spw_overlap=True), "split": split(),
    })


def freq_ok(parts):
    return True


@P.sub("add", add_strategy, 1700)
def add(case):
    sp = case["split"]
    uv = build_uv(case["uv"], meta_only=sp["meta"])
    flex = uv.flex_spw_polarization_array is not None
    if flex and "pol" in sp["axes"]:
        sp = dict(sp, axes="blt+freq")
    parts = make_parts(uv, sp)
    rng = np.random.default_rng(sp["order"] + 1)
    if sp["renum"] and sp["axes"] == "blt":
        for k, x in enumerate(parts):
            renumber(x[0], k)
        label("renumbered-catalogs")
    order = rng.permutation(len(parts))
    parts = [parts[i] for i in order]
    if len(parts) < 2:
        return
    flexish = [x[0].flex_spw_polarization_array is None for x in parts]
    if flex and any(flexish):
        label("flex-lost")
        return
    e = expected(uv, parts)
    acc = parts[0][0].copy()
    for k, x in enumerate(parts[1:], start=1):
        other = x[0]
        so = snap(other)
        if sp["iadd"]:
            acc += other
        else:
            sa = snap(acc)
            new = acc + other
            same_snap(snap(acc), sa, "a + b changed a")
            acc = new
        same_snap(snap(other), so, "addition changed its right operand")
    compare(acc, e, "sum of the parts")
    nontrivial(len(parts) > 2 or "+" in sp["axes"] or any(sp["shuf"]))
    label(sp["axes"])


def concat_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_chan=2, max_ants=4, max_spws=4, spw_overlap=True), "split": split(axes=("blt", "freq", "pol")),
        "aslist": st.booleans(),
    })


@P.sub("concat", concat_strategy, 1300)
def concat(case):
    sp = dict(case["split"])
    uv = build_uv(case["uv"], meta_only=sp["meta"])
    flex = uv.flex_spw_polarization_array is not None
    axis = sp["axes"]
    if flex and axis == "pol":
        axis = sp["axes"] = "blt"
    if axis == "freq":
        # whole windows, so that windows stay contiguous
        w = [s["id"] for s in case["uv"]["spws"]]
        if len(w) < 2:
            return
        m = {i: sp["lab"][k % len(sp["lab"])] for k, i in enumerate(w)}
        sp["lab"] = [m[i] for i in uv.flex_spw_id_array.tolist()]
        sp["shuf"] = [False, sp["shuf"][1], False]
    elif axis == "blt":
        sp["shuf"] = [sp["shuf"][0], False, False]
    else:
        sp["shuf"] = [False, False, sp["shuf"][2]]
    parts = make_parts(uv, sp)
    if len(parts) < 2:
        return
    if flex and any(x[0].flex_spw_polarization_array is None for x in parts):
        return
    if flex and len({x[0].polarization_array[0] for x in parts}) > 1:
        return
    rng = np.random.default_rng(sp["order"] + 1)
    if sp["renum"] and axis == "blt":
        for k, x in enumerate(parts):
            renumber(x[0], k)
        label("renumbered-catalogs")
    parts = [parts[i] for i in rng.permutation(len(parts))]
    e = expected(uv, parts)
    if case["uv"].get("setrect"):
        for x in parts:
            x[0].determine_blt_order()
    name = {"blt": "blt", "freq": "freq", "pol": "polarization"}[axis]
    objs = [x[0] for x in parts]
    first = objs[0]
    before = [snap(o) for o in objs]
    if case["aslist"]:
        if sp["iadd"]:
            first.fast_concat(objs[1:], name, inplace=True)
            got = first
        else:
            got = first.fast_concat(objs[1:], name)
            same_snap(snap(first), before[0], "fast_concat changed the first object")
        label("list")
    else:
        got = first
        for o in objs[1:]:
            if sp["iadd"]:
                got.fast_concat(o, name, inplace=True)
            else:
                got = got.fast_concat(o, name)
        if not sp["iadd"]:
            same_snap(snap(first), before[0], "fast_concat changed the first object")
    for o, b in zip(objs[1:], before[1:]):
        same_snap(snap(o), b, "fast_concat changed an input")
    compare(got, e, "concatenation of the parts")
    # concatenation keeps the given order
    if axis == "blt":
        want = np.concatenate([x[1] for x in parts])
        require(np.array_equal(snap(got)["time_array"], snap(uv)["time_array"][want]),
                "fast_concat did not keep the given order")
    nontrivial(len(parts) > 2 or any(sp["shuf"]) or sp["renum"])
    label(axis)


def overlap_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_chan=3, max_ants=4, max_spws=2, flexpol=False),
        "pick": st.lists(st.integers(0, 30), min_size=1, max_size=6),
        "pick2": st.lists(st.integers(0, 30), min_size=1, max_size=6),
        "what": st.sampled_from(["data", "same", "inttime", "uvw", "appra", "chanwidth",
                                 "units", "tel", "blank"]),
        "iadd": st.booleans(),
    })


@P.sub("conflict", overlap_strategy, 700)
def conflict(case):
    uv = build_uv(case["uv"])
    nb = uv.Nblts
    b1 = sorted({i % nb for i in case["pick"]})
    b2 = sorted({i % nb for i in case["pick2"]})
    what = case["what"]
    if what in ("data", "same", "blank"):
        if not set(b1) & set(b2):
            b2 = sorted(set(b2) | {b1[0]})
        x = uv.select(blt_inds=b1, inplace=False)
        y = uv.select(blt_inds=b2, inplace=False)
        if what == "data":
            y.data_array = y.data_array + 1
            y.flag_array[:] = False
            x.flag_array[:] = False
        elif what == "same":
            x.flag_array[:] = False
            y.flag_array[:] = False
    else:
        if what in ("units", "tel"):
            x = uv.select(blt_inds=b1, inplace=False)
            rest = [i for i in range(nb) if i not in b1]
            if not rest:
                return
            y = uv.select(blt_inds=rest, inplace=False)
        elif uv.Nfreqs > 1 and what != "chanwidth":
            x = uv.select(freq_chans=[0], inplace=False)
            y = uv.select(freq_chans=list(range(1, uv.Nfreqs)), inplace=False)
        else:
            rest = [i for i in range(nb) if i not in b1]
            if not rest or what != "chanwidth":
                return
            x = uv.select(blt_inds=b1, inplace=False)
            y = uv.select(blt_inds=rest, inplace=False)
        if what == "inttime":
            y.integration_time = y.integration_time.copy()
            y.integration_time[-1] += 1.0
        elif what == "uvw":
            y.uvw_array = y.uvw_array.copy()
            y.uvw_array[-1, 0] += 5.0
        elif what == "appra":
            y.phase_center_app_ra = y.phase_center_app_ra.copy()
            y.phase_center_app_ra[-1] += 0.01
        elif what == "chanwidth":
            y.channel_width = y.channel_width.copy()
            y.channel_width[-1] += 1e4
        elif what == "units":
            y.vis_units = "Jy" if y.vis_units != "Jy" else "K str"
        elif what == "tel":
            y.telescope.antenna_positions = y.telescope.antenna_positions + 10.0
    label(what)
    nontrivial()
    if what == "blank":
        # the first object's overlapping records are flagged zeros: they may be replaced
        both = sorted(set(b1) & set(b2))
        k = [b1.index(i) for i in both]
        x.data_array[k] = 0
        x.flag_array[k] = True
        x.nsample_array[k] = 0
        got = x + y
        e = expected(uv, [(None, np.array(b1), np.arange(uv.Nfreqs), np.arange(uv.Npols)),
                          (None, np.array(b2), np.arange(uv.Nfreqs), np.arange(uv.Npols))])
        compare(got, e, "adding over blank records")
        return
    sx, sy = snap(x), snap(y)
    try:
        if case["iadd"]:
            x += y
        else:
            x + y
    except ValueError:
        same_snap(snap(y), sy, "a refused addition changed its right operand")
        if not case["iadd"]:
            same_snap(snap(x), sx, "a refused addition changed its left operand")
        return
    fail(f"conflicting data sets ({what}) were combined")
