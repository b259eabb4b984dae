"""C25: flexible polarization (UVData) and flexible Jones (UVCal) conversion."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_cal import build_cal, cal_spec, check_cal
from vp.gen_uv import build_uv, chance, uv_spec

P = Prop(
    "C25",
    "UVData with 1-4 polarizations and UVCal (gain, wide band, delay) with 1-4 Jones terms, 1-3 "
    "windows of any order, converted to the flexible form by the code or rearranged into it by an "
    "independent model (windows, polarizations and channels in any order, possibly missing), and "
    "back; non-trivial: more than one polarization or Jones term.",
    ["windows with identical channels and polarization cannot be combined (refused, as documented)",
     "spectral-window numbers created by the conversion are arbitrary"],
)
UVD = ["data_array", "flag_array", "nsample_array"]
CALD = ["gain_array", "delay_array", "flag_array", "quality_array"]


def key(*v):
    return tuple(None if x is None else np.ascontiguousarray(x).tobytes() for x in v)


def columns(s, cal, c, p):
    """Everything stored for channel (or wide-band window) c and polarization index p."""
    if cal:
        tq = s["total_quality_array"]
        return key(*(None if s[n] is None else s[n][:, c, :, p] for n in CALD),
                   None if tq is None else tq[c, :, p])
    eq = s["eq_coeffs"]
    return key(*(None if s[n] is None else s[n][:, c, p] for n in UVD),
               None if eq is None else eq[:, c])


def empty_col(s, cal, c, p):
    """True if the entry is padding: all flagged and zero."""
    if cal:
        vals = [s[n][:, c, :, p] for n in ("gain_array", "delay_array") if s[n] is not None]
        return np.all(s["flag_array"][:, c, :, p]) and all(not np.any(v) for v in vals)
    return (np.all(s["flag_array"][:, c, p]) and not np.any(s["data_array"][:, c, p])
            and not np.any(s["nsample_array"][:, c, p]))


def cells(s, cal=False, pad=False):
    """{window: {pol: [(freq, width, values)]}} in channel order; padding left out if asked."""
    out = {}
    fp = s["flex_jones_array"] if cal else s["flex_spw_polarization_array"]
    pols = s["jones_array"] if cal else s["polarization_array"]
    wide = cal and s["wide_band"]
    for w, spw in enumerate(s["spw_array"].tolist()):
        if wide:
            ch = [w]
            fr = {w: tuple(s["freq_range"][w].tolist())}
            cw = {w: 0.0}
        else:
            ch = np.nonzero(s["flex_spw_id_array"] == spw)[0].tolist()
            fr = {c: float(s["freq_array"][c]) for c in ch}
            cw = {c: float(s["channel_width"][c]) for c in ch}
        out[spw] = {}
        for p, pol in enumerate(pols.tolist() if fp is None else [int(fp[w])]):
            if pad and all(empty_col(s, cal, c, p) for c in ch):
                continue
            out[spw][pol] = [(fr[c], cw[c], columns(s, cal, c, p)) for c in ch]
    return out


def flat(cl):
    """Windows without their numbers: sorted list of (pol, sorted entries)."""
    return sorted((pol, tuple(sorted(v, key=repr))) for d in cl.values() for pol, v in d.items())


def canon(cl):
    return {w: {p: sorted(v, key=repr) for p, v in d.items()} for w, d in cl.items()}


def matchable(cl):
    """'full' if windows pair up over all polarizations, 'dup' or 'part' otherwise."""
    groups = {}
    for w, d in cl.items():
        for p, v in d.items():
            groups.setdefault(tuple(sorted((a, b) for a, b, _ in v)), []).append(p)
    pols = {p for d in cl.values() for p in d}
    if any(len(set(g)) != len(g) for g in groups.values()):
        return "dup"
    return "full" if all(set(g) == pols for g in groups.values()) else "part"


def check_uv(uv, what):
    s = snap(uv)
    require(s["Nfreqs"] == len(s["freq_array"]) and s["Npols"] == len(s["polarization_array"])
            and s["Nspws"] == len(s["spw_array"]), f"{what}: counts do not match the arrays")
    uv.check()


# ------------------------------------------------------------------ UVData
@st.composite
def uv_case(draw):
    return {"uv": draw(uv_spec(flexpol=False, chan_shuffle=True, max_times=2, max_pairs=3)),
            "meta": draw(chance(6)), "combine": draw(st.sampled_from([True, True, False]))}


@P.sub("uvdata_there_and_back", uv_case, 700)
def uvdata(case):
    uv = build_uv(case["uv"], meta_only=case["meta"])
    s = snap(uv)
    orig = cells(s)
    uv.convert_to_flex_pol()
    what = "convert_to_flex_pol"
    check_uv(uv, what)
    g = snap(uv)
    c = cells(g)
    require(g["polarization_array"].tolist() == [0] and g["Npols"] == 1, f"{what}: polarization axis")
    require(flat(c) == flat(orig), f"{what}: values moved or lost")
    require(all(len(d) == 1 for d in c.values()), f"{what}: window with several polarizations")
    same_snap(g, s, what, skip=UVD + ["freq_array", "channel_width", "spw_array", "flex_spw_id_array",
                                     "flex_spw_polarization_array", "polarization_array", "Nfreqs",
                                     "Npols", "Nspws", "eq_coeffs", "history"])
    m = matchable(c)
    what = f"convert_to_flex_pol and remove_flex_pol(combine_spws={case['combine']})"
    try:
        uv.remove_flex_pol(combine_spws=case["combine"])
    except ValueError as err:
        require(case["combine"] and m == "dup", f"{what}: refused: {err}")
        return label("refused")
    check_uv(uv, what)
    h = snap(uv)
    require(h["flex_spw_polarization_array"] is None, f"{what}: still flexible")
    if case["combine"]:
        require(canon(cells(h)) == canon(orig), f"{what}: not the original")
        same(np.sort(h["polarization_array"]), np.sort(s["polarization_array"]), f"{what}: pols")
        same_snap(h, s, what, skip=UVD + ["freq_array", "channel_width", "spw_array",
                                          "flex_spw_id_array", "polarization_array", "eq_coeffs",
                                          "history"])
    elif not case["meta"]:
        require(canon(cells(h, pad=True)) == canon(pad_free(c, g)), f"{what}: values moved or lost")
    label("meta" if case["meta"] else "data")
    nontrivial(len(s["polarization_array"]) > 1)


def pad_free(c, s, cal=False):
    """Drop windows that are all padding in the flexible object itself."""
    return {w: (d if (w in cells(s, cal, pad=True) and cells(s, cal, pad=True)[w]) else {})
            for w, d in c.items()}


@st.composite
def uvm_case(draw):
    return {"uv": draw(uv_spec(flexpol=False, max_times=2, max_pairs=3)),
            "seed": draw(st.integers(0, 10**6)),
            "how": draw(st.sampled_from(["blocks", "polslow", "polmix", "polmix", "polfast", "chans", "inter"])),
            "drop": draw(chance(4)), "combine": draw(st.sampled_from([True, True, True, False]))}


@P.sub("uvdata_from_model", uvm_case, 900)
def uvdata_model(case):
    uv = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    s = snap(uv)
    orig = cells(s)
    # rearrange into the flexible form by hand
    blocks = [(int(w), p) for w in s["spw_array"] for p in range(len(s["polarization_array"]))]
    how = case["how"]
    if how == "polslow":
        blocks.sort(key=lambda b: b[1])
    elif how == "polmix":
        # polarization slowest, the windows of each in an order of their own
        r = {b: rng.random() for b in blocks}
        blocks.sort(key=lambda b: (b[1], r[b]))
    elif how != "polfast":
        blocks = [blocks[i] for i in rng.permutation(len(blocks))]
    if case["drop"] and len(blocks) > 1:
        blocks = blocks[:-1]
    ids = rng.permutation(np.arange(3, 3 + 2 * len(blocks)))[: len(blocks)]
    entries = []
    for (w, p), i in zip(blocks, ids):
        ch = np.nonzero(s["flex_spw_id_array"] == w)[0]
        if how in ("chans", "inter"):
            ch = ch[rng.permutation(len(ch))]
        entries += [(int(c), p, int(i)) for c in ch]
    if how == "inter":
        entries = [entries[i] for i in rng.permutation(len(entries))]
    c = np.array([e[0] for e in entries])
    p = np.array([e[1] for e in entries])
    so = rng.permutation(len(blocks)) if how in ("blocks", "inter") else np.arange(len(blocks))
    uv.spw_array = ids[so]
    uv.flex_spw_polarization_array = s["polarization_array"][[blocks[i][1] for i in so]]
    uv.flex_spw_id_array = np.array([e[2] for e in entries])
    uv.freq_array, uv.channel_width = s["freq_array"][c], s["channel_width"][c]
    for n in UVD:
        setattr(uv, n, s[n][:, c, p][:, :, None].copy())
    if uv.eq_coeffs is not None:
        uv.eq_coeffs = s["eq_coeffs"][:, c].copy()
    uv.Nfreqs, uv.Nspws, uv.Npols = len(c), len(blocks), 1
    uv.polarization_array = np.array([0])
    uv.check()
    f = snap(uv)
    fc = cells(f)
    if not case["drop"]:
        require(flat(fc) == flat(orig), "harness: bad rearrangement")
    m = matchable(fc)
    what = f"remove_flex_pol(combine_spws={case['combine']}) of {how} ({m})"
    try:
        uv.remove_flex_pol(combine_spws=case["combine"])
    except ValueError as err:
        require(case["combine"] and m == "dup", f"{what}: refused: {err}")
        same_snap(snap(uv), f, f"{what}: refused but changed")
        return label("refused")
    check_uv(uv, what)
    h = snap(uv)
    npol = len({x for d in fc.values() for x in d})
    require(h["flex_spw_polarization_array"] is None, f"{what}: still flexible")
    require(h["Npols"] == npol, f"{what}: {h['Npols']} polarizations, expected {npol}")
    hc = cells(h)
    if case["combine"] and m == "full" and npol > 1:
        require(flat(hc) == flat(fc), f"{what}: values moved or lost")
        # windows of the original, up to their numbers
        want = sorted(repr(sorted((q, sorted(v, key=repr)) for q, v in d.items())) for d in orig.values())
        got = sorted(repr(sorted((q, sorted(v, key=repr)) for q, v in d.items())) for d in hc.values())
        if not case["drop"]:
            require(want == got, f"{what}: windows are not those of the original")
    else:
        pc = cells(h, pad=True)
        want = canon(pad_free(fc, f))
        require(canon(pc) == want, f"{what}: values moved or lost")
    label(how, m)
    nontrivial(npol > 1)


@st.composite
def mk_case(draw):
    return {"uv": draw(uv_spec(flexpol=False, chan_shuffle=True, max_times=2, max_pairs=3)),
            "seed": draw(st.integers(0, 10**6)), "multi": draw(chance(6))}


@P.sub("make_flex_pol", mk_case, 400)
def make_flex_pol(case):
    """Windows with unflagged data in one polarization only."""
    uv = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    npol = uv.Npols
    pick = {}
    for w in uv.spw_array:
        k = int(rng.integers(-1, npol))
        pick[int(w)] = k
        m = uv.flex_spw_id_array == w
        for p in range(npol):
            if p != k:
                uv.flag_array[:, m, p] = True
        if k >= 0:
            uv.flag_array[0, np.nonzero(m)[0][0], k] = False
    multi = case["multi"] and npol > 1
    if multi:
        c = int(rng.integers(uv.Nfreqs))
        uv.flag_array[0, c, :2] = False
    s = snap(uv)
    what = f"_make_flex_pol picks {pick}"
    try:
        uv._make_flex_pol(raise_error=True)
    except ValueError as err:
        require(multi, f"{what}: refused: {err}")
        same_snap(snap(uv), s, f"{what}: refused but changed")
        return label("refused")
    require(not multi, f"{what}: dropped unflagged data")
    check_uv(uv, what)
    g = snap(uv)
    for i, w in enumerate(g["spw_array"].tolist()):
        k = pick[w]
        if k < 0:
            continue
        m = s["flex_spw_id_array"] == w
        same(int(g["flex_spw_polarization_array"][i]), int(s["polarization_array"][k]),
             f"{what}: polarization of window {w}")
        for n in UVD:
            same(g[n][:, m, 0], s[n][:, m, k], f"{what}: {n} of window {w}")
    require(np.all(g["flag_array"][:, np.isin(s["flex_spw_id_array"],
                                              [w for w, k in pick.items() if k < 0])]),
            f"{what}: unflagged data in a flagged window")
    uv.remove_flex_pol(combine_spws=False)
    check_uv(uv, what)
    h = snap(uv)
    for w, k in pick.items():
        if k < 0:
            continue
        m = s["flex_spw_id_array"] == w
        q = h["polarization_array"].tolist().index(int(s["polarization_array"][k]))
        for n in UVD:
            same(h[n][:, m, q], s[n][:, m, k], f"{what}, removed again: {n} of window {w}")
    label("made")
    nontrivial(npol > 1)


# ------------------------------------------------------------------ UVCal
@st.composite
def cal_case(draw):
    return {"cal": draw(cal_spec(flexjones=False, max_times=2, max_ants=3)), "meta": draw(chance(6)),
            "combine": draw(st.sampled_from([True, True, False])), "model": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6)), "drop": draw(chance(4))}


@P.sub("uvcal", cal_case, 1300)
def uvcal(case):
    cal = build_cal(case["cal"], meta_only=case["meta"])
    rng = np.random.default_rng(case["seed"])
    s = snap(cal)
    orig = cells(s, True) if not case["meta"] else None
    ax = ["freq_array", "channel_width", "spw_array", "flex_spw_id_array", "freq_range",
          "flex_jones_array", "jones_array", "Nfreqs", "Njones", "Nspws", "total_quality_array",
          "history"] + CALD
    wide = s["wide_band"]
    if not case["model"] or case["meta"]:
        cal.convert_to_flex_jones()
        what = f"convert_to_flex_jones of {case['cal']['kind']}"
        check_cal(cal, what)
        g = snap(cal)
        same_snap(g, s, what, skip=ax)
        require(g["jones_array"].tolist() == [0], f"{what}: jones_array {g['jones_array']}")
        if not case["meta"]:
            require(flat(cells(g, True)) == flat(orig), f"{what}: values moved or lost")
            if g["flex_spw_id_array"] is not None and s["total_quality_array"] is not None:
                require(g["total_quality_array"] is not None, f"{what}: total_quality_array lost")
    else:
        what = f"model flex-Jones of {case['cal']['kind']}"
        blocks = [(i, p) for i in range(s["Nspws"]) for p in range(s["Njones"])]
        blocks = [blocks[i] for i in rng.permutation(len(blocks))]
        if case["drop"] and len(blocks) > 1:
            blocks = blocks[:-1]
        ids = rng.permutation(np.arange(3, 3 + 2 * len(blocks)))[: len(blocks)]
        if wide:
            c = np.array([b[0] for b in blocks])
            p = np.array([b[1] for b in blocks])
            cal.freq_range = s["freq_range"][c]
        else:
            ent = [(int(x), b[1], int(i)) for b, i in zip(blocks, ids)
                   for x in np.nonzero(s["flex_spw_id_array"] == s["spw_array"][b[0]])[0]]
            c, p = np.array([e[0] for e in ent]), np.array([e[1] for e in ent])
            cal.flex_spw_id_array = np.array([e[2] for e in ent])
            cal.freq_array, cal.channel_width = s["freq_array"][c], s["channel_width"][c]
            cal.Nfreqs = len(c)
        cal.spw_array, cal.Nspws = ids, len(ids)
        cal.flex_jones_array = s["jones_array"][[b[1] for b in blocks]]
        cal.jones_array, cal.Njones = np.array([0]), 1
        for n in CALD:
            if s[n] is not None:
                setattr(cal, n, np.moveaxis(s[n], 3, 2)[:, c, p][..., None].copy())
        if s["total_quality_array"] is not None:
            cal.total_quality_array = np.moveaxis(s["total_quality_array"], 2, 1)[c, p][..., None].copy()
        cal.check()
        g = snap(cal)
        if not case["drop"]:
            require(flat(cells(g, True)) == flat(orig), "harness: bad rearrangement")
    f = snap(cal)
    fc = cells(f, True)
    m = matchable(fc)
    what = f"remove_flex_jones(combine_spws={case['combine']}) after {what} ({m})"
    try:
        cal.remove_flex_jones(combine_spws=case["combine"])
    except ValueError as err:
        require(case["combine"] and m == "dup", f"{what}: refused: {err}")
        same_snap(snap(cal), f, f"{what}: refused but changed")
        return label("refused")
    check_cal(cal, what)
    h = snap(cal)
    same_snap(h, s, what, skip=ax)
    require(h["flex_jones_array"] is None, f"{what}: still flexible")
    nj = len({x for d in fc.values() for x in d})
    require(h["Njones"] == nj, f"{what}: {h['Njones']} Jones terms, expected {nj}")
    if case["meta"]:
        return label("meta")
    hc = cells(h, True)
    if case["combine"] and m == "full":
        require(flat(hc) == flat(fc), f"{what}: values moved or lost")
        want = sorted(repr(sorted((q, sorted(v, key=repr)) for q, v in d.items())) for d in orig.values())
        got = sorted(repr(sorted((q, sorted(v, key=repr)) for q, v in d.items())) for d in hc.values())
        if not case["drop"]:
            require(want == got, f"{what}: windows are not those of the original")
            if not case["model"]:
                require(canon(hc) == canon(orig), f"{what}: window numbers changed")
    else:
        # each window keeps its Jones term; the others are flagged
        for w, d in fc.items():
            for j, v in d.items():
                require(hc[w][j] == v, f"{what}: values of window {w} moved or lost")
            wi = h["spw_array"].tolist().index(w)
            ch = [wi] if wide else np.nonzero(h["flex_spw_id_array"] == w)[0]
            for q, j in enumerate(h["jones_array"].tolist()):
                if j not in d:
                    require(np.all(h["flag_array"][:, ch, :, q]), f"{what}: unflagged padding")
    label(case["cal"]["kind"], m)
    nontrivial(nj > 1)
