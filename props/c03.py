"""C03: reordering and conjugating lose nothing and achieve what was asked for."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import POLSETS, POLSETS_CLOSED, build_uv, enu_of, uv_spec
from vp.uvmodel import (BLT, DATA, FREQ, canon, check_blt_order, check_counts, check_rect,
                        same_canon)

P = Prop(
    "C03",
    "UVData objects from the spec grammar, one random reordering or conjugation; "
    "non-trivial: the operation moves at least one record, channel or polarisation, or "
    "conjugates some but not all records.",
    ["canonical form: records sorted by (time, antennas), channels by (window, frequency), "
     "polarisations by number, compared exactly",
     "baseline directions closer to a sign boundary than 1e-6 m may go either way"],
)

CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}
CASA = [1, 2, 3, 4, -1, -3, -4, -2, -5, -7, -8, -6]
META = ("blts_are_rectangular", "time_axis_faster_than_bls", "blt_order")


def conj_flags(s, spec, conv, use_enu, tol):
    """For every blt: 1 conjugate, 0 leave, -1 too close to call."""
    a1, a2 = s["ant_1_array"], s["ant_2_array"]
    if conv == "ant1<ant2":
        return (a1 > a2).astype(int)
    if conv == "ant2<ant1":
        return (a2 > a1).astype(int)
    if use_enu:
        enu = enu_of(spec["tel"])
        ix = {a: i for i, a in enumerate(spec["tel"]["antnums"])}
        vec = np.array([enu[ix[y]] - enu[ix[x]] for x, y in zip(a1.tolist(), a2.tolist())])
    else:
        vec = s["uvw_array"]
    order = (0, 1, 2) if conv[0] == "u" else (1, 0, 2)
    sign = 1.0 if conv[1] == "<" else -1.0
    eps = 1e-6 if use_enu else 0.0
    out = []
    for v in vec * sign:
        # conjugate when the first component that is not ~0 is on the wrong side
        res = 0
        for k in order:
            x = v[k]
            if eps and abs(abs(x) - tol) < eps:
                res = -1
                break
            if x > tol:
                res = 1
                break
            if x < -tol:
                break
        out.append(res)
    out = np.array(out)
    out[(out == -1) & (a1 == a2)] = 0
    return out


def conj_expected(s, flip):
    e = dict(s)
    for n in ("uvw_array", "ant_1_array", "ant_2_array"):
        e[n] = s[n].copy()
    e["uvw_array"][flip] *= -1
    e["ant_1_array"][flip] = s["ant_2_array"][flip]
    e["ant_2_array"][flip] = s["ant_1_array"][flip]
    pols = [int(x) for x in s["polarization_array"]]
    if not flip.any():
        return e
    inv = [pols.index(CONJ.get(q, q)) for q in pols]
    for n in DATA:
        if s[n] is not None:
            x = s[n].copy()
            y = s[n][flip][:, :, inv]
            x[flip] = np.conj(y) if n == "data_array" else y
            e[n] = x
    return e


def conj_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(flexpol=False, polsets=POLSETS_CLOSED + POLSETS_CLOSED + POLSETS,
                      max_spws=2),
        "conv": st.sampled_from(["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0",
                                 "inds"]),
        "pick": st.lists(st.integers(0, 40), min_size=1, max_size=10),
        "use_enu": st.booleans(), "tol": st.sampled_from([0.0, 0.0, 0.01, 20.0]),
        "how": st.sampled_from(["list", "array"]),
        "meta": st.integers(0, 5).map(lambda x: x == 5),
        "lookup": st.booleans(),
    })


def check_conj(g, s, case, conv, flip_want, what):
    flip = (g["ant_1_array"] != s["ant_1_array"]) | (g["ant_2_array"] != s["ant_2_array"])
    cross = s["ant_1_array"] != s["ant_2_array"]
    bad = (flip_want >= 0) & (flip != (flip_want == 1)) & cross
    require(not bad.any(), f"{what}: wrong set of baselines conjugated for {conv}: "
            f"blts {np.nonzero(bad)[0].tolist()}")
    if conv == "inds":
        flip = flip_want == 1
    e = conj_expected(s, flip)
    same_snap(g, e, what, skip=META + ("baseline_array", "Nbls", "history"))
    return flip


@P.sub("conjugate", conj_strategy, 2000)
def conjugate(case):
    uv = build_uv(case["uv"], meta_only=case["meta"])
    s = snap(uv)
    conv = case["conv"]
    nb = len(s["time_array"])
    if conv == "inds":
        inds = sorted({i % nb for i in case["pick"]})
        arg = inds if case["how"] == "list" else np.array(inds)
        want = np.zeros(nb, dtype=int)
        want[inds] = 1
    else:
        arg = conv
        want = conj_flags(s, case["uv"], conv, case["use_enu"], case["tol"])
    pols = [int(x) for x in s["polarization_array"]]
    closed = all(CONJ.get(q, q) in pols for q in pols)
    if case["lookup"]:
        for pr in uv.get_antpairs():
            uv.antpair2ind(*pr)
    if not closed and (want == 1).any():
        label("refused")
        try:
            uv.conjugate_bls(arg, use_enu=case["use_enu"], uvw_tol=case["tol"])
        except ValueError:
            same_snap(snap(uv), s, "refused conjugate_bls changed the object")
            return
        fail("conjugation without the conjugate polarizations was accepted")
    if not closed and (want != 0).any():
        return
    uv.conjugate_bls(arg, use_enu=case["use_enu"], uvw_tol=case["tol"])
    g = snap(uv)
    flip = check_conj(g, s, case, conv, want, "after conjugate_bls")
    uv.check()
    check_counts(g, "after conjugate_bls")
    check_rect(g, "after conjugate_bls")
    check_blt_order(g, "after conjugate_bls")
    if conv == "inds" or flip.any():
        back = np.nonzero(flip)[0]
        if len(back):
            uv.conjugate_bls(back)
            same_snap(snap(uv), s, "conjugating twice", skip=META + ("history",))
    nontrivial(flip.any() and not flip.all())
    label(conv)


KEY = {"time": "time_array", "baseline": "baseline_array", "ant1": "ant_1_array",
       "ant2": "ant_2_array", "bda": "integration_time"}


def blt_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(polsets=POLSETS_CLOSED, max_spws=2, max_chan=2),
        "order": st.sampled_from(["time", "baseline", "ant1", "ant2", "bda", "inds"]),
        "minor": st.sampled_from([None, "time", "baseline", "ant1", "ant2"]),
        "autos": st.booleans(),
        "conj": st.sampled_from([None, None, "ant1<ant2", "ant2<ant1", "u<0"]),
        "perm": st.integers(0, 1000),
        "pre": st.sampled_from([None, "time", "baseline", "ant1"]),
        "meta": st.integers(0, 5).map(lambda x: x == 5),
        "lookup": st.booleans(),
    })


@P.sub("reorder_blts", blt_strategy, 1900)
def reorder_blts(case):
    uv = build_uv(case["uv"], meta_only=case["meta"])
    if case["pre"]:
        uv.reorder_blts(case["pre"])
    s = snap(uv)
    nb = len(s["time_array"])
    order, minor, conj = case["order"], case["minor"], case["conj"]
    kw = {"autos_first": case["autos"]}
    if s["flex_spw_polarization_array"] is not None:
        conj = None
    if conj:
        kw["conj_convention"] = conj
    if case["lookup"]:
        for pr in uv.get_antpairs():
            uv.antpair2ind(*pr)
    if order == "inds":
        arg = np.random.default_rng(case["perm"]).permutation(nb)
        kw["autos_first"] = False
    else:
        arg = order
        if order != "bda" and not (order == "baseline" and minor in ("ant1", "ant2")):
            kw["minor_order"] = minor
        else:
            minor = None
    s1 = s
    if conj:
        # the conjugation itself is decided by the other sub-check
        flags = conj_flags(s, case["uv"], conj, True, 0.0)
        if (flags == -1).any():
            return
        s1 = conj_expected(s, flags == 1)
    uv.reorder_blts(arg, **kw)
    g = snap(uv)
    if order == "inds":
        e = {k: v for k, v in s1.items()}
        for n in BLT + DATA:
            if s1[n] is not None:
                e[n] = s1[n][arg]
        e["baseline_array"] = g["baseline_array"] if conj else e["baseline_array"]
        same_snap(g, e, "reorder by index", skip=META + ("history", "Nbls"))
    else:
        # multiset of whole records: sort both by every per-blt key
        same_records(g, s1, "after reorder_blts")
        if minor == order:
            minor = None
        if minor is None:
            minor = {"time": "baseline", "ant1": "ant2", "ant2": "ant1",
                     "baseline": "time", "bda": "baseline"}[order]
        keys = [g[KEY[order]], g[KEY[minor]]]
        if kw["autos_first"]:
            keys.insert(0, (g["ant_1_array"] != g["ant_2_array"]).astype(int))
            label("autos_first")
        for i in range(1, nb):
            a = tuple(k[i - 1] for k in keys)
            b = tuple(k[i] for k in keys)
            require(a <= b, f"reorder_blts({order}, {minor}): blts {i - 1},{i} out of order")
        if not kw["autos_first"]:
            check_blt_order(g, "after reorder_blts")
    check_counts(g, "after reorder_blts")
    check_rect(g, "after reorder_blts")
    nontrivial(not np.array_equal(g["time_array"], s["time_array"])
               or not np.array_equal(g["ant_1_array"], s["ant_1_array"]))
    label(order)


def same_records(g, s, what):
    """Same multiset of blt records (all per-blt values together), other axes untouched."""
    def key(x):
        cols = [x["time_array"], x["ant_1_array"], x["ant_2_array"], x["integration_time"],
                x["uvw_array"][:, 0], x["uvw_array"][:, 1]]
        if x["data_array"] is not None:
            cols.append(x["data_array"].reshape(len(x["time_array"]), -1)[:, 0].real)
        return np.lexsort(cols[::-1])

    kg, ks = key(g), key(s)
    for n in BLT + DATA:
        if n == "baseline_array":
            continue
        if s[n] is None:
            require(g[n] is None, f"{what}: {n} appeared")
            continue
        require(g[n] is not None and len(g[n]) == len(s[n]), f"{what}: {n} length")
        same_snap({n: g[n][kg]}, {n: s[n][ks]}, what)
    rest = [n for n in s if n not in BLT + DATA and n not in META + ("history", "Nbls")]
    same_snap({n: g[n] for n in rest}, {n: s[n] for n in rest}, what)


def freq_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_pcs=1, max_ants=3, max_times=2, max_chan=5, chan_shuffle=True,
                      spw_overlap=True),
        "spw": st.sampled_from([None, "number", "-number", "freq", "-freq", "inds"]),
        "chan": st.sampled_from([None, "freq", "-freq", "inds"]),
        "sel": st.sampled_from([None, None, "one", "list"]),
        "perm": st.integers(0, 1000),
        "meta": st.integers(0, 5).map(lambda x: x == 5),
    })


@P.sub("reorder_freqs", freq_strategy, 1200)
def reorder_freqs(case):
    uv = build_uv(case["uv"], meta_only=case["meta"])
    s = snap(uv)
    nf, ns = len(s["freq_array"]), len(s["spw_array"])
    rng = np.random.default_rng(case["perm"])
    spws = s["spw_array"].tolist()
    kw = {}
    perm_spw = rng.permutation(ns)
    perm_ch = rng.permutation(nf)
    if case["spw"] is not None:
        kw["spw_order"] = perm_spw if case["spw"] == "inds" else case["spw"]
    if case["chan"] is not None:
        kw["channel_order"] = perm_ch if case["chan"] == "inds" else case["chan"]
    sel = None
    if case["sel"] is not None:
        sel = [spws[0]] if case["sel"] == "one" else spws[:2]
        kw["select_spw"] = sel[0] if case["sel"] == "one" else sel
    uv.reorder_freqs(**kw)
    g = snap(uv)
    f, ids = s["freq_array"], s["flex_spw_id_array"]
    idx = list(range(nf))
    if case["chan"] == "inds":
        idx = perm_ch.tolist()
    else:
        if case["spw"] is not None and sel is None:
            if case["spw"] == "inds":
                so = [spws[i] for i in perm_spw]
            elif "number" in case["spw"]:
                so = sorted(spws)
            else:
                so = sorted(spws, key=lambda q: float(np.median(f[ids == q])))
            if case["spw"].startswith("-"):
                so = so[::-1]
            idx = [i for q in so for i in range(nf) if ids[i] == q]
        if case["chan"] is not None:
            for q in spws:
                if sel is not None and q not in sel:
                    continue
                pos = [k for k, i in enumerate(idx) if ids[i] == q]
                chs = sorted((idx[k] for k in pos), key=lambda i: f[i],
                             reverse=case["chan"] == "-freq")
                for k, i in zip(pos, chs):
                    idx[k] = i
    if case["spw"] is None and case["chan"] is None or (sel and case["chan"] is None):
        idx = list(range(nf))
    e = dict(s)
    for n in FREQ:
        e[n] = s[n][idx]
    for n in DATA:
        if s[n] is not None:
            e[n] = s[n][:, idx]
    if s["eq_coeffs"] is not None:
        e["eq_coeffs"] = s["eq_coeffs"][:, idx]
    skip = ["history", "spw_array", "flex_spw_polarization_array"]
    same_snap(g, e, "after reorder_freqs", skip=skip)
    # per-window values stay with their window
    require(sorted(g["spw_array"].tolist()) == sorted(spws), "spw_array changed")
    if s["flex_spw_polarization_array"] is not None:
        a = dict(zip(spws, s["flex_spw_polarization_array"].tolist()))
        b = dict(zip(g["spw_array"].tolist(), g["flex_spw_polarization_array"].tolist()))
        require(a == b, f"window polarizations moved: {a} -> {b}")
        label("flex-pol")
    check_counts(g, "after reorder_freqs")
    nontrivial(idx != list(range(nf)))


def pol_strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_pcs=1, max_ants=3, max_times=2, max_chan=2, flexpol=False),
        "order": st.sampled_from(["AIPS", "CASA", "inds"]),
        "perm": st.integers(0, 1000), "how": st.sampled_from(["list", "array"]),
        "meta": st.integers(0, 5).map(lambda x: x == 5),
    })


@P.sub("reorder_pols", pol_strategy, 400)
def reorder_pols(case):
    uv = build_uv(case["uv"], meta_only=case["meta"])
    s = snap(uv)
    pols = [int(x) for x in s["polarization_array"]]
    npol = len(pols)
    if case["order"] == "inds":
        idx = np.random.default_rng(case["perm"]).permutation(npol).tolist()
        arg = idx if case["how"] == "list" else np.array(idx)
    else:
        arg = case["order"]
        rank = (lambda q: abs(q)) if arg == "AIPS" else CASA.index
        idx = sorted(range(npol), key=lambda i: rank(pols[i]))
    uv.reorder_pols(arg)
    g = snap(uv)
    e = dict(s)
    e["polarization_array"] = s["polarization_array"][idx]
    for n in DATA:
        if s[n] is not None:
            e[n] = s[n][:, :, idx]
    same_snap(g, e, "after reorder_pols", skip=("history",))
    nontrivial(idx != list(range(npol)))
