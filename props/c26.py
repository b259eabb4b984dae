"""C26: sums, differences, equalisation coefficients and normalisation by autocorrelations."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_uv import build_uv, chance, uv_spec

P = Prop(
    "C26",
    "UVData over the option space (any record order, conjugate pairs, several windows, 1-4 polarizations in any "
    "order, single and double precision): sums and differences of two data sets that agree or differ in one "
    "attribute, removal of per-antenna coefficients in either convention, normalisation by autocorrelations that "
    "are present, missing, flagged or not positive; non-trivial: at least two records or antennas involved.",
    ["flexible polarization is left out of the normalisation by autocorrelations"],
)
CHG = ["flag_array", "nsample_array", "time_array", "uvw_array", "freq_array", "vis_units", "order", "antpos",
       "antname", "integration_time", "polarization_array", "catalog", "scan"]


@st.composite
def sum_case(draw):
    return {"uv": draw(uv_spec()), "seed": draw(st.integers(0, 10**6)), "do": draw(st.sampled_from(
        ["sum", "diff"])), "inplace": draw(st.booleans()), "chg": draw(st.one_of(st.none(), st.none(),
                                                                         st.sampled_from(CHG))),
            "over": draw(st.booleans()), "hist": draw(st.sampled_from(["same", "other", "verbose"])),
            "files": draw(st.sampled_from([None, "one", "same", "diff"])), "keys": draw(st.booleans()),
            "third": draw(st.booleans()), "k": draw(st.integers(0, 10**6))}


def rand_data(rng, shape, dtype):
    return (rng.normal(size=shape) + 1j * rng.normal(size=shape)).astype(dtype)


@P.sub("sum", sum_case, 900)
def sum_(case):
    a = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    b = a.copy()
    b.data_array = rand_data(rng, a.data_array.shape, a.data_array.dtype)
    # flags and autos are as in a; autos must stay real
    auto = a.ant_1_array == a.ant_2_array
    b.data_array[auto] = b.data_array[auto].real
    a.data_array[auto] = a.data_array[auto].real
    if case["hist"] != "same":
        b.history = "another history altogether"
    if case["files"]:
        a.filename = ["f1.uvh5"]
        a._filename.form = (1,)
        if case["files"] != "one":
            b.filename = ["f1.uvh5" if case["files"] == "same" else "a2.uvh5"]
            b._filename.form = (1,)
    if case["keys"]:
        b.extra_keywords = dict(b.extra_keywords, NEWKEY=5)
        if a.extra_keywords:
            b.extra_keywords[sorted(a.extra_keywords)[0]] = "different"
    chg, param = case["chg"], None
    n = case["k"]
    if chg == "order":
        if a.Nblts < 2:
            chg = None
        else:
            b.reorder_blts(np.roll(np.arange(b.Nblts), 1))
            if all(np.array_equal(getattr(a, p), getattr(b, p)) for p in ("time_array", "baseline_array")):
                chg = None
    elif chg == "antpos":
        b.telescope.antenna_positions[n % b.telescope.Nants, n % 3] += 0.5
        param = "telescope"
    elif chg == "antname":
        b.telescope.antenna_names[n % b.telescope.Nants] = "zz"
        param = "telescope"
    elif chg == "vis_units":
        b.vis_units = {"Jy": "K str", "K str": "Jy"}.get(a.vis_units, "Jy")
        param = chg
    elif chg == "polarization_array":
        if a.flex_spw_polarization_array is not None:
            chg = None
        else:
            b.polarization_array = b.polarization_array + (1 if 0 > b.polarization_array.max() and
                                                           b.polarization_array.max() < -1 else -1)
            if not set(b.polarization_array) <= {-8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4}:
                chg, b.polarization_array = None, a.polarization_array.copy()
    elif chg == "catalog":
        pid = sorted(b.phase_center_catalog)[n % len(b.phase_center_catalog)]
        b.phase_center_catalog[pid]["cat_name"] = "other name"
        param = "phase_center_catalog"
    elif chg == "scan":
        if a.scan_number_array is None:
            chg = None
        else:
            b.scan_number_array[n % b.Nblts] += 3
            param = "scan_number_array"
    elif chg == "time_array":  # all of them, so that the object stays self-consistent
        b.time_array = b.time_array + 2.0
        param = "time_array"
    elif chg:
        arr = getattr(b, chg)
        i = np.unravel_index(n % arr.size, arr.shape)
        if chg == "uvw_array" and auto[i[0]]:
            cross = np.nonzero(~auto)[0]
            i = (cross[n % len(cross)], i[1]) if len(cross) else i
            case = dict(case, over=case["over"] and len(cross) > 0)
        arr[i] = (not arr[i]) if arr.dtype == bool else arr[i] + (2.0 if chg != "freq_array" else 10.0)
        param = chg
    sa, sb = snap(a), snap(b)
    f = {"sum": "sum_vis", "diff": "diff_vis"}[case["do"]]
    kw = {}
    if case["over"] and param and case["chg"] not in ("catalog",):
        kw["override_params"] = [param]
    if case["hist"] == "verbose" and f == "sum_vis":
        kw["verbose_history"] = True
    what = f"{f}({kw}) with {chg or 'the same records'}"
    try:
        if case["inplace"]:
            getattr(a, f)(b, inplace=True, **kw)
            r = a
        else:
            r = getattr(a, f)(b, **kw)
    except ValueError as e:
        same_snap({k: v for k, v in snap(b).items()}, sb, f"{what}: second operand after refusal")
        if not case["inplace"]:
            same_snap(snap(a), sa, f"{what}: first operand after refusal")
        if chg and "override_params" not in kw:
            label("refused")
            return nontrivial()
        fail(f"{what}: refused: {e}")
    require(not chg or kw.get("override_params"), f"{what}: data sets describing different records accepted")
    same_snap(snap(b), sb, f"{what}: second operand")
    if not case["inplace"]:
        same_snap(snap(a), sa, f"{what}: first operand")
    want = sa["data_array"] + sb["data_array"] if case["do"] == "sum" else sa["data_array"] - sb["data_array"]
    g = snap(r)
    same(g["data_array"], want, f"{what}: data")
    ek = dict(sb["extra_keywords"])
    ek.update(sa["extra_keywords"])
    same(g["extra_keywords"], ek, f"{what}: extra_keywords")
    fs = sorted(set((sa["filename"] or []) + (sb["filename"] or []))) or None
    require((sorted(g["filename"]) if g["filename"] else None) == fs, f"{what}: filename {g['filename']}, expected {fs}")
    require(sa["history"] in g["history"], f"{what}: history lost")
    if kw.get("verbose_history"):
        require(sb["history"] in g["history"], f"{what}: second history lost")
    for k in sa:
        if k not in ("data_array", "history", "filename", "extra_keywords", "blts_are_rectangular",
                     "time_axis_faster_than_bls"):
            same(g[k], sa[k], f"{what}: {k}")
    r.check()
    if case["third"] and not chg:
        back = r.diff_vis(b) if case["do"] == "sum" else r.sum_vis(b)
        sc = np.abs(sa["data_array"]).max() + np.abs(sb["data_array"]).max()
        same(back.data_array, sa["data_array"], f"{what}, undone", atol=1e-6 * sc if a.data_array.dtype ==
             np.complex64 else 1e-14 * sc)
    label(case["do"], "override" if "override_params" in kw else "plain")
    nontrivial(len(sa["time_array"]) > 1)


# ------------------------------------------------------------------ equalisation coefficients
@st.composite
def eq_case(draw):
    s = draw(uv_spec())
    return {"uv": s, "conv": draw(st.sampled_from(["multiply", "divide", None, "other"])),
            "seed": draw(st.integers(0, 10**6)), "twice": draw(st.booleans()), "shuf": draw(st.booleans())}


@P.sub("eq", eq_case, 500)
def eq(case):
    uv = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    na = uv.telescope.Nants
    if case["shuf"]:
        o = rng.permutation(na)
        t = uv.telescope
        t.antenna_numbers, t.antenna_positions = t.antenna_numbers[o], t.antenna_positions[o]
        t.antenna_names = np.asarray(t.antenna_names)[o]
        if t.antenna_diameters is not None:
            t.antenna_diameters = t.antenna_diameters[o]
    uv.eq_coeffs = rng.uniform(0.5, 2, (na, uv.Nfreqs))
    uv.eq_coeffs_convention = case["conv"] if case["conv"] in ("multiply", "divide") else None
    uv.check()
    if case["conv"] == "other":
        uv.eq_coeffs_convention = "fancy"
    if case["conv"] not in ("multiply", "divide"):
        s = snap(uv)
        try:
            uv.remove_eq_coeffs()
        except ValueError:
            same_snap(snap(uv), s, "refused remove_eq_coeffs")
            return label("refused")
        fail("remove_eq_coeffs accepted a missing or unknown convention")
    s = snap(uv)
    num = {int(x): i for i, x in enumerate(s["telescope.antenna_numbers"])}
    c1 = s["eq_coeffs"][[num[int(x)] for x in s["ant_1_array"]]]
    c2 = s["eq_coeffs"][[num[int(x)] for x in s["ant_2_array"]]]
    fac = (c1 * c2)[:, :, None]
    want = s["data_array"] * fac if case["conv"] == "multiply" else s["data_array"] / fac
    uv.remove_eq_coeffs()
    g = snap(uv)
    rt = 1e-5 if s["data_array"].dtype == np.complex64 else 1e-12
    same(g["data_array"], want, f"remove_eq_coeffs ({case['conv']})", rtol=rt)
    for k in s:
        if k != "data_array":
            same(g[k], s[k], f"remove_eq_coeffs: {k}")
    if case["twice"]:
        uv.eq_coeffs_convention = "divide" if case["conv"] == "multiply" else "multiply"
        uv.remove_eq_coeffs()
        same(uv.data_array, s["data_array"], "remove_eq_coeffs undone by the other convention", rtol=10 * rt)
    nontrivial(len(s["time_array"]) > 1)


# ------------------------------------------------------------------ normalisation by autos
@st.composite
def auto_case(draw):
    s = draw(uv_spec(flexpol=False, min_ants=2, polsets=[[-5], [-5, -6], [-6, -5], [-5, -6, -7, -8], [-7, -5, -8, -6],
                                                         [1], [1, 2], [-1, -2, -3, -4], [-5, -7], [-7]]))
    n = len(s["tel"]["antnums"])
    if draw(st.booleans()):
        s["pairs"] = s["pairs"] + [[i, i] for i in range(n) if [i, i] not in s["pairs"]]
        if s["mask"] is not None:
            m = draw(st.lists(st.booleans(), min_size=s["nt"] * len(s["pairs"]), max_size=s["nt"] * len(s["pairs"])))
            s["mask"] = [int(x) for x in m]
            s["mask"][0] = 1
    return {"uv": s, "seed": draw(st.integers(0, 10**6)), "bad": draw(chance(2)), "skip": draw(st.booleans()),
            "undo": draw(st.booleans()), "flags": draw(st.sampled_from([0.0, 0.1, 0.5]))}


AUTO = {-5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5), -1: (-1, -1), -2: (-2, -2), -3: (-1, -2), -4: (-2, -1)}


@P.sub("autos", auto_case, 700)
def autos(case):
    uv = build_uv(case["uv"])
    rng = np.random.default_rng(case["seed"])
    isauto = uv.ant_1_array == uv.ant_2_array
    d = rand_data(rng, uv.data_array.shape, uv.data_array.dtype)
    for k, p in enumerate(uv.polarization_array):
        if p in (-5, -6, -1, -2, 1, 2, 3, 4):
            d[isauto, :, k] = rng.uniform(0.1, 9, d[isauto, :, k].shape)
            if case["bad"]:
                m = rng.random(d[isauto, :, k].shape)
                x = d[isauto, :, k]
                x[m < 0.1] = 0
                x[m > 0.93] *= -1
                d[isauto, :, k] = x
    uv.data_array = d
    uv.flag_array = rng.random(d.shape) < case["flags"]
    s = snap(uv)
    pols = [int(p) for p in s["polarization_array"]]
    need = {p: AUTO.get(p, (p, p)) for p in pols}
    what = f"normalize_by_autos(skip_autos={case['skip']}, polarizations {pols})"
    ok = isauto.any() and all(q in pols for v in need.values() for q in v)
    try:
        uv.normalize_by_autos(skip_autos=case["skip"])
    except ValueError as e:
        require(not ok, f"{what}: refused: {e}")
        same_snap(snap(uv), s, f"{what}: refused, object")
        return label("refused")
    require(ok, f"{what}: accepted without the autocorrelations it needs")
    g = snap(uv)
    D, F = s["data_array"].astype(complex), s["flag_array"]
    want, wf, gone = D.copy(), F.copy(), np.zeros(D.shape, bool)
    t, a1, a2 = s["time_array"], s["ant_1_array"], s["ant_2_array"]
    where = {}
    for i in np.nonzero(isauto)[0]:
        where.setdefault(int(a1[i]), []).append(i)

    def find(ant, tt):
        c = [i for i in where.get(int(ant), []) if abs(t[i] - tt) < 1e-8]
        return c

    for i in range(len(t)):
        c1, c2 = find(a1[i], t[i]), find(a2[i], t[i])
        if not c1 or not c2:
            wf[i] = True
            continue
        if len(c1) > 1 or len(c2) > 1:
            return label("duplicate-autos")
        for k, p in enumerate(pols):
            q1, q2 = need[p]
            if case["skip"] and a1[i] == a2[i] and q1 == q2:
                continue
            x1, x2 = D[c1[0], :, pols.index(q1)].real, D[c2[0], :, pols.index(q2)].real
            b1 = F[c1[0], :, pols.index(q1)] | (x1 <= 0)
            b2 = F[c2[0], :, pols.index(q2)] | (x2 <= 0)
            bad = b1 | b2
            with np.errstate(all="ignore"):
                want[i, :, k] = D[i, :, k] / np.sqrt(np.where(bad, 1, x1 * x2))
            wf[i, :, k] |= bad
            gone[i, :, k] = bad
    rt = 1e-5 if s["data_array"].dtype == np.complex64 else 1e-11
    same(g["flag_array"], wf, f"{what}: flags")
    same(np.where(gone, 0, g["data_array"]), np.where(gone, 0, want), f"{what}: data", rtol=rt)
    for k in s:
        if k not in ("data_array", "flag_array"):
            same(g[k], s[k], f"{what}: {k}")
    if case["undo"] and case["skip"]:
        uv.normalize_by_autos(skip_autos=True, invert=True)
        g = snap(uv)
        use = ~wf
        same(np.where(use, g["data_array"], 0), np.where(use, D, 0), f"{what}: undone", rtol=10 * rt)
        same(g["flag_array"], wf, f"{what}: flags after undoing")
        label("undone")
    label("skip" if case["skip"] else "noskip", "shuffled" if np.any(np.diff(t) < 0) else "ordered")
    nontrivial(not isauto.all() or len(t) > 1)
