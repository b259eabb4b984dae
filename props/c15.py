"""C15: equality, copies and operations that are not in place."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require
from vp.gen_beam import beam_spec, build_beam
from vp.gen_cal import build_cal, cal_spec
from vp.gen_flag import build_flag, flag_spec
from vp.gen_uv import build_tel, build_uv, chance, tel_spec, uv_spec

P = Prop(
    "C15",
    "UVData (with and without data), UVCal, UVFlag, UVBeam and Telescope objects over their option space: every "
    "element of every attribute changed by more and by less than its tolerance; copies and results of operations "
    "that are not in place overwritten completely to see whether their inputs change; non-trivial: an attribute "
    "with a value was changed, or an operation gave a result.",
    ["differences within 50 % of the tolerance boundary are not judged", "Python identity caches (e.g. saved "
     "splines) are judged by behaviour only, in C23"],
)
KINDS = ["uvdata", "uvdata", "uvcal", "uvflag", "uvbeam", "tel", "meta"]


@st.composite
def obj_spec(draw, kinds=KINDS):
    k = draw(st.sampled_from(list(kinds)))
    s = {"kind": k}
    if k in ("uvdata", "meta"):
        s["spec"] = draw(uv_spec(max_ants=4, max_times=3, max_pairs=5, max_chan=3))
    elif k == "uvcal":
        s["spec"] = draw(cal_spec(max_ants=4, max_times=3))
    elif k == "uvflag":
        s["spec"] = draw(flag_spec())
    elif k == "uvbeam":
        s["spec"] = draw(beam_spec())
    else:
        s["spec"] = draw(tel_spec())
    return s


def build(o):
    k = o["kind"]
    if k in ("uvdata", "meta"):
        return build_uv(o["spec"], meta_only=k == "meta")
    return {"uvcal": build_cal, "uvflag": build_flag, "uvbeam": build_beam, "tel": build_tel}[k](o["spec"])


def params(obj, pre=""):
    """(path, owner, parameter) of every parameter, telescope included."""
    out = []
    for p in sorted(obj):
        par = getattr(obj, p)
        if hasattr(par.value, "required") and hasattr(par.value, "copy"):
            out += params(par.value, pre + par.name + ".")
        else:
            out.append((pre + par.name, obj, par))
    return out


def arrays(v, out):
    """Every array, list and dictionary reachable from a parameter value."""
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, dict):
        out.append(v)
        for x in v.values():
            arrays(x, out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            arrays(x, out)
    return out


def wreck(obj):
    """Overwrite everything mutable in the object."""
    for _, _, par in params(obj):
        for v in arrays(par.value, []):
            if isinstance(v, np.ndarray):
                try:
                    v.flags.writeable = True
                except ValueError:
                    continue
                if v.size == 0:
                    continue
                if v.dtype.kind == "b":
                    v[...] = ~v
                elif v.dtype.kind in "iufc":
                    v[...] = np.asarray(v) + 1
                elif v.dtype.kind in "US":
                    v[...] = "z"
                elif v.dtype.kind == "O":
                    v[...] = None
            elif isinstance(v, dict):
                v["wrecked"] = 1
                v.pop(next(iter(v)))
            elif isinstance(v, list):
                v.append("wrecked")
                v.reverse()


# ------------------------------------------------------------------ equality
@st.composite
def eq_case(draw):
    return {"obj": draw(obj_spec()), "which": draw(st.integers(0, 10**6)), "elem": draw(st.integers(0, 10**6)),
            "how": draw(st.sampled_from(["beyond", "beyond", "below", "none", "short", "dictkey"])),
            "size": draw(st.sampled_from([2.0, 5.0, 100.0, 1e4])), "sign": draw(st.booleans()),
            "n": draw(st.integers(1, 3))}


def both(a, b, want, what):
    sa, sb = snap(a), snap(b)
    r = {"left": a == b, "right": b == a, "ne": not (a != b), "rne": not (b != a)}
    for k, v in r.items():
        require(bool(v) is want, f"{what}: {'equal' if v else 'unequal'} ({k}), expected {'equal' if want else 'unequal'}")
    same_snap(snap(a), sa, f"{what}: comparing changed the first object")
    same_snap(snap(b), sb, f"{what}: comparing changed the second object")


def change(v, idx, tols, how, size, sign):
    """A copy of the value with one element changed, or None; and whether equality must survive."""
    sg = 1 if sign else -1
    if isinstance(v, np.ndarray) and v.dtype.kind in "biufcUS" and v.size:
        w = v.copy()
        i = np.unravel_index(idx % v.size, v.shape) if v.shape else ()
        x = v[i]
    elif isinstance(v, list) and v:
        w = copy.deepcopy(v)
        i = idx % len(v)
        x = v[i]
    elif isinstance(v, (bool, np.bool_, int, np.integer, float, np.floating, str, complex)):
        w, i, x = None, None, v
    else:
        return None, None
    if isinstance(x, (str, np.str_)):
        if how == "below":
            return None, None
        y = ("q" if x[:1] != "q" else "r") + x[1:]
        ok = False
    elif isinstance(x, (bool, np.bool_)):
        if how == "below":
            return None, None
        y, ok = not x, False
    elif isinstance(x, (int, np.integer)):
        if how == "below":
            return None, None
        if isinstance(x, np.unsignedinteger) and sg < 0 and x == 0:
            sg = 1
        y, ok = x + sg, False
    elif isinstance(x, (float, np.floating, complex, np.complexfloating)):
        if not np.isfinite(x):
            if how == "below":
                return None, None
            y, ok = type(x)(1.5), False
        else:
            tol = float(tols[1]) + float(tols[0]) * abs(x)
            y = x + sg * tol * (size if how == "beyond" else 0.3)
            if isinstance(v, np.ndarray):
                y = v.dtype.type(y)
            d = abs(y - x)
            if how == "beyond" and not d > 1.5 * tol * (1 + tols[0]):
                return None, None
            if how == "below" and not d < 0.5 * tol:
                return None, None
            ok = how == "below"
    else:
        return None, None
    if i is None:
        return y, ok
    w[i] = y
    return w, ok


@P.sub("equal", eq_case, 1600)
def equal(case):
    a = build(case["obj"])
    b = a.copy()
    both(a, b, True, "a copy")
    both(a, a, True, "itself")
    if case["obj"]["kind"] == "uvflag":
        s = snap(a)
        require(a.__eq__(a, check_history=False), "UVFlag equals itself without histories")
        same_snap(snap(a), s, "comparing a UVFlag with itself without histories")
        b.history += " more words"
        require(not a == b and a.__eq__(b, check_history=False), "UVFlag comparison with and without histories")
        b = a.copy()
    plist = [p for p in params(b) if p[2].value is not None and p[2].name not in ("filename",)]
    for k in range(case["n"]):
        path, owner, par = plist[(case["which"] + 7 * k) % len(plist)]
        how = case["how"]
        name = par.name
        old = par.value
        oldcopy = copy.deepcopy(old)
        if path in ("mode", "type"):
            continue   # the kind of a UVFlag: which attributes exist depends on it
        what = f"{case['obj']['kind']}: {path} changed ({how})"
        want = False
        if how == "none":
            if par.required or (case["obj"]["kind"] == "meta" and name in b._data_params):
                continue
            par.value = None
            want = bool(par.ignore_eq_none)
        elif how == "short":
            if isinstance(old, np.ndarray) and old.ndim and old.shape[0] > 1:
                par.value = old[:-1].copy()
            elif isinstance(old, list) and len(old) > 1:
                par.value = old[:-1]
            else:
                continue
        elif isinstance(old, dict):
            keys = sorted(old, key=str)
            if not keys:
                old["extra"] = 3
            else:
                key = keys[case["elem"] % len(keys)]
                if how == "dictkey":
                    if case["sign"]:
                        del old[key]
                    else:
                        old["another"] = old[key]
                else:
                    d = old
                    if isinstance(old[key], dict):
                        d = old[key]
                        kk = sorted(x for x in d if d[x] is not None)
                        key = kk[case["elem"] % len(kk)]
                    w, want = change(d[key], case["elem"], (1e-5, 1e-8), "beyond", case["size"], case["sign"])
                    if w is None or (isinstance(d[key], (int, np.integer)) and abs(d[key]) > 1e4):
                        continue
                    d[key] = w
                    want = False
        elif hasattr(old, "geodetic") or hasattr(old, "selenodetic"):
            if how not in ("beyond", "below"):
                continue
            xyz = np.array(par.xyz())
            xyz[case["elem"] % 3] += (1 if case["sign"] else -1) * (
                1e-3 * case["size"] if how == "beyond" else 3e-4)
            par.set_xyz(xyz)
            want = how == "below"
        else:
            if how == "dictkey":
                how = "beyond"
            w, want = change(old, case["elem"], par.tols, how, case["size"], case["sign"])
            if w is None:
                continue
            par.value = w
        both(a, b, want, what)
        if not par.required and not path.startswith("telescope."):
            require(a.__eq__(b, check_extra=False, silent=True) if case["obj"]["kind"] != "uvflag" else
                    a.__eq__(b, check_extra=False), f"{what}: unequal although extra attributes are not compared")
        elif not want and case["obj"]["kind"] != "uvflag" and "." not in path:
            require(not a.__eq__(b, check_extra=False, silent=True), f"{what}: equal when required ones are compared")
            require(a.__eq__(b, allowed_failures=[name], silent=True), f"{what}: unequal although allowed to differ")
        par.value = oldcopy
        both(a, b, True, f"{path} changed back")
        label(case["obj"]["kind"], how, name)
        nontrivial()


# ------------------------------------------------------------------ dictionaries
val = st.one_of(st.none(), st.integers(-5, 5), st.sampled_from([1.5, 2.5, -3.0]), st.sampled_from(["a", "b", "word"]),
                st.lists(st.integers(0, 3), min_size=2, max_size=3), st.lists(st.sampled_from(["p", "q"]), min_size=2, max_size=3),
                st.booleans())
dct = st.dictionaries(st.sampled_from(["A", "a", "b", "Key", "KEY", "n"]),
                      st.one_of(val, st.dictionaries(st.sampled_from(["x", "Y"]), val, max_size=2)), max_size=4)


@st.composite
def dict_case(draw):
    a = draw(dct)
    b = draw(st.one_of(dct, st.just(dict(a))))
    if draw(st.booleans()) and a:
        b = dict(a)
        b[draw(st.sampled_from(sorted(a)))] = draw(val)
    return {"a": a, "b": b, "arr": draw(st.sampled_from(["list", "array"]))}


def norm(d):
    """Plain model: keys ignore case unless that makes two of them equal."""
    low = [k.lower() for k in d]
    if len(set(low)) == len(low):
        return {k.lower(): v for k, v in d.items()}, True
    return dict(d), False


def model_eq(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        (x, fx), (y, fy) = norm(a), norm(b)
        if fx != fy:
            x, y = a, b
        return set(x) == set(y) and all(model_eq(x[k], y[k]) for k in x)
    if isinstance(a, list) != isinstance(b, list):
        return False
    return a == b


@P.sub("dicts", dict_case, 3000)
def dicts(case):
    from pyuvdata import UVBeam

    def conv(v):
        if isinstance(v, dict):
            return {k: conv(x) for k, x in v.items()}
        return np.array(v) if isinstance(v, list) and case["arr"] == "array" else copy.deepcopy(v)

    a, b = UVBeam(), UVBeam()
    a.extra_keywords, b.extra_keywords = conv(case["a"]), conv(case["b"])
    want = model_eq(case["a"], case["b"])
    what = f"extra_keywords {a.extra_keywords} and {b.extra_keywords}"
    for x, y in ((a, b), (b, a)):
        try:
            got = x == y
        except Exception as e:
            fail(f"comparing {what}: {type(e).__name__}: {e}")
        require(bool(got) is want, f"{what}: equal is {got}")
    label("equal" if want else "unequal")
    nontrivial(bool(case["a"]))


# ------------------------------------------------------------------ copies and results
@st.composite
def op_case(draw):
    return {"obj": draw(obj_spec(["uvdata", "uvdata", "uvdata", "uvcal", "uvflag", "uvbeam", "meta", "tel"])),
            "op": draw(st.integers(0, 10**6)), "i": draw(st.integers(0, 20)), "j": draw(st.integers(1, 20))}


def ops_uvdata(o, case):
    from pyuvdata import UVFlag

    i, n = case["i"], case["j"]
    first = {"freq_chans": [0], "blt_inds": [0], "polarizations": [o.polarization_array[0]]}

    def split(ax, nn):
        if nn < 2:
            return None
        k = max(1, n % nn)
        sel = {"freq_chans": np.arange(nn), "blt_inds": np.arange(nn), "polarizations": o.polarization_array}[ax]
        return o.select(**{ax: sel[:k]}, inplace=False), o.select(**{ax: sel[k:]}, inplace=False)

    axes = {"freq_chans": o.Nfreqs, "blt_inds": o.Nblts, "polarizations": 0 if o.flex_spw_polarization_array is not None
            else o.Npols}
    ax = list(axes)[i % 3]
    cat = {"freq_chans": "freq", "blt_inds": "blt", "polarizations": "polarization"}[ax]
    data = o.data_array is not None
    yield "copy", [o], lambda: o.copy()
    yield "copy meta", [o], lambda: o.copy(metadata_only=True)
    yield f"select {ax}", [o], lambda: o.select(inplace=False, **{ax: first[ax]})
    yield "select all", [o], lambda: o.select(inplace=False, freq_chans=np.arange(o.Nfreqs))
    yield "select ants", [o], lambda: o.select(inplace=False, antenna_nums=np.unique(o.ant_1_array)[:1])
    p = split(ax, axes[ax])
    if p:
        yield f"add {ax}", list(p), lambda: p[0] + p[1]
        yield f"fast_concat {ax}", list(p), lambda: p[0].fast_concat(p[1], cat, inplace=False)
        yield f"fast_concat list {ax}", list(p), lambda: p[0].fast_concat([p[1]], cat, inplace=False)
    yield "overlapping add", [o], lambda: o.__add__(o.copy())
    yield "compress", [o], lambda: o.compress_by_redundancy(tol=1.0, inplace=False)
    yield "average", [o], lambda: o.compress_by_redundancy(method="average", tol=1.0, inplace=False)
    if data:
        o2 = o.copy()
        o2.data_array = o2.data_array * 2
        yield "sum", [o, o2], lambda: o.sum_vis(o2)
        yield "diff", [o, o2], lambda: o.diff_vis(o2)
        yield "flag baseline", [o], lambda: UVFlag(o, mode="flag", copy_flags=True)
        yield "flag waterfall", [o], lambda: UVFlag(o, mode="metric", waterfall=True)
        if o.flex_spw_polarization_array is not None:
            return
        fl = UVFlag(o, mode="flag", copy_flags=True)
        from pyuvdata import utils

        yield "apply_uvflag", [o, fl], lambda: utils.apply_uvflag(o, fl, inplace=False)


def ops_uvcal(o, case):
    from pyuvdata import UVFlag

    n = case["j"]
    yield "copy", [o], lambda: o.copy()
    yield "copy meta", [o], lambda: o.copy(metadata_only=True)
    ants = o.ant_array
    sels = [("antenna_nums", ants, "antenna"), ("jones", o.jones_array, "jones")]
    if not o.wide_band:
        sels.append(("freq_chans", np.arange(o.Nfreqs), "freq"))
    else:
        sels.append(("spws", o.spw_array, "spw"))
    if o.time_array is not None:
        sels.append(("times", o.time_array, "time"))
    key, vals, cat = sels[case["i"] % len(sels)]
    k = max(1, n % len(vals))
    yield f"select {key}", [o], lambda: o.select(inplace=False, **{key: vals[:k]})
    if len(vals) > 1:
        p = o.select(inplace=False, **{key: vals[:k]}), o.select(inplace=False, **{key: vals[k:]})
        yield f"add {key}", list(p), lambda: p[0] + p[1]
        yield f"fast_concat {key}", list(p), lambda: p[0].fast_concat(p[1], cat, inplace=False)
    yield "overlapping add", [o], lambda: o.__add__(o.copy())
    if not o.wide_band and o.time_array is not None:
        yield "flag", [o], lambda: UVFlag(o, mode="flag", copy_flags=True)


def ops_uvflag(o, case):
    n = case["j"]
    yield "copy", [o], lambda: o.copy()
    k = max(1, n % o.Nfreqs) if o.Nfreqs else 1
    yield "select", [o], lambda: o.select(inplace=False, freq_chans=np.arange(k))
    if o.Nfreqs > 1:
        p = (o.select(inplace=False, freq_chans=np.arange(k)),
             o.select(inplace=False, freq_chans=np.arange(k, o.Nfreqs)))
        yield "add", list(p), lambda: p[0].__add__(p[1], axis="frequency")
    o2 = o.copy()
    if o.mode == "flag":
        o2.flag_array = ~o2.flag_array
        yield "or", [o, o2], lambda: o | o2
    else:
        o2.metric_array = o2.metric_array + 1
        yield "combine", [o, o2], lambda: o.combine_metrics(o2, inplace=False)


def ops_uvbeam(o, case):
    n = case["j"]
    yield "copy", [o], lambda: o.copy()
    k = max(1, n % o.Nfreqs)
    yield "select", [o], lambda: o.select(inplace=False, freq_chans=np.arange(k))
    yield "select all", [o], lambda: o.select(inplace=False, freq_chans=np.arange(o.Nfreqs))
    if o.Nfreqs > 1:
        p = (o.select(inplace=False, freq_chans=np.arange(k)),
             o.select(inplace=False, freq_chans=np.arange(k, o.Nfreqs)))
        yield "add", list(p), lambda: p[0] + p[1]
    f = o.freq_array.copy()
    if o.pixel_coordinate_system != "orthoslant_zenith":
        yield "interp freq", [o], lambda: o.interp(freq_array=f, new_object=True)
    yield "power", [o], lambda: o.efield_to_power(inplace=False)
    yield "pstokes", [o], lambda: o.efield_to_pstokes(inplace=False)
    yield "to_healpix", [o], lambda: o.to_healpix(nside=1, inplace=False)


def ops_tel(o, case):
    yield "copy", [o], lambda: o.copy()


def unchanged(x, s, what):
    """As before, except that rectangularity may have been worked out in the meantime."""
    g = snap(x)
    for k in ("blts_are_rectangular", "time_axis_faster_than_bls"):
        if s.get(k) is None:
            g[k] = s.get(k)
    same_snap({k: v for k, v in g.items() if k in s}, s, what)


@P.sub("inputs", op_case, 700)
def inputs(case):
    kind = case["obj"]["kind"]
    o = build(case["obj"])
    gen = {"uvdata": ops_uvdata, "meta": ops_uvdata, "uvcal": ops_uvcal, "uvflag": ops_uvflag, "uvbeam": ops_uvbeam,
           "tel": ops_tel}[kind]
    ops = list(gen(o, case))
    picks = [ops[0], ops[case["op"] % len(ops)], ops[(case["op"] // 7) % len(ops)]]
    for name, ins, run in picks:
        before = [snap(x) for x in ins]
        what = f"{kind} {name}"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = run()
        except (ValueError, NotImplementedError, KeyError, IndexError, TypeError) as e:
            res = None
            label(f"{name}: refused")
            if not isinstance(e, (ValueError, NotImplementedError)):
                label(f"{name}: {type(e).__name__}")
        for x, s in zip(ins, before):
            unchanged(x, s, f"{what}: an input")
        if res is None:
            continue
        require(all(res is not x for x in ins), f"{what}: the result is one of the inputs")
        if name == "copy":
            same_snap(snap(res), before[0], f"{what}: the copy")
        wreck(res)
        for k, (x, s) in enumerate(zip(ins, before)):
            unchanged(x, s, f"{what}: input {k} shares values with the result, overwriting the result")
        label(f"{kind} {name}")
        nontrivial()
