"""UVFlag specs, builder, record maps and consistency checks."""
import numpy as np
from hypothesis import strategies as st

from .cmp import same
from .core import fail, require
from .gen_uv import build_uv, chance, uv_spec

DATA = {"flag": ["flag_array"], "metric": ["metric_array", "weights_array", "weights_square_array"]}


@st.composite
def flag_spec(draw, types=("waterfall", "baseline", "antenna"), modes=("flag", "metric"), sq=True,
              polsets=None, **kw):
    base = dict(max_ants=4, max_times=4, max_pairs=6, flexpol=False, chan_shuffle=True,
                pcs=("sidereal",), max_pcs=1)
    base.update(kw)
    return {
        "uv": draw(uv_spec(polsets=polsets, **base)), "seed": draw(st.integers(0, 10**6)),
        "type": draw(st.sampled_from(list(types))), "mode": draw(st.sampled_from(list(modes))),
        "sq": sq and draw(chance(2)), "tperm": draw(chance(3)), "inf": draw(chance(3)),
        "label": draw(st.sampled_from(["", "lab"])),
    }


def fill(uvf, rng, mode, sq, inf):
    """Random contents of the right shape for the object's type and mode."""
    if uvf.type == "antenna":
        sh = (uvf.Nants_data, uvf.Nfreqs, uvf.Ntimes, uvf.Npols)
    elif uvf.type == "baseline":
        sh = (uvf.Nblts, uvf.Nfreqs, uvf.Npols)
    else:
        sh = (uvf.Ntimes, uvf.Nfreqs, uvf.Npols)
    if mode == "flag":
        uvf.flag_array = rng.random(sh) < rng.choice([0.2, 0.5, 0.9])
        return
    m = rng.normal(size=sh)
    if inf:
        m[rng.random(sh) < 0.3] = np.inf
    w = np.round(rng.random(sh) * 4) / 2
    uvf.metric_array, uvf.weights_array = m, w
    if sq and uvf.type == "waterfall":
        uvf.weights_square_array = w**2 + rng.random(sh)


def build_flag(spec, uv=None):
    from pyuvdata import UVFlag

    if uv is None:
        uv = build_uv(spec["uv"])
    rng = np.random.default_rng(spec["seed"])
    wf = spec["type"] != "baseline"
    f = UVFlag(uv, mode=spec["mode"], waterfall=wf, label=spec["label"], history="made")
    if spec["tperm"] and wf:
        pm = rng.permutation(f.Ntimes)
        f.time_array, f.lst_array = f.time_array[pm], f.lst_array[pm]
    if spec["type"] == "antenna":
        ants = np.unique(np.append(uv.ant_1_array, uv.ant_2_array))
        f.ant_array = ants[rng.permutation(len(ants))]
        f.Nants_data = len(ants)
        f._set_type_antenna()
    fill(f, rng, spec["mode"], spec["sq"], spec["inf"])
    f.check()
    return f


def axes(s):
    """Key lists of the axes of the data arrays, and the value arrays, from a snapshot."""
    fk = [(int(i), float(x)) for i, x in zip(s["flex_spw_id_array"], s["freq_array"])]
    pk = [str(p) for p in s["polarization_array"]]
    tk = [float(t) for t in s["time_array"]]
    if s["type"] == "baseline":
        bk = list(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist(), tk))
        return [bk, fk, pk]
    if s["type"] == "antenna":
        return [s["ant_array"].tolist(), fk, tk, pk]
    return [tk, fk, pk]


def records(s):
    """Sorted axes and the data arrays in that order."""
    ax = axes(s)
    for a in ax:
        require(len(set(a)) == len(a) or s["type"] == "baseline", f"duplicate axis entries {a}")
    order = [sorted(range(len(a)), key=lambda i, a=a: a[i]) for a in ax]
    out = {}
    for n in DATA[s["mode"]]:
        v = s[n]
        if v is None:
            out[n] = None
            continue
        v = np.asarray(v)
        if v.shape != tuple(len(a) for a in ax):
            fail(f"{n} has shape {v.shape}, the axes have {[len(a) for a in ax]}")
        out[n] = v[np.ix_(*order)]
    return [[a[i] for i in o] for a, o in zip(ax, order)], out


def same_flag(s1, s2, what, rtol=0.0, atol=0.0, skip=()):
    """Two snapshots describe the same records with the same values."""
    for n in ("type", "mode"):
        same(s1[n], s2[n], f"{what}: {n}")
    a1, r1 = records(s1)
    a2, r2 = records(s2)
    if a1 != a2:
        fail(f"{what}: axes differ: {a1} != {a2}")
    for n in r1:
        if n not in skip:
            same(r1[n], r2[n], f"{what}: {n}", rtol, atol)
    # per-record metadata
    for s in (s1, s2):
        order = sorted(range(len(s["freq_array"])),
                       key=lambda i, s=s: (s["flex_spw_id_array"][i], s["freq_array"][i]))
        s["_cw"] = np.asarray(s["channel_width"])[order]
        s["_lst"] = sorted(zip(s["time_array"].tolist(), s["lst_array"].tolist()))
    same(s1.pop("_cw"), s2.pop("_cw"), f"{what}: channel_width")
    same(s1.pop("_lst"), s2.pop("_lst"), f"{what}: lst_array")
    same(sorted(s1["spw_array"].tolist()), sorted(s2["spw_array"].tolist()), f"{what}: spw_array")


def check_flag(f, what):
    """Counts and arrays agree with each other."""
    s = {p[1:]: getattr(f, p).value for p in f}
    n = len(s["time_array"])
    require(s["Ntimes"] == len(np.unique(s["time_array"])), f"{what}: Ntimes {s['Ntimes']}")
    require(len(s["lst_array"]) == n, f"{what}: lst_array length")
    if s["type"] == "baseline":
        require(s["Nblts"] == n, f"{what}: Nblts {s['Nblts']} != {n}")
        ants = set(s["ant_1_array"].tolist()) | set(s["ant_2_array"].tolist())
        require(s["Nants_data"] == len(ants), f"{what}: Nants_data {s['Nants_data']}")
        nb = len(set(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist())))
        require(s["Nbls"] == nb, f"{what}: Nbls {s['Nbls']} != {nb}")
        ok = [f.baseline_to_antnums(b) for b in s["baseline_array"]]
        require([(int(a), int(b)) for a, b in ok]
                == list(zip(s["ant_1_array"].tolist(), s["ant_2_array"].tolist())),
                f"{what}: baseline_array does not encode the antennas")
    if s["type"] == "antenna":
        require(s["Nants_data"] == len(s["ant_array"]), f"{what}: Nants_data")
    require(s["Nfreqs"] == len(s["freq_array"]), f"{what}: Nfreqs")
    require(s["Npols"] == len(s["polarization_array"]), f"{what}: Npols")
    require(s["Nspws"] == len(s["spw_array"]), f"{what}: Nspws")
    require(set(s["spw_array"].tolist()) == set(s["flex_spw_id_array"].tolist()),
            f"{what}: spw_array {s['spw_array']} but ids {s['flex_spw_id_array']}")
    f.check()
