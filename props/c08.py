"""C08: frequency averaging equals the mean over the channels it merges."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require
from vp.gen_uv import build_uv, chance, uv_spec
from vp.uvmodel import BLT, check_counts

P = Prop(
    "C08",
    "a UVData object (several windows of any length and direction) and an averaging factor "
    "with options; non-trivial: some output channel merges several channels of which some but "
    "not all are flagged for some record.",
    ["the value of an output whose weights are all zero is not specified",
     "data compared to 2e-5, sample counts to 1e-5"],
)


def strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_spws=4, max_chan=7, max_times=2, max_pairs=3, spw_overlap=True),
        "n": st.sampled_from([2, 2, 3, 4, 1, 5, 8]), "summing": chance(3),
        "prop": st.booleans(), "respect": st.sampled_from([True, True, True, False]),
        "ragged": st.booleans(), "meta": chance(12), "zero": chance(4),
        "allflag": chance(3), "int16": chance(8),
    })


@P.sub("average", strategy, 3600)
def average(case):
    spec = case["uv"]
    uv = build_uv(spec)
    rng = np.random.default_rng(spec["seed"] + 3)
    if case["allflag"]:
        uv.flag_array |= rng.random((uv.Nblts, 1, uv.Npols)) < 0.5
    if case["zero"]:
        uv.nsample_array[uv.flag_array] = 0
    if case["int16"]:
        uv.nsample_array = uv.nsample_array.astype(np.float16)
    if case["meta"]:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    s = snap(uv)
    n = case["n"]
    kw = dict(summing_correlator_mode=case["summing"], propagate_flags=case["prop"],
              respect_spws=case["respect"], keep_ragged=case["ragged"])
    what = f"frequency_average({n}, {kw})"
    # groups of channels to merge: {window: [indices, ...]}
    if case["respect"] or len(s["spw_array"]) == 1:
        chans = {int(w): np.nonzero(s["flex_spw_id_array"] == w)[0] for w in s["spw_array"]}
    else:
        chans = {0: np.arange(len(s["freq_array"]))}
    groups = {}
    for w, ix in chans.items():
        g = [ix[i:i + n] for i in range(0, len(ix), n)]
        if g and len(g[-1]) < n and not case["ragged"]:
            g = g[:-1]
        if g:
            groups[w] = g
    fp = s["flex_spw_polarization_array"]
    bad = fp is not None and not case["respect"] and len(s["spw_array"]) > 1 and (
        len(set(fp.tolist())) > 1)
    if not groups or bad:
        try:
            uv.frequency_average(n, **kw)
        except ValueError:
            label("refused")
            same_snap(snap(uv), s, f"{what} refused")
            return
        require(False, f"{what}: not refused (groups {groups}, flex-pol {bad})")
    uv.frequency_average(n, **kw)
    r = snap(uv)
    check_counts(r, what)
    if not (fp is not None and not case["respect"]):
        uv.check()
    require(set(r["spw_array"].tolist()) == set(groups), f"{what}: windows {r['spw_array']}")
    kept = [w for w in chans if w in groups]
    same(r["spw_array"], kept, f"{what}: window order")
    mixed = False
    for w, g in groups.items():
        out = np.nonzero(r["flex_spw_id_array"] == w)[0]
        require(len(out) == len(g), f"{what}: window {w} has {len(out)} channels, not {len(g)}")
        for o, ix in zip(out, g):
            at = f"{what}: window {w}, channels {ix.tolist()}"
            same(r["freq_array"][o], np.mean(s["freq_array"][ix]), f"{at}: frequency", 1e-12)
            same(r["channel_width"][o], np.sum(s["channel_width"][ix]), f"{at}: width", 1e-12)
            if s["eq_coeffs"] is not None:
                same(r["eq_coeffs"][:, o], s["eq_coeffs"][:, ix].mean(axis=1),
                     f"{at}: eq_coeffs", 1e-10)
            if case["meta"]:
                continue
            f = s["flag_array"][:, ix]
            allf = f.all(axis=1)
            mixed |= bool((f.any(axis=1) & ~allf).any())
            use = ~f | allf[:, None]
            ns = s["nsample_array"][:, ix].astype(float) * use
            d = s["data_array"][:, ix].astype(complex)
            tot = ns.sum(axis=1)
            same(r["flag_array"][:, o], f.any(axis=1) if case["prop"] else allf, f"{at}: flags")
            same(r["nsample_array"][:, o], tot / len(ix), f"{at}: nsample",
                 2e-3 if case["int16"] else 1e-5, 1e-5)
            if case["summing"]:
                same(r["data_array"][:, o], (d * use).sum(axis=1), f"{at}: data", 2e-5, 2e-5)
            else:
                ok = tot > 0
                with np.errstate(all="ignore"):
                    m = (d * ns).sum(axis=1) / tot
                same(r["data_array"][:, o][ok], m[ok], f"{at}: data", 2e-5, 2e-5)
    if fp is not None and case["respect"]:
        want = [int(p) for w, p in zip(s["spw_array"].tolist(), fp) if w in groups]
        if r["flex_spw_polarization_array"] is None:
            require(set(want) == set(r["polarization_array"].tolist()), f"{what}: flex-pol lost")
        else:
            same(r["flex_spw_polarization_array"], want, f"{what}: flex-pol array")
    skip = ["freq_array", "channel_width", "flex_spw_id_array", "spw_array", "Nspws", "Nfreqs",
            "data_array", "flag_array", "nsample_array", "eq_coeffs", "history",
            "flex_spw_polarization_array", "polarization_array"]
    same_snap(r, s, what, skip=skip)
    if fp is None:
        same(r["polarization_array"], s["polarization_array"], f"{what}: polarizations")
    label("ragged" if any(len(g[-1]) < n for g in groups.values()) else "even",
          f"windows={len(groups)}")
    nontrivial(mixed and n > 1)
