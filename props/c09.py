"""C09: redundant baseline groups partition the array and compression inverts."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, Reject, label, nontrivial, require
from vp.gen_uv import ANTNUM_BLOCKS, POLSETS_CLOSED, build_uv, chance, enu_of, uv_spec
from vp.uvmodel import check_blt_order, check_counts, check_rect

P = Prop(
    "C09",
    "an antenna layout (lattice with small offsets, or random), a tolerance and, for the data "
    "checks, a UVData object on it; non-trivial: some group has at least two baselines.",
    ["lattice layouts have a spacing of at least 14 times the tolerance and offsets of at most "
     "2 % of it, so that the right groups are known; for random layouts only the partition "
     "and the agreement within groups are required"],
)


# ---- antenna redundancies ---------------------------------------------------------------
def ants_strategy():
    return st.fixed_dictionaries({
        "nums": st.sampled_from(ANTNUM_BLOCKS + [list(range(9)), [7, 3, 900, 1, 0, 20, 2, 55]]),
        "n": st.integers(2, 9), "kind": st.sampled_from(["lattice", "lattice", "random", "line"]),
        "seed": st.integers(0, 10**6), "tol": st.sampled_from([0.05, 0.5, 1.0]),
        "autos": st.booleans(), "grid": st.booleans(), "jit": st.booleans(),
        "dense": chance(3),
    })


def layout(case):
    rng = np.random.default_rng(case["seed"])
    nums = np.array(case["nums"][:case["n"]])
    n = len(nums)
    tol = case["tol"]
    if case["kind"] == "random":
        sc = 3 * tol if case["dense"] else 60.0
        return nums, rng.uniform(-sc, sc, (n, 3)) * [1, 1, 0.1], None
    if case["kind"] == "line":
        ij = np.stack([np.zeros(n), np.arange(n)], axis=1)
        if rng.random() < 0.5:
            ij = ij[:, ::-1]
    else:
        cells = [(a, b) for a in range(4) for b in range(4)]
        ij = np.array([cells[k] for k in rng.permutation(len(cells))[:n]], dtype=float)
    pos = np.concatenate([ij * 14.0, np.zeros((n, 1))], axis=1)
    if case["jit"]:
        pos = pos + rng.uniform(-1, 1, (n, 3)) * 0.01 * tol
    return nums, pos, ij.astype(int)


def canon_vec(v):
    v = tuple(int(x) for x in v)
    return max(v, tuple(-x for x in v))


def pairs_of(gps, b2a):
    return [[tuple(int(x) for x in b2a(b)) for b in g] for g in gps]


def partition(gps):
    return {frozenset(frozenset(p) if p[0] != p[1] else frozenset([p[0], -1 - p[0]])
                      for p in g) for g in gps}


def run_ants(nums, pos, case):
    from pyuvdata import utils

    gps, vecs, lens = utils.redundancy.get_antenna_redundancies(
        nums, pos, tol=case["tol"], include_autos=case["autos"], use_grid_alg=case["grid"])
    b2a = lambda b: utils.baseline_to_antnums(b, Nants_telescope=len(nums))  # noqa
    return pairs_of(gps, b2a), vecs, lens


def check_groups(gps, vecs, lens, pos, index, wanted, tol, what):
    seen = {}
    for gi, g in enumerate(gps):
        for p in g:
            k = frozenset(p)
            require(k not in seen, f"{what}: baseline {p} in groups {seen.get(k)} and {gi}")
            seen[k] = gi
    require(set(seen) == wanted, f"{what}: baselines {set(seen) ^ wanted} missing or invented")
    for gi, g in enumerate(gps):
        v = np.array([pos[index[b]] - pos[index[a]] for a, b in g])
        same(vecs[gi], v.mean(axis=0), f"{what}: group vector {gi}", 0, 1e-9)
        d = np.sqrt(((v - vecs[gi]) ** 2).sum(axis=1))
        require(np.all(d <= 1.3 * tol), f"{what}: group {g} spread {d.max()} > tolerance {tol}")
        same(lens[gi], np.sqrt((vecs[gi] ** 2).sum()), f"{what}: group length {gi}", 0, 1e-9)
    return seen


@P.sub("antennas", ants_strategy, 2600)
def antennas(case):
    nums, pos, ij = layout(case)
    n = len(nums)
    index = {int(a): i for i, a in enumerate(nums)}
    wanted = {frozenset((int(nums[i]), int(nums[j]))) for i in range(n) for j in range(i, n)
              if i != j or case["autos"]}
    before = pos.copy()
    try:
        gps, vecs, lens = run_ants(nums, pos, case)
    except ValueError as e:
        if case["kind"] == "random" and not case["grid"] and "multiple redundant" in str(e):
            label("ambiguous, refused")
            return
        raise
    what = f"get_antenna_redundancies {case}"
    same(pos, before, f"{what}: positions changed")
    check_groups(gps, vecs, lens, pos, index, wanted, case["tol"], what)
    nontrivial(any(len(g) > 1 for g in gps))
    if ij is None:
        return
    true = {}
    for i in range(n):
        for j in range(i, n):
            if i == j and not case["autos"]:
                continue
            true.setdefault(canon_vec(ij[j] - ij[i]), set()).add(
                frozenset((int(nums[i]), int(nums[j]))))
    got = {frozenset(frozenset(p) for p in g) for g in gps}
    require(got == {frozenset(v) for v in true.values()}, f"{what}: wrong groups {gps}")
    # all members of a group are given in the same direction: done by the spread above
    # relabelled and reordered antennas give the same partition
    rng = np.random.default_rng(case["seed"] + 1)
    pm = rng.permutation(n)
    gps2, _, _ = run_ants(nums[pm], pos[pm], case)
    require(partition(gps2) == partition(gps), f"{what}: reordering antennas changes the groups")
    new = rng.permutation(nums)
    m = {int(a): int(b) for a, b in zip(nums, new)}
    gps3, _, _ = run_ants(new, pos, case)
    back = partition([[(m[a], m[b]) for a, b in g] for g in gps])
    require(partition(gps3) == back, f"{what}: relabelling antennas changes the groups")
    label(case["kind"], "grid" if case["grid"] else "cluster")


# ---- redundancies, compression and inflation of data ---------------------------------------
def uvs(**kw):
    a = dict(max_ants=6, min_ants=3, max_times=3, max_pairs=10, min_pairs=3, conj_dups=False,
             max_spws=2, max_chan=2, flexpol=False)
    a.update(kw)
    return uv_spec(**a).map(lambda s: {**s, "tel": {**s["tel"], "grid": True}})


def lattice(spec):
    """{antenna number: lattice point}"""
    e = np.round(enu_of(spec["tel"]) / 14.0).astype(int)
    return {a: tuple(e[i]) for i, a in enumerate(spec["tel"]["antnums"])}


def lvec(lat, a, b):
    return tuple(np.array(lat[b]) - np.array(lat[a]))


def data_groups(uv, spec):
    """{canonical vector: {pair: +1 or -1}} of the baselines in the data."""
    lat = lattice(spec)
    out = {}
    for a, b in set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist())):
        v = lvec(lat, a, b)
        c = canon_vec(v)
        out.setdefault(c, {})[(a, b)] = 1 if v == c else -1
    return out


def red_strategy():
    return st.fixed_dictionaries({
        "uv": uvs(), "tol": st.sampled_from([0.05, 0.5, 1.0]), "grid": st.booleans(),
        "antpos": st.booleans(), "conj": st.booleans(), "inc": st.booleans(),
        "autos": st.booleans(), "meta": chance(5),
    })


@P.sub("redundancies", red_strategy, 900)
def redundancies(case):
    spec = case["uv"]
    uv = build_uv(spec, meta_only=case["meta"])
    lat = lattice(spec)
    what = f"get_redundancies {({k: v for k, v in case.items() if k != 'uv'})}"
    true = data_groups(uv, spec)
    closed = set(spec["pols"]) in [set(p) for p in POLSETS_CLOSED]
    conj = case["conj"] and case["antpos"] and closed
    before = snap(uv)
    out = uv.get_redundancies(tol=case["tol"], use_antpos=case["antpos"],
                              include_conjugates=case["inc"], include_autos=case["autos"],
                              conjugate_bls=conj, use_grid_alg=case["grid"])
    if not conj:
        same_snap(snap(uv), before, what, skip=["blts_are_rectangular",
                                                "time_axis_faster_than_bls"])
    check_rect(snap(uv), what)
    gps = pairs_of(out[0], uv.baseline_to_antnums)
    if case["antpos"]:
        an = [int(a) for a in uv.telescope.antenna_numbers]
        true = {}
        for i in range(len(an)):
            for j in range(i, len(an)):
                if i != j or case["autos"]:
                    true.setdefault(canon_vec(lvec(lat, an[i], an[j])), set()).add(
                        frozenset((an[i], an[j])))
        got = {frozenset(frozenset(p) for p in g) for g in gps}
        require(got == {frozenset(v) for v in true.values()}, f"{what}: wrong groups {gps}")
        for g in gps:
            require(len({lvec(lat, a, b) for a, b in g}) == 1,
                    f"{what}: group {g} has baselines in opposite directions")
        nontrivial(any(len(g) > 1 for g in gps))
        if case["inc"]:
            require(len(out) == 4, f"{what}: {len(out)} outputs")
        label("antpos")
        return
    if case["inc"]:
        conjs = {tuple(int(x) for x in uv.baseline_to_antnums(b)) for b in out[3]}
        got = {frozenset(g) for g in gps}
        require(got == {frozenset(v) for v in true.values()},
                f"{what}: wrong groups {gps}, expected {true}")
        for g in gps:
            vv = {tuple((-1 if p in conjs else 1) * np.array(lvec(lat, *p))) for p in g}
            require(len(vv) == 1, f"{what}: conjugates {conjs} do not align group {g}")
    else:
        split = {}
        for c, d in true.items():
            for p, sg in d.items():
                split.setdefault((c, sg), set()).add(p)
        got = {frozenset(g) for g in gps}
        require(got == {frozenset(v) for v in split.values()}, f"{what}: wrong groups {gps}")
    for v, ln in zip(out[1], out[2]):
        same(ln, np.sqrt((np.asarray(v) ** 2).sum()), f"{what}: length", 0, 1e-9)
    nontrivial(any(len(g) > 1 for g in gps))
    label("rect" if uv.blts_are_rectangular else "not rect")


CP = {-7: -8, -8: -7, -3: -4, -4: -3}


def pol_perm(pols):
    return [list(pols).index(CP.get(int(p), int(p))) for p in pols]


def comp_strategy():
    return st.fixed_dictionaries({
        "uv": uvs(polsets=POLSETS_CLOSED, autos=True), "tol": st.sampled_from([0.05, 0.5, 1.0]),
        "grid": st.booleans(), "method": st.sampled_from(["select", "average", "average"]),
        "inplace": st.booleans(), "keep": st.booleans(), "allflag": chance(3),
        "meta": chance(8), "onepc": st.booleans(),
    })


@P.sub("compress", comp_strategy, 900)
def compress(case):
    spec = dict(case["uv"])
    spec["pc_how"] = "time"
    if case["onepc"]:
        spec["pcs"] = spec["pcs"][:1]
    uv = build_uv(spec)
    if case["allflag"]:
        rng = np.random.default_rng(spec["seed"] + 4)
        uv.flag_array |= rng.random((1, uv.Nfreqs, uv.Npols)) < 0.5
    if case["meta"]:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    true = data_groups(uv, spec)
    s = snap(uv)
    src = uv.copy()
    kw = dict(method=case["method"], tol=case["tol"], keep_all_metadata=case["keep"],
              use_grid_alg=case["grid"])
    what = f"compress_by_redundancy {kw}"
    res = uv.compress_by_redundancy(inplace=case["inplace"], **kw)
    if case["inplace"]:
        require(res is None, f"{what}: returned something in place")
        res = uv
    else:
        same_snap(snap(uv), s, f"{what}: input", skip=["blts_are_rectangular",
                                                       "time_axis_faster_than_bls"])
    r = snap(res)
    check_counts(r, what)
    check_rect(r, what)
    check_blt_order(r, what)
    kept = set(zip(res.ant_1_array.tolist(), res.ant_2_array.tolist()))
    for c, d in true.items():
        require(len(kept & set(d)) == 1, f"{what}: {kept & set(d)} kept of group {d}")
    require(kept <= {p for d in true.values() for p in d}, f"{what}: unknown baselines")
    for n in ("freq_array", "channel_width", "spw_array", "polarization_array", "vis_units"):
        same(r[n], s[n], f"{what}: {n}")
    recs = {}
    for i in range(src.Nblts):
        recs[(src.time_array[i], int(src.ant_1_array[i]), int(src.ant_2_array[i]))] = i
    perm = pol_perm(spec["pols"])
    # every kept baseline keeps all of its own records, in order
    want = [i for i in range(src.Nblts)
            if (int(src.ant_1_array[i]), int(src.ant_2_array[i])) in kept]
    require(res.Nblts == len(want), f"{what}: {res.Nblts} records, expected {len(want)}")
    for k, i in enumerate(want):
        t, a, b = src.time_array[i], int(src.ant_1_array[i]), int(src.ant_2_array[i])
        at = f"{what}: {(a, b)} at {t}"
        for n in ("uvw_array", "time_array", "ant_1_array", "ant_2_array", "integration_time",
                  "lst_array", "phase_center_id_array", "baseline_array"):
            same(r[n][k], s[n][i], f"{at}: {n}")
        if case["meta"]:
            continue
        d = true[canon_vec(lvec(lattice(spec), a, b))]
        mem = [(p, recs[(t,) + p]) for p in d if (t,) + p in recs]
        if case["method"] == "select":
            mem = [((a, b), i)]
        ref = d[(a, b)]
        v, f, n = [], [], []
        for p, j in mem:
            x, y, z = s["data_array"][j], s["flag_array"][j], s["nsample_array"][j]
            if d[p] != ref:
                x, y, z = np.conj(x)[:, perm], y[:, perm], z[:, perm]
            v.append(x.astype(complex)), f.append(y), n.append(z.astype(float))
        v, f, n = np.array(v), np.array(f), np.array(n)
        if case["method"] == "select":
            same(r["data_array"][k], s["data_array"][i], f"{at}: data")
            same(r["flag_array"][k], s["flag_array"][i], f"{at}: flags")
            same(r["nsample_array"][k], s["nsample_array"][i], f"{at}: nsample")
            continue
        allf = f.all(axis=0)
        use = ~f | allf
        w = n * use
        tot = w.sum(axis=0)
        same(r["flag_array"][k], allf, f"{at}: flags")
        same(r["nsample_array"][k], tot, f"{at}: nsample", 1e-5, 1e-6)
        ok = tot > 0
        with np.errstate(all="ignore"):
            m = (v * w).sum(axis=0) / tot
        same(r["data_array"][k][ok], m[ok], f"{at}: data", 2e-5, 2e-5)
    label(case["method"])
    nontrivial(any(len(d) > 1 for d in true.values()))


def infl_strategy():
    return st.fixed_dictionaries({
        "uv": uvs(polsets=POLSETS_CLOSED, layouts=("rect_t", "rect_b", "shuf", "irr")),
        "grid": st.booleans(),
        "method": st.sampled_from(["select", "average", "none"]),
        "onepc": st.booleans(), "meta": chance(8), "tol": st.sampled_from([0.5, 1.0, 0.05]),
        "order": st.sampled_from(["time", "baseline", "ant1"]),
    })


@P.sub("inflate", infl_strategy, 700)
def inflate(case):
    spec = dict(case["uv"])
    spec["pc_how"] = "time"
    if case["onepc"]:
        spec["pcs"] = spec["pcs"][:1]
    if spec["layout"] == "irr":
        if case["method"] == "average":
            spec["layout"] = "shuf"
    uv = build_uv(spec)
    lat = lattice(spec)
    perm = pol_perm(spec["pols"])
    # redundant data: a function of lattice vector, time, channel and polarization only
    times = np.unique(uv.time_array)
    val = {}

    def value(v, t):
        c = canon_vec(v)
        if (c, t) not in val:
            rng = np.random.default_rng(
                [abs(c[0]) + 1, c[1] + 9, c[2] + 9, int(np.searchsorted(times, t)), spec["seed"]])
            sh = (uv.Nfreqs, uv.Npols)
            val[(c, t)] = (rng.normal(size=sh) + 1j * rng.normal(size=sh), rng.random(sh) < 0.3,
                           rng.integers(1, 5, sh) / 4)
            if c == (0, 0, 0):
                x, y, z = val[(c, t)]
                x = x + np.conj(x[:, perm])
                val[(c, t)] = (x, y & y[:, perm], z + z[:, perm])
        x, y, z = val[(c, t)]
        if v != c:
            x, y, z = np.conj(x)[:, perm], y[:, perm], z[:, perm]
        return x, y, z
    for i in range(uv.Nblts):
        x, y, z = value(lvec(lat, int(uv.ant_1_array[i]), int(uv.ant_2_array[i])),
                        uv.time_array[i])
        uv.data_array[i], uv.flag_array[i], uv.nsample_array[i] = x, y, z
    meta = case["meta"]
    if meta:
        uv.data_array = uv.flag_array = uv.nsample_array = None
    src = uv.copy()
    s = snap(uv)
    if case["method"] != "none":
        uv.compress_by_redundancy(method=case["method"], tol=case["tol"],
                                  use_grid_alg=case["grid"])
    comp = uv.copy()
    kw = dict(tol=case["tol"], blt_order=case["order"], use_grid_alg=case["grid"])
    what = f"inflate_by_redundancy {kw} after {case['method']}"
    uv.inflate_by_redundancy(**kw)
    r = snap(uv)
    check_counts(r, what)
    check_rect(r, what)
    check_blt_order(r, what)
    uv.check()
    an = spec["tel"]["antnums"]
    full = {}
    for i in range(len(an)):
        for j in range(i, len(an)):
            full.setdefault(canon_vec(lvec(lat, an[i], an[j])), set()).add(frozenset((an[i], an[j])))
    groups = data_groups(comp, spec)
    got = {}
    for i in range(uv.Nblts):
        a, b = int(uv.ant_1_array[i]), int(uv.ant_2_array[i])
        k = (uv.time_array[i], frozenset((a, b)))
        require(k not in got, f"{what}: {(a, b)} twice at {uv.time_array[i]}")
        got[k] = i
    bl_got = {k[1] for k in got}
    want_bl = {p for c in groups for p in full[c]}
    require(bl_got == want_bl, f"{what}: baselines {bl_got ^ want_bl} missing or invented")
    rec = {}
    for i in range(comp.Nblts):
        a, b = int(comp.ant_1_array[i]), int(comp.ant_2_array[i])
        rec.setdefault(canon_vec(lvec(lat, a, b)), {}).setdefault(
            frozenset((a, b)), {})[comp.time_array[i]] = i
    for c, bls in rec.items():
        for p in full[c]:
            ts = {k[0] for k in got if k[1] == p}
            require(any(ts == set(d) for d in bls.values()), f"{what}: times of {set(p)}: {ts}")
            for t in ts:
                i = got[(t, p)]
                at = f"{what}: {set(p)} at {t}"
                cand = [d[t] for d in bls.values() if t in d]
                for n in ("lst_array", "integration_time", "phase_center_app_ra",
                          "phase_center_app_dec", "scan_number_array"):
                    if s[n] is not None:
                        require(any(r[n][i] == snap_n[j] for j in cand for snap_n in
                                    [getattr(comp, n)]), f"{at}: {n} is {r[n][i]}")
                e1 = uv.phase_center_catalog[int(uv.phase_center_id_array[i])]
                require(any(e1["cat_name"] == comp.phase_center_catalog[int(
                    comp.phase_center_id_array[j])]["cat_name"] for j in cand),
                    f"{at}: phase center")
                if not meta:
                    x, y, z = value(lvec(lat, int(uv.ant_1_array[i]), int(uv.ant_2_array[i])), t)
                    same(uv.flag_array[i], y, f"{at}: flags")
                    same(uv.data_array[i], x, f"{at}: data", 2e-5, 2e-5)
                    if case["method"] != "average":
                        same(uv.nsample_array[i], z, f"{at}: nsample", 1e-6)
                # uvw as the antenna positions say
    ref = uv.copy()
    ref.set_uvws_from_antenna_positions(update_vis=False)
    same(uv.uvw_array, ref.uvw_array, f"{what}: uvw_array", 0, 1e-5)
    for n in ("freq_array", "channel_width", "spw_array", "polarization_array", "vis_units",
              "telescope.antenna_numbers", "eq_coeffs"):
        same(r[n], s[n], f"{what}: {n}")
    label(case["method"])
    nontrivial(any(len(full[c]) > len(d) for c, d in groups.items()))
