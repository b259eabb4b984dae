"""C04: keyed access is correct after any history of operations and lookups."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, Reject, fail, label, nontrivial, require
from vp.gen_uv import POLSETS, POLSETS_CLOSED, build_uv, chance, uv_spec

P = Prop(
    "C04",
    "a UVData object from the spec grammar and a generated history of keyed lookups, keyed "
    "writes and structural operations; non-trivial: at least one structural operation that "
    "succeeded lies between two lookups of stored records.",
    ["the reference reads the attribute arrays directly after every operation",
     "records of the asked direction come first, then those of the opposite direction "
     "(conjugated), each in stored order, as documented"],
)
CONJ = {-3: -4, -4: -3, -7: -8, -8: -7}
NAMES = {
    None: {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
           1: "pI", 2: "pQ", 3: "pU", 4: "pV"},
}
NAMES["east"] = {**NAMES[None], -5: "ee", -6: "nn", -7: "en", -8: "ne"}
NAMES["north"] = {**NAMES[None], -5: "nn", -6: "ee", -7: "ne", -8: "en"}
VALS = {"data": "data_array", "flags": "flag_array", "nsamples": "nsample_array"}

small = st.integers(0, 60)
look_op = st.fixed_dictionaries({
    "op": st.sampled_from(["get", "get", "get", "times", "ind", "sets"]),
    "what": st.sampled_from(["data", "flags", "nsamples"]),
    "a": small, "b": small, "stored": st.booleans(),
    "form": st.sampled_from(["pair", "pair3", "pair3", "tuple", "bl", "pol", "args"]),
    "polform": st.sampled_from(["num", "str"]), "pol": st.integers(0, 11),
    "polin": st.booleans(),
    "squeeze": st.sampled_from(["default", "none", "full"]), "copy": st.booleans(),
})
set_op = st.fixed_dictionaries({
    "op": st.just("set"), "what": st.sampled_from(["data", "flags", "nsamples"]),
    "a": small, "form": st.sampled_from(["pair", "pair3", "bl", "pol"]),
    "pol": st.integers(0, 11), "polform": st.sampled_from(["num", "str"]),
    "seed": st.integers(0, 99), "rev": chance(4),
})
struct_op = st.fixed_dictionaries({
    "op": st.just("do"),
    "do": st.sampled_from(["select_blt", "select_ant", "select_time", "select_freq",
                           "select_pol", "reorder", "reorder_idx", "reorder_pols",
                           "conj", "conj_idx", "split_add", "copy", "rect", "order",
                           "concat", "assign", "reverse_freqs"]),
    "x": small, "y": small, "how": st.integers(0, 5),
})


def strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(flexpol=False, polsets=POLSETS_CLOSED + POLSETS, max_spws=2, max_chan=2,
                      max_pcs=2),
        "ops": st.lists(st.one_of(look_op, struct_op, struct_op, set_op), min_size=3, max_size=9),
    })


class Refused(Exception):
    pass


def locate(uv, pair, pol):
    """Rows (direct), pol columns, rows (reversed), pol columns, from the arrays."""
    a1, a2 = uv.ant_1_array.tolist(), uv.ant_2_array.tolist()
    pols = [int(p) for p in uv.polarization_array]
    d = [i for i in range(len(a1)) if (a1[i], a2[i]) == tuple(pair)]
    r = [] if pair[0] == pair[1] else [
        i for i in range(len(a1)) if (a2[i], a1[i]) == tuple(pair)]
    if not d and not r:
        raise Refused
    if pol is None:
        dp = list(range(len(pols)))
        try:
            rp = [pols.index(CONJ.get(p, p)) for p in pols]
        except ValueError:
            rp = []
    else:
        dp = [i for i, p in enumerate(pols) if p == pol]
        rp = [i for i, p in enumerate(pols) if p == CONJ.get(pol, pol)]
    if not dp:
        d = []
    if not rp:
        r = []
    if not d and not r:
        raise Refused
    return d, dp, r, rp


def reference(uv, name, pair, pol):
    if pair is None:
        pols = [int(p) for p in uv.polarization_array]
        cols = [i for i, p in enumerate(pols) if p == pol]
        if not cols:
            raise Refused
        return getattr(uv, name)[:, :, cols], list(range(uv.Nblts)), []
    d, dp, r, rp = locate(uv, pair, pol)
    arr = getattr(uv, name)
    parts = []
    if d:
        parts.append(arr[d][:, :, dp])
    if r:
        x = arr[r][:, :, rp]
        parts.append(np.conj(x) if name == "data_array" else x)
    return np.concatenate(parts, axis=0), d, r


def the_key(uv, op):
    """(key as passed, pair, pol) for an operation."""
    names = NAMES[uv.telescope.get_x_orientation_from_feeds()
                  if hasattr(uv.telescope, "get_x_orientation_from_feeds")
                  else uv.telescope.x_orientation]
    ants = [int(a) for a in uv.telescope.antenna_numbers]
    if op.get("stored", True):
        i = op["a"] % uv.Nblts
        pair = (int(uv.ant_1_array[i]), int(uv.ant_2_array[i]))
        if op.get("b", 0) % 3 == 1 or op.get("rev"):
            pair = pair[::-1]
    else:
        pair = (ants[op["a"] % len(ants)], ants[op["b"] % len(ants)])
    if op.get("polin", True):
        pol = int(uv.polarization_array[op["pol"] % uv.Npols])
        if op["pol"] >= 8:
            pol = CONJ.get(pol, pol)
    else:
        pol = [-5, -6, -7, -8, -1, -2, -3, -4, 1, 2, 3, 4][op["pol"]]
    pk = names[pol] if op["polform"] == "str" else pol
    f = op["form"]
    if f == "pair3" or f == "args":
        return pair + (pk,), pair, pol
    if f == "pol":
        return pk, None, pol
    if f == "bl":
        i = op["a"] % uv.Nblts
        return int(uv.baseline_array[i]), (int(uv.ant_1_array[i]), int(uv.ant_2_array[i])), None
    return pair, pair, None


def call(fn, op, key, **kw):
    if op["form"] == "args" or (op["form"] == "pair" and isinstance(key, tuple)):
        return fn(*key, **kw)
    return fn(key, **kw)


def do_get(uv, op):
    key, pair, pol = the_key(uv, op)
    if op["op"] == "times":
        try:
            _, d, r = reference(uv, "flag_array", pair, pol)
        except Refused:
            for fn in (uv.get_times, uv.get_lsts):
                try:
                    call(fn, op, key)
                except KeyError:
                    continue
                fail(f"{fn.__name__}({key}) returned although nothing matches")
            return False
        same(call(uv.get_times, op, key), uv.time_array[d + r], f"get_times({key})")
        same(call(uv.get_lsts, op, key), uv.lst_array[d + r], f"get_lsts({key})")
        return True
    name = VALS[op["what"]]
    fn = getattr(uv, "get_" + op["what"])
    kw = {"squeeze": op["squeeze"], "force_copy": op["copy"]}
    try:
        want, d, r = reference(uv, name, pair, pol)
    except Refused:
        try:
            call(fn, op, key, **kw)
        except KeyError:
            return False
        fail(f"{fn.__name__}({key}) returned although nothing matches")
    got = call(fn, op, key, **kw)
    if op["squeeze"] == "full":
        want = np.squeeze(want)
    elif op["squeeze"] == "default" and want.shape[2] == 1:
        want = want[:, :, 0]
    same(got, want, f"{fn.__name__}({key}, squeeze={op['squeeze']})", kind=True)
    if r:
        label("conjugated" if not d else "both directions")
    arr = getattr(uv, name)
    if got.flags.writeable and np.shares_memory(got, arr):
        fail(f"{fn.__name__}({key}) returns a writable view of {name}")
    if op["copy"]:
        require(got.flags.writeable and not np.shares_memory(got, arr),
                f"{fn.__name__}({key}, force_copy=True) is not an independent copy")
    return True


def do_ind(uv, op):
    key, pair, pol = the_key(uv, {**op, "form": "pair"})
    n = np.arange(uv.Nblts)
    d = [i for i in range(uv.Nblts)
         if (uv.ant_1_array[i], uv.ant_2_array[i]) == pair]
    r = [i for i in range(uv.Nblts)
         if (uv.ant_2_array[i], uv.ant_1_array[i]) == pair and pair[0] != pair[1]]
    for ordered, want in ((True, d), (False, d + r)):
        got = uv.antpair2ind(*pair, ordered=ordered) if op["copy"] else uv.antpair2ind(
            pair, ordered=ordered)
        got = [] if got is None else n[got].tolist()
        require(got == want, f"antpair2ind({pair}, ordered={ordered}) gives {got}, the "
                             f"records are {want}")
    return bool(d or r)


def do_sets(uv):
    prs = set(zip(uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
    got = uv.get_antpairs()
    require(len(got) == len(prs) and set(got) == prs,
            f"get_antpairs gives {sorted(got)}, stored {sorted(prs)}")
    same(np.sort(uv.get_ants()), np.unique(np.concatenate([uv.ant_1_array, uv.ant_2_array])),
         "get_ants")
    bn = uv.get_baseline_nums()
    require(sorted(bn.tolist()) == sorted(set(uv.baseline_array.tolist())),
            "get_baseline_nums differs from the stored baselines")
    for (pr, b) in zip(got, bn.tolist()):
        require(uv.baseline_array[(uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1])][0] == b,
                "get_baseline_nums and get_antpairs are not in the same order")
    seen = []
    for key, dat in uv.antpairpol_iter(squeeze="none"):
        pol = [p for p, nm in NAMES[uv.telescope.x_orientation].items() if nm == key[2]][0]
        want, _, _ = reference(uv, "data_array", key[:2], pol)
        same(dat, want, f"antpairpol_iter {key}")
        seen.append(tuple(key[:2]) + (pol,))
    full = {pr + (int(p),) for pr in prs for p in uv.polarization_array}
    require(len(seen) == len(full) and set(seen) == full, "antpairpol_iter misses keys")
    return True


def do_set(uv, op):
    key, pair, pol = the_key(uv, op)
    name = VALS[op["what"]]
    fn = getattr(uv, "set_" + op["what"])
    before = snap(uv)
    rng = np.random.default_rng(op["seed"])
    if pair is None:
        d, dp = list(range(uv.Nblts)), [i for i, p in enumerate(uv.polarization_array)
                                        if p == pol]
        r, rp = [], []
        ok = bool(dp)
    else:
        try:
            d, dp, r, rp = locate(uv, pair, pol)
            ok = not r
        except Refused:
            ok, d, dp = False, [0], [0]
    shape = (len(d), uv.Nfreqs, len(dp))
    val = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    val = {"data": val, "flags": val.real > 0, "nsamples": np.abs(val.real)}[op["what"]]
    val = val.astype(getattr(uv, name).dtype)
    if not ok:
        try:
            call(fn, op, None, **{}) if False else fn(val, key)
        except (KeyError, ValueError):
            same_snap(snap(uv), before, f"refused set_{op['what']}({key})")
            return False
        fail(f"set_{op['what']}({key}) accepted although the key is not stored directly")
    fn(val, key)
    want = dict(before)
    arr = before[name].copy()
    arr[np.ix_(d, range(uv.Nfreqs), dp)] = val
    want[name] = arr
    same_snap(snap(uv), want, f"after set_{op['what']}({key})")
    got = getattr(uv, "get_" + op["what"])(key, squeeze="none")
    if pair is None or True:
        same(got, val, f"get_{op['what']}({key}) after setting it")
    label("set")
    return True


def do_struct(uv, op):
    """Returns (object, succeeded)."""
    x, y, how = op["x"], op["y"], op["how"]
    n = uv.Nblts
    d = op["do"]
    pols = [int(p) for p in uv.polarization_array]
    closed = all(CONJ.get(p, p) in pols for p in pols)
    if d == "select_blt":
        keep = [i for i in range(n) if (i * 7 + x) % 5 < 3]
        if not keep:
            return uv, False
        if how % 2:
            uv.select(blt_inds=keep)
        else:
            uv = uv.select(blt_inds=keep, inplace=False)
    elif d == "select_ant":
        ants = sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist()))
        a, b = ants[x % len(ants)], ants[y % len(ants)]
        m = np.isin(uv.ant_1_array, [a, b]) & np.isin(uv.ant_2_array, [a, b])
        if not m.any():
            return uv, False
        uv.select(antenna_nums=[a, b], keep_all_metadata=bool(how % 2))
    elif d == "select_time":
        ts = np.unique(uv.time_array)
        uv.select(times=ts[x % ts.size:])
    elif d == "select_freq":
        uv.select(freq_chans=list(range(x % uv.Nfreqs, uv.Nfreqs)))
    elif d == "select_pol":
        uv.select(polarizations=sorted({pols[x % len(pols)], pols[y % len(pols)]}))
    elif d == "reorder":
        uv.reorder_blts(["time", "baseline", "ant1", "ant2", "bda", "time"][how],
                        autos_first=bool(x % 2))
    elif d == "reorder_idx":
        uv.reorder_blts(np.random.default_rng(x).permutation(n))
    elif d == "reorder_pols":
        uv.reorder_pols(["AIPS", "CASA"][how % 2] if how < 4 else
                        np.random.default_rng(x).permutation(len(pols)))
    elif d == "reverse_freqs":
        uv.reorder_freqs(channel_order=["freq", "-freq"][how % 2])
    elif d in ("conj", "conj_idx"):
        if not closed:
            return uv, False
        if d == "conj":
            uv.conjugate_bls(["ant1<ant2", "ant2<ant1", "u<0", "v>0", "u>0", "v<0"][how])
        else:
            uv.conjugate_bls(sorted({x % n, y % n}))
        prs = list(zip(uv.time_array.tolist(), uv.ant_1_array.tolist(), uv.ant_2_array.tolist()))
        if len(set(prs)) != len(prs):
            raise Reject  # same record twice: outside the domain
    elif d in ("split_add", "concat"):
        if uv.Nblts < 2:
            return uv, False
        i1 = [i for i in range(n) if (i * 3 + x) % 4 < 2]
        i2 = [i for i in range(n) if i not in i1]
        if not i1 or not i2:
            return uv, False
        a = uv.select(blt_inds=i1, inplace=False)
        b = uv.select(blt_inds=i2, inplace=False)
        if how % 2:
            for pr in a.get_antpairs():
                a.get_data(pr)
        if d == "split_add":
            if how < 3:
                a += b
            else:
                a = a + b
            uv = a
        else:
            a.fast_concat(b, "blt", inplace=True)
            uv = a
    elif d == "copy":
        uv = uv.copy()
    elif d == "rect":
        uv.set_rectangularity(force=bool(how % 2))
    elif d == "order":
        o = uv._determine_blt_order() if hasattr(uv, "_determine_blt_order") else None
        del o
        if uv.blts_are_rectangular is None:
            uv.set_rectangularity(force=True)
    elif d == "assign":
        # attributes replaced as a user may do: same records, other order
        perm = np.random.default_rng(x).permutation(n)
        for name in ("ant_1_array", "ant_2_array", "baseline_array", "time_array", "lst_array",
                     "uvw_array", "integration_time", "phase_center_id_array",
                     "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa",
                     "data_array", "flag_array", "nsample_array", "scan_number_array"):
            v = getattr(uv, name)
            if v is not None:
                setattr(uv, name, v[perm])
        uv.blts_are_rectangular = None
        uv.time_axis_faster_than_bls = None
        uv.blt_order = None
        if how % 2:
            uv.set_rectangularity(force=True)
    return uv, True


def sweep(uv, seed):
    """Look up a few stored pairs, both directions, every way."""
    rng = np.random.default_rng(seed)
    hit = False
    for k in range(3):
        op = {"a": int(rng.integers(0, 60)), "b": int(rng.integers(0, 3)), "stored": True,
              "form": ["pair", "pair3", "tuple", "bl"][int(rng.integers(0, 4))],
              "polform": "num", "pol": int(rng.integers(0, 12)), "polin": True,
              "squeeze": "default", "copy": False, "what": "data",
              "op": ["get", "times"][k % 2]}
        hit = do_get(uv, op) or hit
        do_ind(uv, op)
    return hit


@P.sub("history", strategy, 4000)
def history(case):
    uv = build_uv(case["uv"])
    state = 0
    before = snap(uv)
    for k, op in enumerate(case["ops"]):
        if op["op"] == "do":
            if op["x"] % 4:
                hit = sweep(uv, op["y"])
                if hit and state == 0:
                    state = 1
            same_snap(snap(uv), before, "a lookup changed the object")
            uv, ok = do_struct(uv, op)
            before = snap(uv)
            if ok:
                label(op["do"])
                if state == 1:
                    state = 2
            if sweep(uv, op["y"]) and state == 2:
                state = 3
        elif op["op"] == "set":
            do_set(uv, op)
            before = snap(uv)
        else:
            if op["op"] == "ind":
                hit = do_ind(uv, op)
            elif op["op"] == "sets":
                hit = do_sets(uv)
            else:
                hit = do_get(uv, op)
            if hit and state == 0:
                state = 1
            elif hit and state == 2:
                state = 3
    same_snap(snap(uv), before, "a lookup changed the object")
    nontrivial(state == 3)
