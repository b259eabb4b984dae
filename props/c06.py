"""C06: phase center catalogs stay consistent under every catalog operation."""
import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require
from vp.gen_uv import build_uv, chance, uv_spec
from vp.uvmodel import check_counts

P = Prop(
    "C06",
    "two disjoint parts of a UVData object and a history of catalog operations on each, then "
    "their sum; non-trivial: the history leaves at least two entries in use and at least two "
    "operations took effect.",
    ["two catalog entries describe the same position if every field other than name and "
     "info_source agrees to 1e-9"],
)

FIELDS = ("cat_type", "cat_lon", "cat_lat", "cat_frame", "cat_epoch", "cat_times", "cat_pm_ra",
          "cat_pm_dec", "cat_dist", "cat_vrad")

step = st.fixed_dictionaries({
    "op": st.sampled_from(["rename", "split", "split", "merge", "merge", "renum", "clear",
                           "phase", "phase", "unproject", "select", "print", "add_pc"]),
    "who": st.integers(0, 1), "ident": st.sampled_from(["id", "id", "name", "list"]),
    "x": st.integers(0, 30), "y": st.integers(0, 30),
    "name": st.sampled_from(["zen", "src", "a", "b", "fld_b"]),
    "mask": st.sampled_from(["half", "third", "ints", "negints", "none", "all", "own", "blist"]),
    "flag": st.booleans(), "flag2": st.booleans(), "newid": st.sampled_from([None, None, 2, 9]),
    "c": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10]),
})


def strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_spws=1, max_chan=1, max_times=4, min_times=2, min_pairs=2, max_pairs=4, conj_dups=True,
                      optional=False, polsets=[[-5], [-5, -6]]),
        "steps": st.lists(step, min_size=2, max_size=9),
        "final": st.sampled_from(["add", "radd", "concat", "rconcat"]),
        "ignore": chance(3),
        "part": st.integers(0, 3),
    })


def centers(t0):
    """Phase arguments; some share a name or almost everything else."""
    tt = t0 + np.array([-0.5, 0.0, 0.5])
    t2 = t0 + np.array([-4.0, 0.0, 4.0])
    lon, lat = 0.4 + np.array([0, 0.01, 0.02]), 0.3 + np.array([0, 0.002, 0.004])
    return [
        dict(lon=1.0, lat=0.2, phase_frame="icrs"),
        dict(lon=1.0, lat=0.2, phase_frame="fk5"),
        dict(lon=1.0 + 1e-7, lat=0.2, phase_frame="icrs"),
        dict(lon=lon, lat=lat, ephem_times=tt, cat_type="ephem"),
        dict(lon=lon, lat=lat, ephem_times=t2, cat_type="ephem"),
        dict(lon=1.0, lat=0.2, phase_frame="fk5", epoch="J1990"),
        dict(lon=1.0, lat=0.9, cat_type="driftscan", phase_frame="altaz"),
        dict(lon=0.0, lat=np.pi / 2, cat_type="driftscan", phase_frame="altaz"),
        dict(lon=1.0, lat=0.2, phase_frame="icrs", dist=50.0),
        dict(lon=1.0, lat=0.2, phase_frame="icrs", pm_ra=3.0, pm_dec=-2.0),
        dict(lon=1.0, lat=0.2, phase_frame="icrs", pm_ra=3.0, pm_dec=-2.5, dist=50.0, vrad=10.0),
    ]


def entry_of(kw, name):
    e = {k: None for k in FIELDS}
    e.update(cat_name=name, cat_type=kw.get("cat_type", "sidereal"), cat_lon=kw["lon"],
             cat_lat=kw["lat"], cat_frame=kw.get("phase_frame", "icrs"))
    e["cat_times"] = kw.get("ephem_times")
    for k in ("dist", "vrad", "pm_ra", "pm_dec"):
        e["cat_" + k] = kw.get(k)
    e["cat_epoch"] = 1990.0 if kw.get("epoch") else 2000.0
    return e


def clean(e):
    return {k: e.get(k) for k in FIELDS + ("cat_name",)}


def eq_val(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - b) <= 1e-9))


def eq_pos(a, b, name=True):
    return all(eq_val(a[k], b[k]) for k in FIELDS) and (not name or a["cat_name"] == b["cat_name"])


def state(uv):
    cat = {int(k): clean(v) for k, v in uv.phase_center_catalog.items()}
    rec = {}
    for i in range(uv.Nblts):
        key = (uv.time_array[i], int(uv.ant_1_array[i]), int(uv.ant_2_array[i]))
        rec[key] = int(uv.phase_center_id_array[i])
    return cat, rec


def keys_of(uv):
    return [(uv.time_array[i], int(uv.ant_1_array[i]), int(uv.ant_2_array[i]))
            for i in range(uv.Nblts)]


def make_mask(kind, uv, x, cid):
    n = uv.Nblts
    if kind == "half":
        return np.arange(n) < (n + 1) // 2
    if kind == "third":
        return (np.arange(n) + x) % 3 == 0
    if kind == "ints":
        return np.arange(x % n, n)
    if kind == "negints":
        return [-1 - (x % n)]
    if kind == "none":
        return np.zeros(n, dtype=bool)
    if kind == "all":
        return None
    if kind == "blist":
        return [bool((i + x) % 2) for i in range(n)]
    own = np.nonzero(uv.phase_center_id_array == cid)[0]
    m = np.zeros(n, dtype=bool)
    m[own[: max(1, (len(own) * (1 + x % 3)) // 3)]] = True
    return m


def as_bool(mask, n):
    m = np.zeros(n, dtype=bool)
    if mask is None:
        m[:] = True
    else:
        m[np.asarray(mask)] = True
    return m


class Hist:
    def __init__(self, uv, t0):
        self.uv = uv
        self.centers = centers(t0)
        if uv.telescope._location.frame == "mcmf":
            # distances and proper motions on the moon need data files
            self.centers[8:] = self.centers[:3]
        cat, rec = state(uv)
        self.expect = {k: cat[v] for k, v in rec.items()}
        self.done = 0

    def verify(self, what, before=None, phased=False):
        uv = self.uv
        s = snap(uv)
        check_counts(s, what)
        require(uv.Nphase == len(uv.phase_center_catalog), f"{what}: Nphase {uv.Nphase}")
        cat, rec = state(uv)
        require(set(rec) == set(self.expect), f"{what}: records changed")
        for k, cid in rec.items():
            require(cid in cat, f"{what}: record {k} has id {cid}, not in the catalog")
            require(eq_pos(cat[cid], self.expect[k]),
                    lambda: f"{what}: record {k} points at {cat[cid]}, expected {self.expect[k]}")
        if before is not None and not phased:
            same_snap(s, before, what, skip=["phase_center_id_array", "phase_center_catalog",
                                             "Nphase", "history"])

    def step(self, st_, i):
        uv, op = self.uv, st_["op"]
        before = snap(uv)
        cat, rec = state(uv)
        ids = list(cat)
        cid = ids[st_["x"] % len(ids)]
        cname = cat[cid]["cat_name"]
        byname = [k for k in ids if cat[k]["cat_name"] == cname]
        what = f"step {i} {op}"
        unused = [k for k in ids if k not in set(rec.values())]
        exp = dict(self.expect)
        err, call, phased, cleared = None, None, False, False
        gone = set()
        order = keys_of(uv)
        if op == "rename":
            if st_["ident"] == "name":
                arg, hit = cname, byname
            elif st_["ident"] == "list":
                hit = [cid, ids[st_["y"] % len(ids)]]
                arg = list(hit)
            else:
                arg, hit = cid, [cid]
            call = lambda: uv.rename_phase_center(arg, st_["name"])
            for k, v in rec.items():
                if v in hit:
                    exp[k] = {**exp[k], "cat_name": st_["name"]}
        elif op == "split":
            mask = make_mask(st_["mask"], uv, st_["y"], cid)
            sel = as_bool(mask, uv.Nblts)
            own = uv.phase_center_id_array == cid
            arg = cid
            if st_["ident"] == "name":
                arg = cname
                if len(byname) > 1:
                    err = ValueError
            nid = st_["newid"]
            if nid is not None and nid in cat:
                err = ValueError
            down = st_["flag"]
            if np.any(sel & ~own) and not down:
                err = ValueError
            sel &= own
            nm = st_["name"] if st_["flag2"] else None
            call = lambda: uv.split_phase_center(arg, new_name=nm, select_mask=mask,
                                                 new_id=nid, downselect=down)
            if nm is not None:
                for j in np.nonzero(sel)[0]:
                    exp[order[j]] = {**exp[order[j]], "cat_name": nm}
        elif op == "merge":
            oth = ids[st_["y"] % len(ids)]
            if st_["ident"] == "name":
                arg, hit = cname, byname
            elif st_["ident"] == "list":
                arg = [cname, oth] if st_["x"] % 2 else [oth, cname]
                hit = byname + [oth] if st_["x"] % 2 else [oth] + byname
            else:
                arg, hit = [cid, oth], [cid, oth]
            hit = list(dict.fromkeys(hit))
            force, ign = st_["flag"] and st_["flag2"], st_["flag2"]
            call = lambda: uv.merge_phase_centers(arg, force_merge=force, ignore_name=ign)
            ok = all(eq_pos(cat[hit[0]], cat[k], name=not ign) for k in hit[1:])
            if len(hit) > 1 and not ok and not force:
                err = ValueError
            if len(hit) > 1:
                gone = set(hit[1:])
                for k, v in rec.items():
                    if v in hit:
                        exp[k] = cat[hit[0]]
        elif op == "renum":
            new = st_["newid"]
            if new is not None and new in cat and new != cid:
                err = ValueError
            call = lambda: uv._update_phase_center_id(
                cid, new_id=new, reserved_ids=None if new is not None else ids[:1])
            gone = {cid}
        elif op == "clear":
            call = uv._clear_unused_phase_centers
            cleared = True
        elif op == "add_pc":
            kw = self.centers[st_["c"]]
            e = entry_of(kw, st_["name"])
            call = lambda: uv._add_phase_center(st_["name"], **{k: e[k] for k in FIELDS})
        elif op == "phase":
            kw = self.centers[st_["c"]]
            mask = make_mask(st_["mask"], uv, st_["y"], cid)
            if mask is not None:
                mask = as_bool(mask, uv.Nblts)
            if mask is not None and not mask.any():
                mask[0] = True
            phased = cleared = True
            clean_old = st_["flag"]
            cleared = clean_old
            call = lambda: uv.phase(cat_name=st_["name"], select_mask=mask,
                                    cleanup_old_sources=clean_old, **kw)
            # phasing to the same name and position may match an entry; either way:
            for j in np.nonzero(as_bool(mask, uv.Nblts))[0]:
                exp[order[j]] = entry_of(kw, st_["name"])
            # an entry of that name may be replaced only if nothing else uses it
            gone = {k for k in ids if cat[k]["cat_name"] == st_["name"]}
        elif op == "unproject":
            mask = make_mask(st_["mask"], uv, st_["y"], cid)
            m = as_bool(mask, uv.Nblts)
            phased = cleared = True
            nm = "unprojected" if st_["flag"] else st_["name"]
            call = lambda: uv.unproject_phase(select_mask=None if mask is None else m,
                                              cat_name=nm)
            for j in np.nonzero(m)[0]:
                if exp[order[j]]["cat_type"] != "unprojected":
                    e = {k: None for k in FIELDS}
                    e.update(cat_name=nm, cat_type="unprojected", cat_lon=0.0,
                             cat_lat=np.pi / 2, cat_frame="altaz")
                    exp[order[j]] = e
        elif op == "select":
            phased = cleared = True
            if st_["flag"]:
                want = [i for i in {cid, ids[st_["y"] % len(ids)]}]
                call = lambda: uv.select(phase_center_ids=want)
                keep = {k for k, v in rec.items() if v in want}
            else:
                want = byname
                call = lambda: uv.select(catalog_names=cname)
                keep = {k for k, v in rec.items() if v in want}
            if not keep:
                err = ValueError
            exp = {k: v for k, v in exp.items() if k in keep}
        else:
            txt = uv.print_phase_center_info(return_str=True, print_table=False)
            rows = txt.split("\n")[3:]
            rows = [r for r in rows if r.strip()]
            require(len(rows) == len(cat), f"{what}: {len(rows)} rows for {len(cat)} entries")
            for r, k in zip(rows, sorted(cat)):
                require(r.split()[0] == str(k) and r.split()[1] == cat[k]["cat_name"]
                        and r.split()[2] == cat[k]["cat_type"], f"{what}: row {r!r} for {k}")
            same_snap(snap(uv), before, what)
            return
        if err is not None:
            try:
                call()
            except err:
                label("refused")
                same_snap(snap(uv), before, f"{what} (refused)")
                return
            require(False, f"{what}: not refused: {st_} on {list(cat.items())}")
        ret = call()
        self.expect = exp
        self.verify(f"{what} {st_}", before, phased)
        ncat, nrec = state(uv)
        label(op)
        if repr(ncat) != repr(cat) or nrec != rec:
            self.done += 1
        if not cleared:
            for k in unused:
                if k not in gone:
                    nm_ok = op == "rename"
                    require(k in ncat and eq_pos(ncat[k], cat[k], name=not nm_ok),
                            f"{what}: unused entry {k} lost or changed")
        if op == "add_pc":
            require(ret in ncat and eq_pos(ncat[ret], e), f"{what}: {e} added as {ncat.get(ret)}")
        if op == "clear":
            require(set(ncat) == set(rec.values()), f"{what}: {set(ncat)} left")
            require(rec == nrec, f"{what}: ids changed")
        if op == "split" and np.any(sel):
            rest = own & ~sel
            a, b = uv.phase_center_id_array[sel], uv.phase_center_id_array[rest]
            require(len(set(a.tolist())) == 1, f"{what}: selected records have ids {a}")
            require(not set(a.tolist()) & set(b.tolist()),
                    f"{what}: the selected records were not separated ({st_})")
            joined = np.any(a[0] == np.array(ids)) and a[0] != cid
            require(nid is None or joined or a[0] == nid, f"{what}: new id {a[0]}, not {nid}")
        if op == "merge" and len(hit) > 1:
            require(hit[0] in ncat and not set(hit[1:]) & set(ncat), f"{what}: {ncat.keys()}")
        if op == "renum":
            new = [k for k in ncat if k not in cat]
            if st_["newid"] is not None and st_["newid"] != cid:
                require(new == [st_["newid"]] and cid not in ncat, f"{what}: ids {list(ncat)}")
            require(len(ncat) == len(cat), f"{what}: ids {list(ncat)}")


@P.sub("history", strategy, 1300)
def history(case):
    spec = case["uv"]
    uv = build_uv(spec)
    n = uv.Nblts
    if n > 1:
        m = (np.arange(n) + case["part"]) % 3 == 0 if case["part"] < 3 else np.arange(n) < n // 2
        if m.all() or not m.any():
            m = np.arange(n) < 1
        hs = [Hist(uv.select(blt_inds=np.nonzero(m)[0], inplace=False), spec["t0"]),
              Hist(uv.select(blt_inds=np.nonzero(~m)[0], inplace=False), spec["t0"])]
    else:
        hs = [Hist(uv, spec["t0"])]
    for i, s in enumerate(case["steps"]):
        hs[s["who"] % len(hs)].step(s, i)
    done = sum(h.done for h in hs)
    use = {id(h): len(set(h.uv.phase_center_id_array.tolist())) for h in hs}
    nontrivial(done >= 2 and max(use.values()) >= 2)
    if len(hs) < 2:
        return
    final = case["final"]
    a, b = hs if not final.startswith("r") else hs[::-1]
    ba, bb = snap(a.uv), snap(b.uv)
    ign = case["ignore"]
    if final.endswith("add"):
        tot = a.uv.__add__(b.uv, ignore_name=ign)
    else:
        tot = a.uv.fast_concat(b.uv, "blt", ignore_name=ign, inplace=False)
    same_snap(snap(a.uv), ba, f"{final}: left operand")
    same_snap(snap(b.uv), bb, f"{final}: right operand")
    s = snap(tot)
    check_counts(s, final)
    cat, rec = state(tot)
    exp = {**a.expect, **b.expect}
    require(set(rec) == set(exp), f"{final}: records differ")
    for k, cid in rec.items():
        require(eq_pos(cat[cid], exp[k], name=not ign),
                lambda: f"{final} ignore_name={ign}: record {k} points at {cat[cid]}, "
                        f"expected {exp[k]}")

    def dup(c, name=True):
        v = list(c.values())
        return any(eq_pos(v[i], v[j], name) for i in range(len(v)) for j in range(i))
    if not (dup(state(a.uv)[0], not ign) or dup(state(b.uv)[0], not ign)):
        require(not dup(cat, not ign), f"{final}: the same entry twice in {cat}")
    nmap = {}
    for k, cid in rec.items():
        nmap.setdefault(cid, []).append(k)
    label(final)
