"""C05: phasing is invertible, path independent and geometrically consistent."""
import numpy as np
from hypothesis import strategies as st

from vp import sky
from vp.cmp import same, same_snap, snap
from vp.core import Prop, label, nontrivial, require
from vp.gen_uv import LOCS, build_uv, chance, enu_of, uv_spec
from vp.uvmodel import check_counts

P = Prop(
    "C05",
    "a UVData object and a chain of phasing operations on all or some of its records; "
    "non-trivial: at least two operations changed the phase center of some record.",
    ["apparent positions are recomputed with astropy/lunarsky frame transformations "
     "(agreement required to 0.02 arcsec; 1 arcsec for FK4 on the moon)",
     "uvws are recomputed from the generated east-north-up offsets by spherical "
     "trigonometry, agreement required to 1e-6 m",
     "C = 299792458 m/s; visibilities compared to 1e-7 (1e-4 in single precision)"],
)
C = 299792458.0

center = st.fixed_dictionaries({
    "type": st.sampled_from(["sidereal", "sidereal", "sidereal", "ephem", "driftscan"]),
    "lon": st.sampled_from([0.3, 1.9, 3.3, 6.1, 0.0]),
    "lat": st.sampled_from([-0.6, 0.0, 0.45, -1.1, 1.5702, -1.5702]),
    "frame": st.sampled_from(["icrs", "icrs", "fk5", "fk4", "gcrs"]),
    "pm": chance(3), "dist": chance(3), "epoch": st.booleans(),
    "name": st.sampled_from(["a", "b", "src", "c"]),
})
step = st.fixed_dictionaries({
    "op": st.sampled_from(["phase", "phase", "phase", "phase", "unproject", "to_time",
                           "set_uvws", "update_pos", "lookup", "app", "again"]),
    "c": center, "mask": st.sampled_from([None, None, "half", "third", "pc", "list"]),
    "use_ant": st.booleans(), "x": st.integers(0, 20), "clean": st.booleans(),
    "delta": st.booleans(),
})


def strategy():
    return st.fixed_dictionaries({
        "uv": uv_spec(max_spws=2, max_chan=2, max_times=3, max_pairs=4, conj_dups=True,
                      optional=False),
        "steps": st.lists(step, min_size=2, max_size=6),
        "meta": st.integers(0, 6).map(lambda v: v == 6),
    })


def center_kwargs(c, spec):
    """Arguments of UVData.phase and the catalog entry they mean."""
    t0 = spec["t0"]
    moon = sky.is_moon(spec["tel"]["loc"])
    kw = {"cat_name": c["name"], "lon": c["lon"], "lat": c["lat"]}
    e = {"cat_name": c["name"], "cat_lon": c["lon"], "cat_lat": c["lat"]}
    if c["type"] == "driftscan":
        kw.update(cat_type="driftscan", phase_frame="altaz", lat=abs(c["lat"]) + 0.0)
        e.update(cat_type="driftscan", cat_frame="altaz", cat_lat=abs(c["lat"]))
        return kw, e
    fr = c["frame"]
    kw["phase_frame"] = e["cat_frame"] = fr
    if fr == "fk4":
        kw["epoch"] = 1950.0 if c["epoch"] else "B1950"
        e["cat_epoch"] = 1950.0
    elif fr == "fk5" and c["epoch"]:
        kw["epoch"] = 1990.0
        e["cat_epoch"] = 1990.0
    else:
        kw["epoch"] = "J2000" if c["epoch"] else 2000.0
        e["cat_epoch"] = 2000.0
    if c["type"] == "ephem":
        tt = t0 + np.array([-0.5, 0.0, 0.5])
        lon = c["lon"] + np.array([0.0, 0.004, 0.01])
        lat = np.clip(c["lat"], -1.2, 1.2) + np.array([0.0, 0.005, 0.01])
        kw.update(cat_type="ephem", lon=lon, lat=lat, ephem_times=tt)
        e.update(cat_type="ephem", cat_lon=lon, cat_lat=lat, cat_times=tt)
        return kw, e
    e["cat_type"] = "sidereal"
    if c["lat"] == 0.45:
        kw["cat_type"] = "sidereal"
    if c["pm"] and fr == "icrs" and not moon:
        kw.update(pm_ra=310.0, pm_dec=-120.0)
        e.update(cat_pm_ra=310.0, cat_pm_dec=-120.0)
    if c["dist"] and fr == "icrs" and not moon:
        kw["dist"] = e["cat_dist"] = 1.5
    return kw, e


def entry_ok(got, want, what):
    for k in ("cat_name", "cat_type", "cat_lon", "cat_lat", "cat_frame", "cat_times",
              "cat_pm_ra", "cat_pm_dec", "cat_dist", "cat_vrad"):
        same(got.get(k), want.get(k), f"{what}: catalog entry {k}", 0, 1e-10)
    if want.get("cat_epoch") is not None:
        same(got.get("cat_epoch"), want["cat_epoch"], f"{what}: catalog entry cat_epoch",
             0, 1e-9)


def base_data(uv, unproj):
    """Visibilities with the w phases taken out, in double precision."""
    w = np.where(unproj, 0.0, uv.uvw_array[:, 2])
    ph = np.exp(2j * np.pi * w[:, None] * uv.freq_array[None, :] / C)
    return uv.data_array.astype(complex) * ph[:, :, None]


class Model:
    def __init__(self, uv, spec):
        self.spec = spec
        self.loc = spec["tel"]["loc"]
        self.lat = np.deg2rad(LOCS[self.loc][1])
        self.enu = enu_of(spec["tel"]).astype(float)
        ix = {a: i for i, a in enumerate(spec["tel"]["antnums"])}
        self.i1 = np.array([ix[a] for a in uv.ant_1_array.tolist()])
        self.i2 = np.array([ix[a] for a in uv.ant_2_array.tolist()])
        self.entries = [
            {k: v for k, v in uv.phase_center_catalog[i].items() if k != "info_source"}
            for i in uv.phase_center_id_array.tolist()]
        self.cache = {}
        self.meta = uv.data_array is None
        self.tol = 1e-4 if (not self.meta and uv.data_array.dtype == np.complex64) else 1e-7
        if not self.meta:
            self.base = base_data(uv, self.unproj())
        self.fixed = snap(uv)

    def unproj(self):
        return np.array([e["cat_type"] == "unprojected" for e in self.entries])

    def check(self, uv, what):
        n = uv.Nblts
        s = snap(uv)
        check_counts(s, what)
        skip = ["uvw_array", "phase_center_app_ra", "phase_center_app_dec",
                "phase_center_frame_pa", "phase_center_id_array", "phase_center_catalog",
                "Nphase", "data_array", "history", "telescope.antenna_positions"]
        same_snap(s, self.fixed, what, skip=skip)
        groups = {}
        for i in range(n):
            got = uv.phase_center_catalog[int(uv.phase_center_id_array[i])]
            entry_ok(got, self.entries[i], f"{what}: record {i}")
            groups.setdefault(repr(sorted(self.entries[i].items(), key=lambda q: q[0])),
                              []).append(i)
        for k, idx in groups.items():
            e = self.entries[idx[0]]
            idx = np.array(idx)
            slow = e.get("cat_frame") == "fk4" and sky.is_moon(self.loc)
            tol = 5e-6 if slow else 1e-7
            key = (k, tuple(idx.tolist()))
            if key not in self.cache:
                ra, dec = sky.app_coords(e, self.loc, uv.time_array[idx], uv.lst_array[idx])
                j = idx[:1]
                pa = sky.frame_pa(e, self.loc, uv.time_array[j], uv.lst_array[j],
                                  uv.phase_center_app_ra[j], uv.phase_center_app_dec[j])
                self.cache[key] = (ra, dec, pa)
            ra, dec, pa = self.cache[key]
            d = sky.sep(ra, dec, uv.phase_center_app_ra[idx], uv.phase_center_app_dec[idx])
            require(np.all(d < tol), f"{what}: apparent position off by {d.max():.3g} rad "
                                     f"for {e}")
            if e["cat_type"] == "unprojected":
                dp = uv.phase_center_frame_pa[idx]
            else:
                dp = uv.phase_center_frame_pa[idx[:1]] - pa
            dp = (dp + np.pi) % (2 * np.pi) - np.pi
            require(np.all(np.abs(dp) < (5e-3 if slow else 1e-6)),
                    f"{what}: frame position angle off by {np.abs(dp).max():.3g} for {e}")
        # same time and entry: same position angle (so the one above stands for them)
        seen = {}
        for i in range(n):
            kk = (uv.time_array[i], int(uv.phase_center_id_array[i]))
            v = uv.phase_center_frame_pa[i]
            require(abs(seen.setdefault(kk, v) - v) < 1e-9, f"{what}: frame_pa varies")
        want = sky.uvw(self.enu[self.i2] - self.enu[self.i1], self.lat, uv.lst_array,
                       uv.phase_center_app_ra, uv.phase_center_app_dec,
                       uv.phase_center_frame_pa)
        same(uv.uvw_array, want, f"{what}: uvw_array", 0, 1e-6)
        if not self.meta:
            same(base_data(uv, self.unproj()), self.base,
                 f"{what}: visibilities without their w phases", self.tol, self.tol)
        else:
            require(uv.data_array is None, f"{what}: data appeared")


def make_mask(m, uv, x):
    n = uv.Nblts
    if m is None:
        return None
    if m == "half":
        mask = np.arange(n) < (n + 1) // 2
    elif m == "third":
        mask = (np.arange(n) + x) % 3 == 0
    elif m == "list":
        return [bool((i + x) % 2) for i in range(n)]
    else:
        mask = uv.phase_center_id_array == uv.phase_center_id_array[x % n]
    return mask


@P.sub("chain", strategy, 1100)
def chain(case):
    spec = case["uv"]
    uv = build_uv(spec, meta_only=case["meta"])
    m = Model(uv, spec)
    start = uv.copy()
    m.check(uv, "as built")
    moves, moved_pos = 0, False
    rng = np.random.default_rng(spec["seed"])
    for k, s in enumerate(case["steps"]):
        what = f"step {k} ({s['op']})"
        mask = make_mask(s["mask"], uv, s["x"])
        sel = np.ones(uv.Nblts, bool) if mask is None else np.array(mask)
        if s["op"] in ("phase", "again"):
            kw, e = center_kwargs(s["c"], spec)
            if not sel.any():
                continue
            uv.phase(select_mask=mask, use_ant_pos=s["use_ant"],
                     cleanup_old_sources=s["clean"], **kw)
            for i in np.nonzero(sel)[0]:
                m.entries[i] = e
            moves += 1
            if s["op"] == "again":
                uv.phase(select_mask=mask, use_ant_pos=s["use_ant"], **kw)
            label(e["cat_type"])
        elif s["op"] == "unproject":
            if case["meta"] and False:
                continue
            was = m.unproj()
            uv.unproject_phase(use_ant_pos=s["use_ant"], select_mask=mask, cat_name="unp")
            for i in np.nonzero(sel & ~was)[0]:
                m.entries[i] = {"cat_name": "unp", "cat_type": "unprojected", "cat_lon": 0.0,
                                "cat_lat": np.pi / 2, "cat_frame": "altaz"}
            moves += 1
        elif s["op"] == "to_time":
            t = spec["t0"] + s["x"] * 1e-3
            if not sel.any():
                continue
            uv.phase_to_time(t, select_mask=mask, use_ant_pos=s["use_ant"],
                             phase_frame=["icrs", "gcrs"][s["x"] % 2 if not sky.is_moon(
                                 m.loc) else 0])
            ids = set(uv.phase_center_id_array[sel].tolist())
            require(len(ids) == 1, f"{what}: selected records at several phase centers")
            e = dict(uv.phase_center_catalog[ids.pop()])
            e.pop("info_source", None)
            for i in np.nonzero(sel)[0]:
                m.entries[i] = e
            if e["cat_frame"] == "icrs":
                # the phase center is the zenith at that time
                lst0 = lst_at(uv, t)
                ra, dec = sky.app_coords(e, m.loc, np.array([t]), np.array([lst0]))
                require(sky.sep(ra[0], dec[0], lst0, m.lat) < 1e-6,
                        f"{what}: phase center is not the zenith of that time")
            moves += 1
        elif s["op"] == "set_uvws":
            # disturb uvws and visibilities consistently, then recompute
            off = rng.uniform(-1, 1, size=uv.uvw_array.shape)
            un = m.unproj()
            if not case["meta"]:
                ph = np.exp(-2j * np.pi * np.where(un, 0, off[:, 2])[:, None]
                            * uv.freq_array[None, :] / C)
                uv.data_array = (uv.data_array * ph[:, :, None]).astype(uv.data_array.dtype)
            uv.uvw_array = uv.uvw_array + off
            uv.set_uvws_from_antenna_positions()
        elif s["op"] == "update_pos":
            a = s["x"] % len(m.enu)
            d = np.round(rng.uniform(-2, 2, 3), 3)
            lat, lon = m.lat, np.deg2rad(LOCS[m.loc][2])
            sl, cl, sp, cp = np.sin(lon), np.cos(lon), np.sin(lat), np.cos(lat)
            rot = np.array([[-sl, -sp * cl, cp * cl], [cl, -sp * sl, cp * sl], [0, cp, sp]])
            m.enu[a] += d
            an = spec["tel"]["antnums"][a]
            want = uv.telescope.antenna_positions.copy()
            want[a] += rot @ d
            uv.update_antenna_positions(
                {an: want[a], 99999: np.zeros(3)}, delta_antpos=s["delta"])
            same(uv.telescope.antenna_positions, want, f"{what}: antenna_positions", 0, 1e-9)
            # the w change of the moved antenna is taken out of the data: base as before
            moved_pos = True
        elif s["op"] == "lookup":
            i = s["x"] % uv.Nblts
            e = m.entries[i]
            names = [c["cat_name"] for c in uv.phase_center_catalog.values()]
            if names.count(e["cat_name"]) != 1 or not sel.any():
                continue
            kw = {"lon": 0.0, "lat": 0.0}
            if e["cat_type"] == "unprojected":
                kw["cat_type"] = "unprojected"
                if True:
                    # documented for projected entries; unprojected goes by unproject_phase
                    continue
            uv.phase(cat_name=e["cat_name"], lookup_name=True, select_mask=mask,
                     use_ant_pos=s["use_ant"], **kw)
            for j in np.nonzero(sel)[0]:
                m.entries[j] = e
            moves += 1
        elif s["op"] == "app":
            before = snap(uv)
            uv._set_app_coords_helper()
            after = snap(uv)
            tol = {n: (0, 1e-9) for n in ("phase_center_app_ra", "phase_center_app_dec",
                                          "phase_center_frame_pa")}
            same_snap(after, before, f"{what}: recomputed apparent coordinates", tol)
            uv.phase_center_app_ra = before["phase_center_app_ra"]
            uv.phase_center_app_dec = before["phase_center_app_dec"]
            uv.phase_center_frame_pa = before["phase_center_frame_pa"]
        label(s["op"])
        m.check(uv, what)
    if not moved_pos:
        # path independence: a fresh copy taken straight to the final phase centers
        direct = start
        todo = {}
        for i in range(uv.Nblts):
            todo.setdefault(int(uv.phase_center_id_array[i]), []).append(i)
        for cid, idx in todo.items():
            e = uv.phase_center_catalog[cid]
            mask = np.zeros(uv.Nblts, bool)
            mask[idx] = True
            if e["cat_type"] == "unprojected":
                direct.unproject_phase(select_mask=mask, cat_name=e["cat_name"])
            else:
                direct.phase(
                    cat_name=e["cat_name"], lon=e["cat_lon"], lat=e["cat_lat"],
                    phase_frame=e["cat_frame"], epoch=e["cat_epoch"],
                    cat_type=e["cat_type"], ephem_times=e["cat_times"],
                    pm_ra=e["cat_pm_ra"], pm_dec=e["cat_pm_dec"], dist=e["cat_dist"],
                    vrad=e["cat_vrad"], select_mask=mask)
        for n, t in (("uvw_array", 1e-6), ("phase_center_app_ra", 1e-9),
                     ("phase_center_app_dec", 1e-9), ("phase_center_frame_pa", 1e-9)):
            same(getattr(uv, n), getattr(direct, n), f"path dependence of {n}", 0, t)
        if not case["meta"]:
            same(uv.data_array, direct.data_array, "path dependence of the visibilities",
                 m.tol, m.tol)
    uv.check()
    nontrivial(moves >= 2)


def lst_at(uv, t):
    from pyuvdata.utils import get_lst_for_time

    return float(get_lst_for_time(np.array([t]), telescope_loc=uv.telescope.location)[0])
