"""C16: UVData objects stay valid, and every record keeps its values, through any sequence of operations."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import sky
from vp.cmp import same, same_snap, snap, value_diff
from vp.core import Prop, label, nontrivial, require, scratch
from vp.gen_uv import LOCS, build_uv, enu_of, uv_spec
from vp.uvmodel import check_blt_order, check_counts, check_rect

P = Prop(
    "C16",
    "Sequences of 2-9 public operations (select in every way, reorder on every axis, conjugate, phase, unproject, "
    "look up, copy, split and re-add or concatenate, rename / split / merge catalog entries, flexible-polarization "
    "round trip, frequency averaging, adding and removing data, writing and reading UVH5, setting values by key) on "
    "generated data sets, with a record-level model kept alongside and all earlier copies watched; non-trivial: at "
    "least two different operations applied to at least two records.",
    ["one record per time and unordered antenna pair, and polarization sets closed under exchange of the antennas",
     "time averaging and redundancy compression are left to C07 and C09"],
)
C = 299792458.0
OPS = ["select", "select", "reorder_blts", "reorder_freqs", "reorder_pols", "conj", "conj", "phase", "phase", "unproj",
       "lookup", "copy", "split", "split", "concat", "rename", "splitpc", "mergepc", "flex", "avg", "uvh5", "setdata",
       "setflags", "rect", "sum", "cleanpc"]


@st.composite
def strategy(draw):
    s = draw(uv_spec(polsets=[[-5], [-6, -5], [-5, -6, -7, -8], [-7, -5, -8, -6], [-1, -2], [1, 2, 3, 4], [-2, -1]],
                     conj_dups=False, flexpol=False, max_spws=3, max_chan=3, chan_shuffle=True, max_ants=4))
    return {"uv": s, "meta": draw(st.integers(0, 7)) == 7,
            "ops": draw(st.lists(st.fixed_dictionaries({
                "op": st.sampled_from(OPS), "a": st.integers(0, 999), "b": st.integers(0, 999),
                "c": st.booleans(), "d": st.booleans()}), min_size=2, max_size=9))}


def entry(e):
    """What a catalog entry says about the sky (an equinox means nothing in horizontal or ICRS coordinates)."""
    drop = ("info_source", "cat_name") + (("cat_epoch",) if e.get("cat_frame") not in ("fk4", "fk5") else ())
    return {k: v for k, v in e.items() if k not in drop and v is not None}


CP = {-3: -4, -4: -3, -7: -8, -8: -7}


class K:
    """Order- and direction-free view: records by (time, pair), channels by frequency, then polarization."""

    def __init__(self, uv):
        lo, hi = np.minimum(uv.ant_1_array, uv.ant_2_array), np.maximum(uv.ant_1_array, uv.ant_2_array)
        bo = np.lexsort((hi, lo, uv.time_array))
        fo = np.argsort(uv.freq_array, kind="stable")
        pols = [int(p) for p in uv.polarization_array]
        po = np.argsort(pols, kind="stable")
        self.bo, self.fo, self.po = bo, fo, po
        self.key = list(zip(uv.time_array[bo].tolist(), lo[bo].tolist(), hi[bo].tolist()))
        self.freq = uv.freq_array[fo]
        self.width = uv.channel_width[fo]
        self.win = uv.flex_spw_id_array[fo]
        self.pol = np.array(pols)[po]
        self.lst = uv.lst_array[bo]
        self.int = uv.integration_time[bo]
        self.scan = None if uv.scan_number_array is None else uv.scan_number_array[bo]
        self.pc = [entry(uv.phase_center_catalog[int(i)]) for i in uv.phase_center_id_array[bo]]
        self.eq = None if uv.eq_coeffs is None else uv.eq_coeffs[:, fo]
        self.base = self.flag = self.ns = None
        if uv.data_array is not None:
            un = np.array([uv.phase_center_catalog[int(i)]["cat_type"] == "unprojected"
                           for i in uv.phase_center_id_array])
            w = np.where(un, 0.0, uv.uvw_array[:, 2])
            d = uv.data_array.astype(complex) * np.exp(2j * np.pi * w[:, None] * uv.freq_array / C)[:, :, None]
            f, n = uv.flag_array.copy(), uv.nsample_array.astype(float)
            flip = uv.ant_1_array > uv.ant_2_array
            if flip.any():
                inv = [pols.index(CP.get(p, p)) for p in pols]
                d[flip], f[flip], n[flip] = np.conj(d[flip][:, :, inv]), f[flip][:, :, inv], n[flip][:, :, inv]
            g = lambda x: x[bo][:, fo][:, :, po]  # noqa: E731
            self.base, self.flag, self.ns = g(d), g(f), g(n)

    def take(self, b=None, f=None, p=None):
        if b is not None:
            b = np.asarray(b)
            ix = np.nonzero(b)[0] if b.dtype == bool else b
            self.key = [self.key[i] for i in ix]
            self.pc = [self.pc[i] for i in ix]
            for n in ("lst", "int", "scan", "base", "flag", "ns"):
                if getattr(self, n) is not None:
                    setattr(self, n, getattr(self, n)[ix])
        if f is not None:
            for n in ("freq", "width", "win"):
                setattr(self, n, getattr(self, n)[f])
            if self.eq is not None:
                self.eq = self.eq[:, f]
            for n in ("base", "flag", "ns"):
                if getattr(self, n) is not None:
                    setattr(self, n, getattr(self, n)[:, f])
        if p is not None:
            self.pol = self.pol[p]
            for n in ("base", "flag", "ns"):
                if getattr(self, n) is not None:
                    setattr(self, n, getattr(self, n)[:, :, p])


class World:
    def __init__(self, case):
        self.spec = case["uv"]
        uv = build_uv(self.spec)
        # an autocorrelation equals its own reverse
        au = uv.ant_1_array == uv.ant_2_array
        pols = uv.polarization_array.tolist()
        for i, p in enumerate(pols):
            j = pols.index(CP.get(p, p))
            if j == i:
                uv.data_array[au, :, i] = uv.data_array[au, :, i].real
            elif j > i:
                uv.data_array[au, :, j] = np.conj(uv.data_array[au, :, i])
                uv.flag_array[au, :, j] = uv.flag_array[au, :, i]
                uv.nsample_array[au, :, j] = uv.nsample_array[au, :, i]
        if case["meta"]:
            uv.data_array = uv.flag_array = uv.nsample_array = None
        self.uv = uv
        self.m = K(uv)
        self.tel = snap(uv.telescope)
        self.fixed = {k: snap(uv)[k] for k in ("vis_units", "extra_keywords", "eq_coeffs_convention",
                                               "pol_convention", "gst0", "rdate", "earth_omega", "dut1", "timesys")}
        self.watch = []
        self.tol = 3e-5 if (uv.data_array is not None and uv.data_array.dtype == np.complex64) else 1e-8
        self.loc = self.spec["tel"]["loc"]
        enu = enu_of(self.spec["tel"]).astype(float)
        self.enu = {a: enu[i] for i, a in enumerate(self.spec["tel"]["antnums"])}
        self.names = set()

    def verify(self, what):
        uv, m = self.uv, self.m
        s = snap(uv)
        check_counts(s, what)
        check_rect(s, what)
        check_blt_order(s, what)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                uv.check()
            except ValueError as e:
                require(False, f"{what}: fails its own check: {e}")
        g = K(uv)
        require(g.key == m.key, f"{what}: records are {g.key}, expected {m.key}")
        for n, at in (("freq", 1e-6), ("width", 1e-6), ("win", 0), ("pol", 0), ("lst", 1e-9), ("int", 1e-9)):
            same(getattr(g, n), getattr(m, n), f"{what}: {n}", 0, at)
        require((g.scan is None) == (m.scan is None), f"{what}: scan numbers")
        if m.scan is not None:
            same(g.scan, m.scan, f"{what}: scan numbers")
        for i, (a, b) in enumerate(zip(g.pc, m.pc)):
            d = value_diff(a, b, 0, 1e-12)
            require(not d, f"{what}: field of record {m.key[i]}: {d}")
        require((g.eq is None) == (m.eq is None), f"{what}: eq_coeffs")
        if m.eq is not None:
            same(g.eq, m.eq, f"{what}: eq_coeffs", 1e-10)
        require((g.base is None) == (m.base is None), f"{what}: data appeared or vanished")
        if m.base is not None:
            same(g.base, m.base, f"{what}: visibilities without their w phases", self.tol, self.tol)
            same(g.flag, m.flag, f"{what}: flags")
            same(g.ns, m.ns, f"{what}: nsamples", 1e-5, 1e-6)
        for k, v in self.fixed.items():
            same(s[k], v, f"{what}: {k}")
        for k, v in self.tel.items():
            same(s["telescope." + k], v, f"{what}: telescope {k}", 0, 1e-7 if k == "location" else 0)
        d = np.array([self.enu[int(b)] - self.enu[int(a)] for a, b in zip(uv.ant_1_array, uv.ant_2_array)])
        want = sky.uvw(d, np.deg2rad(LOCS[self.loc][1]), uv.lst_array, uv.phase_center_app_ra,
                       uv.phase_center_app_dec, uv.phase_center_frame_pa)
        same(uv.uvw_array, want, f"{what}: uvw_array", 0, 1e-6)
        for tag, o, so in self.watch:
            same_snap(snap(o), so, f"{what}: {tag}", skip=("blts_are_rectangular", "time_axis_faster_than_bls"))

    def interspersed(self):
        ids = self.uv.flex_spw_id_array
        return 1 + int(np.count_nonzero(np.diff(ids))) != len(set(ids.tolist()))

    def keep(self, tag, o):
        if len(self.watch) < 4:
            self.watch.append((tag, o, snap(o)))

    # every method returns the name of what was done, or None for nothing
    def op_select(self, a, b, c, d):
        uv, m = self.uv, self.m
        rng = np.random.default_rng(a)
        kinds = ["times", "bls", "antenna_nums", "freq_chans", "frequencies", "blt_inds", "polarizations", "lst_range",
                 "phase_center_ids", "time_range"]
        kind = kinds[b % len(kinds)]
        pick = lambda v: [v[i] for i in sorted(rng.permutation(len(v))[:1 + a % len(v)])]  # noqa: E731
        kb = kf = kp = None
        if kind == "times":
            v = pick(sorted(set(uv.time_array.tolist())))
            kw = {"times": v}
            kb = [k[0] in v for k in m.key]
        elif kind == "time_range":
            v = sorted(set(uv.time_array.tolist()))
            i, j = sorted((a % len(v), (a // 7) % len(v)))
            kw = {"time_range": [v[i] - 1e-6, v[j] + 1e-6]}
            kb = [v[i] <= k[0] <= v[j] for k in m.key]
        elif kind == "lst_range":
            v = sorted(set(uv.lst_array.tolist()))
            i, j = sorted((a % len(v), (a // 7) % len(v)))
            if v[i] < 1e-5 or v[j] > 6.28:
                return None
            kw = {"lst_range": [v[i] - 1e-7, v[j] + 1e-7]}
            kb = [v[i] - 1e-7 <= x <= v[j] + 1e-7 for x in m.lst]
        elif kind == "bls":
            v = pick(sorted({k[1:] for k in m.key}))
            kw = {"bls": [p if (a + i) % 2 else p[::-1] for i, p in enumerate(v)]}
            kb = [k[1:] in v for k in m.key]
        elif kind == "antenna_nums":
            v = pick(sorted(set(uv.ant_1_array.tolist()) | set(uv.ant_2_array.tolist())))
            kw = {"antenna_nums": v}
            kb = [k[1] in v and k[2] in v for k in m.key]
            if not any(kb):
                return None
        elif kind == "blt_inds":
            v = pick(list(range(uv.Nblts)))
            kw = {"blt_inds": np.array(v)}
            inv = set(v)
            kb = [int(i) in inv for i in m_order(uv)]
        elif kind in ("freq_chans", "frequencies"):
            v = pick(list(range(uv.Nfreqs)))
            kw = {"freq_chans": v} if kind == "freq_chans" else {"frequencies": uv.freq_array[v]}
            inv = set(v)
            kf = np.array([int(i) in inv for i in np.argsort(uv.freq_array, kind="stable")])
        elif kind == "phase_center_ids":
            v = pick(sorted({int(x) for x in uv.phase_center_id_array}))
            kw = {kind: v}
            kb = np.isin(uv.phase_center_id_array[m_order(uv)], v)
        else:
            good = [p for p in m.pol.tolist() if p not in CP]
            if not good:
                return None
            v = pick(good)
            kw = {"polarizations": v}
            kp = np.isin(m.pol, v)
        if c:
            uv.select(**kw)
        else:
            self.keep("the object selected from", uv)
            self.uv = uv.select(inplace=False, **kw)
        m.take(b=kb, f=kf, p=kp)
        return f"select {kind}"

    def op_reorder_blts(self, a, b, c, d):
        order = ["time", "baseline", "ant1", "ant2", "bda", "inds"][a % 6]
        conj = [None, None, "ant1<ant2", "ant2<ant1"][b % 4]
        if order == "inds":
            order = np.random.default_rng(b).permutation(self.uv.Nblts)
            self.uv.reorder_blts(order, conj_convention=conj)
            return "reorder_blts by index"
        minor = None if c or order == "bda" else [None, "time", "baseline", "ant1", "ant2"][b % 5]
        if order == "baseline" and minor in ("ant1", "ant2"):
            minor = None
        self.uv.reorder_blts(order, minor_order=minor, conj_convention=conj)
        return f"reorder_blts {order}"

    def op_reorder_freqs(self, a, b, c, d):
        spw = [None, "number", "-number", "freq", "-freq"][a % 5]
        ch = [None, "freq", "-freq"][b % 3]
        if spw is None and ch is None:
            return None
        self.uv.reorder_freqs(spw_order=spw, channel_order=ch)
        return "reorder_freqs"

    def op_reorder_pols(self, a, b, c, d):
        if self.uv.Npols < 2:
            return None
        o = ["AIPS", "CASA", np.random.default_rng(a).permutation(self.uv.Npols)][b % 3]
        self.uv.reorder_pols(o)
        return "reorder_pols"

    def op_conj(self, a, b, c, d):
        how = ["ant1<ant2", "ant2<ant1", "u<0", "v>0", "inds", "inds"][a % 6]
        if how == "inds":
            how = np.nonzero(np.random.default_rng(b).random(self.uv.Nblts) < 0.5)[0]
            if not len(how):
                return None
        self.uv.conjugate_bls(how, **({"use_enu": False} if c and isinstance(how, str) and how[0] in "uv" else {}))
        return "conjugate_bls"

    def new_name(self):
        n = f"new{len(self.names)}"
        self.names.add(n)
        return n

    def op_phase(self, a, b, c, d):
        uv, m = self.uv, self.m
        lon, lat = [(0.3, -0.4), (4.0, 0.7), (6.1, -1.2)][a % 3]
        kind = b % 3
        if kind == 2:
            kw = {"cat_type": "driftscan", "phase_frame": "altaz", "lon": lon, "lat": abs(lat)}
            e = {"cat_type": "driftscan", "cat_frame": "altaz", "cat_lon": lon, "cat_lat": abs(lat)}
        else:
            kw = {"lon": lon, "lat": lat, "phase_frame": "icrs" if kind == 0 else "fk5"}
            e = {"cat_type": "sidereal", "cat_lon": lon, "cat_lat": lat, "cat_frame": kw["phase_frame"]}
            if kind == 1:
                kw["epoch"], e["cat_epoch"] = "J2000", 2000.0
        sel = np.ones(uv.Nblts, bool)
        if c and uv.Nblts > 1:
            sel = np.random.default_rng(a).random(uv.Nblts) < 0.5
            if not sel.any():
                return None
            kw["select_mask"] = sel
        uv.phase(cat_name=self.new_name(), **kw)
        o = m_order(uv)
        m.pc = [dict(e) if sel[o[i]] else p for i, p in enumerate(m.pc)]
        return "phase " + e["cat_type"] + (" part" if not sel.all() else "")

    def op_unproj(self, a, b, c, d):
        uv, m = self.uv, self.m
        sel = np.ones(uv.Nblts, bool)
        kw = {"cat_name": self.new_name()}
        if c:
            sel = np.random.default_rng(a).random(uv.Nblts) < 0.5
            if not sel.any():
                return None
            kw["select_mask"] = sel
        un = np.array([uv.phase_center_catalog[int(i)]["cat_type"] == "unprojected" for i in
                       uv.phase_center_id_array])
        if (sel & un).any():
            return None  # some would keep their entry under the old name
        uv.unproject_phase(**kw)
        o = m_order(uv)
        m.pc = [{"cat_type": "unprojected"} if sel[o[i]] else p for i, p in enumerate(m.pc)]
        self.fix_unproj()
        return "unproject_phase"

    def fix_unproj(self):
        g = K(self.uv)
        for i, p in enumerate(self.m.pc):
            if p.get("cat_type") == "unprojected" and g.pc[i].get("cat_type") == "unprojected":
                self.m.pc[i] = g.pc[i]

    def op_lookup(self, a, b, c, d):
        uv = self.uv
        pr = uv.get_antpairs()[a % len(uv.get_antpairs())]
        if c:
            pr = pr[::-1]
        want = [i for i in range(uv.Nblts) if {int(uv.ant_1_array[i]), int(uv.ant_2_array[i])} == set(pr)]
        if uv.data_array is None:
            got = uv.get_times(pr)
            same(np.sort(got), np.sort(uv.time_array[want]), "get_times")
            return "lookup"
        n = uv.get_nsamples(pr, squeeze="none")
        require(n.shape[0] == len(want), f"get_nsamples{pr} has {n.shape[0]} records, not {len(want)}")
        same(np.sort(uv.get_times(pr)), np.sort(uv.time_array[want]), "get_times")
        return "lookup"

    def op_copy(self, a, b, c, d):
        self.keep("an earlier copy", self.uv)
        self.uv = self.uv.copy()
        return "copy"

    def parts(self, a, b, k):
        uv = self.uv
        rng = np.random.default_rng(a)
        ax = ["blt", "blt", "freq", "pol"][b % 4]
        n = {"blt": uv.Nblts, "freq": uv.Nfreqs, "pol": uv.Npols}[ax]
        if ax == "pol" and (set(uv.polarization_array.tolist()) & set(CP)):
            return None
        if n < 2 or self.interspersed():
            return None
        lab = rng.integers(0, k, n)
        if len(set(lab.tolist())) < 2:
            return None
        out = []
        for j in sorted(set(lab.tolist()), key=lambda x: (x * 7 + a) % 5):
            i = np.nonzero(lab == j)[0]
            kw = {"blt": "blt_inds", "freq": "freq_chans", "pol": "polarizations"}[ax]
            out.append(uv.select(inplace=False, **{kw: uv.polarization_array[i] if ax == "pol" else i}))
        return ax, out

    def op_split(self, a, b, c, d):
        r = self.parts(a, b, 2 + b % 2)
        if r is None:
            return None
        ax, ps = r
        self.keep("the object that was split", self.uv)
        acc = ps[0]
        for p in ps[1:]:
            self.keep("a part", p)
            if c:
                acc += p
            else:
                acc = acc + p
        self.uv = acc
        return f"split and add {ax}"

    def op_concat(self, a, b, c, d):
        r = self.parts(a, b, 2)
        if r is None or r[0] == "freq":  # interspersed windows are refused
            return None
        ax, ps = r
        self.uv = ps[0].fast_concat(ps[1:], axis="polarization" if ax == "pol" else ax)
        for p in ps[1:]:
            self.keep("a part", p)
        return f"split and concatenate {ax}"

    def op_rename(self, a, b, c, d):
        ids = sorted(self.uv.phase_center_catalog)
        self.uv.rename_phase_center(ids[a % len(ids)], self.new_name())
        return "rename_phase_center"

    def op_splitpc(self, a, b, c, d):
        uv = self.uv
        ids = sorted(uv.phase_center_catalog)
        i = ids[a % len(ids)]
        mine = np.nonzero(uv.phase_center_id_array == i)[0]
        if len(mine) < 2:
            return None
        sel = np.zeros(uv.Nblts, bool)
        sel[mine[: 1 + b % (len(mine) - 1)]] = True
        uv.split_phase_center(i, new_name=self.new_name(), select_mask=sel)
        return "split_phase_center"

    def op_mergepc(self, a, b, c, d):
        uv = self.uv
        ids = sorted(uv.phase_center_catalog)
        i = ids[a % len(ids)]
        raw = {j: {k: v for k, v in uv.phase_center_catalog[j].items() if k not in ("cat_name", "info_source")}
               for j in ids}
        eq = [j for j in ids if not value_diff(raw[i], raw[j])]
        if len(eq) < 2:
            return None
        uv.merge_phase_centers(eq, ignore_name=True)
        return "merge_phase_centers"

    def op_cleanpc(self, a, b, c, d):
        self.uv._clear_unused_phase_centers()
        return "clear unused"

    def op_flex(self, a, b, c, d):
        uv, m = self.uv, self.m
        if uv.Npols < 2 or set(m.pol.tolist()) & set(CP) or self.interspersed():
            return None
        win = {float(f): int(w) for f, w in zip(m.freq, m.win)}
        uv.convert_to_flex_pol()
        uv.check()
        if c:
            uv = uv.copy()
        uv.remove_flex_pol()
        self.uv = uv
        # windows may be renumbered, but not merged
        g = K(uv)
        if len(g.freq) == len(m.freq):
            pairs = {(win[float(f)], int(w)) for f, w in zip(g.freq, g.win) if float(f) in win}
            require(len(pairs) == len({p[0] for p in pairs}) == len({p[1] for p in pairs}),
                    f"flexible-polarization round trip: windows became {sorted(pairs)}")
            m.win = g.win
        return "flexible polarization round trip"

    def op_avg(self, a, b, c, d):
        uv, m = self.uv, self.m
        n = 2 + a % 2
        s = snap(uv)
        if self.interspersed():
            return None
        groups = []
        for w in s["spw_array"].tolist():
            ix = np.nonzero(s["flex_spw_id_array"] == w)[0]
            groups += [ix[i:i + n] for i in range(0, len(ix), n)]
        if b % 3 or len(groups) == len(s["freq_array"]):
            return None
        uv.frequency_average(n, respect_spws=True, keep_ragged=True)
        r = snap(uv)
        f = np.array([s["freq_array"][g].mean() for g in groups])
        wd = np.array([s["channel_width"][g].sum() for g in groups])
        fo = np.argsort(f, kind="stable")
        m.freq, m.width = f[fo], wd[fo]
        m.win = np.array([s["flex_spw_id_array"][g[0]] for g in groups])[fo]
        if m.eq is not None:
            m.eq = np.stack([s["eq_coeffs"][:, g].mean(1) for g in groups], 1)[:, fo]
        if m.base is not None:
            D, F, N = [], [], []
            for g in groups:
                fl = s["flag_array"][:, g]
                al = fl.all(axis=1)
                use = ~fl | al[:, None]
                ns = s["nsample_array"][:, g].astype(float) * use
                with np.errstate(all="ignore"):
                    x = (s["data_array"][:, g].astype(complex) * ns).sum(1) / ns.sum(1)
                D.append(x), F.append(al), N.append(ns.sum(1) / len(g))
            D, F, N = (np.stack(x, 1) for x in (D, F, N))
            # where no weight is left the value is not defined
            free = ~np.isfinite(D)
            real = r["data_array"]
            require(real.shape == D.shape, f"frequency_average: shape {real.shape}, expected {D.shape}")
            D[free] = real[free]
            keep = uv.data_array, uv.flag_array, uv.nsample_array
            uv.data_array, uv.flag_array, uv.nsample_array = D, F, N
            g = K(uv)
            m.base, m.flag, m.ns = g.base, g.flag, g.ns
            uv.data_array, uv.flag_array, uv.nsample_array = keep
        return "frequency_average"

    def op_uvh5(self, a, b, c, d):
        from pyuvdata import UVData

        uv = self.uv
        if uv.data_array is None:
            return None
        fn = os.path.join(scratch(), f"s{a}_{b}_{len(os.listdir(scratch()))}.uvh5")
        try:
            uv.write_uvh5(fn, clobber=True)
        except ValueError as e:
            if "auto-correlations" in str(e) or "auto" in str(e):
                return None
            raise
        x = UVData()
        x.read_uvh5(fn) if c else x.read(fn)
        self.uv = x
        return "UVH5 round trip"

    def op_setdata(self, a, b, c, d):
        uv, m = self.uv, self.m
        if uv.data_array is None:
            return None
        ps = uv.get_antpairs()
        pr = ps[a % len(ps)]
        mine = np.nonzero((uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1]))[0]
        allp = np.nonzero(((uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1])) |
                          ((uv.ant_1_array == pr[1]) & (uv.ant_2_array == pr[0])))[0]
        if len(mine) != len(allp) or (pr[0] == pr[1] and set(m.pol.tolist()) & set(CP)):
            return None
        rng = np.random.default_rng(b)
        shape = (len(mine), uv.Nfreqs, uv.Npols)
        new = rng.normal(size=shape) + (0 if pr[0] == pr[1] else 1j * rng.normal(size=shape))
        new = new.astype(uv.data_array.dtype)
        uv.set_data(new.copy(), pr)
        t = uv.copy()
        t.data_array[mine] = new
        m.base = K(t).base
        return "set_data"

    def op_setflags(self, a, b, c, d):
        uv, m = self.uv, self.m
        if uv.data_array is None:
            return None
        ps = uv.get_antpairs()
        pr = ps[a % len(ps)]
        q = pr
        if {(pr[0], pr[1]), (pr[1], pr[0])} <= set(ps) and pr[0] != pr[1]:
            return None
        mine = np.nonzero((uv.ant_1_array == pr[0]) & (uv.ant_2_array == pr[1]))[0]
        uv.set_flags(np.ones((len(mine), uv.Nfreqs, uv.Npols), bool), q)
        t = uv.copy()
        t.flag_array[mine] = True
        m.flag = K(t).flag
        return "set_flags"

    def op_rect(self, a, b, c, d):
        self.uv.set_rectangularity(force=c)
        return "set_rectangularity"

    def op_sum(self, a, b, c, d):
        uv = self.uv
        if uv.data_array is None:
            return None
        o = uv.copy()
        self.uv = uv.sum_vis(o) if c else uv.diff_vis(o)
        self.m.base = self.m.base * (2 if c else 0)
        return "sum" if c else "difference"


def m_order(uv):
    """Index in uv of every record of the model order."""
    lo, hi = np.minimum(uv.ant_1_array, uv.ant_2_array), np.maximum(uv.ant_1_array, uv.ant_2_array)
    return np.lexsort((hi, lo, uv.time_array))


@P.sub("sequence", strategy, 1300)
def sequence(case):
    w = World(case)
    w.verify("as built")
    done = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for o in case["ops"]:
            n = w.uv.Nblts
            r = getattr(w, "op_" + o["op"])(o["a"], o["b"], o["c"], o["d"])
            if r is None:
                continue
            done.append(r)
            w.verify(f"after {' | '.join(done)}")
            if n > 1:
                label(o["op"])
    nontrivial(len(set(done)) > 1 and len(w.m.key) > 1)
