"""Independent apparent coordinates and uvws (astropy frames and spherical trigonometry)."""
import numpy as np

from .gen_uv import LOCS, location


def is_moon(loc):
    return LOCS[loc][0] == "moon"


def altaz_to_hadec(alt, az, lat):
    """Azimuth from north through east."""
    sd = np.sin(alt) * np.sin(lat) + np.cos(alt) * np.cos(lat) * np.cos(az)
    x = np.sin(alt) * np.cos(lat) - np.cos(alt) * np.sin(lat) * np.cos(az)
    y = -np.cos(alt) * np.sin(az)
    return np.arctan2(y, x), np.arctan2(sd, np.hypot(x, y))


def hadec_to_altaz(ha, dec, lat):
    sa = np.sin(dec) * np.sin(lat) + np.cos(dec) * np.cos(lat) * np.cos(ha)
    x = np.sin(dec) * np.cos(lat) - np.cos(dec) * np.sin(lat) * np.cos(ha)
    y = -np.cos(dec) * np.sin(ha)
    return np.arctan2(sa, np.hypot(x, y)), np.arctan2(y, x)


def frame_coord(entry, lon, lat, times):
    """SkyCoord of type matching a catalog entry's frame."""
    import astropy.units as u
    from astropy.coordinates import FK4, FK5, GCRS, ICRS, Distance, SkyCoord
    from astropy.time import Time

    fr = entry.get("cat_frame")
    ep = entry.get("cat_epoch")
    kw = {}
    if fr == "icrs":
        frame = ICRS()
    elif fr == "fk5":
        frame = FK5(equinox=Time(2000.0 if ep is None else ep, format="jyear"))
    elif fr == "fk4":
        frame = FK4(equinox=Time(1950.0 if ep is None else ep, format="byear"))
    elif fr == "gcrs":
        frame = GCRS(obstime=Time(times, format="jd"))
        lon, lat = np.broadcast_to(lon, times.shape), np.broadcast_to(lat, times.shape)
    else:
        raise ValueError(fr)
    if entry.get("cat_dist") is not None:
        kw["distance"] = Distance(entry["cat_dist"] * u.pc)
    return SkyCoord(lon * u.rad, lat * u.rad, frame=frame, **kw)


def topo(coord, loc, times):
    """(alt, az) radian of a SkyCoord at unique times."""
    from astropy.coordinates import AltAz
    from astropy.time import Time

    where = location(loc)
    if is_moon(loc):
        from lunarsky import LunarTopo
        from lunarsky import SkyCoord as LSky
        from lunarsky import Time as LTime

        t = LTime(times, format="jd", location=where)
        c = LSky(coord.icrs.ra, coord.icrs.dec, frame="icrs")
        tt = c.transform_to(LunarTopo(obstime=t, location=where))
        return tt.alt.rad, tt.az.rad
    t = Time(times, format="jd", scale="utc")
    aa = coord.transform_to(AltAz(obstime=t, location=where))
    return aa.alt.rad, aa.az.rad


def app_coords(entry, loc, times, lsts):
    """Apparent (ra, dec) of a catalog entry; times is an array."""
    times, lsts = np.asarray(times, float), np.asarray(lsts, float)
    lat = np.deg2rad(LOCS[loc][1])
    ty = entry["cat_type"]
    if ty == "unprojected":
        return lsts.copy(), np.full(times.shape, lat)
    if ty == "driftscan":
        ha, dec = altaz_to_hadec(entry["cat_lat"], entry["cat_lon"], lat)
        return (lsts - ha) % (2 * np.pi), np.full(times.shape, dec)
    ut, inv = np.unique(times, return_inverse=True)
    if ty == "ephem":
        lon = np.interp(ut, entry["cat_times"], entry["cat_lon"])
        la = np.interp(ut, entry["cat_times"], entry["cat_lat"])
    else:
        lon, la = entry["cat_lon"], entry["cat_lat"]
    if entry.get("cat_pm_ra") is not None:
        yr = (ut - 2451545.0) / 365.25
        mas = np.pi / 180 / 3.6e6
        lon = lon + entry["cat_pm_ra"] * mas * yr
        la = la + entry["cat_pm_dec"] * mas * yr
    alt, az = topo(frame_coord(entry, lon, la, ut), loc, ut)
    ha, dec = altaz_to_hadec(alt, az, lat)
    ha, dec = np.broadcast_to(ha, ut.shape)[inv], np.broadcast_to(dec, ut.shape)[inv]
    return (lsts - ha) % (2 * np.pi), dec


def sep(ra1, dec1, ra2, dec2):
    a = np.stack([np.cos(dec1) * np.cos(ra1), np.cos(dec1) * np.sin(ra1), np.sin(dec1)])
    b = np.stack([np.cos(dec2) * np.cos(ra2), np.cos(dec2) * np.sin(ra2), np.sin(dec2)])
    return 2 * np.arcsin(np.clip(np.sqrt(np.sum((a - b) ** 2, axis=0)) / 2, 0, 1))


def frame_pa(entry, loc, times, lsts, ra, dec, off=np.pi / 360):
    """Minus the bearing, in the entry's frame, of the arc of apparent declination."""
    import astropy.units as u
    from astropy.coordinates import AltAz, SkyCoord
    from astropy.time import Time

    if entry.get("cat_frame") in (None, "altaz"):
        return np.zeros(len(times))
    lat = np.deg2rad(LOCS[loc][1])
    where = location(loc)
    out = []
    for t, l, r, d in zip(times, lsts, ra, dec):
        pts = []
        for s in (-1, 1):
            r1, d1 = r, d + s * off
            if abs(d1) > np.pi / 2:
                r1, d1 = r + np.pi, np.sign(d1) * np.pi - d1
            alt, az = hadec_to_altaz(l - r1, d1, lat)
            if is_moon(loc):
                from lunarsky import LunarTopo
                from lunarsky import SkyCoord as LSky
                from lunarsky import Time as LTime

                c = LSky(alt=alt * u.rad, az=az * u.rad, frame=LunarTopo(
                    obstime=LTime(t, format="jd", location=where), location=where)).icrs
                c = SkyCoord(c.ra, c.dec, frame="icrs")
            else:
                c = SkyCoord(alt=alt * u.rad, az=az * u.rad, frame=AltAz(
                    obstime=Time(t, format="jd", scale="utc"), location=where))
            fc = c.transform_to(frame_coord(entry, 0.0, 0.0, np.array(t)).frame
                                .replicate_without_data())
            pts.append((fc.spherical.lon.rad, fc.spherical.lat.rad))
        (l1, b1), (l2, b2) = pts
        y = np.sin(l2 - l1) * np.cos(b2)
        x = np.cos(b1) * np.sin(b2) - np.sin(b1) * np.cos(b2) * np.cos(l2 - l1)
        out.append(-np.arctan2(y, x))
    return np.array(out, dtype=float)


def uvw(enu_diff, lat, lst, ra, dec, pa):
    """uvw of baselines (second minus first antenna, ENU) for apparent positions."""
    e, n, up = np.asarray(enu_diff, float).T
    x = -np.sin(lat) * n + np.cos(lat) * up
    y = e
    z = np.cos(lat) * n + np.sin(lat) * up
    h = lst - ra
    u = np.sin(h) * x + np.cos(h) * y
    v = -np.sin(dec) * np.cos(h) * x + np.sin(dec) * np.sin(h) * y + np.cos(dec) * z
    w = np.cos(dec) * np.cos(h) * x - np.cos(dec) * np.sin(h) * y + np.sin(dec) * z
    return np.stack([np.cos(pa) * u - np.sin(pa) * v, np.sin(pa) * u + np.cos(pa) * v, w],
                    axis=1)
