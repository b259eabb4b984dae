"""Comparisons that do not rely on pyuvdata's own equality."""
import copy

import numpy as np

from .core import Violation


def deep(v):
    return copy.deepcopy(v)


def loc_xyz(loc):
    """ITRF/MCMF xyz of a location, without pyuvdata."""
    import astropy.units as u

    if hasattr(loc, "selenocentric"):
        return np.array([q.to_value(u.m) for q in loc.selenocentric], dtype=float)
    return np.array([q.to_value(u.m) for q in loc.geocentric], dtype=float)


def snap(obj, skip=()):
    """Deep copy of every UVParameter value, nested UVBase objects included."""
    out = {}
    for p in obj:
        name = p[1:]
        if name in skip:
            continue
        val = getattr(obj, p).value
        if hasattr(val, "check") and hasattr(val, "copy") and hasattr(val, "required"):
            for k, v in snap(val).items():
                out[name + "." + k] = v
        else:
            out[name] = copy.deepcopy(val)
    return out


def _is_loc(v):
    return hasattr(v, "geodetic") or hasattr(v, "selenodetic")


def value_diff(a, b, rtol=0.0, atol=0.0, kind=False):
    """None if equal, else a short description."""
    if a is None or b is None:
        if a is None and b is None:
            return None
        return f"{_short(a)} != {_short(b)}"
    if _is_loc(a) or _is_loc(b):
        if type(a).__name__ != type(b).__name__:
            return f"location types {type(a).__name__} != {type(b).__name__}"
        if getattr(a, "ellipsoid", None) != getattr(b, "ellipsoid", None) and hasattr(
            a, "selenodetic"
        ):
            return f"ellipsoids {a.ellipsoid} != {b.ellipsoid}"
        d = np.max(np.abs(loc_xyz(a) - loc_xyz(b)))
        return None if d <= max(atol, 1e-9) else f"locations differ by {d} m"
    if isinstance(a, dict) and isinstance(b, dict):
        return dict_diff(a, b, rtol, atol)
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{_short(a)} != {_short(b)}"
    if type(a).__name__ == "SkyCoord" and type(b).__name__ == "SkyCoord":
        sep = np.max(a.separation(b).rad)
        return None if sep <= max(atol, 1e-12) else f"sky separation {sep}"
    try:
        aa, bb = np.asarray(a), np.asarray(b)
    except Exception:
        return None if a == b else f"{_short(a)} != {_short(b)}"
    if aa.shape != bb.shape:
        return f"shape {aa.shape} != {bb.shape}"
    if kind and aa.dtype.kind != bb.dtype.kind:
        return f"dtype {aa.dtype} != {bb.dtype}"
    if aa.dtype.kind in "OUS" or bb.dtype.kind in "OUS":
        ok = all(str(x) == str(y) for x, y in zip(aa.ravel(), bb.ravel()))
        return None if ok else f"{_short(a)} != {_short(b)}"
    if aa.dtype.kind == "b" or bb.dtype.kind == "b" or (rtol == 0 and atol == 0):
        with np.errstate(invalid="ignore"):
            neq = aa != bb
            if aa.dtype.kind in "fc" and bb.dtype.kind in "fc":
                neq &= ~(np.isnan(aa) & np.isnan(bb))
        if np.any(neq):
            i = tuple(int(x) for x in np.argwhere(np.atleast_1d(neq))[0])
            av, bv = np.atleast_1d(aa)[i], np.atleast_1d(bb)[i]
            return f"{int(np.sum(neq))} of {aa.size} differ, first at {i}: {av!r} != {bv!r}"
        return None
    ok = np.isclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True)
    if np.all(ok):
        return None
    i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
    av, bv = np.atleast_1d(aa)[i], np.atleast_1d(bb)[i]
    return f"{int(np.sum(~ok))} of {aa.size} differ, first at {i}: {av!r} != {bv!r}"


def dict_diff(a, b, rtol=0.0, atol=0.0):
    if set(a) != set(b):
        return f"keys {sorted(map(str, a))} != {sorted(map(str, b))}"
    for k in a:
        d = value_diff(a[k], b[k], rtol, atol)
        if d:
            return f"[{k!r}]: {d}"
    return None


def _short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + "..."


def same(a, b, what, rtol=0.0, atol=0.0, kind=False):
    d = value_diff(a, b, rtol, atol, kind)
    if d:
        raise Violation(f"{what}: {d}")


def same_snap(s1, s2, what, tols=None, skip=(), none_ok=()):
    """Compare two snapshots. tols: name -> (rtol, atol)."""
    tols = tols or {}
    names = sorted((set(s1) | set(s2)) - set(skip))
    for n in names:
        if n not in s1 or n not in s2:
            raise Violation(f"{what}: parameter {n} present on one side only")
        if n in none_ok and (s1[n] is None or s2[n] is None):
            continue
        rt, at = tols.get(n, (0.0, 0.0))
        d = value_diff(s1[n], s2[n], rt, at)
        if d:
            raise Violation(f"{what}: {n}: {d}")
