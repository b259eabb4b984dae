"""Small builders used by the demonstrations."""
import numpy as np


def telescope(nants=5, numbers=None, pos=None):
    from astropy.coordinates import EarthLocation
    from pyuvdata import Telescope

    rng = np.random.default_rng(3)
    if pos is None:
        pos = rng.uniform(-80, 80, (nants, 3)) * [1, 1, 0.05]
    numbers = np.arange(nants) if numbers is None else np.asarray(numbers)
    from pyuvdata import utils

    loc = EarthLocation.from_geodetic(21.4, -30.7, 1050.0)
    ecef = utils.ECEF_from_ENU(pos, center_loc=loc) - np.array(
        [loc.x.value, loc.y.value, loc.z.value])
    kw = dict(name="demo", location=loc, antenna_positions=ecef, antenna_numbers=numbers,
              antenna_names=[f"ant{n}" for n in numbers], instrument="demo")
    try:
        return Telescope.new(x_orientation="east", **kw)
    except TypeError:
        return Telescope.new(**kw)


def uvdata(nants=4, ntimes=3, nfreqs=6, pols=(-5, -6, -7, -8), numbers=None, seed=0, pos=None,
           autos=True, pairs=None, spws=None, dt=10.0, time_fast=False, int_time=None):
    from pyuvdata import UVData

    tel = telescope(nants, numbers, pos)
    nums = tel.antenna_numbers
    if pairs is None:
        pairs = [(a, b) for i, a in enumerate(nums) for b in nums[i if autos else i + 1:]]
    times = 2459000.2 + np.arange(ntimes) * dt / 86400.0
    rec = ([(t, p) for p in pairs for t in times] if time_fast
           else [(t, p) for t in times for p in pairs])
    kw = {}
    if spws is not None:
        kw["flex_spw_id_array"] = np.asarray(spws)
    uv = UVData.new(
        freq_array=1e8 + 1e5 * np.arange(nfreqs), polarization_array=list(pols),
        telescope=tel, times=np.array([r[0] for r in rec]),
        antpairs=np.array([r[1] for r in rec]), do_blt_outer=False,
        integration_time=np.full(len(rec), dt if int_time is None else int_time),
        channel_width=1e5, empty=True, **kw)
    rng = np.random.default_rng(seed)
    sh = uv.data_array.shape
    uv.data_array = rng.normal(size=sh) + 1j * rng.normal(size=sh)
    uv.flag_array = rng.random(sh) < 0.2
    uv.nsample_array = rng.integers(1, 9, sh) / 8.0
    return uv
