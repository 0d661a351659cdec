"""Builds celest objects from plain cases."""

import numpy as np

from celest import units as u
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.units.core import Unit
from harness.core import Fail, as_array, check

AU = 149597870.7
KM = {"km": 1.0, "m": 1e3, "cm": 1e5, "mm": 1e6, "mi": 1 / 1.609344,       # units per km
      "Mm": 1e-3, "au": 1 / AU}
OWN = {"Mm": 1000 * u.km, "au": Unit("au", "astronomical unit", None, AU * u.km)}   # users' units
DEG = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0, "hourangle": 1 / 15}


def unit_named(name):
    return OWN.get(name) or getattr(u, name)


def same_unit(a, b):
    """Whether two unit objects are one unit: equal names, dimensions and sizes."""
    def size(unit):
        scale = unit.scale
        if not isinstance(unit, Unit):
            for base, power in zip(unit.bases, unit.powers):
                scale = scale * base.scale ** power
        return scale
    return a is b or (str(a), a.dimension, size(a)) == (str(b), b.dimension, size(b))


def ground(spec):
    """GroundLocation from [lat deg, lon deg, height km]."""
    return GroundLocation(spec[0], spec[1], spec[2], u.deg, u.km)


def frame(kind, julian, rows, unit="km", dtype=float):
    """GCRS or ITRS from rows of kilometres, stored in `unit`."""
    rows = np.array(rows, dtype=float).reshape(-1, 3) * KM[unit]
    if dtype is not float:      # whole numbers: no truncation of rounding errors
        rows = np.round(rows)
    x, y, z = (np.array(c, dtype=dtype) for c in rows.T)
    cls = {"GCRS": GCRS, "ITRS": ITRS}[kind]
    return cls(np.array(julian, dtype=float), x, y, z, unit_named(unit))


def wgs84(julian, lat_deg, lon_deg, h_km, angle="deg", length="km"):
    return WGS84(np.array(julian, dtype=float), np.array(lat_deg, float) * DEG[angle],
                 np.array(lon_deg, float) * DEG[angle], np.array(h_km, float) * KM[length],
                 getattr(u, angle), unit_named(length))


def xyz_km(position, n, what):
    """(n, 3) kilometres of a GCRS/ITRS/LVLH output."""
    return xyz(position, u.km, n, what)


def xyz(position, unit, n, what):
    columns = [as_array(q.to(unit), what + " " + name, n)
               for name, q in (("x", position.x), ("y", position.y), ("z", position.z))]
    return np.array(columns).T.reshape(-1, 3)


def same_times(position, julian, what):
    """Times must be reported in jd2000 and exactly as given."""
    try:
        got = position.time.to(u.jd2000)
    except Exception as error:
        raise Fail("%s has no Julian times: %r" % (what, error)) from None
    got = as_array(got, what + " times", len(julian))
    check(np.array_equal(got, np.asarray(julian, float)), "%s times are %r, given %r", what,
          got, julian)


def snapshot(*arrays):
    return [(a.dtype.str, a.shape, a.tobytes()) for a in arrays]
