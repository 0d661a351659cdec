"""Reference models that share no code with celest."""

import math

import erfa
import numpy as np

MU = 398600.4418
A, F = 6378.137, 1 / 298.257223563


def geodetic_to_itrs(lat_deg, lon_deg, h_km):
    xyz = erfa.gd2gc(1, np.radians(np.asarray(lon_deg, float)),
                     np.radians(np.asarray(lat_deg, float)),
                     np.asarray(h_km, float) * 1000.0)
    return xyz / 1000.0


def itrs_to_geodetic(xyz_km):
    lon, lat, h = erfa.gc2gd(1, np.asarray(xyz_km, float) * 1000.0)
    return np.degrees(lat), np.degrees(lon), h / 1000.0


def gcrs_to_itrs_matrix(jd):
    """IAU 2006/2000A, UT1 = TT, no polar motion. jd: (n,) -> (n, 3, 3)."""
    jd = np.asarray(jd, float)
    zero = np.zeros_like(jd)
    return erfa.c2t06a(jd, zero, jd, zero, zero, zero)


def enu_matrix(lat_deg, lon_deg):
    """Rows are the east, north and up directions in the Earth-fixed frame."""
    p, l = math.radians(lat_deg), math.radians(lon_deg)
    return np.array([
        [-math.sin(l), math.cos(l), 0.0],
        [-math.sin(p) * math.cos(l), -math.sin(p) * math.sin(l), math.cos(p)],
        [math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)]])


def vector_angle_deg(a, b):
    """Angle between row vectors, accurate at every angle."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    cross = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.degrees(np.arctan2(cross, np.sum(a * b, axis=-1)))


def orbit_state(orbit, dt_s):
    """Kepler propagation: inertial position (km) and velocity (km/s) rows."""
    p, e, i, node, arg, nu0 = orbit
    i, node, arg, nu0 = map(math.radians, (i, node, arg, nu0))
    a = p / (1 - e * e)
    n = math.sqrt(MU / a ** 3)
    e0 = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu0 / 2),
                        math.sqrt(1 + e) * math.cos(nu0 / 2))
    m = (e0 - e * math.sin(e0)) + n * np.asarray(dt_s, float)
    ea = m.copy() if isinstance(m, np.ndarray) else np.array(m)
    for _ in range(60):
        ea = ea - (ea - e * np.sin(ea) - m) / (1 - e * np.cos(ea))
    x, y = a * (np.cos(ea) - e), a * math.sqrt(1 - e * e) * np.sin(ea)
    r = a * (1 - e * np.cos(ea))
    vx = -math.sqrt(MU * a) / r * np.sin(ea)
    vy = math.sqrt(MU * a) / r * math.sqrt(1 - e * e) * np.cos(ea)
    ci, si, co, so, ca, sa = (math.cos(i), math.sin(i), math.cos(node), math.sin(node),
                              math.cos(arg), math.sin(arg))
    rot = np.array([[co * ca - so * sa * ci, -co * sa - so * ca * ci],
                    [so * ca + co * sa * ci, -so * sa + co * ca * ci],
                    [sa * si, ca * si]])
    return (rot @ np.array([x, y])).T, (rot @ np.array([vx, vy])).T


def day_number(y, m, d, gregorian):
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    base = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    return base - yy // 100 + yy // 400 - 32045 if gregorian else base - 32083


def calendar(jdn):
    """Civil date of the day whose noon has Julian day number `jdn`."""
    if jdn >= 2299161:
        a = jdn + 32044
        b = (4 * a + 3) // 146097
        c = a - 146097 * b // 4
    else:
        b, c = 0, jdn + 32082
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return 100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1


def sun_itrs_gcrs(jd):
    """Geocentric inertial position of the Sun in km (n, 3)."""
    jd = np.asarray(jd, float)
    pvh, _ = erfa.epv00(jd, np.zeros_like(jd))
    return -pvh["p"] * 149597870.7
