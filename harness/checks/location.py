"""C04 ground locations, C05 their printed form."""

import math
import re

import erfa
import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.ground_location import GroundLocation
from harness import gens, oracles
from harness.build import same_unit
from harness.core import check, close, law, raises

ANGLE = {"deg": 1.0, "rad": 180 / math.pi, "arcsec": 1 / 3600, "arcmin": 1 / 60,
         "hourangle": 15.0}
LENGTH = {"m": 1e-3, "km": 1.0, "cm": 1e-5, "mm": 1e-6, "inch": 2.54e-5, "mi": 1.609344}

angle_units = st.one_of(st.just("deg"), st.sampled_from(sorted(ANGLE)))
length_units = st.one_of(st.just("km"), st.sampled_from(sorted(LENGTH)))
kinds = st.sampled_from(["float"] * 6 + ["np", "np", "int", "int", "i1", "i2", "i4", "f4", "0d"])

height = st.one_of(gens.height_km(), st.floats(-6000, 6000), st.floats(-500, 500),
                   st.sampled_from([0.0, -0.004, 1.005, 123.456]))


@st.composite
def spec(draw, lat=gens.latitude(), lon=gens.longitude()):
    """A location: coordinates in the stated units, given as the stated type."""
    angle, length, kind = draw(angle_units), draw(length_units), draw(kinds)
    a, b = draw(lat) / ANGLE[angle], draw(lon) / ANGLE[angle]
    # The conversion to the unit must not push an extreme out of range.
    if angle != "deg":
        a, b = a * (1 - 1e-15), b * (1 - 1e-15)
    h = draw(height) / LENGTH[length]
    a, b, h = (held(x, kind) for x in (a, b, h))
    return {"lat": a, "lon": b, "height": h, "angle": angle, "length": length, "kind": kind}


def held(x, kind):
    """The number nearest to x (not beyond it) that the kind can hold."""
    if kind in ("i1", "i2", "i4"):
        limits = np.iinfo(kind)
        return float(int(min(max(x, limits.min), limits.max)))
    if kind == "f4":
        return float(np.nextafter(np.float32(x), np.float32(0)) if np.float32(x) != x else x)
    return float(int(x)) if kind == "int" else x


def number(x, kind):
    if kind in ("i1", "i2", "i4", "f4"):
        return np.dtype(kind).type(x)
    if kind == "0d":
        return np.array(float(x))
    return int(x) if kind == "int" else np.float64(x) if kind == "np" else float(x)


def build(s):
    return GroundLocation(number(s["lat"], s["kind"]), number(s["lon"], s["kind"]),
                          number(s["height"], s["kind"]), getattr(u, s["angle"]),
                          getattr(u, s["length"]))


def degrees(s):
    return s["lat"] * ANGLE[s["angle"]], s["lon"] * ANGLE[s["angle"]]


def check_point(location, s):
    lat, lon = degrees(s)
    h = s["height"] * LENGTH[s["length"]]
    point = oracles.geodetic_to_itrs(lat, lon, h)
    got = [float(q.to(u.km)) for q in (location.itrs_x, location.itrs_y, location.itrs_z)]
    close(got, point, 1e-7, "Earth-fixed x, y, z", s)
    metres = [float(q.to(u.m)) for q in (location.itrs_x, location.itrs_y, location.itrs_z)]
    close(metres, 1000 * point, 1e-4, "Earth-fixed x, y, z in metres", s)
    surface = float(np.linalg.norm(oracles.geodetic_to_itrs(lat, 0.0, 0.0)))
    close([float(location.radius.to(u.km))], [surface + h], 1e-7, "radius", s)
    for name, given, unit in (("latitude", s["lat"], s["angle"]),
                              ("longitude", s["lon"], s["angle"]),
                              ("height", s["height"], s["length"])):
        q = getattr(location, name)
        check(float(q.data) == given and same_unit(q.unit, getattr(u, unit)),
              "%s reads back %r %s, given %r %s", name, q.data, q.unit, given, unit)


@law("C04", "point", st.lists(spec(), min_size=1, max_size=3).map(lambda x: {"locations": x}),
     "one to three locations built first and then read, twice; non-trivial: some location is "
     "not at latitude and longitude 0", quick=2500)
def point_law(ctx, case):
    locations = [build(s) for s in case["locations"]]
    for _ in range(2):
        for location, s in zip(locations, case["locations"]):
            check_point(location, s)
    ctx.nontrivial(any(s["lat"] or s["lon"] for s in case["locations"]))
    for s in case["locations"]:
        lat, lon = degrees(s)
        ctx.label("pole", abs(lat) > 89.99)
        ctx.label("southern", lat < 0)
        ctx.label("western", lon < 0)
        ctx.label("not degrees", s["angle"] != "deg")
        ctx.label("not kilometres", s["length"] != "km")


@st.composite
def any_angles(draw):
    wide = st.one_of(st.floats(-400, 400), gens.angle(90.0), gens.angle(180.0),
                     st.floats(89.9, 90.1), st.floats(-90.1, -89.9),
                     st.floats(179.9, 180.1), st.floats(-180.1, -179.9),
                     st.sampled_from([90.0, -90.0, 180.0, -180.0, 360.0, 270.0,
                                      math.nextafter(90, 91), math.nextafter(-90, -91),
                                      math.nextafter(180, 181), math.nextafter(-180, -181)]),
                     st.integers(-400, 400).map(float))
    return {"lat": draw(wide), "lon": draw(st.one_of(wide, gens.longitude())),
            "angle": draw(angle_units), "kind": draw(kinds)}


@law("C04", "range", any_angles(),
     "latitudes and longitudes in and out of range in every angular unit; non-trivial: one of "
     "them within 1 degree of or beyond a limit", quick=2500)
def range_law(ctx, case):
    scale = ANGLE[case["angle"]]
    lat, lon = case["lat"] / scale, case["lon"] / scale
    lat, lon = held(lat, case["kind"]), held(lon, case["kind"])
    exact = case["angle"] == "deg"
    margin = 0.0 if exact else 1e-9
    a, b = abs(lat * scale) - 90, abs(lon * scale) - 180
    if not exact and (abs(a) < margin or abs(b) < margin):
        return
    def make():
        return GroundLocation(number(lat, case["kind"]), number(lon, case["kind"]),
                              0.1, getattr(u, case["angle"]), u.km)
    if a <= 0 and b <= 0:
        location = make()
        check(float(location.latitude.data) == lat and float(location.longitude.data) == lon,
              "location reads back %r, %r", location.latitude, location.longitude)
        ctx.label("accepted")
    else:
        raises(ValueError, make, "latitude %r, longitude %r %s" % (lat, lon, case["angle"]))
        ctx.label("rejected")
    ctx.nontrivial(a > -1 or b > -1)


# ------------------------------------------------------------------ C05 ---

FORM = re.compile(
    "^(\\d{2,3})\u00b0(\\d{2})\u2032(\\d{2}\\.\\d{2})\u2033([NS]) "
    "(\\d{2,3})\u00b0(\\d{2})\u2032(\\d{2}\\.\\d{2})\u2033([EW]) "
    "(-?\\d+\\.\\d{2})([A-Za-z]+)$")


@st.composite
def carry_angle(draw, bound):
    """Angles at and around whole minutes, seconds and hundredths."""
    d = draw(st.integers(0, bound))
    m = draw(st.sampled_from([0, 0, 1, 9, 10, 29, 30, 58, 59, 59]))
    s = draw(st.one_of(st.sampled_from([0, 0, 1, 9, 10, 30, 59, 59.99, 59.994, 59.995, 59.996,
                                        59.999, 0.004, 0.005, 0.006, 9.995]),
                       st.floats(0, 59.9999)))
    x = d + m / 60 + s / 3600
    x += draw(st.sampled_from([0.0, 0.0, 1e-9, -1e-9, 1e-7, -1e-7, 1e-13]))
    return min(max(x, 0.0), float(bound)) * draw(st.sampled_from([1, -1]))


printed_spec = spec(st.one_of(gens.latitude(), carry_angle(90)),
                    st.one_of(gens.longitude(), carry_angle(180)))


def check_printed(location, s):
    text = str(location)
    match = FORM.match(text)
    check(match, "%r is not a well-formed printed location (%r)", text, s)
    g = match.groups()
    for what, (d, m, sec, letter), true, bound, letters in (
            ("latitude", g[:4], degrees(s)[0], 90, "NS"),
            ("longitude", g[4:8], degrees(s)[1], 180, "EW")):
        check(int(m) < 60 and float(sec) < 60, "%s in %r has 60 minutes or seconds", what, text)
        check(len(d) == 2 or int(d) >= 100, "degrees %r in %r", d, text)
        value = int(d) + int(m) / 60 + float(sec) / 3600
        check(value <= bound, "%s in %r is out of range", what, text)
        check(abs(value - abs(true)) <= (0.005 + 1e-6) / 3600,
              "%s in %r is %r, expected %r", what, text, value, abs(true))
        if true != 0:
            check(letter == letters[0 if true > 0 else 1] or abs(true) < 0.005 / 3600,
                  "%s %r prints as %r", what, true, text)
        else:
            check(letter in letters, "%s 0 prints as %r", what, text)
    check(g[9] == str(getattr(u, s["length"])), "height unit in %r, expected %s", text, s["length"])
    check(abs(float(g[8]) - s["height"]) <= 0.005 + 1e-9 * abs(s["height"]),
          "height in %r, expected %r", text, s["height"])


@law("C05", "printed", st.lists(printed_spec, min_size=1, max_size=2).map(lambda x: {"locations": x}),
     "locations in every unit, angles around carries; non-trivial: an angle within 0.01 arc "
     "seconds of a whole arc minute, or a southern or western location", quick=4000)
def printed_law(ctx, case):
    locations = [build(s) for s in case["locations"]]
    texts = [str(x) for x in locations]
    for location, s, text in zip(locations, case["locations"], texts):
        check_printed(location, s)
        check(str(location) == text, "printing twice gives %r and %r", text, str(location))
        check_point_unchanged(location, s)
        for x in degrees(s):
            minute = abs(x) * 60 % 1
            carry = min(minute, 1 - minute) * 60 < 0.01
            ctx.label("carry", carry)
            ctx.nontrivial(carry or x < 0)
        ctx.label("not degrees", s["angle"] != "deg")


def check_point_unchanged(location, s):
    check(float(location.latitude.data) == s["lat"] and float(location.longitude.data) == s["lon"]
          and float(location.height.data) == s["height"], "printing changed the location %r", s)


NUMBER = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?)"
REPR = re.compile(r"^GroundLocation\((%s), (%s), (%s), (.*)\)$" % ((NUMBER,) * 3))


@law("C05", "repr", printed_spec.map(lambda s: {"location": s}),
     "the location's repr decodes to the exact coordinates; non-trivial: every case not at 0",
     quick=1000)
def repr_law(ctx, case):
    s = case["location"]
    text = repr(build(s))
    match = REPR.match(text)
    check(match, "%r is not a well-formed repr", text)
    values = [float(match.group(i)) for i in (1, 2, 3)]
    given = [s["lat"], s["lon"], s["height"]]
    if s["kind"] == "f4":           # written with the digits a single-precision number has
        values, given = [[np.float32(x) for x in row] for row in (values, given)]
    check(values == given, "%r decodes to %r, expected %r", text, values, s)
    ctx.nontrivial(s["lat"] != 0 or s["lon"] != 0)


# Internal consistency with the ellipsoid radius of curvature.

@law("C04", "curvature", st.fixed_dictionaries(
    {"lat": gens.latitude(), "angle": angle_units}),
     "a latitude in any angular unit; the prime-vertical radius of curvature puts the surface "
     "point at the right distance from the axis; non-trivial: latitude not 0", quick=800)
def curvature_law(ctx, case):
    from celest.coordinates.astronomical_quantities import radius_of_curvature_in_prime_vertical
    from celest.units.quantity import Quantity
    lat = case["lat"] / ANGLE[case["angle"]]
    q = radius_of_curvature_in_prime_vertical(Quantity(lat, getattr(u, case["angle"])))
    point = erfa.gd2gc(1, 0.0, math.radians(case["lat"]), 0.0) / 1000
    if abs(case["lat"]) < 89.9:
        close([float(q.to(u.km))], [point[0] / math.cos(math.radians(case["lat"]))], 1e-6,
              "radius of curvature", case)
    ctx.nontrivial(case["lat"] != 0)
