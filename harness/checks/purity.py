"""C12 samples are processed independently, C13 nothing is modified."""

import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates import astronomical_quantities as astro
from celest.coordinates import nutation_precession_matrices as matrices
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.transforms import _gcrs_to_lvlh
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.satellite import Satellite
from celest.time import Time
from celest.units.quantity import Quantity
from harness import build, ephemeris, gens, oracles
from harness.core import Fail, check, law

# ---------------------------------------------------------------- worlds ---
# A world is a list of samples; each sample is [jd, orbit, dt_s, longitude].

sample = st.tuples(gens.jd(), gens.orbit(), st.floats(0, 90000), st.floats(-400, 400)).map(list)


@st.composite
def worlds(draw, low=1, high=6, whole=False):
    n = draw(st.integers(low, high))
    samples = draw(st.lists(sample, min_size=n, max_size=n))
    if n > 1 and draw(st.integers(0, 2)) == 0:        # one orbit at a steady step
        jd, orbit, dt, lon = samples[0]
        step = draw(st.sampled_from([1e-3, 1.0, 5.0, 60.0, 600.0, -10.0]))
        samples = [[jd + k * step / 86400, orbit, dt + k * step, lon] for k in range(n)]
    elif n > 1 and draw(st.integers(0, 2)) == 0:        # repeated times or samples
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        samples[i] = list(samples[j]) if draw(st.booleans()) else [samples[j][0]] + samples[i][1:]
    return {"samples": samples, "location": draw(gens.location()),
            "unit": draw(st.sampled_from(["km", "m", "km"])),
            "frame": draw(st.sampled_from(["GCRS", "ITRS"])),
            "angle": draw(st.sampled_from(["deg", "rad"])),
            "scalar_longitude": draw(st.booleans())}


def expand(samples):
    """Number columns of a list of samples."""
    jd = np.array([s[0] for s in samples], float)
    pos, vel = np.zeros((len(samples), 3)), np.zeros((len(samples), 3))
    for i, s in enumerate(samples):
        p, v = oracles.orbit_state(s[1], np.array([s[2]]))
        pos[i], vel[i] = p[0], v[0]
    return {"jd": jd, "pos": pos, "vel": vel, "lon": np.array([s[3] for s in samples], float)}


def take(columns, index):
    return {k: v[index] for k, v in columns.items()}


def whole(columns, unit):
    """Columns rounded so that each is a whole number in its unit."""
    scale = build.KM[unit]
    return {"jd": np.round(columns["jd"]), "pos": np.round(columns["pos"] * scale) / scale,
            "vel": np.round(columns["vel"] * 1000) / 1000, "lon": np.round(columns["lon"])}


class World:
    """celest objects of one set of columns."""

    def __init__(self, columns, case, dtypes=None):
        dtypes = dtypes or {}
        scale, unit = build.KM[case["unit"]], getattr(u, case["unit"])

        def typed(name, values):
            d = dtypes.get(name, float)
            if d is not float and len(values) and (np.min(np.round(values)) < np.iinfo(d).min or
                                                   np.max(np.round(values)) > np.iinfo(d).max):
                d = np.int64
            return np.array(np.round(values) if d is not float else values, dtype=d)
        self.arrays = {"jd": typed("jd", columns["jd"]), "lon": typed("lon", columns["lon"])}
        for i, axis in enumerate("xyz"):
            self.arrays[axis] = typed("pos", columns["pos"][:, i] * scale)
            self.arrays["v" + axis] = typed("vel", columns["vel"][:, i] * 1000.0)
        a = self.arrays
        lat, lon, h = oracles.itrs_to_geodetic(columns["pos"])
        self.arrays["lat"], self.arrays["glon"], self.arrays["h"] = (
            typed("geo", lat * build.DEG[case["angle"]]),
            typed("geo", lon * build.DEG[case["angle"]]), typed("geo", h * scale))
        self.julian = Quantity(a["jd"], u.jd2000)
        frames = {"GCRS": GCRS, "ITRS": ITRS}
        self.gcrs = GCRS(a["jd"], a["x"], a["y"], a["z"], unit)
        self.itrs = ITRS(a["jd"], a["x"], a["y"], a["z"], unit)
        self.wgs84 = WGS84(a["jd"], a["lat"], a["glon"], a["h"], getattr(u, case["angle"]), unit)
        cls = frames[case["frame"]]
        self.position = cls(a["jd"], a["x"], a["y"], a["z"], unit)
        self.velocity = cls(a["jd"], a["vx"], a["vy"], a["vz"], u.m / u.s)
        self.satellite = Satellite(self.position, self.velocity)
        self.coordinates = {name: Coordinate(getattr(self, name)) for name in ("gcrs", "itrs", "wgs84")}
        self.time = Time(a["jd"])
        self.offset = 2400000
        self.arrays["mjd"] = typed("jd", columns["jd"] - self.offset)
        self.attitude = Attitude(a["jd"], a["x"], a["y"], a["z"], u.arcsec,
                                 build.ground(case["location"]))
        self.azel = AzEl(a["jd"], a["x"], a["y"], u.arcsec, build.ground(case["location"]))
        self.lvlh = LVLH(a["jd"], a["x"], a["y"], a["z"], unit)
        self.windows, self.observations = WindowCollection(), WindowCollection()
        self.members = []
        for i, jd in enumerate(columns["jd"]):
            one = Attitude(a["jd"][i:i + 1], a["x"][i:i + 1], a["y"][i:i + 1], a["z"][i:i + 1],
                           u.deg, build.ground(case["location"]))
            self.members += [VisibleTimeWindow(float(jd), float(jd) + 0.01, one),
                             ObservationWindow(Quantity(float(jd), u.jd2000),
                                               Quantity(30.0 + i, u.s),
                                               build.ground(case["location"]), one)]
            self.windows.add_window(self.members[-2])
            self.observations.add_window(self.members[-1])
        self.location = build.ground(case["location"])
        self.longitude = (float(case["samples"][0][3]) if case["scalar_longitude"] and
                          "lon" not in dtypes else a["lon"])

    def snapshot(self):
        """Everything readable, as plain data."""
        out = {k: (v.dtype.str, v.shape, v.tobytes()) for k, v in self.arrays.items()}

        def quantity(name, q):
            d = np.asarray(q.data)
            out[name] = (d.dtype.str, d.shape, d.tobytes(), str(q.unit))
        quantity("julian", self.julian)
        quantity("time", self.time.julian)
        for name in ("gcrs", "itrs", "position", "velocity"):
            p = getattr(self, name)
            for axis in "xyz":
                quantity(name + axis, getattr(p, axis))
            quantity(name + "t", p.time)
        for axis in ("latitude", "longitude", "height", "time"):
            quantity("wgs84" + axis, getattr(self.wgs84, axis))
        for name, p in (("sp", self.satellite.position), ("sv", self.satellite.velocity)):
            for axis in "xyz":
                quantity(name + axis, getattr(p, axis))
            quantity(name + "t", p.time)
        for axis in ("latitude", "longitude", "height", "itrs_x", "itrs_y", "itrs_z", "radius"):
            quantity("location" + axis, getattr(self.location, axis))
        for p, names in (("attitude", ("roll", "pitch", "yaw")), ("azel", ("azimuth", "elevation")),
                         ("lvlh", "xyz")):
            for axis in names + ("time",) if isinstance(names, tuple) else list(names) + ["time"]:
                quantity(p + axis, getattr(getattr(self, p), axis))
        held = list(self.windows) + list(self.observations)
        order = self.members[::2] + self.members[1::2]
        out["windows"] = len(held) == len(order) and all(x is y for x, y in zip(held, order))
        for i, w in enumerate(held):
            for axis in ("rise_time", "set_time") if i < len(held) // 2 else ("start_time", "duration"):
                quantity("window%d%s" % (i, axis), getattr(w, axis))
            for axis in ("roll", "pitch", "yaw", "time"):
                quantity("window%d%s" % (i, axis), getattr(w.attitude, axis))
        out["lon"] = (str(np.asarray(self.longitude).dtype), np.asarray(self.longitude).tobytes())
        return out


# ------------------------------------------------------------ operations ---
# Each returns {name: (array with one row per sample, period or None, tolerance)}.

PERIODS = {"degree": 360.0, "radian": 2 * math.pi, "hour angle": 24.0}


def q(name, value, tol=1e-9, period=None):
    data = np.asarray(value.data)
    for unit, p in ((u.deg, 360.0), (u.rad, 2 * math.pi), (u.hourangle, 24.0)):
        if value.unit is unit or str(value.unit) == str(unit):
            period = p
    return {name: (data, period, tol)}


def merged(parts):
    out = {}
    for p in parts:
        out.update(p)
    return out


def frame_out(p, tol=1e-9):
    """A GCRS/ITRS result; tolerance relative to the vector's length."""
    columns = np.array([np.asarray(c.data, float) for c in (p.x, p.y, p.z)]).T
    norm = np.linalg.norm(columns, axis=1)[:, None] if columns.ndim == 2 else 1.0
    return {"xyz": (columns, None, tol * norm), "time": (np.asarray(p.time.data), None, 0.0)}


def wgs84_out(p):
    lat = np.asarray(p.latitude.to(u.deg))
    lon = np.asarray(p.longitude.to(u.deg))
    h = np.asarray(p.height.to(u.km))
    c = np.maximum(np.cos(np.radians(lat)), 1e-12)
    return {"latitude": (lat, None, 1e-8), "longitude": (lon, 360.0, 1e-8 / c),
            "height": (h, None, 1e-6 + 1e-12 * np.abs(h)),
            "time": (np.asarray(p.time.data), None, 0.0)}


def azel_out(p):
    az, el = np.asarray(p.azimuth.to(u.deg)), np.asarray(p.elevation.to(u.deg))
    c = np.maximum(np.cos(np.radians(el)), 1e-9)
    return {"azimuth": (az, 360.0, 1e-8 / c), "elevation": (el, None, 1e-8),
            "time": (np.asarray(p.time.data), None, 0.0)}


def attitude_out(p):
    """As a pointing direction (angles degenerate near gimbal lock)."""
    r, t, y = (np.asarray(a.to(u.rad), float) for a in (p.roll, p.pitch, p.yaw))
    return {"roll": (r, 2 * math.pi, 1e-6), "time": (np.asarray(p.time.data), None, 0.0),
            "pointing": (np.array([np.cos(r) * np.sin(t), np.sin(r) + 0 * t,
                                   np.cos(r) * np.cos(t)]).T, None, 1e-6),
            "yaw": (np.array([np.sin(y) * np.cos(r), np.cos(y) * np.cos(r)]).T, None, 1e-5)}


def _astro(name):
    def run(w):
        value = getattr(astro, name)(w.julian)
        if isinstance(value, tuple):
            return merged(q("%s[%d]" % (name, i), v) if isinstance(v, Quantity) else
                          {"%s[%d]" % (name, i): (np.asarray(v), None, 1e-9)}
                          for i, v in enumerate(value))
        if isinstance(value, Quantity):
            return q(name, value)
        return {name: (np.asarray(value), None, 1e-9)}
    return run


def _time(name, with_longitude):
    def run(w):
        method = getattr(w.time, name)
        return q(name, method(w.longitude) if with_longitude else method())
    return run


def _datetime(w):
    values = w.time.datetime()
    check(len(values) == len(w.arrays["jd"]), "%d date-times for %d dates", len(values),
          len(w.arrays["jd"]))
    base = values[0].__class__(2000, 1, 1)
    return {"datetime": (np.array([(v - base).total_seconds() for v in values]), None, 1e-3)}


OPS = {}
for _name in ("earth_rotation_angle", "nutation_angles", "nutation_components",
              "conventional_precession_angles", "mean_obliquity", "apparent_obliquity",
              "from_julian", "day_of_year", "equation_of_time", "equation_of_equinoxes",
              "sun_right_ascension"):
    OPS["astro." + _name] = _astro(_name)
for _name in ("true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle",
              "lmst", "last"):
    OPS["time." + _name] = _time(_name, True)
for _name in ("ut1", "gmst", "gast"):
    OPS["time." + _name] = _time(_name, False)
OPS["time.datetime"] = _datetime
OPS["time.julian"] = lambda w: {"julian": (np.asarray(w.time.julian.data), None, 0.0)}
OPS["precession_matrix"] = lambda w: {"matrix": (matrices.precession_matrix(w.julian), None, 1e-12)}
OPS["nutation_matrix"] = lambda w: {"matrix": (matrices.nutation_matrix(w.julian), None, 1e-12)}
OPS["gcrs>itrs"] = lambda w: frame_out(w.coordinates["gcrs"].convert_to(ITRS))
OPS["itrs>gcrs"] = lambda w: frame_out(w.coordinates["itrs"].convert_to(GCRS))
OPS["gcrs>wgs84"] = lambda w: wgs84_out(w.coordinates["gcrs"].convert_to(WGS84))
OPS["itrs>wgs84"] = lambda w: wgs84_out(w.coordinates["itrs"].convert_to(WGS84))
OPS["wgs84>itrs"] = lambda w: frame_out(w.coordinates["wgs84"].convert_to(ITRS))
OPS["wgs84>gcrs"] = lambda w: frame_out(w.coordinates["wgs84"].convert_to(GCRS))
OPS["gcrs>azel"] = lambda w: azel_out(w.coordinates["gcrs"].convert_to(AzEl, w.location))
OPS["itrs>azel"] = lambda w: azel_out(w.coordinates["itrs"].convert_to(AzEl, w.location))
OPS["wgs84>azel"] = lambda w: azel_out(w.coordinates["wgs84"].convert_to(AzEl, w.location))
OPS["satellite.position"] = lambda w: frame_out(Satellite(w.position, w.velocity).position)
OPS["satellite.velocity"] = lambda w: frame_out(Satellite(w.position, w.velocity).velocity)
OPS["satellite.altitude"] = lambda w: q("altitude", w.satellite.altitude(), 1e-5)
OPS["satellite.distance"] = lambda w: q("distance", w.satellite.distance(w.location), 1e-6)


def _look(w):
    # arccos near 0 and 180 degrees amplifies rounding: compare haversines.
    look = np.asarray(w.satellite.look_angle(w.location).to(u.rad), float)
    return {"look angle": (np.cos(look), None, 1e-12)}


OPS["satellite.look_angle"] = _look
OPS["satellite.attitude"] = lambda w: attitude_out(w.satellite.attitude(w.location))
OPS["itrs.to_numpy"] = lambda w: {"table": (w.itrs.to_numpy(u.m), None, 1e-3)}


def evaluate(name, world, n):
    out = OPS[name](world)
    for key, (array, period, tol) in out.items():
        array = np.asarray(array, float)
        check(array.ndim >= 1 and array.shape[0] == n, "%s (%s) has shape %r for %d samples",
              name, key, array.shape, n)
        out[key] = (array, period, tol)
    return out


def compare(a, b, index, what):
    """Rows of `a` equal the rows `index` of `b`."""
    check(set(a) == set(b), "%s: outputs %r and %r", what, sorted(a), sorted(b))
    for key in a:
        x, period, tol = a[key]
        y, _, _ = b[key]
        y = y[index]
        check(x.shape == y.shape, "%s: %s has shapes %r and %r", what, key, x.shape, y.shape)
        d = x - y
        if period is not None:
            d = (d + period / 2) % period - period / 2
        bad = ~(np.abs(d) <= tol) & ~((x == y) | (np.isnan(x) & np.isnan(y)))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Fail("%s: %s%r is %r, expected %r" % (what, key, i, x[i], y[i]))


# ------------------------------------------------------------------- C12 ---

GROUPS = {
    "dates": [x for x in OPS if x.startswith(("astro.", "time.", "precession", "nutation"))],
    "conversions": [x for x in OPS if ">" in x or x == "itrs.to_numpy"],
    "satellite": [x for x in OPS if x.startswith("satellite.")],
}
assert sum(map(len, GROUPS.values())) == len(OPS)


@st.composite
def series_case(draw, group):
    world = draw(worlds(1, 6))
    n = len(world["samples"])
    world["permutation"] = list(draw(st.permutations(range(n))))
    world["inner"] = [0] + list(draw(st.permutations(range(1, n - 1)))) + [n - 1] if n > 3 else []
    world["picks"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=8))
    world["split"] = draw(st.integers(0, n))
    world["op"] = draw(st.sampled_from(sorted(GROUPS[group])))
    world["extra"] = draw(st.lists(sample, min_size=0, max_size=3))
    return world


def series_law(ctx, case):
    columns = expand(case["samples"])
    n = len(case["samples"])
    op = case["op"]

    def run(index):
        index = np.asarray(index, int)
        return evaluate(op, World(take(columns, index), case), len(index))
    full = run(range(n))
    for i in range(n):
        compare(run([i]), full, [i], "%s of sample %d alone" % (op, i))
    compare(run(case["permutation"]), full, case["permutation"], "%s of a reordered series" % op)
    if case["inner"]:       # same length, first and last sample
        compare(run(case["inner"]), full, case["inner"], "%s of a series reordered inside" % op)
    compare(run(case["picks"]), full, case["picks"], "%s of a selection" % op)
    for part in (list(range(case["split"])), list(range(case["split"], n))):
        if part:
            compare(run(part), full, part, "%s of part of the series" % op)
    if case["extra"]:
        longer = expand(case["samples"] + case["extra"])
        out = evaluate(op, World(longer, case), n + len(case["extra"]))
        compare(full, {k: v for k, v in out.items()}, list(range(n)), "%s of an extended series" % op)
    ctx.nontrivial(n >= 3)
    ctx.label(op)


for _name, _count in (("dates", 900), ("conversions", 700), ("satellite", 500)):
    law("C12", "series-" + _name, series_case(_name),
        "one of %d operations on a series against each sample alone, a permutation, a selection "
        "with repeats, two parts, and an extended series; non-trivial: three or more samples"
        % len(GROUPS[_name]), quick=_count, cap=120)(series_law)


@law("C12", "long", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([7, 8, 16, 33, 100, 365, 1000, 1025, 4100, 10500]),
     "op": st.sampled_from(sorted(OPS)), "case": worlds(1, 1),
     "order": st.sampled_from(["random", "sorted", "reversed", "repeated", "track", "track"])}),
     "an operation on a long series against samples from it alone and its two halves; "
     "non-trivial: 33 samples or more", quick=250, thorough=5000, cap=120)
def long_law(ctx, case):
    random = np.random.RandomState(case["seed"])
    n, op, world = case["n"], case["op"], case["case"]
    jd = random.uniform(2433282.5, 2488069.5, n)
    if case["order"] != "random":
        jd = jd[0] + np.arange(n) * random.choice([1, 60, 3600, 86400.0]) / 86400
        if case["order"] == "reversed":
            jd = jd[::-1].copy()
        if case["order"] == "repeated":
            jd = jd[random.randint(0, max(n // 3, 1), n)]
    direction = random.normal(size=(n, 3))
    direction /= np.linalg.norm(direction, axis=1)[:, None]
    columns = {"jd": jd, "pos": direction * random.uniform(6600, 45000, (n, 1)),
               "vel": random.normal(size=(n, 3)) * 4, "lon": random.uniform(-400, 400, n)}
    if case["order"] == "track":        # a real ephemeris: one orbit at a steady step
        step = random.choice([1, 10, 60])
        columns["jd"] = jd[0] + np.arange(n) * step / 86400
        columns["pos"], columns["vel"] = oracles.orbit_state(
            world["samples"][0][1], np.arange(n) * float(step))

    def run(index):
        return evaluate(op, World(take(columns, np.asarray(index, int)), world), len(index))
    full = run(range(n))
    picks = [0, n - 1] + list(random.randint(0, n, 4))
    for i in picks:
        compare(run([i]), full, [i], "%s of sample %d of %d alone" % (op, i, n))
    half = n // 2
    compare(run(range(half, n)), full, list(range(half, n)), "%s of the second half" % op)
    ctx.nontrivial(n >= 33)


# ------------------------------------------------------------------- C13 ---

def _windows(lighting, threshold=5):
    def run(w):
        order = np.argsort(w.arrays["jd"], kind="stable")
        if len(np.unique(w.arrays["jd"])) != len(order):
            return {}
        with ephemeris.installed():
            windows = generate_vtws(w.satellite, w.location, threshold, lighting)
        rows = [[float(x.rise_time.to(u.jd2000)), float(x.set_time.to(u.jd2000))] for x in windows]
        return {"windows": (np.array(rows).reshape(-1, 2), None, 0.0)}
    return run


def _save(target):
    def run(w):
        getattr(w, target).save_text_file("purity")
        with open("purity.txt", encoding="utf-8") as f:
            text = f.read()
        os.remove("purity.txt")
        return {"text": text}
    return run


EFFECTS = dict(OPS)
EFFECTS["windows.any"] = _windows(Lighting.ANYTIME)
EFFECTS["windows.high"] = _windows(Lighting.ANYTIME, 40)
EFFECTS["windows.low"] = _windows(Lighting.ANYTIME, 0)
EFFECTS["windows.day"] = _windows(Lighting.DAYTIME)
EFFECTS["windows.night"] = _windows(Lighting.NIGHTTIME)
for _name in ("gcrs", "itrs", "wgs84", "satellite", "attitude", "azel", "lvlh", "windows",
              "observations"):
    EFFECTS["save." + _name] = _save(_name)
EFFECTS["time.offset"] = lambda w: {
    "dates": (np.asarray(Time(w.arrays["mjd"], w.offset).julian.data), None, 1e-9)}
EFFECTS["time.zero offset"] = lambda w: merged(q(
    "lmst", Time(w.arrays["jd"], 0).lmst(w.longitude)) for _ in range(1))
EFFECTS["print.objects"] = lambda w: {"text": re.sub("0x[0-9a-f]+", "0x", "".join(
    str(x) + repr(x) for x in (w.windows, w.observations, w.julian, w.gcrs.x, w.location)))}
EFFECTS["list.windows"] = lambda w: {"rises": (np.array(
    [float(x.rise_time.data) for x in w.windows] + [float(x.rise_time.data) for x in w.windows[::-1]]),
    None, 0.0)}
EFFECTS["orbital"] = lambda w: {} if not isinstance(w.position, GCRS) else merged(
    frame_out(p) for p in _gcrs_to_lvlh(w.position, w.velocity))
EFFECTS["negate"] = lambda w: {
    "negative": (np.asarray((-w.itrs.x).to(u.m)), None, 1e-6),
    "difference": (np.asarray((w.itrs.x - w.gcrs.y).to(u.m)), None, 1e-6),
    "product": (np.asarray((w.itrs.x * w.velocity.x).data, float), None, 1e-3),
    "ratio": (np.asarray((w.velocity.x / w.time.julian).data, float), None, 1e-9),
    "ordered": (np.asarray(w.itrs.x < w.itrs.y) + 0.0, None, 0.5)}
EFFECTS["print.location"] = lambda w: {"text": str(w.location) + repr(w.location)}
EFFECTS["convert.quantity"] = lambda w: {
    "metres": (np.asarray(w.itrs.x.convert_to(u.m).data), None, 0.0)}
EFFECTS["arithmetic"] = lambda w: {
    "sum": (np.asarray((w.itrs.x + w.itrs.y - w.itrs.z).to(u.m)), None, 1e-6)}


def equal(a, b, what):
    check(set(a) == set(b), "%s: outputs %r and %r", what, sorted(a), sorted(b))
    for key in a:
        if key == "text":
            check(a[key] == b[key], "%s: text differs", what)
            continue
        x, y = np.asarray(a[key][0], float), np.asarray(b[key][0], float)
        check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True),
              "%s: %s is %r, before %r", what, key, x, y)


def unchanged(before, world, what):
    after = world.snapshot()
    for key in before:
        check(before[key] == after[key], "%s changed %s", what, key)


@st.composite
def history_case(draw):
    world = draw(worlds(1, 4))
    if draw(st.booleans()):
        world["samples"].sort()
    world["ops"] = draw(st.lists(st.sampled_from(sorted(EFFECTS)), min_size=1, max_size=5))
    return world


@law("C13", "history", history_case(),
     "a sequence of operations on shared objects; each must leave every input as it was, give "
     "the same answer again, and the answer freshly built objects give; non-trivial: two or "
     "more different operations", quick=1000, cap=120)
def history_law(ctx, case):
    columns = expand(case["samples"])
    shared = World(columns, case)
    before = shared.snapshot()
    for name in case["ops"]:
        first = EFFECTS[name](shared)
        # Results are kept from changing under the caller's hands by later calls.
        kept = {k: v if k == "text" else (np.array(v[0], float), v[1], v[2])
                for k, v in first.items()}
        unchanged(before, shared, name)
        equal(EFFECTS[name](shared), kept, "%s repeated" % name)
        unchanged(before, shared, name + " repeated")
        equal(first, kept, "the result of %s after repeating it" % name)
        equal(EFFECTS[name](World(columns, case)), kept, "%s on fresh objects" % name)
    ctx.nontrivial(len(set(case["ops"])) >= 2)
    for name in case["ops"]:
        ctx.label(name.split(".")[0] if "." in name else "conversion")


# Products of integers overflow as numpy's do; text shows the type.
INT_OPS = sorted(x for x in EFFECTS if not x.startswith(("save.", "print.obj", "negate")))


@st.composite
def integer_case(draw):
    world = draw(worlds(1, 5))
    names = ["jd", "pos", "vel", "geo", "lon"]
    world["ints"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=5, unique=True))
    world["dtype"] = draw(st.sampled_from(["i8", "i4", "u4", "u8", "i2", "u2"]))
    world["op"] = draw(st.sampled_from(INT_OPS))
    if world["op"] == "arithmetic" and world["dtype"] not in ("i8", "i4"):
        world["dtype"] = "i8"       # unsigned results below zero: C03 `narrow`
    world["scalar_longitude"] = False
    world["angle"] = "deg"
    return world


def tolerant(a, b, what):
    """Same results up to rounding."""
    check(set(a) == set(b), "%s: outputs %r and %r", what, sorted(a), sorted(b))
    for key in a:
        if key == "text":
            check(a[key] == b[key], "%s: text differs", what)
            continue
        x, y = np.asarray(a[key][0], float), np.asarray(b[key][0], float)
        check(x.shape == y.shape, "%s: %s has shapes %r and %r", what, key, x.shape, y.shape)
        d, period = x - y, a[key][1]
        if period is not None:
            d = (d + period / 2) % period - period / 2
        bad = ~(np.abs(d) <= np.asarray(a[key][2]) + 1e-12 * np.abs(y)) & ~np.isnan(y)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Fail("%s: %s%r is %r, with floats %r" % (what, key, i, x[i], y[i]))


@law("C13", "integers", integer_case(),
     "an operation on whole-number data given as integers and as floats; non-trivial: every "
     "case", quick=1300, cap=120)
def integer_law(ctx, case):
    columns = whole(expand(case["samples"]), case["unit"])
    dtype = np.dtype(case["dtype"]).type
    wgs = "geo" in case["ints"]
    dtypes = {name: dtype for name in case["ints"]}
    if wgs:      # whole geographic coordinates in both worlds
        floats = World(columns, case, {"geo": np.int64, "lon": float})
        for name in ("lat", "glon", "h"):
            floats.arrays[name] = floats.arrays[name].astype(float)
        a = floats.arrays
        floats.wgs84 = WGS84(a["jd"], a["lat"], a["glon"], a["h"], u.deg, getattr(u, case["unit"]))
        floats.coordinates["wgs84"] = Coordinate(floats.wgs84)
        floats.longitude = a["lon"]
    else:
        floats = World(columns, case, {"lon": float})
    integers = World(columns, case, dtypes)
    before = integers.snapshot()
    out = EFFECTS[case["op"]](integers)
    unchanged(before, integers, case["op"])
    tolerant(out, EFFECTS[case["op"]](floats), "%s of integer %s" % (case["op"], case["ints"]))
    ctx.nontrivial()
    ctx.label(case["dtype"])


# Results must not be views of the caller's arrays that later calls change.

SHARED = sorted(x for x in EFFECTS if x in OPS and "astro." not in x and "matrix" not in x or
                x.startswith("windows."))


@st.composite
def elsewhere(draw):
    """A world, another location and longitude (often differing in one respect), operations."""
    world = draw(worlds(1, 3))
    other = list(world["location"])
    changed = draw(st.sampled_from(["all", "all", "latitude", "longitude", "height", "sign"]))
    fresh = draw(gens.location())
    if changed == "sign":
        other = [-other[0], -other[1], other[2]]
    for i, name in enumerate(["latitude", "longitude", "height"]):
        if changed in ("all", name):
            other[i] = fresh[i]
    shift = draw(st.one_of(st.just(0.0), st.floats(-400, 400)))
    located = [x for x in SHARED if x.startswith(("satellite.", "windows.")) or x.endswith("azel")
               or x in ("time.lmst", "time.last", "time.mean_solar_time", "time.true_solar_time")]
    ops = draw(st.lists(st.sampled_from(draw(st.sampled_from([SHARED, located, located]))),
                        min_size=2, max_size=5))
    return {"world": world, "other": other, "shift": shift, "ops": ops}


@law("C13", "locations", elsewhere(),
     "queries of the same satellite, positions and times for two locations and longitudes in "
     "alternation against fresh objects; non-trivial: locations or longitudes differ", quick=500)
def locations_law(ctx, case):
    columns = expand(case["world"]["samples"])
    moved = dict(columns, lon=columns["lon"] + case["shift"])
    world, other = case["world"], dict(case["world"], location=case["other"])
    here, there = World(columns, world), World(moved, other)
    if world["scalar_longitude"]:
        there.longitude = here.longitude + case["shift"]
    for name in ("satellite", "position", "velocity", "coordinates", "time"):
        setattr(there, name, getattr(here, name))
    for name in case["ops"]:
        a, b = EFFECTS[name](here), EFFECTS[name](there)
        equal(EFFECTS[name](World(columns, world)), a, "%s at the first location" % name)
        fresh = World(moved, other)
        fresh.longitude = there.longitude
        equal(EFFECTS[name](fresh), b, "%s at the second location" % name)
    ctx.nontrivial(world["location"] != case["other"] or case["shift"] != 0)


@law("C13", "radians", st.fixed_dictionaries({
    "rows": st.lists(st.tuples(gens.jd(), st.integers(-1, 1), st.integers(-3, 3),
                               st.integers(0, 30000)).map(list), min_size=1, max_size=4),
    "dtype": st.sampled_from(["i2", "i2", "i4", "i8", "i1"])}),
     "geographic positions in whole radians and kilometres given as integers and as floats; "
     "non-trivial: a position off the equator and the prime meridian", quick=300)
def radians_law(ctx, case):
    jd, lat, lon, h = (np.array(c) for c in zip(*case["rows"]))
    if case["dtype"] == "i1":
        h = h % 100
    results = []
    for dtype in (case["dtype"], "f8"):
        p = Coordinate(WGS84(jd, lat.astype(dtype), lon.astype(dtype), h.astype(dtype), u.rad, u.km))
        results.append(np.concatenate([
            p.convert_to(ITRS).to_numpy(u.km), p.convert_to(GCRS).to_numpy(u.km)], axis=1))
    check(np.allclose(results[0], results[1], rtol=1e-12, atol=1e-7),
          "as %s the positions are %r, as floats %r", case["dtype"], results[0], results[1])
    ctx.nontrivial(bool(np.any((lat != 0) & (lon != 0))))
    ctx.label(case["dtype"])
