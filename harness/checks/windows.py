"""C21-C23: visible time windows, lighting, window collections."""

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import (
    ObservationWindow,
    VisibleTimeWindow,
    WindowCollection,
)
from celest.satellite import Satellite
from celest.units.quantity import Quantity
from harness import build, ephemeris, gens, oracles
from harness.core import Fail, as_array, check, close, law, raises

STEPS = [1 / 1440, 1 / 86400, 1 / 144, 0.03, 0.11, 1.0]


@st.composite
def track(draw, steps=None, low=1, high=14, styles=("runs", "runs", "any", "all", "none")):
    """A location and a track of directions seen from it: [azimuth, elevation, range]."""
    n = draw(st.integers(low, high))
    threshold = draw(st.one_of(st.sampled_from([0, 0.0, 10, 5.0, 10.0, 30.0, 45, 60.0, 90, 89.0]),
                               st.floats(0, 90)))
    t = float(threshold)
    seen = st.one_of(st.floats(t, 90) if t < 90 else st.just(90.0), st.just(min(t + 0.001, 90.0)),
                     st.just(90.0))
    hidden = st.one_of(st.floats(-85, t), st.just(t - 0.001), st.just(-t))
    style = draw(st.sampled_from(styles))
    rows, visible = [], draw(st.booleans())
    for _ in range(n):
        if style == "all":
            visible = True
        elif style == "none":
            visible = False
        elif style == "any" or draw(st.integers(0, 2)) == 0:
            visible = draw(st.booleans())
        rows.append([draw(gens.angle(180.0)) % 360.0, draw(seen if visible else hidden),
                     draw(st.sampled_from([300.0, 800.0, 2500.0, 36000.0]))])
    start = draw(gens.jd(2451545.0, 2470000.0))
    step = draw(st.sampled_from(steps or STEPS))
    jd = [start]
    for _ in range(n - 1):
        jd.append(jd[-1] + step * draw(st.sampled_from([1.0, 1.0, 1.0, 2.5])))
    location = draw(gens.location())
    return {"location": location, "threshold": threshold, "track": rows, "jd": jd,
            "more": draw(gens.related(location, 1)), "other": draw(st.floats(0, 90)),
            "kind": draw(st.sampled_from(["ITRS", "ITRS", "GCRS"])),
            "unit": draw(st.sampled_from(["km", "m"])),
            "speed": draw(gens.unit_vector())}


def positions(case):
    """Earth-fixed rows (km) of the track."""
    enu = oracles.enu_matrix(*case["location"][:2])
    ground = oracles.geodetic_to_itrs(*case["location"])
    az, el, reach = np.array(case["track"], float).T
    local = np.stack([np.cos(np.radians(el)) * np.sin(np.radians(az)),
                      np.cos(np.radians(el)) * np.cos(np.radians(az)),
                      np.sin(np.radians(el))], axis=1) * reach[:, None]
    return ground + local @ enu


def satellite_of(case, moving=True):
    rows = positions(case)
    jd = case["jd"]
    speed = np.cross(rows, np.array(case["speed"], float) + np.array([0.01, 0.02, 0.03]))
    speed = speed / np.maximum(np.linalg.norm(speed, axis=1), 1e-9)[:, None] * 7.5
    if case["kind"] == "GCRS":
        matrices = oracles.gcrs_to_itrs_matrix(jd)
        rows = np.einsum("kji,kj->ki", matrices, rows)
        speed = np.einsum("kji,kj->ki", matrices, speed)
    position = build.frame(case["kind"], jd, rows, case["unit"])
    motion = build.frame(case["kind"], jd, speed * 1e-3, "km")
    # metres per second, as documented
    x, y, z = (q.data * 1e6 for q in (motion.x, motion.y, motion.z))
    motion = type(motion)(np.array(jd, float), x, y, z, u.m / u.s)
    return Satellite(position, motion if moving else None)


def elevations(satellite, case, location):
    """True elevations, and the code's own (used only within 1e-6 degrees of the threshold)."""
    n = len(case["jd"])
    rows = build.xyz_km(satellite.position, n, "satellite position")
    enu = oracles.enu_matrix(*case["location"][:2])
    local = (rows - oracles.geodetic_to_itrs(*case["location"])) @ enu.T
    true = np.degrees(np.arctan2(local[:, 2], np.hypot(local[:, 0], local[:, 1])))
    own = as_array(Coordinate(satellite.position).convert_to(AzEl, location).elevation.to(u.deg),
                   "elevation", n)
    return true, own


def mask(true, own, threshold):
    return np.where(np.abs(true - threshold) < 1e-6, own > threshold, true > threshold)


def runs(visible):
    """[first, last] of each run of visible samples."""
    out = []
    for i, seen in enumerate(visible):
        if seen and out and out[-1][1] == i - 1:
            out[-1][1] = i
        elif seen:
            out.append([i, i])
    return out


def judge(windows, visible, jd, what):
    expected = [(jd[max(a - 1, 0)], jd[b]) for a, b in runs(visible)]
    try:
        got = [(float(w.rise_time.to(u.jd2000)), float(w.set_time.to(u.jd2000)))
               for w in windows]
    except Exception as error:
        raise Fail("%s are not time windows: %r" % (what, error)) from None
    check(len(windows) == len(got), "%s: %d windows, length %d", what, len(got), len(windows))
    check(got == expected, "%s are %r, visible samples %r of %r give %r", what, got,
          [int(i) for i in np.flatnonzero(visible)], jd, expected)


@law("C21", "passes", track(), "a sample visible and another not, or several passes", quick=2000)
def passes(ctx, case):
    """Windows are the runs of samples above the threshold."""
    location = build.ground(case["location"])
    satellite = satellite_of(case)
    true, own = elevations(satellite, case, location)
    visible = mask(true, own, case["threshold"])
    windows = generate_vtws(satellite, location, case["threshold"])
    check(isinstance(windows, WindowCollection), "windows are a %s", type(windows).__name__)
    judge(windows, visible, case["jd"], "windows")
    for spec in case["more"]:           # the same satellite elsewhere
        there = build.ground(spec)
        away = dict(case, location=spec)
        judge(generate_vtws(satellite, there, case["threshold"]),
              mask(*elevations(satellite, away, there), case["threshold"]), case["jd"],
              "windows at another location")
    if case["more"]:
        judge(generate_vtws(satellite, location, case["other"]), mask(true, own, case["other"]),
              case["jd"], "windows at another threshold")
    judge(generate_vtws(satellite, location, case["threshold"], Lighting.ANYTIME), visible,
          case["jd"], "anytime windows")
    ctx.nontrivial(bool(visible.any()) and (not visible.all() or len(visible) == 1))
    ctx.label("several passes", len(runs(visible)) > 1)
    ctx.label("never visible", not visible.any())
    ctx.label("always visible", bool(visible.all()))
    ctx.label("visible at start", bool(visible[0]))
    ctx.label("threshold 90", case["threshold"] == 90)
    if not len(windows):
        return
    attitude = satellite.attitude(location)
    for w, (first, last) in zip(windows, runs(visible)):
        times = as_array(w.attitude.time.to(u.jd2000), "window attitude times")
        for i in range(max(first - 1, 0), last + 1):
            where = np.flatnonzero(times == case["jd"][i])
            check(where.size > 0, "window attitude has no sample at %r", case["jd"][i])
            for name in ("roll", "pitch", "yaw"):
                a = float(np.asarray(getattr(w.attitude, name).to(u.deg))[where[0]])
                b = float(np.asarray(getattr(attitude, name).to(u.deg))[i])
                check(abs(a - b) < 1e-9 or a != a and b != b,
                      "window %s at %r is %r, the satellite's is %r", name, case["jd"][i], a, b)


@law("C21", "flicker", st.fixed_dictionaries({
    "n": st.sampled_from([40, 130, 260, 700, 1500]), "seed": st.integers(0, 10 ** 6),
    "share": st.sampled_from([0.03, 0.3, 0.5, 0.7, 0.97]), "location": gens.location(),
    "threshold": st.sampled_from([0, 5, 10.5, 40.0]), "step": st.sampled_from([10.0, 60.0, 3600.0])}),
    "long tracks with many passes, down to single samples; non-trivial: 20 or more passes", quick=80)
def flicker(ctx, case):
    """Hundreds of passes in one track."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    seen = rng.random(n) < case["share"]
    up = case["threshold"] + rng.uniform(0.5, 40, n) * np.where(seen, 1, -1)
    case = dict(case, jd=(2459000.5 + np.arange(n) * case["step"] / 86400).tolist(), kind="ITRS",
                unit="km", speed=[1.0, 0.0, 0.0],
                track=np.stack([rng.uniform(0, 360, n), up, rng.uniform(500, 2000, n)], 1).tolist())
    location = build.ground(case["location"])
    satellite = satellite_of(case)
    visible = mask(*elevations(satellite, case, location), case["threshold"])
    judge(generate_vtws(satellite, location, case["threshold"]), visible, case["jd"], "windows")
    ctx.nontrivial(len(runs(visible)) >= 20)
    ctx.label("100 passes", len(runs(visible)) >= 100)


@st.composite
def tie_case(draw):
    case = draw(track(low=2, high=8))
    case["tie"] = draw(st.integers(0, len(case["track"]) - 1))
    case["nudge"] = draw(st.sampled_from([0, 0, 1, -1]))
    return case


@law("C21", "threshold", tie_case(), "threshold at, just above or just below a sample's elevation",
     quick=600)
def at_threshold(ctx, case):
    """The threshold itself is not exceeded; a hair above or below decides the sample."""
    location = build.ground(case["location"])
    satellite = satellite_of(case)
    true, own = elevations(satellite, case, location)
    threshold = float(own[case["tie"]]) + case["nudge"] * 1e-5
    if not 0 <= threshold <= 90:
        return
    visible = mask(true, own, threshold)
    judge(generate_vtws(satellite, location, threshold), visible, case["jd"], "windows")
    ctx.nontrivial()


@law("C21", "rejected", st.tuples(track(high=4), st.one_of(
    st.sampled_from([-1e-9, 90.0000001, -1, 91, 180.0, -90, 1e9, float(np.nextafter(90, 91))]),
    st.floats(-1e6, -1e-6), st.floats(90.0001, 1e6))).map(list), "always", quick=200)
def rejected(ctx, case):
    """Thresholds outside 0-90 degrees are refused."""
    case, threshold = case
    satellite, location = satellite_of(case), build.ground(case["location"])
    raises(ValueError, lambda: generate_vtws(satellite, location, threshold),
           "threshold %r" % threshold)
    for edge in (0, 90, 0.0, 90.0):
        generate_vtws(satellite, location, edge)
    ctx.nontrivial()


@st.composite
def orbit_case(draw):
    return {"orbit": draw(gens.orbit()), "location": draw(gens.location()),
            "threshold": draw(st.one_of(st.sampled_from([0, 5, 10.0, 30]), st.floats(0, 60))),
            "jd": draw(gens.jd(2451545.0, 2470000.0)), "step": draw(st.sampled_from([30, 60, 120, 300])),
            "n": draw(st.sampled_from([50, 120, 200, 200, 1500])),
            "lighting": draw(st.sampled_from(["ANYTIME", "DAYTIME", "NIGHTTIME"]))}


def orbit_satellite(case):
    dt = np.arange(case["n"]) * float(case["step"])
    jd = case["jd"] + dt / 86400.0
    r, v = oracles.orbit_state(case["orbit"], dt)
    position = build.frame("GCRS", jd, r, "km")
    x, y, z = (np.array(c) for c in (v * 1000).T)
    return Satellite(position, type(position)(jd, x, y, z, u.m / u.s)), jd, r


@st.composite
def high_case(draw):
    case = draw(orbit_case())
    n = draw(st.sampled_from([700, 1100, 2100, 3000]))
    case.update(orbit=[draw(st.floats(20000, 45000)), draw(st.floats(0, 0.1)), draw(st.floats(0, 100))]
                + [draw(st.floats(0, 360)) for _ in range(3)], n=n, spot=draw(st.integers(0, n - 1)),
                off=[draw(st.floats(-20, 20)) for _ in range(2)],
                step=draw(st.sampled_from([1, 5, 20, 60])), threshold=draw(st.floats(0, 40)),
                lighting=draw(st.sampled_from(["ANYTIME", "ANYTIME", "DAYTIME", "NIGHTTIME"])))
    return case


@law("C21", "high", high_case(), "a pass of 500 samples or more", quick=60)
def high_orbits(ctx, case):
    """Slow satellites in view of a place for hundreds or thousands of samples on end."""
    satellite, jd, inertial = orbit_satellite(case)
    i = case["spot"]
    below = oracles.gcrs_to_itrs_matrix(jd[i:i + 1])[0] @ inertial[i]
    lat, lon, _ = oracles.itrs_to_geodetic(below)
    place = [max(-85.0, min(85.0, float(lat) + case["off"][0])),
             (float(lon) + case["off"][1] + 180) % 360 - 180, 0.0]
    case = dict(case, location=place)
    location = build.ground(place)
    true, own = elevations(satellite, dict(case, jd=list(jd)), location)
    visible, sure = lit(mask(true, own, case["threshold"]), jd, place, case["lighting"])
    if not sure:
        return
    with ephemeris.installed():
        windows = generate_vtws(satellite, location, case["threshold"], Lighting[case["lighting"]])
    judge(windows, visible, list(jd), "windows")
    longest = max([b - a + 1 for a, b in runs(visible)] or [0])
    ctx.nontrivial(longest >= 500)
    ctx.label("more than 1000 samples on end", longest > 1000)


@law("C21", "orbits", orbit_case(), "at least one pass", quick=300)
def orbits(ctx, case):
    """Keplerian orbits: every pass of the track is found, with the lighting asked for."""
    satellite, jd, _ = orbit_satellite(case)
    location = build.ground(case["location"])
    true, own = elevations(satellite, dict(case, jd=list(jd)), location)
    visible = mask(true, own, case["threshold"])
    visible, sure = lit(visible, jd, case["location"], case["lighting"])
    if not sure:
        return
    with ephemeris.installed():
        windows = generate_vtws(satellite, location, case["threshold"],
                                Lighting[case["lighting"]])
    judge(windows, visible, list(jd), "windows")
    ctx.nontrivial(bool(visible.any()))
    ctx.label("passes", len(runs(visible)))


# -------------------------------------------------------------- lighting ---

def sun_elevation(jd, spec):
    jd = np.asarray(jd, float)
    sun = np.einsum("kij,kj->ki", oracles.gcrs_to_itrs_matrix(jd), oracles.sun_itrs_gcrs(jd))
    local = (sun - oracles.geodetic_to_itrs(*spec)) @ oracles.enu_matrix(*spec[:2]).T
    return np.degrees(np.arctan2(local[:, 2], np.hypot(local[:, 0], local[:, 1])))


def lit(visible, jd, spec, lighting):
    """Visible samples with the lighting; False if a sample is too near sunrise to tell."""
    if lighting == "ANYTIME":
        return visible, True
    sun = sun_elevation(jd, spec)
    sure = not (visible & (np.abs(sun) < 2e-3)).any()
    return visible & ((sun > 0) if lighting == "DAYTIME" else (sun < 0)), sure


@law("C22", "lighting", track([0.03, 0.11, 0.26, 1 / 48], 3, 16, ("runs", "all", "all")),
     "both day and night among the visible samples", quick=1500)
def lighting(ctx, case):
    """Day and night windows against the Sun's elevation; together, the anytime windows."""
    location = build.ground(case["location"])
    satellite = satellite_of(case)
    true, own = elevations(satellite, case, location)
    visible = mask(true, own, case["threshold"])
    sun = sun_elevation(case["jd"], case["location"])
    if (np.abs(sun) < 2e-3).any():
        ctx.label("sun on the horizon")
        return
    with ephemeris.installed():
        for name, wanted in (("DAYTIME", sun > 0), ("NIGHTTIME", sun < 0), ("ANYTIME", sun == sun)):
            windows = generate_vtws(satellite, location, case["threshold"], Lighting[name])
            judge(windows, visible & wanted, case["jd"], name.lower() + " windows")
    both = bool((visible & (sun > 0)).any() and (visible & (sun < 0)).any())
    ctx.nontrivial(both)
    ctx.label("polar", abs(case["location"][0]) > 66)
    ctx.label("only day", bool((sun > 0).all()))
    ctx.label("only night", bool((sun < 0).all()))


@st.composite
def dusk_case(draw):
    """A satellite always overhead while the Sun rises or sets, sampled every few seconds."""
    case = draw(track([1 / 1440], 6, 6))
    case["location"][0] = draw(st.floats(-60, 60))
    case["threshold"] = 10.0
    case["offset"] = draw(st.floats(0, 1))
    return case


@law("C22", "dusk", dusk_case(), "the Sun crosses the horizon within the series", quick=150)
def dusk(ctx, case):
    """The change happens at the sample where the Sun crosses the horizon."""
    day = case["jd"][0] + np.arange(0, 1, 1 / 240)
    sun = sun_elevation(day, case["location"])
    turns = np.flatnonzero(sun[:-1] * sun[1:] < 0)
    if not turns.size:
        return
    middle = day[turns[int(case["offset"] * (turns.size - 1))]]
    jd = middle + np.arange(-20, 140) / 17280.0     # every five seconds
    case = dict(case, jd=[float(x) for x in jd],
                track=[[10.0 + i % 300, 60.0 - i % 7, 900.0] for i in range(len(jd))])
    sun = sun_elevation(jd, case["location"])
    if (np.abs(sun) < 2e-3).any():
        return
    satellite, location = satellite_of(case), build.ground(case["location"])
    with ephemeris.installed():
        for name, wanted in (("DAYTIME", sun > 0), ("NIGHTTIME", sun < 0)):
            judge(generate_vtws(satellite, location, 10.0, Lighting[name]), wanted, case["jd"],
                  name.lower() + " windows")
    ctx.nontrivial(bool((sun > 0).any() and (sun < 0).any()))


@st.composite
def edge_case(draw):
    case = draw(dusk_case())
    case["steps"] = sorted(draw(st.lists(st.sampled_from(
        [s * x for s in (-1, 1) for x in (3.5e-4, 5e-4, 7e-4, 1e-3, 1.5e-3, 2.2e-3, 5e-3, 2e-2, 0.3)]),
        min_size=3, max_size=12, unique=True)))
    return case


@law("C22", "edge", edge_case(), "samples on both sides, within 1e-3 degrees of the horizon",
     quick=250)
def edge(ctx, case):
    """Samples a few seconds of arc from the horizon: parallax and light path count."""
    day = case["jd"][0] + np.arange(0, 1, 1 / 240)
    sun = sun_elevation(day, case["location"])
    turns = np.flatnonzero(sun[:-1] * sun[1:] < 0)
    if not turns.size:
        return
    k = turns[int(case["offset"] * (turns.size - 1))]
    low, high, rising = day[k], day[k + 1], sun[k] < 0
    for _ in range(40):
        middle = (low + high) / 2
        if (sun_elevation([middle], case["location"])[0] < 0) == rising:
            low = middle
        else:
            high = middle
    rate = (sun[k + 1] - sun[k]) / (day[k + 1] - day[k])
    if abs(rate) < 20:              # degrees a day: skimming the horizon
        return
    jd = np.sort(middle + np.array(case["steps"]) / rate)
    sun = sun_elevation(jd, case["location"])
    if (np.abs(sun) < 3e-4).any():
        return
    case = dict(case, jd=jd.tolist(), track=[[10.0 + i, 60.0 - i, 900.0] for i in range(len(jd))])
    satellite, location = satellite_of(case), build.ground(case["location"])
    with ephemeris.installed():
        for name, wanted in (("DAYTIME", sun > 0), ("NIGHTTIME", sun < 0)):
            judge(generate_vtws(satellite, location, 10.0, Lighting[name]), wanted, case["jd"],
                  name.lower() + " windows")
    ctx.nontrivial(bool((sun > 0).any() and (sun < 0).any() and (np.abs(sun) < 1e-3).any()))


# ------------------------------------------------------------ collection ---

OPERATIONS = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(["v"] * 12 + ["o", "none", "int", "list", "str",
                                               "same"])),
    st.tuples(st.just("add"), st.just("v")), st.tuples(st.just("add"), st.just("v")),
    st.tuples(st.just("get"), st.integers(-8, 8)),
    st.tuples(st.just("slice"), st.tuples(*[st.one_of(st.none(), st.integers(-6, 8))] * 2,
                                          st.sampled_from([None, 1, 2, -1, -2])).map(list)),
    st.tuples(st.just("iterate"), st.integers(0, 9)),
    st.tuples(st.just("nested"), st.integers(0, 5)),
    st.tuples(st.just("two"), st.lists(st.booleans(), max_size=12)),
).map(list)


def window(kind, k):
    location = build.ground([10.0, 20.0, 0.1])
    attitude = Attitude(np.array([2451545.0 + k]), np.array([1.0 * k]), np.array([2.0]),
                        np.array([3.0]), u.deg, location)
    start = 2451545.0 + (k * 17 % 41) // 2          # in no order, some at the same time
    if kind == "v":
        return VisibleTimeWindow(start, start + 0.5 + (k * 5 % 7), attitude)
    return ObservationWindow(Quantity(start, u.jd2000), Quantity(30.0 + k % 3, u.s), location,
                             attitude)


def label(item):
    for kind, cls in (("v", VisibleTimeWindow), ("o", ObservationWindow)):
        if isinstance(item, cls):
            return [kind, int(round(float(np.asarray(item.attitude.roll.to(u.deg))[0])))]
    raise Fail("the collection holds a %s" % type(item).__name__)


def kinds(case):
    """The history with the two kinds of window exchanged, or not."""
    swap, operations = case
    other = {"v": "o", "o": "v"}
    return [[name, other.get(x, x) if swap and name == "add" else x] for name, x in operations]


@law("C23", "history", st.tuples(st.booleans(), st.integers(1, 30).flatmap(
    lambda n: st.lists(OPERATIONS, min_size=n, max_size=n + 10))).map(kinds),
     "three or more windows and an iteration or indexing after them", quick=2500)
def history(ctx, case):
    """A window collection and a Python list side by side."""
    collection, model, last, used = WindowCollection(), [], None, False
    for k, (name, argument) in enumerate(case):
        if name == "add":
            if argument in "vo" or (argument == "same" and last is not None):
                item = last if argument == "same" else window(argument, k)
                entry = label(item)
                if model and model[0][0] != entry[0]:
                    raises(TypeError, lambda: collection.add_window(item), "a mixed window")
                else:
                    collection.add_window(item)
                    model.append(entry)
                    last = item
            else:
                item = {"none": None, "int": 3, "list": [], "str": "window", "same": object()}[argument]
                raises(TypeError, lambda: collection.add_window(item), "adding %r" % argument)
        elif name == "get":
            if -len(model) <= argument < len(model):
                check(label(collection[argument]) == model[argument], "item %d is %r, expected %r",
                      argument, label(collection[argument]), model[argument])
                used = True
            else:
                raises(IndexError, lambda: collection[argument], "index %d of %d" % (
                    argument, len(model)))
        elif name == "slice":
            s = slice(*argument)
            got = [label(x) for x in collection[s]]
            check(got == model[s], "slice %r is %r, expected %r", argument, got, model[s])
        elif name == "iterate":         # abandon after some items, then start again
            seen = []
            for item in collection:
                if len(seen) == argument:
                    break
                seen.append(label(item))
            check(seen == model[:argument], "iteration gives %r, expected %r", seen,
                  model[:argument])
            used = used or bool(model)
        elif name == "nested":
            seen = []
            for outer in collection:
                inner = []
                for item in collection:
                    if len(inner) == argument:
                        break
                    inner.append(label(item))
                seen.append([label(outer), inner])
            expected = [[x, model[:argument]] for x in model]
            check(seen == expected, "nested iteration gives %r, expected %r", seen, expected)
        elif name == "two":             # two iterators advanced in any interleaving
            iterators, seen = [iter(collection), iter(collection)], [[], []]
            for which in argument:
                try:
                    seen[which].append(label(next(iterators[which])))
                except StopIteration:
                    seen[which].append("stop")
            for which in (0, 1):
                steps = sum(1 for x in argument if x == which)
                expected = (model + ["stop"] * steps)[:steps]
                check(seen[which] == expected, "iterator %d gives %r, expected %r", which,
                      seen[which], expected)
        check(len(collection) == len(model), "length is %d, expected %d after %r", len(collection),
              len(model), case[:k + 1])
        got = [label(x) for x in collection]
        check(got == model, "windows are %r, expected %r", got, model)
    ctx.nontrivial(len(model) >= 3 and used)
    ctx.label("three windows", len(model) >= 3)


@law("C23", "large", st.tuples(st.sampled_from("vo"), st.one_of(
    st.integers(20, 150), st.sampled_from([255, 256, 257, 700]))).map(list), "always", quick=24)
def large(ctx, case):
    """Collections of many windows keep all of them, in order."""
    kind, n = case
    collection, items = WindowCollection(), [window(kind, k) for k in range(n)]
    for k, item in enumerate(items):
        collection.add_window(item)
        check(len(collection) == k + 1, "length is %d after %d windows", len(collection), k + 1)
    for got in (list(collection), [collection[k] for k in range(n)], list(collection[:]),
                [collection[k - n] for k in range(n)]):
        check([label(x) for x in got] == [[kind, k] for k in range(n)],
              "%d windows are %r", n, [label(x) for x in got][:20])
    raises(IndexError, lambda: collection[n], "index %d of %d" % (n, n))
    ctx.nontrivial()
