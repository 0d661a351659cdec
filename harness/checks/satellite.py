"""C18-C20: range, look angle, orbital frame and pointing attitude."""

import math

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.transforms import _gcrs_to_lvlh
from celest.satellite import Satellite
from harness import build, gens, oracles
from harness.core import Fail, as_array, check, close, law, raises

SPEED = {"m/s": (lambda: u.m / u.s, 1e3), "km/s": (lambda: u.km / u.s, 1.0),
         "km/hr": (lambda: u.km / u.hr, 3600.0), "Mm/s": (lambda: build.OWN["Mm"] / u.s, 1e-3),
         "au/dy": (lambda: build.OWN["au"] / u.dy, 86400 / build.AU)}
FRAMES = {"GCRS": GCRS, "ITRS": ITRS}


def velocity(kind, julian, rows, unit):
    make, factor = SPEED[unit]
    x, y, z = (np.array(c) for c in (np.array(rows, float).reshape(-1, 3) * factor).T)
    return FRAMES[kind](np.array(julian, float), x, y, z, make())


def quantity(value, unit, n, what):
    try:
        value = value.to(unit)
    except Exception as error:
        raise Fail("%s is not a quantity in %s: %r" % (what, unit, error)) from None
    return as_array(value, what, n)


@st.composite
def samples(draw, low=1, high=6):
    """{"jd", "rows"}: times and positions, near or far, sometimes right over the location."""
    location = draw(gens.location())
    n = draw(st.integers(low, high))
    jd = [draw(gens.jd()) for _ in range(n)]
    rows, modes = [], []
    ground = oracles.geodetic_to_itrs(*location)
    for _ in range(n):
        mode = draw(st.sampled_from(["any", "any", "near", "overhead", "antipodal"]))
        if mode == "any":
            row = draw(gens.position_km())
        else:
            height = draw(st.one_of(st.sampled_from([1.1, 2.0, 6.6]), st.floats(1.02, 8)))
            row = [float(x) * height for x in ground]
            if mode == "near":
                size = draw(st.sampled_from([1e-3, 1.0, 50.0, 1000.0]))
                row = [x + size * draw(st.floats(-1, 1)) for x in row]
            elif mode == "antipodal":
                row = [-x for x in row]
        rows.append(row)
        modes.append(mode)
    return {"jd": jd, "rows": rows, "modes": modes, "location": location}


@st.composite
def range_case(draw):
    case = draw(samples())
    case["unit"] = draw(st.sampled_from(sorted(build.KM)))
    case["ground"] = draw(st.sampled_from([["deg", "km"], ["rad", "m"], ["arcsec", "km"],
                                            ["deg", "mi"]]))
    case["more"] = draw(gens.related(case["location"]))
    return case


def located(case):
    angle, length = case["ground"]
    from celest.coordinates.ground_location import GroundLocation
    lat, lon, h = case["location"]
    # Scaling can push an exact +-90/180 a rounding error outside the accepted range.
    lat, lon = max(-89.9999999, min(89.9999999, lat)), max(-179.9999999, min(179.9999999, lon))
    return GroundLocation(lat * build.DEG[angle], lon * build.DEG[angle], h * build.KM[length],
                          getattr(u, angle), getattr(u, length)), oracles.geodetic_to_itrs(lat, lon, h)


@law("C18", "fixed", range_case(), "Earth-fixed samples around, over and away from a location",
     quick=1500)
def fixed(ctx, case):
    """Distance and look angle of an Earth-fixed satellite against vector geometry."""
    satellite = Satellite(build.frame("ITRS", case["jd"], case["rows"], case["unit"]))
    # The same satellite asked of several locations, and of the first one again.
    for spec in [case["location"]] + case["more"] + [case["location"]] * bool(case["more"]):
        fixed_geometry(satellite, dict(case, location=spec), spec == case["location"])
    ctx.nontrivial(len(case["jd"]) > 1 or case["modes"][0] != "any")
    for mode in set(case["modes"]):
        ctx.label(mode)
    ctx.label("several locations", bool(case["more"]))


def fixed_geometry(satellite, case, aimed):
    n = len(case["jd"])
    location, ground = located(case)
    rows = np.array(case["rows"], float)
    scale = np.linalg.norm(rows, axis=1) + 7000
    away = rows - ground
    if (np.linalg.norm(away, axis=1) < 1e-3).any():
        return                  # at the location itself there is no direction to it
    distance = quantity(satellite.distance(location), u.km, n, "distance")
    close(distance, np.linalg.norm(away, axis=1), 2e-12 * scale + 1e-8 * (case["location"][2] != 0),
          "distance")
    look = quantity(satellite.look_angle(location), u.deg, n, "look angle")
    check(bool(((look >= 0) & (look <= 180)).all()), "look angle outside [0, 180]: %r", look)
    expected = oracles.vector_angle_deg(rows, away)
    # The ground position is only good to ~1e-9 km, which close targets magnify.
    tol = 5e-6 + np.degrees(2e-8 / np.maximum(np.linalg.norm(away, axis=1), 1e-6))
    close(look, expected, tol, "look angle")
    for i, mode in enumerate(case["modes"]):
        if aimed and mode == "overhead":
            check(look[i] < 1e-5, "look angle straight overhead is %r", look[i])


@st.composite
def inertial_case(draw):
    case = draw(samples(1, 5))
    case["units"] = [draw(st.sampled_from(sorted(build.KM))) for _ in range(2)]
    return case


@law("C18", "inertial", inertial_case(), "the same satellite given inertially and Earth-fixed",
     quick=700)
def inertial(ctx, case):
    """Inertial input gives the geometry of the IAU rotation (1 arc second) and, exactly,
    that of the Earth-fixed position it converts to, in any unit."""
    n = len(case["jd"])
    location = build.ground(case["location"])
    ground = oracles.geodetic_to_itrs(*case["location"])
    fixed_rows = np.array(case["rows"], float)
    matrices = oracles.gcrs_to_itrs_matrix(case["jd"])
    rows = np.einsum("kji,kj->ki", matrices, fixed_rows)
    if (np.linalg.norm(fixed_rows - ground, axis=1) < 1e-3).any():
        return
    satellite = Satellite(build.frame("GCRS", case["jd"], rows, case["units"][0]))
    distance = quantity(satellite.distance(location), u.km, n, "distance")
    look = quantity(satellite.look_angle(location), u.deg, n, "look angle")
    size = np.linalg.norm(fixed_rows, axis=1)
    away = fixed_rows - ground
    shift = 5e-6 * size + 1e-6
    close(distance, np.linalg.norm(away, axis=1), shift, "distance of inertial satellite")
    reach = np.linalg.norm(away, axis=1)
    expected = oracles.vector_angle_deg(fixed_rows, away)
    far = reach > 100 * shift
    close(look[far], expected[far], (5e-6 + np.degrees(2 * shift / reach))[far],
          "look angle of inertial satellite")
    moved = build.xyz_km(satellite.position, n, "satellite position")
    other = Satellite(build.frame("ITRS", case["jd"], moved, case["units"][1]))
    close(quantity(other.distance(location), u.km, n, "distance"), distance, 1e-11 * size + 1e-8,
          "distance of the same satellite given Earth-fixed")
    tol = 1e-5 + np.degrees(1e-8 / np.maximum(reach - shift, 1e-4))
    close(quantity(other.look_angle(location), u.deg, n, "look angle"), look, tol,
          "look angle of the same satellite given Earth-fixed")
    ctx.nontrivial(n > 1)


# ------------------------------------------------------------------ LVLH ---

@st.composite
def state_case(draw):
    n = draw(st.integers(1, 5))
    states = []
    for _ in range(n):
        if draw(st.booleans()):
            r, v = oracles.orbit_state(draw(gens.orbit()), np.array([draw(st.floats(0, 8000))]))
            states.append([[float(x) for x in r[0]], [float(x) for x in v[0]], "orbit"])
        else:
            r, direction = draw(gens.position_km()), draw(gens.unit_vector())
            cross = np.linalg.norm(np.cross(r, direction)) / np.linalg.norm(r)
            if cross < 1e-2:        # radial motion has no orbital plane
                direction = [direction[1], direction[2], -direction[0] + 0.3]
                if np.linalg.norm(np.cross(r, direction)) / np.linalg.norm(r) < 1e-2:
                    direction = [direction[0] + 0.7, direction[1] - 0.2, direction[2]]
            speed = draw(st.floats(0.5, 11))
            states.append([r, [x * speed for x in direction], "any"])
    return {"jd": [draw(gens.jd()) for _ in range(n)], "states": states,
            "unit": draw(st.sampled_from(sorted(build.KM))),
            "speed": draw(st.sampled_from(sorted(SPEED)))}


def usable(r, v):
    return np.linalg.norm(np.cross(r, v)) > 5e-3 * np.linalg.norm(r) * np.linalg.norm(v)


def lvlh_rows(r, v):
    """Rows of the documented axes for each sample: x, y, z."""
    z = -r / np.linalg.norm(r, axis=1)[:, None]
    h = np.cross(r, v)
    y = -h / np.linalg.norm(h, axis=1)[:, None]
    return np.stack([np.cross(y, z), y, z], axis=1)


@law("C19", "frame", state_case(), "several samples, or a non-circular orbit", quick=2500)
def orbital_frame(ctx, case):
    """Position and velocity in the orbital frame against the documented axes."""
    r = np.array([s[0] for s in case["states"]], float)
    v = np.array([s[1] for s in case["states"]], float)
    if not all(usable(a, b) for a, b in zip(r, v)):
        return
    n = len(case["jd"])
    position = build.frame("GCRS", case["jd"], r, case["unit"])
    speed = velocity("GCRS", case["jd"], v, case["speed"])
    before = (build.xyz_km(position, n, "position"),
              build.xyz(speed, u.km / u.s, n, "velocity"))
    lp, lv = _gcrs_to_lvlh(position, speed)
    for name, out in (("position", lp), ("velocity", lv)):
        check(isinstance(out, LVLH), "%s is in frame %s", name, type(out).__name__)
        build.same_times(out, case["jd"], "orbital " + name)
    p = build.xyz_km(lp, n, "orbital position")
    w = build.xyz(lv, u.km / u.s, n, "orbital velocity")
    check(str(lp.x.unit) == str(position.x.unit) == str(lp.z.unit),
          "position unit became %s", lp.x.unit)
    check(str(lv.x.unit) == str(speed.x.unit) == str(lv.z.unit), "velocity unit became %s", lv.x.unit)
    size, rate = np.linalg.norm(r, axis=1), np.linalg.norm(v, axis=1)
    # stored units lose a rounding error, radial motion magnifies it
    loss = 1e-13 / np.array([np.linalg.norm(np.cross(a, b)) for a, b in zip(r, v)]) * size * rate
    tp, tv = (1e-12 + loss) * size, (1e-12 + loss) * rate
    close(p[:, 0], np.zeros(n), tp, "position along x")
    close(p[:, 1], np.zeros(n), tp, "position along y")
    close(p[:, 2], -size, tp, "position along z (minus the radius)")
    close(w[:, 1], np.zeros(n), tv, "velocity along y")
    h = np.cross(p, w)
    true_h = np.cross(r, v)
    close(h[:, 1], -np.linalg.norm(true_h, axis=1), 4 * (1e-12 + loss) * size * rate,
          "angular momentum along y")
    check(bool((w[:, 0] >= 0).all()), "forward velocity is negative: %r", w[:, 0])
    close(w[:, 2], -np.sum(r * v, axis=1) / size, 4 * tv, "velocity towards the Earth")
    close(np.linalg.norm(w, axis=1), rate, 4 * tv, "speed")
    close(np.sum(p * w, axis=1), np.sum(r * v, axis=1), 8 * (1e-12 + loss) * size * rate,
          "position . velocity")
    axes = lvlh_rows(r, v)
    expected = np.einsum("kij,kj->ki", axes, v)
    for i in range(3):
        close(w[:, i], expected[:, i], 8 * tv, "velocity component %d" % i)
    after = (build.xyz_km(position, n, "position"), build.xyz(speed, u.km / u.s, n, "velocity"))
    check(np.array_equal(before[0], after[0]) and np.array_equal(before[1], after[1]),
          "the inertial state was modified")
    ctx.nontrivial(n > 1 or abs(np.dot(r[0], v[0])) > 1e-3 * size[0] * rate[0])
    ctx.label("retrograde", bool((true_h[:, 2] < 0).any()))
    ctx.label("series", n > 1)


@st.composite
def kind_case(draw):
    case = draw(state_case())
    case["kinds"] = draw(st.sampled_from([["ITRS", "GCRS"], ["GCRS", "ITRS"], ["ITRS", "ITRS"]]))
    return case


@law("C19", "kinds", kind_case(), "always", quick=100)
def other_frames(ctx, case):
    """Only inertial states have an orbital frame."""
    r = [s[0] for s in case["states"]]
    v = [s[1] for s in case["states"]]
    position = build.frame(case["kinds"][0], case["jd"], r, case["unit"])
    speed = velocity(case["kinds"][1], case["jd"], v, case["speed"])
    raises(ValueError, lambda: _gcrs_to_lvlh(position, speed), "orbital frame of %r" % case["kinds"])
    ctx.nontrivial()


# -------------------------------------------------------------- attitude ---

def rotation(roll, pitch, yaw):
    """2-1-3 attitude matrix of angles in degrees (n, 3, 3)."""
    out = []
    for f, t, p in np.radians(np.stack([roll, pitch, yaw], axis=1)):
        r2 = np.array([[math.cos(t), 0, -math.sin(t)], [0, 1, 0], [math.sin(t), 0, math.cos(t)]])
        r1 = np.array([[1, 0, 0], [0, math.cos(f), math.sin(f)], [0, -math.sin(f), math.cos(f)]])
        r3 = np.array([[math.cos(p), math.sin(p), 0], [-math.sin(p), math.cos(p), 0], [0, 0, 1]])
        out.append(r3 @ r1 @ r2)
    return np.array(out)


@st.composite
def attitude_case(draw):
    case = draw(state_case())
    case["kind"] = draw(st.sampled_from(["GCRS", "ITRS", "mixed"]))
    case["location"] = draw(gens.location())
    case["aim"] = draw(st.sampled_from(["any", "under", "under", "beside", "beside"]))
    case["offset"] = [draw(st.one_of(st.floats(-20, 20), st.floats(-1e-2, 1e-2),
                                     st.sampled_from([0.0, 1.0, -1.0]))) for _ in range(2)]
    case["more"] = draw(gens.related(case["location"], 1))
    return case


def states_of(case):
    """Satellite and its Earth-fixed position (km) and velocity (km/s)."""
    r = np.array([s[0] for s in case["states"]], float)
    v = np.array([s[1] for s in case["states"]], float)
    if not all(usable(a, b) for a, b in zip(r, v)):
        return None
    jd, n = case["jd"], len(case["jd"])
    kinds = [case["kind"]] * 2 if case["kind"] != "mixed" else ["ITRS", "GCRS"]
    if case["kind"] == "mixed":
        rotated = np.einsum("kij,kj->ki", oracles.gcrs_to_itrs_matrix(jd), r)
        position = build.frame("ITRS", jd, rotated, case["unit"])
    else:
        position = build.frame(kinds[0], jd, r, case["unit"])
    satellite = Satellite(position, velocity(kinds[1], jd, v, case["speed"]))
    fixed_r = build.xyz_km(satellite.position, n, "satellite position")
    fixed_v = build.xyz(satellite.velocity, u.km / u.s, n, "satellite velocity")
    if case["kind"] == "ITRS":
        check(bool((np.abs(fixed_r - r) <= 1e-11 * np.abs(r) + 1e-12).all()),
              "Earth-fixed position changed")
        check(bool((np.abs(fixed_v - v) <= 1e-11 * np.abs(v) + 1e-14).all()),
              "Earth-fixed velocity changed")
    return satellite, fixed_r, fixed_v, r, v


def target(case, fixed_r):
    """Location spec: anywhere, under the first sample, or a little to the side."""
    if case["aim"] == "any":
        return case["location"]
    x, y, z = fixed_r[0]
    if case["aim"] == "under":      # geocentric sub-point: the nadir line meets the location
        lat, lon, h = oracles.itrs_to_geodetic(
            fixed_r[0] / np.linalg.norm(fixed_r[0]) * 6371.0)
        return [float(lat), float(lon), float(h)]
    lat, lon, _ = oracles.itrs_to_geodetic(fixed_r[0])
    lat = max(-89.0, min(89.0, lat + case["offset"][0]))
    lon = (lon + case["offset"][1] + 180) % 360 - 180
    return [float(lat), float(lon), 0.0]


@law("C20", "pointing", attitude_case(), "target off nadir by more than 1e-3 degrees",
     quick=2000)
def pointing(ctx, case):
    """The attitude matrix turns nadir into the line of sight, by the shortest rotation."""
    built = states_of(case)
    if built is None:
        return
    satellite, fixed_r, fixed_v, _, _ = built
    first = target(case, fixed_r)
    # The same satellite turned to several locations, and to the first one again.
    for spec in [first] + case["more"] + [first] * bool(case["more"]):
        pointed(ctx, case, satellite, fixed_r, fixed_v, spec)
    ctx.label("several locations", bool(case["more"]))


def pointed(ctx, case, satellite, fixed_r, fixed_v, spec):
    n = len(case["jd"])
    location = build.ground(spec)
    ground = oracles.geodetic_to_itrs(*spec)
    attitude = satellite.attitude(location)
    build.same_times(attitude, case["jd"], "attitude")
    angles = [quantity(q, u.deg, n, name) for name, q in
              (("roll", attitude.roll), ("pitch", attitude.pitch), ("yaw", attitude.yaw))]
    carried = attitude.location
    close(carried.latitude.to(u.deg), [spec[0]], 1e-9, "latitude of the attitude's location")
    close(carried.longitude.to(u.deg), [spec[1]], 1e-9, "longitude of the attitude's location")
    close(carried.height.to(u.km), [spec[2]], 1e-9, "height of the attitude's location")
    sight = ground - fixed_r
    reach = np.linalg.norm(sight, axis=1)
    axes = lvlh_rows(fixed_r, fixed_v)
    size = np.linalg.norm(fixed_r, axis=1)
    direction = np.einsum("kij,kj->ki", axes, sight) / reach[:, None]
    matrices = rotation(*angles)
    off = oracles.vector_angle_deg(direction, np.array([[0.0, 0.0, 1.0]]))
    plane = np.array([np.linalg.norm(np.cross(a, b)) for a, b in zip(fixed_r, fixed_v)]) / (
        size * np.linalg.norm(fixed_v, axis=1))
    for i in range(n):
        side = 1 - direction[i][1] ** 2
        if side < 1e-3 or off[i] > 178 or reach[i] < 1.0:
            continue
        # asin near 90 degrees, cancellation for close targets, badly fixed orbital planes
        tol = 1e-10 / side / (1 + math.cos(math.radians(off[i]))) + 1e-12 * size[i] / reach[i] + 1e-11 / plane[i]
        miss = np.max(np.abs(matrices[i][:, 2] - direction[i]))
        check(miss <= tol, "attitude of sample %d points %r, the target is at %r (off nadir %r deg)",
              i, list(matrices[i][:, 2]), list(direction[i]), off[i])
        turn = np.trace(matrices[i])
        check(abs(turn - 1 - 2 * math.cos(math.radians(off[i]))) <= 8 * tol,
              "rotation of sample %d turns by %r deg, off nadir is %r deg", i,
              math.degrees(math.acos(max(-1, min(1, (turn - 1) / 2)))), off[i])
        ctx.nontrivial(off[i] > 1e-3)
        if off[i] < 1e-7:
            check(max(abs(a[i]) for a in angles) < 1e-5, "angles straight overhead are %r",
                  [a[i] for a in angles])
            ctx.label("overhead")
        ctx.label("beyond 30 deg", off[i] > 30)
        ctx.label("beyond 90 deg", off[i] > 90)
    ctx.label(case["kind"])


@law("C20", "physical", attitude_case(), "inertial satellite, target in front of it", quick=600)
def physical(ctx, case):
    """The same, from the inertial orbit through the IAU Earth rotation (1 arc second)."""
    case = dict(case, kind="GCRS")
    built = states_of(case)
    if built is None:
        return
    satellite, _, _, r, v = built
    n = len(case["jd"])
    matrices = oracles.gcrs_to_itrs_matrix(case["jd"])
    spec = target(case, np.einsum("kij,kj->ki", matrices, r))
    ground = np.einsum("kji,j->ki", matrices, oracles.geodetic_to_itrs(*spec))
    attitude = satellite.attitude(build.ground(spec))
    angles = [quantity(q, u.deg, n, "angle") for q in (attitude.roll, attitude.pitch, attitude.yaw)]
    sight = ground - r
    reach = np.linalg.norm(sight, axis=1)
    direction = np.einsum("kij,kj->ki", lvlh_rows(r, v), sight) / reach[:, None]
    turned = rotation(*angles)
    off = oracles.vector_angle_deg(direction, np.array([[0.0, 0.0, 1.0]]))
    for i in range(n):
        if off[i] > 85 or reach[i] < 50:
            continue
        tol = 1e-7 + 6e-6 * 6400 / reach[i] / math.cos(math.radians(off[i]))
        miss = np.max(np.abs(turned[i][:, 2] - direction[i]))
        check(miss <= tol, "attitude of sample %d points %r, the target is at %r",
              i, list(turned[i][:, 2]), list(direction[i]))
        ctx.nontrivial()


@law("C20", "velocity", attitude_case(), "always", quick=150)
def velocity_required(ctx, case):
    """Without velocity there is no attitude; the other quantities still work."""
    r = np.array([s[0] for s in case["states"]], float)
    kind = case["kind"] if case["kind"] != "mixed" else "GCRS"
    satellite = Satellite(build.frame(kind, case["jd"], r, case["unit"]))
    location = build.ground(case["location"])
    raises(ValueError, lambda: satellite.attitude(location), "attitude without velocity")
    n = len(case["jd"])
    quantity(satellite.distance(location), u.km, n, "distance")
    quantity(satellite.look_angle(location), u.deg, n, "look angle")
    ctx.nontrivial()



# ------------------------------------------------------------ long tracks ---

@st.composite
def track_case(draw):
    """A satellite's day: many samples at a steady step along one or several orbits."""
    return {"orbits": draw(st.lists(gens.orbit(), min_size=1, max_size=2)),
            "jd0": draw(gens.jd()), "step": draw(st.sampled_from([1.0, 10.0, 60.0, 300.0])),
            "n": draw(st.sampled_from([12, 64, 100, 365, 1025, 2100])),
            "order": draw(st.sampled_from(["forward", "forward", "backward", "shuffled"])),
            "aim": draw(st.sampled_from(["any", "under", "beside", "beside"])),
            "offset": [draw(st.floats(-20, 20)), draw(st.floats(-20, 20))],
            "location": draw(gens.location()), "more": [], "kind": draw(st.sampled_from(["GCRS", "ITRS"])),
            "unit": draw(st.sampled_from(sorted(build.KM))),
            "speed": draw(st.sampled_from(sorted(SPEED))), "ground": ["deg", "km"],
            "seed": draw(st.integers(0, 10 ** 6))}


def expand(case):
    """The track's dates and states."""
    n = case["n"]
    dt = np.arange(n) * case["step"]
    parts = [oracles.orbit_state(o, dt) for o in case["orbits"]]
    r, v = (np.concatenate([p[k] for p in parts]) for k in (0, 1))
    jd = np.concatenate([case["jd0"] + dt / 86400] * len(parts))
    order = np.arange(len(jd))
    if case["order"] == "backward":
        order = order[::-1]
    elif case["order"] == "shuffled":
        np.random.RandomState(case["seed"]).shuffle(order)
    jd, r, v = jd[order].tolist(), r[order], v[order]
    return dict(case, jd=jd, rows=r.tolist(), modes=["any"] * len(jd),
                states=[[a.tolist(), b.tolist(), "orbit"] for a, b in zip(r, v)])


@law("C18", "tracks", track_case(), "always", quick=60)
def range_tracks(ctx, case):
    """Ranges and look angles along whole tracks, Earth-fixed or inertial."""
    case = expand(case)
    case["location"] = target(case, np.array(case["rows"]))
    if case["kind"] == "ITRS":
        fixed(ctx, case)
    else:
        inertial(ctx, dict(case, units=[case["unit"], "m"]))
    ctx.nontrivial()
    ctx.label("more than 1000 samples", len(case["jd"]) > 1000)


@law("C19", "tracks", track_case(), "always", quick=60)
def orbital_tracks(ctx, case):
    """The orbital frame along whole tracks."""
    orbital_frame(ctx, expand(case))
    ctx.nontrivial()
    ctx.label("more than 1000 samples", case["n"] > 1000)


@law("C20", "tracks", track_case(), "always", quick=48)
def pointing_tracks(ctx, case):
    """Pointing along whole tracks."""
    pointing(ctx, expand(case))
    ctx.nontrivial()
    ctx.label("more than 1000 samples", case["n"] > 1000)
