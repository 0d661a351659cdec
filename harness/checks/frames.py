"""C06 containers, C07-C08 rotations, C09 geodesy, C10 routes, C11 azimuth/elevation."""

import erfa
import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.satellite import Satellite
from harness import build, gens, oracles
from harness.core import Fail, as_array, check, close, law, raises, wrap_diff

FRAMES = {"GCRS": GCRS, "ITRS": ITRS, "WGS84": WGS84, "AzEl": AzEl}

# ------------------------------------------------------------------ C06 ---

CONTAINERS = {
    "GCRS": ("x", "y", "z"), "ITRS": ("x", "y", "z"), "LVLH": ("x", "y", "z"),
    "WGS84": ("latitude", "longitude", "height"), "AzEl": ("azimuth", "elevation"),
    "Attitude": ("roll", "pitch", "yaw"),
}
LENGTHS, ANGLES = ["km", "m", "cm", "mi"], ["deg", "rad", "arcmin", "arcsec", "hourangle"]
OTHER_UNITS = {"LVLH": ["km / s", "m / s"], "GCRS": ["km / s", "m / s"], "ITRS": ["km / s", "m / s"]}
LOCATION = [43.6532, -79.3832, 0.076]


def unit_named(name):
    if " / " in name:
        a, b = name.split(" / ")
        return getattr(u, a) / getattr(u, b)
    return getattr(u, name)


def container(kind, time, columns, unit, second):
    cls = {"GCRS": GCRS, "ITRS": ITRS, "LVLH": LVLH, "WGS84": WGS84, "AzEl": AzEl,
           "Attitude": Attitude}[kind]
    args = [time] + columns + [unit_named(unit)]
    if kind == "WGS84":
        args.append(unit_named(second))
    if kind in ("AzEl", "Attitude"):
        location = build.ground(LOCATION)
        result = cls(*args, location)
        return result, location
    return cls(*args), None


value = st.one_of(st.floats(-1e9, 1e9), st.sampled_from([0.0, -0.0, 1.0, float("inf"), 1e300]),
                  st.integers(-10 ** 6, 10 ** 6).map(float))


@st.composite
def containers(draw):
    kind = draw(st.sampled_from(sorted(CONTAINERS)))
    m = len(CONTAINERS[kind]) + 1
    n = draw(st.integers(0, 7))
    sizes = [n] * m
    shapes = [[n]] * m
    fault = draw(st.sampled_from(["none", "none", "length", "length", "lengths", "shape"]))
    if fault == "length":                # one array (or all but one) differs
        i = draw(st.integers(0, m - 1))
        other = draw(st.integers(0, 8).filter(lambda k: k != n))
        shapes = [[other] if (j == i) else [n] for j in range(m)]
        if draw(st.booleans()):
            shapes = [[n] if (j == i) else [other] for j in range(m)]
    elif fault == "lengths":
        shapes = [[draw(st.integers(0, 4))] for _ in range(m)]
    elif fault == "shape":
        n = draw(st.sampled_from([n, 1, 1]))
        shapes = [[n]] * m
        bad = draw(st.sampled_from([[], [n, 1], [1, n], [n, 2], [n, 1, 1]]))
        which = draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=m, unique=True))
        shapes = [bad if j in which else [n] for j in range(m)]
    data = []
    for shape in shapes:
        count = int(np.prod(shape)) if shape else 1
        dtype = draw(st.sampled_from(["f8", "f8", "i8", "f4", "i4"]))
        numbers = st.integers(-30000, 30000).map(float) if dtype != "f8" else value
        data.append({"shape": shape, "dtype": dtype, "values": draw(
            st.lists(numbers, min_size=count, max_size=count))})
    unit = draw(st.sampled_from(ANGLES if kind in ("WGS84", "AzEl", "Attitude")
                                else LENGTHS + OTHER_UNITS[kind]))
    return {"kind": kind, "data": data, "unit": unit, "second": draw(st.sampled_from(LENGTHS)),
            "out": draw(st.sampled_from(ANGLES + LENGTHS + ["km / s", "m / s"]))}


UNIT_SIZE = {"km": 1e3, "m": 1.0, "cm": 1e-2, "mi": 1609.344, "km / s": 1e3, "m / s": 1.0,
             "deg": 1.0, "rad": 180 / np.pi, "arcmin": 1 / 60, "arcsec": 1 / 3600, "hourangle": 15.0}


def kind_of(unit):
    return "A" if unit in ANGLES else "V" if " / " in unit else "L"


@law("C06", "accept", containers(),
     "a container class with component and time arrays of generated shapes and types; "
     "non-trivial: at least two samples or a rejected shape", quick=3500)
def accept_law(ctx, case):
    kind, names = case["kind"], CONTAINERS[case["kind"]]
    arrays = [np.array(d["values"], dtype=d["dtype"]).reshape(d["shape"]) for d in case["data"]]
    kept = [a.copy() for a in arrays]
    good = all(len(d["shape"]) == 1 for d in case["data"]) and \
        len({d["shape"][0] if d["shape"] else None for d in case["data"]}) == 1
    what = "%s of shapes %r" % (kind, [d["shape"] for d in case["data"]])
    ctx.label("valid" if good else "invalid")
    if not good:
        raises(ValueError, lambda: container(kind, arrays[0], arrays[1:], case["unit"],
                                             case["second"]), what)
        ctx.nontrivial()
        return
    position, location = container(kind, arrays[0], arrays[1:], case["unit"], case["second"])
    n = case["data"][0]["shape"][0]
    for _ in range(2):
        for name, column in zip(names, kept[1:]):
            q = getattr(position, name)
            unit = case["second"] if name == "height" else case["unit"]
            check(q.unit == unit_named(unit) or str(q.unit) == str(unit_named(unit)),
                  "%s of %s is in %s, given %s", name, kind, q.unit, unit)
            got = np.asarray(q.data)
            check(got.shape == column.shape and np.array_equal(got, column),
                  "%s of %s reads back %r, given %r", name, kind, got, column)
        build.same_times(position, kept[0], kind)
        if location is not None:
            check(position.location is location or str(position.location) == str(location),
                  "%s reports location %r", kind, position.location)
        # Export in a unit: one row per time.
        compatible = kind != "WGS84" and kind_of(case["out"]) == kind_of(case["unit"])
        for out in {case["unit"], case["out"]}:
            unit = unit_named(out)
            if kind_of(out) != kind_of(case["unit"]) or kind == "WGS84":
                raises(ValueError, lambda: position.to_numpy(unit), "%s in %s" % (kind, out))
                continue
            table = np.asarray(position.to_numpy(unit))
            check(table.shape == (n, len(names)), "%s exports shape %r for %d samples", kind,
                  table.shape, n)
            ratio = UNIT_SIZE[case["unit"]] / UNIT_SIZE[out]
            for j, column in enumerate(kept[1:]):
                expected = column.astype(float) * ratio
                tol = 1e-12 if column.dtype != np.float32 else 1e-6
                bad = ~((np.abs(table[:, j] - expected) <= tol * np.abs(expected))
                        | (table[:, j] == expected))
                check(not bad.any(), "%s.to_numpy(%s) column %d is %r, expected %r", kind, out, j,
                      table[:, j], expected)
        ctx.label("exported in another unit", compatible and case["out"] != case["unit"])
    check(all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(arrays, kept)),
          "%s changed the arrays it was given", kind)
    ctx.nontrivial(n >= 2)


@law("C06", "long", st.tuples(st.sampled_from(sorted(CONTAINERS)), st.sampled_from(
    [64, 257, 1000, 1001, 2048]), st.integers(0, 9), st.integers(-1, 1), st.integers(0, 99)).map(list),
     "always", quick=100)
def accept_long_law(ctx, case):
    """Containers of many samples, one array a sample longer or shorter or not."""
    kind, n, which, change, seed = case
    random, m = np.random.RandomState(seed), len(CONTAINERS[kind]) + 1
    sizes = [n + change * (j == which % m) for j in range(m)]
    unit = "deg" if kind in ("WGS84", "AzEl", "Attitude") else "km"
    accept_law(ctx, {"kind": kind, "unit": unit, "second": "m", "out": "rad" if unit == "deg" else "m",
                     "data": [{"shape": [size], "dtype": "f8",
                               "values": (random.normal(size=size) * 1e4).tolist()} for size in sizes]})
    ctx.nontrivial()


@law("C06", "one wrong", st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(CONTAINERS)), "n": st.sampled_from([1, 2, 3]),
    "value": st.floats(-1e4, 1e4)}), "always: every array in turn, and every pair, wrong", quick=60)
def one_wrong_law(ctx, case):
    """Every array in turn, and every pair, with no or several dimensions or another length."""
    kind, n = case["kind"], case["n"]
    m = len(CONTAINERS[kind]) + 1
    unit = "deg" if kind in ("WGS84", "AzEl", "Attitude") else "km"
    for bad in ([], [n, 1], [1, n], [n + 1], [0], [n - 1]):
        for i in range(m):
            for j in range(m):
                shapes = [bad if k in (i, j) else [n] for k in range(m)]
                if len(set(map(tuple, shapes))) > 1:
                    accept_law(ctx, {
                        "kind": kind, "unit": unit, "second": "m", "out": unit, "data": [
                            {"shape": shape, "dtype": "f8",
                             "values": [case["value"]] * int(np.prod(shape))} for shape in shapes]})
    ctx.nontrivial()


# ------------------------------------------------------------- C07, C08 ---

any_jd = st.one_of(gens.jd(2415020.5, 2488070.0), gens.jd(), gens.jd(2305447.5, 2597641.5))
dates = st.lists(any_jd, min_size=1, max_size=5)
lengths = st.sampled_from(["km", "m", "km", "mi", "Mm", "au"])
WHOLE = ("km", "m")       # units in which whole numbers are still usable positions

vector = st.one_of(gens.position_km(), gens.unit_vector(),
                   st.sampled_from([[7000., 0., 0.], [0., 7000., 0.], [0., 0., 7000.],
                                    [0., 0., -7000.], [-42164., 0., 0.], [0., 0., 0.]]),
                   st.tuples(*[st.integers(-9000, 9000).map(float)] * 3).map(list))


@st.composite
def rotations(draw):
    n = draw(st.integers(1, 6))
    return {"start": draw(st.sampled_from(["GCRS", "ITRS"])),
            "jd": draw(st.lists(any_jd, min_size=n, max_size=n)),
            "vectors": [[draw(vector) for _ in range(3)] for _ in range(n)],
            "unit": draw(lengths), "dtype": draw(st.sampled_from(["float", "float", "int"]))}


def other(kind):
    return "ITRS" if kind == "GCRS" else "GCRS"


@law("C07", "rigid", rotations(),
     "triples of vectors at arbitrary dates converted to the other frame and back; "
     "non-trivial: a triple of independent vectors", quick=1500)
def rigid_law(ctx, case):
    n = len(case["jd"])
    julian = np.repeat(case["jd"], 3)
    rows = np.array(case["vectors"], float).reshape(-1, 3)
    dtype = float
    if case["dtype"] == "int":
        if case["unit"] not in WHOLE:
            return
        rows, dtype = np.round(rows * build.KM[case["unit"]]) / build.KM[case["unit"]], int
    start = build.frame(case["start"], julian, rows, case["unit"], dtype)
    rows = np.array([start.x.data, start.y.data, start.z.data], float).T / build.KM[case["unit"]]
    there = Coordinate(start).convert_to(FRAMES[other(case["start"])])
    check(type(there).__name__ == other(case["start"]), "converted to %s", type(there).__name__)
    build.same_times(there, julian, "converted position")
    check(build.same_unit(there.x.unit, start.x.unit), "unit changed from %s to %s", start.x.unit, there.x.unit)
    out = build.xyz_km(there, 3 * n, "converted position")
    norm = np.linalg.norm(rows, axis=1)
    close(np.linalg.norm(out, axis=1), norm, 1e-9 * norm + 1e-12, "length", case)
    a, b = rows.reshape(n, 3, 3), out.reshape(n, 3, 3)
    gram_a, gram_b = np.einsum("nij,nkj->nik", a, a), np.einsum("nij,nkj->nik", b, b)
    length = np.linalg.norm(a, axis=2)
    close(gram_b.reshape(-1), gram_a.reshape(-1),
          2e-9 * np.einsum("ni,nk->nik", length, length).reshape(-1) + 1e-12,
          "inner product of simultaneous vectors", case)
    volume = np.prod(length, axis=1)
    close(np.linalg.det(b), np.linalg.det(a), 4e-9 * volume + 1e-12, "handed volume", case)
    back = Coordinate(there).convert_to(FRAMES[case["start"]])
    close(build.xyz_km(back, 3 * n, "position converted back").reshape(-1), rows.reshape(-1),
          np.repeat(2e-9 * norm + 1e-12, 3), "there and back", case)
    build.same_times(back, julian, "position converted back")
    ctx.nontrivial(bool(np.any(np.abs(np.linalg.det(a)) > 1e-3 * np.maximum(volume, 1e-9))))
    ctx.label("integer data", case["dtype"] == "int")
    ctx.label("from " + case["start"])


@law("C07", "bulk", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([1, 2, 3, 50, 400, 1000, 4100, 10500]),
     "start": st.sampled_from(["GCRS", "ITRS"]), "sorted": st.booleans()}),
     "long random series converted there and back; non-trivial: 50 samples or more",
     quick=120, thorough=3000)
def bulk_law(ctx, case):
    random = np.random.RandomState(case["seed"])
    n = case["n"]
    julian = random.uniform(2415020.5, 2488070.0, n)
    if case["sorted"]:
        julian = julian[0] + np.arange(n) * 60 / 86400
    rows = random.normal(size=(n, 3)) * 10 ** random.uniform(3, 5.5, (n, 1))
    there_and_back(case, julian, rows)
    order = inside_shuffled(random, n)
    there_and_back(case, julian[order], rows[order])
    ctx.nontrivial(n >= 50)


def inside_shuffled(random, n):
    """An order of n samples that keeps the first and the last."""
    order = np.arange(n)
    if n > 3:
        order[1:-1] = random.permutation(order[1:-1])
    return order


def there_and_back(case, julian, rows):
    n = len(julian)
    start = build.frame(case["start"], julian, rows)
    there = Coordinate(start).convert_to(FRAMES[other(case["start"])])
    back = Coordinate(there).convert_to(FRAMES[case["start"]])
    norm = np.linalg.norm(rows, axis=1)
    out = build.xyz_km(there, n, "converted position")
    close(np.linalg.norm(out, axis=1), norm, 1e-9 * norm, "length")
    close(build.xyz_km(back, n, "position converted back").reshape(-1), rows.reshape(-1),
          np.repeat(2e-9 * norm, 3), "there and back")
    build.same_times(back, julian, "position converted back")


SECOND = np.radians(1 / 3600)


def rotation_matrices(julian, start):
    """celest's rotation at each date, recovered from converted axes: (n, 3, 3)."""
    n = len(julian)
    times = np.repeat(julian, 3)
    axes = np.tile(np.eye(3) * 7000.0, (n, 1))
    out = Coordinate(build.frame(start, times, axes)).convert_to(FRAMES[other(start)])
    columns = build.xyz_km(out, 3 * n, "converted axes").reshape(n, 3, 3) / 7000.0
    matrix = np.swapaxes(columns, 1, 2)
    return matrix if start == "GCRS" else np.swapaxes(matrix, 1, 2)


def rotation_angle(a, b):
    """Angle between rotations (rad), accurate for small ones."""
    d = np.einsum("nij,nkj->nik", a, b)
    axis = np.array([d[:, 2, 1] - d[:, 1, 2], d[:, 0, 2] - d[:, 2, 0], d[:, 1, 0] - d[:, 0, 1]])
    return np.arctan2(np.linalg.norm(axis, axis=0) / 2, (np.trace(d, axis1=1, axis2=2) - 1) / 2)


@law("C08", "matrix", st.fixed_dictionaries(
    {"jd": st.lists(gens.jd(), min_size=1, max_size=5), "start": st.sampled_from(["GCRS", "ITRS"])}),
     "the rotation at dates in 1950-2100 against IAU 2006/2000A; non-trivial: every case",
     quick=1500)
def matrix_law(ctx, case):
    julian = np.array(case["jd"])
    ours = rotation_matrices(julian, case["start"])
    angle = rotation_angle(ours, oracles.gcrs_to_itrs_matrix(julian)) / SECOND
    i = int(np.argmax(angle))
    check(angle[i] <= 1.0, "rotation at %r is off by %r arc seconds", julian[i], angle[i])
    ctx.nontrivial()
    ctx.label("before 2000", bool(np.any(julian < gens.J2000)))


@law("C08", "sweep", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([1, 10, 200, 600, 1500]),
     "start": st.sampled_from(["GCRS", "ITRS"])}),
     "many dates in one call, with general vectors, against IAU 2006/2000A; non-trivial: 10 or "
     "more dates", quick=60, thorough=2000)
def sweep_law(ctx, case):
    random = np.random.RandomState(case["seed"])
    n = case["n"]
    julian = random.uniform(2433282.5, 2488069.5, n)
    matrix = oracles.gcrs_to_itrs_matrix(julian)
    rows = random.normal(size=(n, 3))
    rows *= (10 ** random.uniform(3.8, 5, n) / np.linalg.norm(rows, axis=1))[:, None]
    expected = np.einsum("nij,nj->ni" if case["start"] == "GCRS" else "nji,nj->ni", matrix, rows)
    for order in (np.arange(n), inside_shuffled(random, n)):
        out = Coordinate(build.frame(case["start"], julian[order], rows[order])).convert_to(
            FRAMES[other(case["start"])])
        angle = oracles.vector_angle_deg(build.xyz_km(out, n, "converted position"),
                                         expected[order]) * 3600
        i = int(np.argmax(angle))
        check(angle[i] <= 1.0, "direction at %r is off by %r arc seconds", julian[order][i], angle[i])
    ctx.nontrivial(n >= 10)


@law("C08", "sidereal", st.fixed_dictionaries(
    {"jd": gens.jd(), "turns": st.sampled_from([1, 1, 2, 3])}),
     "the rotation one to three sidereal days later; non-trivial: every case", quick=600)
def sidereal_law(ctx, case):
    later = case["jd"] + case["turns"] * 0.99726956633
    half = case["jd"] + 0.99726956633 / 4
    a, b, c = rotation_matrices(np.array([case["jd"], later, half]), "GCRS")
    angle = float(rotation_angle(a[None], b[None])[0]) / SECOND
    check(angle <= 1.5 * case["turns"] + 0.5, "after %d sidereal days the rotation differs by %r arc seconds",
          case["turns"], angle)
    quarter = c @ a.T
    turn = np.degrees(np.arctan2(quarter[0, 1], quarter[0, 0]))
    check(abs(turn - 90) < 0.002, "the Earth turned %r degrees in a quarter sidereal day", turn)
    ctx.nontrivial()


# ------------------------------------------------------------------ C09 ---

geo_height = st.one_of(gens.height_km(), st.sampled_from([0.0, 35786.0, 384400.0, -10.0]),
                       st.floats(-10, 100), st.floats(0, 500000))


@st.composite
def geodetic(draw):
    n = draw(st.integers(1, 8))
    return {"points": draw(st.lists(st.tuples(gens.latitude(), st.one_of(
        gens.longitude(), st.floats(0, 360)), geo_height).map(list), min_size=n, max_size=n)),
        "angle": draw(st.sampled_from(["deg", "deg", "rad", "arcmin", "hourangle"])),
        "length": draw(st.sampled_from(["km", "m", "mi"])),
        "jd": draw(st.lists(gens.jd(), min_size=n, max_size=n))}


def check_geodetic(position, itrs_km, what):
    """`position` (WGS84) is the geodetic form of the Earth-fixed rows."""
    n = len(itrs_km)
    lat = as_array(position.latitude.to(u.deg), what + " latitude", n)
    lon = as_array(position.longitude.to(u.deg), what + " longitude", n)
    h = as_array(position.height.to(u.km), what + " height", n)
    check(np.isfinite(lat).all() and np.isfinite(lon).all() and np.isfinite(h).all(),
          "%s is not finite: %r %r %r", what, lat, lon, h)
    check(np.all(np.abs(lat) <= 90 + 1e-12), "%s latitude %r out of range", what, lat)
    check(np.all(np.abs(lon) <= 180 + 1e-12), "%s longitude %r out of range", what, lon)
    tlat, tlon, th = oracles.itrs_to_geodetic(itrs_km)
    r = np.linalg.norm(itrs_km, axis=1)
    close(lat, tlat, 1e-8, what + " latitude", lambda i: "at %r" % itrs_km[i])
    close(h, th, 1e-6 + 1e-12 * r, what + " height", lambda i: "at %r" % itrs_km[i])
    axis = np.hypot(itrs_km[:, 0], itrs_km[:, 1])
    close(np.radians(wrap_diff(lon, tlon, 360)) * axis, np.zeros(n), 1e-6 + 1e-11 * r,
          what + " longitude (km)", lambda i: "at %r: %r, expected %r" % (itrs_km[i], lon[i], tlon[i]))
    again = oracles.geodetic_to_itrs(lat, lon, h)
    close(again.reshape(-1), np.asarray(itrs_km).reshape(-1), np.repeat(2e-6 + 2e-11 * r, 3),
          what + " rebuilt x, y, z")


@law("C09", "geodetic", geodetic(),
     "latitude, longitude, height points in batches, to Earth-fixed and back, against ERFA; "
     "non-trivial: two points or more", quick=1500)
def geodetic_law(ctx, case):
    n = len(case["points"])
    lat, lon, h = np.array(case["points"], float).T
    given = build.wgs84(case["jd"], lat, lon, h, case["angle"], case["length"])
    expected = oracles.geodetic_to_itrs(lat, lon, h)
    r = np.linalg.norm(expected, axis=1)
    itrs = Coordinate(given).convert_to(ITRS)
    close(build.xyz_km(itrs, n, "Earth-fixed position").reshape(-1), expected.reshape(-1),
          np.repeat(1e-7 + 1e-12 * r, 3), "Earth-fixed position", case)
    build.same_times(itrs, case["jd"], "Earth-fixed position")
    back = Coordinate(itrs).convert_to(WGS84)
    build.same_times(back, case["jd"], "geographic position")
    check_geodetic(back, expected, "geographic position")
    altitude = as_array(Satellite(itrs).altitude().to(u.km), "altitude", n)
    close(altitude, h, 1e-6 + 1e-12 * r, "altitude", case)
    ctx.nontrivial(n >= 2)
    ctx.label("pole", bool(np.any(np.abs(lat) > 89.99)))
    ctx.label("date line", bool(np.any(np.abs(np.abs(lon) - 180) < 1e-2)))
    ctx.label("below the ellipsoid", bool(np.any(h < 0)))


@st.composite
def earth_fixed(draw):
    n = draw(st.integers(1, 8))
    axis = st.tuples(st.just(0.0), st.just(0.0), st.one_of(
        st.floats(6346, 50000), st.floats(-50000, -6346))).map(list)
    near_axis = st.tuples(st.floats(-1, 1), st.floats(-1, 1), st.sampled_from(
        [6356.8, -6400.0, 7000.0, -42000.0])).map(list)
    return {"points": draw(st.lists(st.one_of(gens.position_km(), gens.position_km(), axis,
                                              near_axis), min_size=n, max_size=n)),
            "jd": draw(st.lists(gens.jd(), min_size=n, max_size=n)), "unit": draw(lengths),
            "int": draw(st.integers(0, 3)) == 0}


@law("C09", "earth-fixed", earth_fixed(),
     "Earth-fixed points in batches to geographic and back, against ERFA; non-trivial: two "
     "points or more", quick=1500)
def earth_fixed_law(ctx, case):
    rows = np.array(case["points"], float)
    n = len(rows)
    norm = np.linalg.norm(rows, axis=1)
    if case["int"] and case["unit"] in WHOLE:
        rows = np.round(rows * build.KM[case["unit"]]) / build.KM[case["unit"]]
        itrs = build.frame("ITRS", case["jd"], rows, case["unit"], int)
    else:
        itrs = build.frame("ITRS", case["jd"], rows, case["unit"])
    if np.any(np.linalg.norm(rows, axis=1) < 6340):
        return
    wgs84 = Coordinate(itrs).convert_to(WGS84)
    build.same_times(wgs84, case["jd"], "geographic position")
    check_geodetic(wgs84, rows, "geographic position")
    back = Coordinate(wgs84).convert_to(ITRS)
    close(build.xyz_km(back, n, "position converted back").reshape(-1), rows.reshape(-1),
          np.repeat(2e-6 + 2e-11 * norm, 3), "there and back", case)
    altitude = as_array(Satellite(itrs).altitude().to(u.km), "altitude", n)
    close(altitude, oracles.itrs_to_geodetic(rows)[2], 1e-6 + 1e-12 * norm, "altitude", case)
    ctx.nontrivial(n >= 2)
    ctx.label("polar axis", bool(np.any(np.hypot(rows[:, 0], rows[:, 1]) < 1e-9)))
    ctx.label("integer", case["int"])


@law("C09", "bulk", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([1, 2, 100, 1000, 4100, 10500]),
     "to": st.sampled_from(["ITRS", "WGS84"])}),
     "long random series against ERFA; non-trivial: 100 samples or more", quick=100, thorough=3000)
def bulk_geodetic_law(ctx, case):
    random = np.random.RandomState(case["seed"])
    n = case["n"]
    lat = np.degrees(np.arcsin(random.uniform(-1, 1, n)))
    lon = random.uniform(-180, 180, n)
    h = np.where(random.rand(n) < 0.5, random.uniform(-5, 2000, n), 10 ** random.uniform(2, 5.6, n))
    julian = gens.J2000 + random.uniform(-9000, 9000, n)
    expected = oracles.geodetic_to_itrs(lat, lon, h)
    for order in (np.arange(n), inside_shuffled(random, n)):
        rows = expected[order]
        if case["to"] == "ITRS":
            itrs = Coordinate(build.wgs84(julian[order], lat[order], lon[order], h[order])).convert_to(ITRS)
            close(build.xyz_km(itrs, n, "Earth-fixed position").reshape(-1), rows.reshape(-1),
                  np.repeat(1e-7 + 1e-12 * np.linalg.norm(rows, axis=1), 3), "Earth-fixed position")
        else:
            wgs84 = Coordinate(build.frame("ITRS", julian[order], rows)).convert_to(WGS84)
            check_geodetic(wgs84, rows, "geographic position")
    ctx.nontrivial(n >= 100)


# ------------------------------------------------------------------ C10 ---

@st.composite
def routes(draw):
    n = draw(st.integers(1, 5))
    start = draw(st.sampled_from(["GCRS", "ITRS", "WGS84"]))
    chain = draw(st.lists(st.sampled_from(["GCRS", "ITRS", "WGS84"]), min_size=0, max_size=4))
    location = draw(gens.location())
    return {"start": start, "chain": chain, "end": draw(st.sampled_from(sorted(FRAMES))),
            "positions": draw(st.lists(gens.position_km(), min_size=n, max_size=n)),
            "jd": draw(st.lists(gens.jd(), min_size=n, max_size=n)),
            "unit": draw(lengths), "location": location, "more": draw(gens.related(location)),
            "again": draw(st.lists(st.sampled_from(sorted(FRAMES)), max_size=3)),
            "edited": draw(st.one_of(st.none(), st.integers(0, n - 1)))}


def start_position(case):
    if case["start"] == "WGS84":
        lat, lon, h = oracles.itrs_to_geodetic(np.array(case["positions"], float))
        return build.wgs84(case["jd"], lat, lon, h, "deg", case["unit"])
    return build.frame(case["start"], case["jd"], case["positions"], case["unit"])


def read(position, n, location):
    """A comparable array: kilometres (for AzEl, the unit direction)."""
    name = type(position).__name__
    if name == "WGS84":
        values = [as_array(q, what, n) for q, what in (
            (position.latitude.to(u.deg), "latitude"), (position.longitude.to(u.deg), "longitude"),
            (position.height.to(u.km), "height"))]
        return oracles.geodetic_to_itrs(*values)
    if name == "AzEl":
        az = np.radians(as_array(position.azimuth.to(u.deg), "azimuth", n))
        el = np.radians(as_array(position.elevation.to(u.deg), "elevation", n))
        return np.array([np.sin(az) * np.cos(el), np.cos(az) * np.cos(el), np.sin(el)]).T
    return build.xyz_km(position, n, name)


@law("C10", "routes", routes(),
     "a position converted directly and through a chain of frames; non-trivial: at least one "
     "intermediate frame other than the start and end", quick=1500)
def routes_law(ctx, case):
    start = start_position(case)
    shared = Coordinate(start)
    # One Coordinate for every direct conversion, the chain goes through new ones.
    ends = [(case["end"], case["location"])] + [(x, case["location"]) for x in case["again"]]
    ends += [(x, spec) for spec in case["more"] for x in ("AzEl", case["end"])]
    for end, spec in ends:
        route(case, start, shared, end, spec)
    if case.get("edited") is not None:
        # Data changed in place: the same Coordinate follows it.
        data = (start.latitude if case["start"] == "WGS84" else start.x).data
        data[case["edited"]] = -data[case["edited"]]
        for end, spec in ends:
            route(case, start, shared, end, spec)
        ctx.label("data changed in place")
    if any(end == "AzEl" for end, _ in ends):
        raises(ValueError, lambda: shared.convert_to(AzEl), "AzEl without a location")
    ctx.nontrivial(any(x not in (case["start"], case["end"]) for x in case["chain"]))
    ctx.label("to " + case["end"])
    ctx.label("several conversions of one Coordinate", len(ends) > 1)


def route(case, start, shared, end, spec):
    n = len(case["jd"])
    location = build.ground(spec)
    norm = np.linalg.norm(np.array(case["positions"], float), axis=1)

    def convert(coordinate, name):
        out = coordinate.convert_to(FRAMES[name], *([location] if name == "AzEl" else []))
        check(type(out).__name__ == name, "converting to %s gave %s", name, type(out).__name__)
        build.same_times(out, case["jd"], "%s position" % name)
        if name == "AzEl":
            check(str(out.location) == str(location), "horizontal position at %s, asked for %s",
                  out.location, location)
        return out
    direct = convert(shared, end)
    if end == case["start"]:
        close(read(direct, n, location).reshape(-1), read(start, n, location).reshape(-1), 0.0,
              "conversion to its own frame")
    step = start
    for name in case["chain"]:
        step = convert(Coordinate(step), name)
    last = convert(Coordinate(step), end)
    tol = np.repeat(1e-5 + 1e-9 * norm, 3)
    if end == "AzEl":
        station = oracles.geodetic_to_itrs(*spec)
        itrs = read(convert(Coordinate(start), "ITRS"), n, location)
        distance = np.linalg.norm(itrs - station, axis=1)
        if np.any(distance < 1):
            return
        tol = tol / np.repeat(distance, 3)
    close(read(last, n, location).reshape(-1), read(direct, n, location).reshape(-1), tol,
          "%s through %s to %s" % (case["start"], case["chain"], end))


@law("C10", "long", st.fixed_dictionaries({
    "orbit": gens.orbit(), "location": gens.location(), "jd": gens.jd(),
    "n": st.sampled_from([50, 365, 1025, 2100]), "step": st.sampled_from([-60.0, 10.0, 600.0]),
    "start": st.sampled_from(["GCRS", "ITRS", "WGS84"]), "end": st.sampled_from(sorted(FRAMES)),
    "chain": st.lists(st.sampled_from(["GCRS", "ITRS", "WGS84"]), min_size=1, max_size=3),
    "unit": lengths}), "always", quick=60)
def routes_long_law(ctx, case):
    """Routes of whole tracks."""
    dt = np.arange(case["n"]) * case["step"]
    routes_law(ctx, dict(case, positions=oracles.orbit_state(case["orbit"], dt)[0].tolist(),
                         jd=(case["jd"] + dt / 86400).tolist(), more=[], again=[]))
    ctx.nontrivial()


@law("C10", "errors", st.fixed_dictionaries(
    {"kind": st.sampled_from(["azel", "lvlh", "attitude", "array", "none", "no location"]),
     "start": st.sampled_from(["GCRS", "ITRS", "WGS84"]),
     "positions": st.lists(gens.position_km(), min_size=2, max_size=2),
     "jd": st.lists(gens.jd(), min_size=2, max_size=2), "unit": lengths,
     "location": gens.location()}),
     "frames that cannot be converted from, and horizontal coordinates without a location; "
     "non-trivial: every case", quick=400)
def errors_law(ctx, case):
    location = build.ground(case["location"])
    time = np.array(case["jd"])
    a = np.array([10.0, 20.0])
    kind = case["kind"]
    if kind == "no location":
        position = start_position(case)
        raises(ValueError, lambda: Coordinate(position).convert_to(AzEl),
               "%s to AzEl without a location" % case["start"])
        raises(ValueError, lambda: Coordinate(position).convert_to(AzEl, None),
               "%s to AzEl without a location" % case["start"])
    else:
        position = {"azel": lambda: AzEl(time, a, a, u.deg, location),
                    "lvlh": lambda: LVLH(time, a, a, a, u.km),
                    "attitude": lambda: Attitude(time, a, a, a, u.deg, location),
                    "array": lambda: a, "none": lambda: None}[kind]()
        raises(ValueError, lambda: Coordinate(position), "Coordinate of %s" % kind)
    ctx.nontrivial()


# ------------------------------------------------------------------ C11 ---

@st.composite
def targets(draw):
    location = draw(gens.location())
    n = draw(st.integers(1, 8))
    kind = draw(st.sampled_from(["anywhere", "local", "local", "wgs84"]))
    points = []
    for _ in range(n):
        if kind == "local":       # azimuth, elevation, range
            points.append([draw(gens.angle(180.0)), draw(gens.angle(90.0)), draw(st.one_of(
                st.floats(1, 50000), st.sampled_from([500.0, 1000.0, 35786.0, 12800.0])))])
        else:
            points.append(draw(gens.position_km()))
    return {"location": location, "kind": kind, "points": points,
            "more": draw(gens.related(location, 1)),
            "replaced": draw(st.one_of(st.just(None), st.tuples(
                st.integers(0, n - 1), gens.position_km()).map(list))),
            "jd": draw(st.lists(gens.jd(), min_size=n, max_size=n)),
            "from": draw(st.sampled_from(["ITRS", "ITRS", "WGS84"])),
            "unit": draw(lengths), "int": draw(st.integers(0, 4)) == 0}


@law("C11", "azel", targets(),
     "targets around a location, by local direction or anywhere, against an east-north-up frame; "
     "non-trivial: southern or western location, or a target below the horizon", quick=2000)
def azel_law(ctx, case):
    n = len(case["points"])
    lat, lon, h = case["location"]
    station = oracles.geodetic_to_itrs(lat, lon, h)
    enu = oracles.enu_matrix(lat, lon)
    points = np.array(case["points"], float)
    if case["kind"] == "local":
        az, el = np.radians(points[:, 0]), np.radians(points[:, 1])
        local = points[:, 2:] * np.array([np.sin(az) * np.cos(el), np.cos(az) * np.cos(el),
                                          np.sin(el)]).T
        rows = station + local @ enu
    else:
        rows = points
    integer = case["int"] and case["unit"] in WHOLE
    if integer:       # whole in the unit they are stored in
        rows = np.round(rows * build.KM[case["unit"]]) / build.KM[case["unit"]]
    if case["from"] == "WGS84":
        if np.any(np.linalg.norm(rows, axis=1) < 6340):
            return
        glat, glon, gh = oracles.itrs_to_geodetic(rows)
        position = build.wgs84(case["jd"], glat, glon, gh, "deg", case["unit"])
    else:
        position = build.frame("ITRS", case["jd"], rows, case["unit"], int if integer else float)
    distance = np.linalg.norm(rows - station, axis=1)
    if np.any(distance < 0.5):
        return
    location = build.ground(case["location"])
    azel_of(case, Coordinate(position), location, case["location"], rows)
    # The same position from another location, another position from the same location.
    for spec in case["more"]:
        if np.all(np.linalg.norm(rows - oracles.geodetic_to_itrs(*spec), axis=1) > 0.5):
            azel_of(case, Coordinate(position), build.ground(spec), spec, rows)
    if case["replaced"] is not None:
        changed = np.array(rows)
        changed[case["replaced"][0]] = case["replaced"][1]
        if np.all(np.linalg.norm(changed - station, axis=1) > 0.5):
            azel_of(case, Coordinate(build.frame("ITRS", case["jd"], changed)), location,
                    case["location"], changed)
    true_az, true_el = azel_of(case, Coordinate(position), location, case["location"], rows)
    ctx.nontrivial(lat < 0 or lon < 0 or bool(np.any(true_el < 0)))
    ctx.label("southern", lat < 0)
    ctx.label("pole", abs(lat) > 89.99)
    ctx.label("overhead", bool(np.any(true_el > 89.99)))
    ctx.label("below horizon", bool(np.any(true_el < 0)))
    ctx.label("due north", bool(np.any(np.minimum(true_az, 360 - true_az) < 1e-3)))


def azel_of(case, coordinate, location, spec, rows):
    n, enu, station = len(rows), oracles.enu_matrix(*spec[:2]), oracles.geodetic_to_itrs(*spec)
    distance = np.linalg.norm(rows - station, axis=1)
    azel = coordinate.convert_to(AzEl, location)
    check(azel.location is location or str(azel.location) == str(location), "location changed")
    build.same_times(azel, case["jd"], "horizontal position")
    az = as_array(azel.azimuth.to(u.deg), "azimuth", n)
    el = as_array(azel.elevation.to(u.deg), "elevation", n)
    check(np.isfinite(az).all() and np.isfinite(el).all(), "not finite: %r %r", az, el)
    check(np.all((az >= 0) & (az <= 360)), "azimuth %r out of range", az)
    check(np.all(np.abs(el) <= 90 + 1e-12), "elevation %r out of range", el)
    local = (rows - station) @ enu.T
    true_el = np.degrees(np.arctan2(local[:, 2], np.hypot(local[:, 0], local[:, 1])))
    true_az = np.degrees(np.arctan2(local[:, 0], local[:, 1])) % 360
    slack = np.degrees(2e-7 / distance)
    close(el, true_el, 1e-8 + slack, "elevation", lambda i: "target %r" % rows[i])
    across = wrap_diff(az, true_az, 360) * np.hypot(local[:, 0], local[:, 1]) / distance
    close(across, np.zeros(n), 1e-8 + slack, "azimuth error",
          lambda i: "azimuth %r, expected %r, target %r" % (az[i], true_az[i], rows[i]))
    a, e = np.radians(az), np.radians(el)
    rebuilt = station + distance[:, None] * (
        np.array([np.sin(a) * np.cos(e), np.cos(a) * np.cos(e), np.sin(e)]).T @ enu)
    close(rebuilt.reshape(-1), rows.reshape(-1), np.repeat(1e-6 + 1e-9 * distance, 3), "target rebuilt")
    return true_az, true_el


@law("C11", "long", st.fixed_dictionaries({
    "orbit": gens.orbit(), "location": gens.location(), "jd": gens.jd(), "seed": st.integers(0, 999),
    "n": st.sampled_from([50, 365, 1025, 2100]), "step": st.sampled_from([10.0, 60.0, 600.0]),
    "order": st.sampled_from(["forward", "forward", "backward", "shuffled"]),
    "unit": lengths, "from": st.sampled_from(["ITRS", "WGS84"])}), "always", quick=60)
def azel_long_law(ctx, case):
    """Directions along whole tracks."""
    dt = np.arange(case["n"]) * case["step"]
    if case["order"] == "backward":
        dt = dt[::-1].copy()
    elif case["order"] == "shuffled":
        np.random.RandomState(case["seed"]).shuffle(dt)
    points = oracles.orbit_state(case["orbit"], dt)[0].tolist()
    azel_law(ctx, dict(case, points=points, kind="anywhere", more=[], replaced=None, int=False,
                       jd=(case["jd"] + dt / 86400).tolist()))
    ctx.nontrivial()
