"""Generators of plain (JSON) cases, biased to boundaries."""

import math

from hypothesis import strategies as st

J2000 = 2451545.0

SPECIAL_JD = [
    2451545.0, 2451544.5, 2451545.5, 2455368.75, 2459450.85, 2456293.5416666665,
    2415020.5, 2415021.0, 2433282.5, 2440587.5, 2447892.5, 2451604.5, 2451605.5,
    2451910.5, 2458849.5, 2458908.5, 2459580.5, 2460310.5, 2460369.5, 2488069.5,
    2488070.0, 2462502.5, 2446895.5, 2448908.5, 2430000.0, 2469807.5,
]


def jd(low=2433282.5, high=2488069.5):
    """A Julian date in [low, high]."""
    special = [x for x in SPECIAL_JD if low <= x <= high] or [low]
    return st.one_of(
        st.floats(low, high, allow_nan=False),
        st.integers(math.ceil(low), math.floor(high)).map(float),
        st.integers(math.ceil(low), math.floor(high - 0.5)).map(lambda x: x + 0.5),
        st.sampled_from(special),
        st.tuples(st.sampled_from(special), st.floats(-1, 1)).map(
            lambda t: min(max(t[0] + t[1], low), high)),
    )


def angle(bound):
    """An angle in degrees in [-bound, bound], often special."""
    special = [x for x in (0.0, -0.0, 30.0, 45.0, 60.0, 89.999999, 90.0, 120.0, 135.0,
                           179.999999, 180.0, 1e-7, 1e-12, 0.5, 1.0, 23.4392911)
               if x <= bound]
    special += [-x for x in special]
    return st.one_of(
        st.floats(-bound, bound, allow_nan=False),
        st.integers(-int(bound), int(bound)).map(float),
        st.sampled_from(special + [bound, -bound]),
        st.floats(-1e-3, 1e-3),
        st.floats(bound - 1e-3, bound), st.floats(-bound, -bound + 1e-3),
    )


def latitude():
    return angle(90.0)


def longitude():
    return angle(180.0)


def height_km():
    return st.one_of(st.sampled_from([0.0, 0.076, 0.193, -0.4, 8.848, 400.0, 500.0, 35786.0]),
                     st.floats(-10, 10), st.floats(0, 50000),
                     st.integers(-3, 3000).map(float))


def location():
    """[latitude deg, longitude deg, height km] of a ground location."""
    return st.tuples(latitude(), longitude(),
                     st.one_of(st.sampled_from([0.0, 0.076, -0.4, 8.848]),
                               st.floats(-0.5, 9))).map(list)


def unit_vector():
    """A direction as [x, y, z], often along axes or planes."""
    def normal(v):
        n = math.sqrt(sum(x * x for x in v))
        return [x / n for x in v] if n > 1e-3 else [1.0, 0.0, 0.0]
    axis = st.sampled_from([[1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.],
                            [0., 0., 1.], [0., 0., -1.]])
    number = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 1e-9, -1e-9]))
    return st.one_of(st.tuples(number, number, number).map(normal), axis)


def radius_km():
    return st.one_of(st.sampled_from([6356.0, 6378.137, 6778.0, 7000.0, 26560.0, 42164.0, 384400.0]),
                     st.floats(6400, 9000), st.floats(6357, 100000))


def position_km():
    return st.tuples(unit_vector(), radius_km()).map(
        lambda t: [x * t[1] for x in t[0]])


def orbit():
    """[semi-latus radius km, eccentricity, inclination, node, perigee, anomaly deg]."""
    return st.tuples(
        st.one_of(st.floats(6600, 9000), st.floats(6600, 45000),
                  st.sampled_from([6778.0, 7000.0, 7378.0, 42164.0])),
        st.one_of(st.just(0.0), st.floats(0, 0.02), st.floats(0, 0.7)),
        st.one_of(st.sampled_from([0.0, 90.0, 180.0, 97.6, 51.6, 63.4]), st.floats(0, 180)),
        st.floats(0, 360), st.floats(0, 360), st.floats(0, 360)).map(list)


def series(element, low=1, high=8):
    return st.lists(element, min_size=low, max_size=high)


@st.composite
def related(draw, spec, high=2):
    """Up to `high` other locations, often differing from `spec` in one respect only."""
    out = []
    for _ in range(draw(st.integers(0, high))):
        other, fresh = list(spec), draw(location())
        changed = draw(st.sampled_from(["all", "latitude", "longitude", "height", "sign", "none"]))
        if changed == "sign":
            other = [-other[0], -other[1], other[2]]
        for i, name in enumerate(["latitude", "longitude", "height"]):
            if changed in ("all", name):
                other[i] = fresh[i]
        out.append(other)
    return out
