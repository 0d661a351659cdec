"""C14 solar time, C15 sidereal time, C16 calendar, C17 astronomical quantities."""

import datetime as _datetime
import math
from fractions import Fraction

import erfa
import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates import astronomical_quantities as astro
from celest.time import Time
from celest.units.quantity import Quantity
from harness import gens, oracles
from harness.core import (as_array, check, close, close_wrapped, law, wrap_diff)

wide_jd = st.one_of(gens.jd(), gens.jd(2415020.5, 2488070.0), gens.jd(2305447.5, 2597641.5))
any_longitude = st.one_of(gens.longitude(), st.floats(-1e4, 1e4), st.integers(-720, 720).map(float),
                          st.integers(-72, 72).map(lambda x: 15.0 * x),
                          st.sampled_from([0.0, 360.0, -360.0, 15.0, -15.0, 540.0]))


@st.composite
def times(draw, dates=wide_jd, low=1, high=6):
    """Dates and longitudes in any accepted form."""
    n = draw(st.integers(low, high))
    jd = draw(st.lists(dates, min_size=n, max_size=n))
    form = draw(st.sampled_from(["array", "array", "list", "tuple", "scalar"]))
    lon_form = draw(st.sampled_from(["array", "list", "scalar", "scalar", "ints"]))
    lon = draw(st.lists(any_longitude, min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        parts = draw(st.sampled_from([1, 1, 2, 4, 8]))
        jd = [float(round(x * parts)) / parts for x in jd]
    return {"jd": jd, "form": form, "lon": lon, "lon_form": lon_form,
            "int": draw(st.integers(0, 4)) == 0}


def make_time(case):
    """(Time, dates as float array)."""
    jd = case["jd"]
    if case["int"] and all(x == round(x) for x in jd):
        jd = [int(x) for x in jd]
    if case["form"] == "scalar":
        return Time(jd[0]), np.array(jd[:1], float)
    values = {"array": np.array, "list": list, "tuple": tuple}[case["form"]](jd)
    return Time(values), np.array(jd, float)


def make_longitude(case, n):
    """(argument, longitudes as float array of n)."""
    lon = case["lon"]
    if case["lon_form"] == "scalar":
        return lon[0], np.full(n, lon[0])
    if case["lon_form"] == "ints":
        lon = [int(x) for x in lon]
        return np.array(lon[:n]), np.array(lon[:n], float)
    values = np.array(lon[:n]) if case["lon_form"] == "array" else list(lon[:n])
    return values, np.array(lon[:n], float)


def hours(quantity, n, what):
    """A clock reading in hours, in [0, 24) (24 only by rounding)."""
    x = as_array(quantity.to(u.hourangle), what, n)
    check(np.isfinite(x).all() and np.all((x >= 0) & (x <= 24)), "%s %r is not in [0, 24)", what, x)
    return x


def clock(jd):
    """Hours since midnight, exactly from the Julian date."""
    return np.array([float((Fraction(x) + Fraction(1, 2)) % 1 * 24) for x in jd])


def below_day(readings, jd, lon, what):
    """24 hours is a rounding of 0, which exactly representable times do not need."""
    for x, t, l in zip(readings, jd, lon):
        if t * 16 == round(t * 16) and l % 15 == 0 and abs(l) < 1e6:
            check(x < 24, "%s at %r, longitude %r, is %r, not in [0, 24)", what, t, l, x)


# ------------------------------------------------------------------ C14 ---

@law("C14", "solar", times(),
     "dates and longitudes in every accepted form against the definitions; non-trivial: a "
     "longitude other than 0", quick=2000)
def solar_law(ctx, case):
    time, jd = make_time(case)
    n = len(jd)
    check(len(time) == n, "len() is %r for %d dates", len(time), n)
    argument, lon = make_longitude(case, n)
    mean = hours(time.mean_solar_time(argument), n, "mean solar time")
    true = hours(time.true_solar_time(argument), n, "true solar time")
    expected = clock(jd) + lon / 15
    tol = 1e-9 + 1e-14 * np.abs(lon)
    close_wrapped(mean, expected, 24, tol, "mean solar time", case)
    eot = np.asarray(astro.equation_of_time(time.julian).to(u.deg)).reshape(-1) / 15
    close_wrapped(true - mean, eot, 24, 1e-9 + tol, "true minus mean solar time", case)
    check(np.all(np.abs(eot) < 0.34), "equation of time %r hours", eot)
    hour_angle = hours(time.mean_hour_angle(argument), n, "mean hour angle")
    close_wrapped(hour_angle, mean - 12, 24, 1e-9, "mean hour angle", case)
    below_day(mean, jd, lon, "mean solar time")
    below_day(hour_angle, jd, lon, "mean hour angle")
    below_day(hours(time.ut1(), n, "universal time"), jd, np.zeros(n), "universal time")
    ctx.label("noon or midnight", bool(np.any((jd * 2 == np.round(jd * 2)) & (lon % 180 == 0))))
    close_wrapped(hours(time.true_hour_angle(argument), n, "true hour angle"), true - 12, 24,
                  1e-9, "true hour angle", case)
    close_wrapped(hours(time.ut1(), n, "universal time"), clock(jd), 24, 1e-9, "universal time", case)
    ctx.nontrivial(bool(np.any(lon != 0)))
    ctx.label("per-sample longitudes", case["lon_form"] != "scalar")
    ctx.label("longitude beyond 180", bool(np.any(np.abs(lon) > 180)))
    ctx.label("integer dates", case["int"])


@law("C14", "advance", st.fixed_dictionaries(
    {"jd": wide_jd, "lon": any_longitude, "days": st.floats(-3, 3), "degrees": st.floats(-400, 400)}),
     "mean solar time later and further east; non-trivial: every case", quick=1000)
def advance_law(ctx, case):
    a = hours(Time(case["jd"]).mean_solar_time(case["lon"]), 1, "mean solar time")
    later = case["jd"] + case["days"]
    step = float(Fraction(later) - Fraction(case["jd"]))
    b = hours(Time(later).mean_solar_time(case["lon"]), 1, "mean solar time")
    c = hours(Time(case["jd"]).mean_solar_time(case["lon"] + case["degrees"]), 1, "mean solar time")
    close_wrapped(b - a, [24 * step], 24, 1e-8, "advance with time", case)
    close_wrapped(c - a, [case["degrees"] / 15], 24, 1e-8, "advance with longitude", case)
    ctx.nontrivial()


def long_series(case):
    """A series of dates and longitudes from a seed, in the form `times` gives."""
    random, n = np.random.RandomState(case["seed"]), case["n"]
    jd = random.uniform(2415020.5, 2488070.0, n)
    if case["steady"]:
        jd = jd[0] + np.arange(n) * case["steady"] / 86400
    if case["whole"]:
        jd = np.floor(jd * 2) / 2
    return {"jd": jd.tolist(), "form": case["form"], "lon": random.uniform(-400, 400, n).tolist(),
            "lon_form": case["lon_form"], "int": False}


LONG = st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "n": st.sampled_from([30, 100, 366, 1001, 2100]),
    "steady": st.sampled_from([0, 0, 60, 3600, 86400]), "whole": st.booleans(),
    "form": st.sampled_from(["array", "list"]),
    "lon_form": st.sampled_from(["array", "list", "scalar"])}).map(long_series)


@law("C14", "long", LONG, "always: series of 30 to 2100 dates", quick=60)
def solar_long_law(ctx, case):
    """Whole years and days of dates in one call."""
    solar_law(ctx, case)
    ctx.nontrivial()


def true_equation_of_time(jd):
    """Apparent minus mean solar time in seconds, from ERFA."""
    t = (jd - 2451545.0) / 365250
    mean = 280.4664567 + 360007.6982779 * t + 0.03032028 * t ** 2 + t ** 3 / 49931
    earth = erfa.epv00(jd - 499.004782 / 86400, np.zeros_like(jd))[0]["p"]
    sun = np.einsum("nij,nj->ni", erfa.pnm06a(jd, np.zeros_like(jd)), -earth)
    ra = np.degrees(np.arctan2(sun[:, 1], sun[:, 0]))
    dpsi, deps = erfa.nut06a(jd, np.zeros_like(jd))
    obliquity = erfa.obl06(jd, np.zeros_like(jd)) + deps
    e = mean - 0.0057183 - ra + np.degrees(dpsi) * np.cos(obliquity)
    return wrap_diff(e, 0, 360) * 240


@law("C14", "sun", times(gens.jd(2415020.5, 2488070.0)),
     "the true solar time against the Sun's apparent position; non-trivial: every case", quick=800)
def sun_law(ctx, case):
    time, jd = make_time(case)
    argument, lon = make_longitude(case, len(jd))
    true = hours(time.true_solar_time(argument), len(jd), "true solar time")
    expected = clock(jd) + lon / 15 + true_equation_of_time(jd) / 3600
    close_wrapped(true, expected, 24, 20 / 3600, "true solar time", case)
    ctx.nontrivial()


# ------------------------------------------------------------------ C15 ---

@law("C15", "sidereal", times(gens.jd()),
     "dates in 1950-2100 and longitudes in every accepted form against ERFA; non-trivial: a "
     "longitude other than 0", quick=2000)
def sidereal_law(ctx, case):
    time, jd = make_time(case)
    n = len(jd)
    argument, lon = make_longitude(case, n)
    zero = np.zeros(n)
    gmst = hours(time.gmst(), n, "GMST")
    gast = hours(time.gast(), n, "GAST")
    tenth = 0.1 / 3600
    close_wrapped(gmst, np.degrees(erfa.gmst06(jd, zero, jd, zero)) / 15, 24, tenth, "GMST", case)
    close_wrapped(gast, np.degrees(erfa.gst06a(jd, zero, jd, zero)) / 15, 24, tenth, "GAST", case)
    equation = wrap_diff(gast, gmst, 24) * 3600
    close(equation, np.degrees(erfa.ee06a(jd, zero)) * 240, 0.03, "apparent minus mean (s)", case)
    tol = 1e-9 + 1e-14 * np.abs(lon)
    close_wrapped(hours(time.lmst(argument), n, "LMST"), gmst + lon / 15, 24, tol, "LMST", case)
    close_wrapped(hours(time.last(argument), n, "LAST"), gast + lon / 15, 24, tol, "LAST", case)
    ctx.nontrivial(bool(np.any(lon != 0)))
    ctx.label("per-sample longitudes", case["lon_form"] != "scalar")
    ctx.label("integer dates", case["int"])


@law("C15", "any date", times(st.one_of(wide_jd, gens.jd(1721057.5, 3000000.5))),
     "relations between the sidereal times at any date; non-trivial: a date outside 1950-2100",
     quick=800)
def sidereal_any_law(ctx, case):
    time, jd = make_time(case)
    n = len(jd)
    argument, lon = make_longitude(case, n)
    gmst, gast = hours(time.gmst(), n, "GMST"), hours(time.gast(), n, "GAST")
    tol = 1e-9 + 1e-14 * np.abs(lon)
    close_wrapped(hours(time.lmst(argument), n, "LMST"), gmst + lon / 15, 24, tol, "LMST", case)
    close_wrapped(hours(time.last(argument), n, "LAST"), gast + lon / 15, 24, tol, "LAST", case)
    # The polynomial the mean time cites (Meeus, Astronomical Algorithms, 12.4).
    day = jd.astype(np.longdouble) - 2451545
    century = day / 36525
    published = (np.longdouble("280.46061837") + np.longdouble("360.98564736629") * day +
                 np.longdouble("0.000387933") * century ** 2 - century ** 3 / 38710000) % 360 / 15
    close_wrapped(gmst, published.astype(float), 24, 1e-8 + 1e-14 * np.abs(jd), "published GMST", case)
    # The equation of the equinoxes is stated in seconds of time.
    equation = np.asarray(astro.equation_of_equinoxes(time.julian).data, float).reshape(-1)
    close_wrapped(gast - gmst, equation / 3600, 24, 1e-9, "apparent minus mean", case)
    ctx.nontrivial(bool(np.any((jd < 2433282.5) | (jd > 2488069.5))))


@law("C15", "bulk", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([1, 2, 100, 1500, 4100, 10500])}),
     "long series of dates and longitudes against ERFA; non-trivial: 100 dates or more",
     quick=60, thorough=2000)
def sidereal_bulk_law(ctx, case):
    random = np.random.RandomState(case["seed"])
    n = case["n"]
    jd, lon = random.uniform(2433282.5, 2488069.5, n), random.uniform(-360, 360, n)
    zero = np.zeros(n)
    mean = np.degrees(erfa.gmst06(jd, zero, jd, zero)) / 15
    apparent = np.degrees(erfa.gst06a(jd, zero, jd, zero)) / 15
    tenth = 0.1 / 3600
    order = np.arange(n)
    for again in (False, True):
        if again and n > 3:         # another series with the same ends
            order[1:-1] = random.permutation(order[1:-1])
        time, m, a = Time(jd[order]), mean[order], apparent[order]
        close_wrapped(hours(time.gmst(), n, "GMST"), m, 24, tenth, "GMST")
        close_wrapped(hours(time.gast(), n, "GAST"), a, 24, tenth, "GAST")
        for east in (lon, lon[::-1]):
            close_wrapped(hours(time.lmst(east), n, "LMST"), m + east / 15, 24, tenth, "LMST")
            close_wrapped(hours(time.last(east), n, "LAST"), a + east / 15, 24, tenth, "LAST")
    ctx.nontrivial(n >= 100)


@law("C15", "wrap", st.fixed_dictionaries(
    {"jd": gens.jd(2433300.5, 2488000.5), "lon": st.one_of(st.just(0.0), gens.longitude()),
     "which": st.sampled_from(["mean", "apparent"]), "turns": st.integers(0, 3),
     "width": st.sampled_from([1.2, 0.2, 5.0, 60.0])}),
     "series through sidereal midnight, seconds around it, at Greenwich and elsewhere; "
     "non-trivial: midnight is passed", quick=500)
def sidereal_wrap_law(ctx, case):
    reference = {"mean": lambda jd: erfa.gmst06(jd, 0, jd, 0),
                 "apparent": lambda jd: erfa.gst06a(jd, 0, jd, 0)}[case["which"]]
    start = math.degrees(reference(case["jd"])) + case["lon"]
    midnight = case["jd"] + ((360 - start) % 360 / 360 + case["turns"]) * 0.99726956633
    jd = midnight + np.linspace(-case["width"], case["width"], 41) / 86400
    time, n, zero = Time(jd), len(jd), np.zeros(41)
    tenth = 0.1 / 3600
    mean = np.degrees(erfa.gmst06(jd, zero, jd, zero)) / 15
    apparent = np.degrees(erfa.gst06a(jd, zero, jd, zero)) / 15
    shown = []
    for name, argument, expected in (
            ("gmst", (), mean), ("gast", (), apparent),
            ("lmst", (case["lon"],), mean + case["lon"] / 15),
            ("last", (np.full(n, case["lon"]),), apparent + case["lon"] / 15)):
        shown.append(hours(getattr(time, name)(*argument), n, name.upper()))
        close_wrapped(shown[-1], expected, 24, tenth, name.upper(), case)
    ctx.nontrivial(any(np.ptp(x) > 20 for x in shown))


# ------------------------------------------------------------------ C16 ---

GREGORIAN = 2299160.5


def midnight(y, m, d):
    """Julian date of a civil midnight."""
    return oracles.day_number(y, m, d, (y, m, d) >= (1582, 10, 15)) - 0.5


@st.composite
def civil_jd(draw, first=-4711, last=9998):
    """A Julian date, usually at or around a calendar boundary."""
    kind = draw(st.sampled_from(["any", "date", "date", "year", "century", "reform"]))
    if kind == "any":
        return draw(st.floats(midnight(first, 1, 2), midnight(last, 12, 31)))
    if kind == "reform":
        return GREGORIAN + draw(st.one_of(st.integers(-12, 12).map(float), st.floats(-12, 12),
                                          st.integers(-24, 24).map(lambda x: x / 2)))
    if kind == "date":
        y = draw(st.one_of(st.integers(first, last), st.integers(1800, 2200)))
        m = draw(st.integers(1, 12))
        day = draw(st.sampled_from([1, 1, 2, 15, 28, 28, 29, 30, 31]))
    else:
        y = draw(st.integers(first, last)) if kind == "year" else \
            100 * draw(st.integers(first // 100 + 1, last // 100))
        y += draw(st.sampled_from([0, 0, 0, 1, -1, 4, 3]))
        m, day = draw(st.sampled_from([(1, 1), (12, 31), (2, 28), (2, 29), (3, 1), (2, 27)]))
    y = min(max(y, first), last)
    jd = midnight(y, m, day)
    part = draw(st.one_of(st.sampled_from([0.0, 0.0, 0.5, 0.25, 1e-8, 0.99999999, 1 / 86400,
                                           86399 / 86400]),
                          st.floats(0, 0.999999)))
    return jd + part


def true_date(jd):
    """(year, month, decimal day, distance of the date to a midnight in days)."""
    x = Fraction(jd) + Fraction(1, 2)
    n = math.floor(x)
    y, m, d = oracles.calendar(n)
    f = x - n
    return y, m, d, float(f), float(min(f, 1 - f))


def month_length(y, m):
    if m == 2:
        leap = y % 4 == 0 and (y < 1582 or y % 100 != 0 or y % 400 == 0)
        return 29 if leap else 28
    return 30 if m in (4, 6, 9, 11) else 31


@st.composite
def series_of_dates(draw, first=-4711, last=9998):
    return {"jd": draw(st.lists(civil_jd(first, last), min_size=1, max_size=7)),
            "form": draw(st.sampled_from(["array", "array", "scalar", "np", "ints", "np int"]))}


def quantity(case):
    jd = case["jd"]
    if case["form"] in ("ints", "np int"):
        jd = [int(x) for x in jd]
    if case["form"] in ("scalar", "np", "np int"):
        value = {"scalar": float, "np": np.float64, "np int": np.int64}[case["form"]](jd[0])
        return Quantity(value, u.jd2000), np.array(jd[:1], float)
    return Quantity(np.array(jd), u.jd2000), np.array(jd, float)


@law("C16", "date", series_of_dates(),
     "mixed series of Julian dates from 4712 BC to AD 9998 against an independent calendar; "
     "non-trivial: a date within a day of a year, February or calendar boundary", quick=3000)
def date_law(ctx, case):
    q, jd = quantity(case)
    n = len(jd)
    result = astro.from_julian(q)
    check(isinstance(result, tuple) and len(result) == 3, "from_julian gives %r", result)
    year, month, day = (as_array(x, what, n) for x, what in zip(result, ("year", "month", "day")))
    number = as_array(astro.day_of_year(q), "day of year", n)
    for i in range(n):
        y, m, d, f, gap = true_date(jd[i])
        what = "Julian date %r (%d-%d-%r)" % (jd[i], y, m, d + f)
        gy, gm, gd = year[i], month[i], day[i]
        check(gy == int(gy) and gm == int(gm) and 1 <= gm <= 12, "%s: year %r month %r", what, gy, gm)
        gy, gm = int(gy), int(gm)
        check(1 <= gd < month_length(gy, gm) + 1, "%s gives %d-%d-%r", what, gy, gm, gd)
        # The instant the result denotes.
        back = oracles.day_number(gy, gm, math.floor(gd), (gy, gm, math.floor(gd)) >= (1582, 10, 15))
        error = Fraction(back) - Fraction(1, 2) + Fraction(gd) - math.floor(gd) - Fraction(jd[i])
        check(abs(error) < 2e-9, "%s gives %d-%d-%r", what, gy, gm, gd)
        if gap == 0 or gap > 2e-9:
            check((gy, gm, math.floor(gd)) == (y, m, d), "%s gives %d-%d-%r", what, gy, gm, gd)
            true_number = sum(month_length(y, k) for k in range(1, m)) + d
            if y == 1582 and (m, d) >= (10, 15):
                continue                       # the truncated year is not judged
            check(number[i] == true_number, "%s is day %r of the year, expected %d", what,
                  number[i], true_number)
        ctx.label("before 1582", jd[i] < GREGORIAN)
        ctx.label("midnight", gap == 0)
        edge = (m, d) in ((1, 1), (12, 31), (2, 28), (2, 29), (3, 1)) or abs(jd[i] - GREGORIAN) < 12
        ctx.nontrivial(edge)
        ctx.label("century year", y % 100 == 0 and edge)


@law("C16", "datetime", series_of_dates(2, 9998),
     "date-time objects of mixed series against the independent calendar; non-trivial: a date "
     "within a day of a year, February or calendar boundary", quick=2500)
def datetime_law(ctx, case):
    q, jd = quantity(dict(case, form="array" if case["form"] != "ints" else "ints"))
    keep = []
    for x in jd:
        y, m, d, f, _ = true_date(x)
        # 29 February of a Julian century year is no date of Python's calendar.
        odd = y < 1582 and y % 100 == 0 and y % 400 != 0 and (m, d) in ((2, 28), (2, 29), (3, 1))
        keep.append(not odd)
    jd = jd[np.array(keep)]
    if not len(jd):
        return
    values = Time(jd if case["form"] != "scalar" else float(jd[0])).datetime()
    count = len(jd) if case["form"] != "scalar" else 1
    check(len(values) == count, "%d date-times for %d dates", len(values), count)
    for x, got in zip(jd, values):
        y, m, d, f, gap = true_date(x)
        check(isinstance(got, _datetime.datetime), "got %r", got)
        expected = _datetime.datetime(y, m, d) + _datetime.timedelta(microseconds=round(f * 86400e6))
        error = abs((got - expected).total_seconds())
        check(error <= 2e-4, "Julian date %r is %s, expected %s", x, got, expected)
        ctx.nontrivial((m, d) in ((1, 1), (12, 31), (2, 28), (2, 29), (3, 1))
                       or abs(x - GREGORIAN) < 12)
        ctx.label("after the reform", x >= GREGORIAN)
        ctx.label("midnight", gap == 0)


@st.composite
def many_dates(draw):
    """A series through decades or centuries, from a seed."""
    random = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    n = draw(st.sampled_from([40, 366, 1001, 2100]))
    kind = draw(st.sampled_from(["days", "half days", "mixed", "modern"]))
    start = draw(st.sampled_from([2451544.5, 2415020.5, 2299150.5, 2305447.5, 2342031.5]))
    jd = {"days": start + np.arange(n), "half days": start + np.arange(n) / 2,
          "mixed": random.uniform(1721426.0, 5373000.0, n),
          "modern": random.uniform(2415020.5, 2488070.0, n)}[kind]
    if kind == "mixed" and draw(st.booleans()):
        jd = np.floor(jd) + 0.5
    return {"jd": jd.tolist(), "form": "array"}


@law("C16", "many dates", many_dates(), "always: series of 40 to 2100 dates", quick=40)
def long_date_law(ctx, case):
    """Calendars of whole years, reform and century ends included, in one call."""
    date_law(ctx, case)
    datetime_law(ctx, case)
    ctx.nontrivial()


OFFSETS = [0, 2400000.5, 2430000, 2400000, 2451545.0, 0.5, -0.5, 1, 2415020]


@law("C16", "offset", st.fixed_dictionaries(
    {"jd": st.lists(st.one_of(gens.jd(), st.integers(2434000, 2488000).map(float)), min_size=1,
                    max_size=5),
     "offset": st.one_of(st.sampled_from(OFFSETS), st.floats(0, 2433000)),
     "form": st.sampled_from(["array", "list", "ints", "scalar"]), "lon": gens.longitude()}),
     "times built with an offset against the dates with the offset added; non-trivial: offset "
     "not 0", quick=800)
def offset_law(ctx, case):
    raw = [x - case["offset"] for x in case["jd"]]
    if case["form"] == "ints":
        raw = [int(x) for x in raw]
    total = np.array([x + case["offset"] for x in raw], float)
    given = {"array": np.array(raw), "list": raw, "ints": np.array(raw), "scalar": raw[0]}[case["form"]]
    if case["form"] == "scalar":
        total = total[:1]
    kept = np.array(given).copy()
    time, plain = Time(given, case["offset"]), Time(total)
    check(np.array_equal(np.asarray(given), kept), "the dates given were changed")
    close(time.julian.to(u.jd2000), total, 0.0, "Julian dates", case)
    for name in ("gmst", "gast", "ut1"):
        close(getattr(time, name)().data, getattr(plain, name)().data, 1e-12, name, case)
    close(time.true_solar_time(case["lon"]).data, plain.true_solar_time(case["lon"]).data, 1e-12,
          "true solar time", case)
    check(list(time.datetime()) == list(plain.datetime()), "date-times differ: %r", case)
    ctx.nontrivial(case["offset"] != 0)


@law("C16", "any epoch", st.fixed_dictionaries(
    {"jd": st.lists(st.one_of(st.floats(0, 5373484), st.integers(0, 5373484).map(float),
                              st.floats(0, 100), st.floats(100, 90000)), min_size=1, max_size=5),
     "offset": st.sampled_from([0, 0, 0, 0.5, -0.5, 1, 100, 2400000.5, -1000])}),
     "dates from 4713 BC on with and without an offset: kept as they are, and the same times for "
     "the dates with the offset added; non-trivial: a date before 1500 BC", quick=600)
def epoch_law(ctx, case):
    given = np.array(case["jd"])
    total = given + case["offset"]
    time, plain = Time(given, case["offset"]), Time(total)
    close(time.julian.to(u.jd2000), total, 0.0, "Julian dates", case)
    check(len(time) == len(given), "%d times of %d dates", len(time), len(given))
    for name in ("gmst", "gast", "ut1"):
        close(getattr(time, name)().data, getattr(plain, name)().data, 1e-12, name, case)
    hours = (24.0 * (total % 1) - 12) % 24
    gap = np.abs(time.ut1().to(u.hourangle) - hours)
    check(np.all(np.minimum(gap, 24 - gap) < 1e-6), "universal times %r, expected %r",
          time.ut1().to(u.hourangle), hours)
    ctx.nontrivial(bool(np.any(total < 1173000)))


# ------------------------------------------------------------------ C17 ---

@st.composite
def epochs(draw, dates):
    n = draw(st.integers(1, 5))
    return {"jd": draw(st.lists(dates, min_size=n, max_size=n)),
            "form": draw(st.sampled_from(["array", "array", "array", "scalar"]))}


def epoch(case):
    if case["form"] == "scalar":
        return Quantity(case["jd"][0], u.jd2000), np.array(case["jd"][:1])
    return Quantity(np.array(case["jd"]), u.jd2000), np.array(case["jd"])


def angle(quantity_, n, what, unit=u.deg):
    return as_array(quantity_.to(unit), what, n)


def in_turn(x, what):
    check(np.all((x >= 0) & (x <= 360)), "%s %r is not in [0, 360)", what, x)


def reference_values(jd):
    """name: (function, reference in degrees, tolerance in arc seconds, wrapped)."""
    zero = np.zeros_like(jd)
    t = (jd - 2451545.0) / 36525
    deg = np.degrees
    dpsi, deps = erfa.nut06a(jd, zero)
    mean = erfa.obl06(jd, zero)
    p = erfa.p06e(jd, zero)
    sun = np.einsum("nij,nj->ni", erfa.pmat06(jd, zero), -erfa.epv00(jd, zero)[0]["p"])
    return {
        "elongation": (lambda q: astro.nutation_angles(q)[0], deg(erfa.fad03(t)), 1.2, True),
        "sun anomaly": (lambda q: astro.nutation_angles(q)[1], deg(erfa.falp03(t)), 7, True),
        "moon anomaly": (lambda q: astro.nutation_angles(q)[2], deg(erfa.fal03(t)), 4, True),
        "latitude argument": (lambda q: astro.nutation_angles(q)[3], deg(erfa.faf03(t)), 2.5, True),
        "node": (lambda q: astro.nutation_angles(q)[4], deg(erfa.faom03(t)), 0.4, True),
        "nutation in longitude": (lambda q: astro.nutation_components(q)[0], deg(dpsi), 0.45, False),
        "nutation in obliquity": (lambda q: astro.nutation_components(q)[1], deg(deps), 0.13, False),
        "mean obliquity": (astro.mean_obliquity, deg(mean), 0.12, False),
        "apparent obliquity": (astro.apparent_obliquity, deg(mean + deps), 0.25, False),
        "zeta": (lambda q: astro.conventional_precession_angles(q)[0], deg(p[10]), 0.1, False),
        "theta": (lambda q: astro.conventional_precession_angles(q)[1], deg(p[11]), 0.03, False),
        "z": (lambda q: astro.conventional_precession_angles(q)[2], deg(p[9]), 0.1, False),
        "earth rotation angle": (astro.earth_rotation_angle, deg(erfa.era00(jd, zero)), 6, True),
        "sun right ascension": (astro.sun_right_ascension, deg(np.arctan2(sun[:, 1], sun[:, 0])),
                                54, True),
        "equation of time": (astro.equation_of_time, true_equation_of_time(jd) / 240, 105, False),
        # Stated in seconds of time under the arc-second unit (Meeus's formula).
        "equation of the equinoxes": (astro.equation_of_equinoxes,
                                      deg(erfa.ee06a(jd, zero)) / 15, 0.03, False),
    }


modern = st.one_of(gens.jd(2415020.5, 2488070.0), st.sampled_from([2415020.5, 2488069.5, 2451545.0]))


@law("C17", "models", epochs(modern),
     "every quantity at dates in 1900-2100 against ERFA; non-trivial: a date other than J2000",
     quick=1500)
def models_law(ctx, case):
    q, jd = epoch(case)
    for name, (function, expected, tolerance, wrapped) in reference_values(jd).items():
        got = angle(function(q), len(jd), name)
        error = np.abs(wrap_diff(got, expected, 360)) * 3600
        check(np.isfinite(error).all(), "%s is %r", name, got)
        i = int(np.argmax(error))
        check(error[i] <= tolerance, "%s at %r is %r, expected %r (off by %.3f arc seconds)", name,
              jd[i], got[i], expected[i], error[i])
        if wrapped:
            in_turn(got, name)
    ctx.nontrivial(bool(np.any(jd != 2451545.0)))
    ctx.label("early", bool(np.any(jd < 2433282.5)))


def published_values(jd):
    """name: (function, the published formula's value or values in degrees, arc seconds)."""
    t = (jd - 2451545.0) / 36525

    def poly(*terms):
        return sum(c * t ** k for k, c in enumerate(terms))
    sin, cos = (lambda x: np.sin(np.radians(x))), (lambda x: np.cos(np.radians(x)))
    node = poly(125.04452, -1934.136261, 0.0020708, 1 / 450000)
    sun, moon = poly(280.4665, 36000.7698), poly(218.3165, 481267.8813)
    dpsi = -17.20 * sin(node) - 1.32 * sin(2 * sun) - 0.23 * sin(2 * moon) + 0.21 * sin(2 * node)
    deps = 9.20 * cos(node) + 0.57 * cos(2 * sun) + 0.10 * cos(2 * moon) - 0.09 * cos(2 * node)
    v = t / 100
    mean = sum(c * v ** k for k, c in enumerate(
        (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45))) / 3600
    e = poly(0.016708634, -0.000042037, -0.0000001267)
    y = np.tan(np.radians(mean + deps / 3600) / 2) ** 2
    ascensions, equations = [], []
    # Meeus prints the Sun's mean longitude and anomaly with either set of constants.
    for sun in (poly(280.46646, 36000.76983, 0.0003032), poly(280.46645, 36000.76983)):
        for anomaly in (poly(357.52911, 35999.05029, -0.0001537),
                        poly(357.52772, 35999.050340, -0.0001603, -1 / 300000)):
            center = (1.914602 - 0.004817 * t - 0.000014 * t ** 2) * sin(anomaly) + \
                (0.019993 - 0.000101 * t) * sin(2 * anomaly) + 0.000289 * sin(3 * anomaly)
            ascensions.append(np.degrees(np.arctan2(cos(mean) * sin(sun + center),
                                                    cos(sun + center))))
            equations.append(np.degrees(
                y * sin(2 * sun) - 2 * e * sin(anomaly)
                + 4 * e * y * sin(anomaly) * cos(2 * sun) - y ** 2 / 2 * sin(4 * sun)
                - 1.25 * e ** 2 * sin(2 * anomaly)))
    angles, parts = astro.nutation_angles, astro.conventional_precession_angles
    return {
        "elongation": (lambda q: angles(q)[0],
                       poly(297.85036, 445267.111480, -0.0019142, 1 / 189474), 1e-5),
        "sun anomaly": (lambda q: angles(q)[1],
                        poly(357.52772, 35999.050340, -0.0001603, -1 / 300000), 1e-5),
        "moon anomaly": (lambda q: angles(q)[2],
                         poly(134.96298, 477198.867398, 0.0086972, 1 / 56250), 1e-5),
        "latitude argument": (lambda q: angles(q)[3],
                              poly(93.27191, 483202.017538, -0.0036825, 1 / 327270), 1e-5),
        "node": (lambda q: angles(q)[4], node, 1e-5),
        "nutation in longitude": (lambda q: astro.nutation_components(q)[0], dpsi / 3600, 2e-5),
        "nutation in obliquity": (lambda q: astro.nutation_components(q)[1], deps / 3600, 2e-5),
        "mean obliquity": (astro.mean_obliquity, mean, 1e-8),
        "apparent obliquity": (astro.apparent_obliquity, mean + deps / 3600, 2e-5),
        "zeta": (lambda q: parts(q)[0], poly(2.59796176, 2306.0809506, 0.3019015, 0.0179663,
                                             -0.0000327, -0.0000002) / 3600, 1e-8),
        "theta": (lambda q: parts(q)[1], poly(0, 2004.1917476, -0.4269353, -0.0418251, -0.0000601,
                                              -0.0000001) / 3600, 1e-8),
        "z": (lambda q: parts(q)[2], poly(-2.5976176, 2306.0803226, 1.0947790, 0.0182273,
                                          0.0000470, -0.0000003) / 3600, 1e-8),
        "earth rotation angle": (astro.earth_rotation_angle,
                                 280.46 + 360.9856123035484 * (jd - 2451545.0), 1e-3),
        "sun right ascension": (astro.sun_right_ascension, ascensions, 1e-5),
        "equation of time": (astro.equation_of_time, equations, 1e-5),
        "equation of the equinoxes": (astro.equation_of_equinoxes,
                                      dpsi * cos(mean + deps / 3600) / 15 / 3600, 1e-5),
    }


@law("C17", "published", epochs(modern),
     "every quantity at dates in 1900-2100 against the published formula it cites; non-trivial: "
     "a date other than J2000", quick=1500)
def published_law(ctx, case):
    q, jd = epoch(case)
    for name, (function, expected, tolerance) in published_values(jd).items():
        got = angle(function(q), len(jd), name)
        options = expected if isinstance(expected, list) else [expected]
        errors = [np.abs(wrap_diff(got, x, 360)) * 3600 for x in options]
        k = int(np.argmin([np.max(x) for x in errors]))
        i = int(np.argmax(errors[k]))
        check(errors[k][i] <= tolerance, "%s at %r is %r, the published formula gives %r (off by "
              "%.3g arc seconds)", name, jd[i], got[i], options[k][i], errors[k][i])
    ctx.nontrivial(bool(np.any(jd != 2451545.0)))


@law("C17", "sweep", st.fixed_dictionaries(
    {"seed": st.integers(0, 2 ** 31), "n": st.sampled_from([10, 300, 1500])}),
     "many dates in 1900-2100 in one call against ERFA; non-trivial: every case",
     quick=40, thorough=1500)
def sweep_law(ctx, case):
    jd = np.random.RandomState(case["seed"]).uniform(2415020.5, 2488069.5, case["n"])
    models_law(ctx, {"jd": list(jd), "form": "array"})
    ctx.nontrivial()


@law("C17", "relations", epochs(st.one_of(wide_jd, gens.jd(1721057.5, 3000000.5))),
     "relations between the quantities and their ranges at any date; non-trivial: a date outside "
     "1900-2100", quick=1200)
def relations_law(ctx, case):
    q, jd = epoch(case)
    n = len(jd)
    dpsi, deps = (angle(x, n, "nutation", u.arcsec) for x in astro.nutation_components(q))
    mean = angle(astro.mean_obliquity(q), n, "mean obliquity")
    apparent = angle(astro.apparent_obliquity(q), n, "apparent obliquity")
    close(apparent, mean + deps / 3600, 1e-10, "apparent obliquity", case)
    equation = angle(astro.equation_of_equinoxes(q), n, "equation of equinoxes", u.arcsec)
    close(equation, dpsi * np.cos(np.radians(apparent)) / 15, 1e-9, "equation of the equinoxes", case)
    check(np.all(np.abs(dpsi) < 20) and np.all(np.abs(deps) < 11), "nutation %r %r", dpsi, deps)
    angles = astro.nutation_angles(q)
    check(len(angles) == 5, "%d nutation angles", len(angles))
    for i, x in enumerate(angles):
        in_turn(angle(x, n, "nutation angle %d" % i), "nutation angle %d" % i)
    in_turn(angle(astro.earth_rotation_angle(q), n, "Earth rotation angle"), "Earth rotation angle")
    in_turn(angle(astro.sun_right_ascension(q), n, "right ascension"), "right ascension")
    # The Earth rotation angle advances uniformly at the IAU rate.
    later = Quantity(jd + 0.25, u.jd2000)
    step = angle(astro.earth_rotation_angle(later), n, "Earth rotation angle") - \
        angle(astro.earth_rotation_angle(q), n, "Earth rotation angle")
    close_wrapped(step, np.full(n, 0.25 * 360.98561230), 360, 1e-5, "Earth rotation in 6 hours", case)
    ctx.nontrivial(bool(np.any((jd < 2415020.5) | (jd > 2488070))))


