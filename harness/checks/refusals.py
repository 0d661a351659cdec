"""C31: input outside the documented domain is refused, and nothing changes."""

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates import transforms
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import WindowCollection
from celest.satellite import Satellite
from celest.schedule.scheduler import Scheduler
from celest.time import Time
from celest.units.quantity import Quantity
from harness import ephemeris
from harness.checks import purity
from harness.core import Fail, check, law, raises

# Each entry: (exceptions, variants(world) -> list of callables that must raise).
REFUSALS = {}


def refusal(name, kinds):
    def register(function):
        REFUSALS[name] = (kinds, function)
        return function
    return register


def not_positions(w):
    """Objects that are no position of the Earth-fixed, inertial or geographic frame."""
    return [w.lvlh, w.azel, w.attitude, w.time, w.julian, w.satellite, w.location, None, "gcrs",
            w.arrays["x"], w.coordinates["gcrs"], GCRS, [1.0, 2.0, 3.0]]


@refusal("coordinate of another object", ValueError)
def _(w):
    return [lambda x=x: Coordinate(x) for x in not_positions(w)]


@refusal("horizontal coordinates of no location", ValueError)
def _(w):
    return [lambda c=c, a=a: c.convert_to(AzEl, *a) for c in w.coordinates.values()
            for a in ((), (None,))]


@refusal("satellite at another object", ValueError)
def _(w):
    return [lambda x=x, v=v: Satellite(x, *v) for x in not_positions(w) + [w.wgs84]
            for v in ((), (w.velocity,))]


@refusal("satellite moving as another object", ValueError)
def _(w):
    return [lambda x=x: Satellite(w.position, x) for x in not_positions(w) + [w.wgs84]
            if x is not None]


def bare(w):
    return Satellite(w.position)


@refusal("attitude without velocity", ValueError)
def _(w):
    return [lambda: bare(w).attitude(w.location)]


@refusal("windows without velocity", Warning)
def _(w):
    return [lambda t=t, l=l: generate_vtws(bare(w), w.location, t, l) for t in (0, 10.0, 90)
            for l in Lighting]


@refusal("threshold out of range", ValueError)
def _(w):
    return [lambda t=t, l=l: generate_vtws(w.satellite, w.location, t, l)
            for t in (-1, -1e-9, 90.0000001, 91, 180.0, 1e9, -90, float("inf"), -float("inf"))
            for l in Lighting]


@refusal("no such lighting", ValueError)
def _(w):
    # Visible or not, the lighting asked for does not exist.
    return [lambda x=x, t=t: generate_vtws(w.satellite, w.location, t, x)
            for x in ("DAYTIME", "day", 2, -2, 1.5, Lighting, [], 10) for t in (0, 40)]


@refusal("times of two dimensions", ValueError)
def _(w):
    jd = w.arrays["jd"]
    return [lambda a=a: Time(a) for a in (
        jd.reshape(-1, 1), jd.reshape(1, -1), jd.reshape(1, 1, -1), np.tile(jd, (2, 1)),
        [[float(x)] for x in jd], np.zeros((0, 2)))] + [
        lambda: Time(jd.reshape(-1, 1), 2400000.5), lambda: Time(jd.reshape(1, -1), offset=0)]


def wrong(function, right, w):
    return [lambda x=x: function(x) for x in (w.gcrs, w.itrs, w.wgs84, w.lvlh)
            if not isinstance(x, right)]


@refusal("transformation of another frame", ValueError)
def _(w):
    t = transforms
    return (wrong(t._gcrs_to_itrs, GCRS, w) + wrong(t._itrs_to_gcrs, ITRS, w) +
            wrong(t._itrs_to_wgs84, ITRS, w) + wrong(t._wgs84_to_itrs, WGS84, w) +
            wrong(lambda x: t._itrs_to_azel(x, w.location), ITRS, w) +
            wrong(lambda x: t._gcrs_to_lvlh(x, w.gcrs), GCRS, w) +
            wrong(lambda x: t._gcrs_to_lvlh(w.gcrs, x), GCRS, w))


@refusal("scheduler of another object", TypeError)
def _(w):
    return [lambda x=x, t=t: Scheduler(x, t) for x in (
        None, w.itrs, w.gcrs, Satellite, "satellite", w.coordinates["itrs"], [w.satellite])
        for t in (10, 10.0)]


@refusal("scheduler with another threshold", TypeError)
def _(w):
    return [lambda t=t: Scheduler(w.satellite, t) for t in (
        None, "10", [10], (10,), np.array([10.0]), Quantity(10.0, u.deg), {})]


@refusal("schedule of no requests", Exception)
def _(w):
    return [lambda: Scheduler(w.satellite, 10).generate(n, 0.8, 0.5) for n in (0, 5)]


@refusal("unit raised to no number", TypeError)
def _(w):
    return [lambda x=x, p=p: x ** p for x in (u.m, u.s, u.deg, u.jd2000, u.km, u.m / u.s, 2 * u.km,
                                              u.m ** 2)
            for p in ("2", None, u.m, [2], (1,), Quantity(2.0, u.m), 1j)]


@refusal("positions of unequal or deep arrays", ValueError)
def _(w):
    a, out = w.arrays, []
    longer = np.append(a["x"], 1.0)
    deep = a["x"].reshape(-1, 1)
    for cls in (GCRS, ITRS, LVLH):
        out += [lambda c=cls, y=y: c(a["jd"], a["x"], y, a["z"], u.km) for y in (longer, deep)]
        out += [lambda c=cls: c(np.append(a["jd"], 0.0), a["x"], a["y"], a["z"], u.km)]
    out += [lambda y=y: WGS84(a["jd"], a["lat"], a["glon"], y, u.deg, u.km) for y in (longer, deep)]
    out += [lambda y=y: AzEl(a["jd"], y, a["x"], u.deg, w.location) for y in (longer, deep)]
    out += [lambda y=y: Attitude(a["jd"], a["x"], a["y"], y, u.deg, w.location)
            for y in (longer, deep)]
    return out


@refusal("locations off the globe", ValueError)
def _(w):
    return [lambda x=x: GroundLocation(*x, u.deg, u.km) for x in (
        (90.001, 0, 0), (-90.001, 0, 0), (0, 180.001, 0), (0, -180.001, 0), (91, 181, 0),
        (0, 360, 0), (-1e9, 0, 0))]


@refusal("windows of another kind", TypeError)
def _(w):
    return [lambda x=x: w.windows.add_window(x) for x in (w.members[1], None, w.attitude, w.windows,
                                                          "window", list(w.windows))] + [
        lambda x=x: w.observations.add_window(x) for x in (w.members[0], None, w.location, 0)]


@refusal("quantities of another dimension", (ValueError, ArithmeticError))
def _(w):
    return [lambda: w.itrs.x.to(u.s), lambda: w.itrs.x.convert_to(u.deg), lambda: w.itrs.to_numpy(u.rad),
            lambda: w.itrs.x + w.julian, lambda: w.velocity.x - w.itrs.x, lambda: w.itrs.x < w.velocity.y,
            lambda: w.location.latitude.to(u.km), lambda: w.wgs84.height.to(u.deg)]


@refusal("saving no windows", Exception)
def _(w):
    return [lambda: WindowCollection().save_text_file("none")]


@st.composite
def cases(draw):
    world = draw(purity.worlds(1, 4))
    world["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(sorted(REFUSALS)), st.integers(0, 200),
        st.sampled_from(sorted(purity.EFFECTS))).map(list), min_size=1, max_size=5))
    return world


@law("C31", "refusals", cases(), "two or more different refusals", quick=1500, cap=120)
def refused(ctx, case):
    """Every refusal has its documented error, changes nothing and does not change later answers."""
    columns = purity.expand(case["samples"])
    world = purity.World(columns, case)
    before = world.snapshot()
    with ephemeris.installed():
        for name, variant, operation in case["ops"]:
            kinds, make = REFUSALS[name]
            first = purity.EFFECTS[operation](world)
            kept = {k: v if k == "text" else (np.array(v[0], float), v[1], v[2])
                    for k, v in first.items()}
            variants = make(world)
            k = variant % len(variants)
            raises(kinds, variants[k], "%s (%d)" % (name, k))
            purity.unchanged(before, world, name)
            purity.equal(purity.EFFECTS[operation](world), kept, "%s after %s" % (operation, name))
            ctx.label(name)
    ctx.nontrivial(len({op[0] for op in case["ops"]}) > 1)


@law("C31", "requests", st.tuples(purity.worlds(2, 4), st.lists(st.sampled_from(
    ["request", "lighting", "threshold", "velocity", "generate"]), min_size=2, max_size=8),
    st.integers(0, 3)).map(list), "a request refused among others accepted", quick=300, cap=120)
def requests(ctx, case):
    """A refused request leaves the scheduler as it was."""
    world, moves, seed = case
    columns = purity.expand(world["samples"])
    columns["jd"] = columns["jd"].min() + np.arange(len(columns["jd"])) / 1440     # in order
    w = purity.World(columns, world)
    scheduler = Scheduler(w.satellite, 10.0)
    day = float(w.arrays["jd"].max())
    accepted = refused_ = 0
    with ephemeris.installed():
        for k, move in enumerate(moves):
            arguments = [w.location, day + 1, 10.0 + k, 1 + k, 1]
            # What the scheduler is given only for one call.
            if move == "request":
                scheduler.add_request(*arguments, None, Lighting.ANYTIME)
                accepted += 1
            elif move == "generate" and not accepted:
                raises(Exception, lambda: scheduler.generate(2, 0.8, 0.5), "a schedule of no requests")
            elif move == "generate":
                check(len(scheduler.generate(2, 0.8, 0.5)) <= accepted, "more windows than requests")
            else:
                refused_ += 1
                if move == "lighting":
                    raises(ValueError, lambda: scheduler.add_request(*arguments, None, "day"),
                           "a request of no lighting")
                elif move == "threshold":
                    scheduler.visibility_threshold = [-1, 90.5][seed % 2]
                    raises(ValueError, lambda: scheduler.add_request(*arguments),
                           "a request with threshold %r" % scheduler.visibility_threshold)
                    scheduler.visibility_threshold = 10.0
                else:
                    scheduler.satellite = Satellite(w.position)
                    raises(Warning, lambda: scheduler.add_request(*arguments),
                           "a request of a satellite without velocity")
                    scheduler.satellite = w.satellite
            check(len(scheduler.request_handler) == accepted and
                  len(list(scheduler.request_handler)) == accepted,
                  "%d requests after %d accepted and %d refused", len(scheduler.request_handler),
                  accepted, refused_)
    ctx.nontrivial(accepted > 0 and refused_ > 0)


@law("C31", "accepted", st.tuples(purity.worlds(1, 3), st.sampled_from([0, 90, 0.0, 90.0, 1, 89.5])
                                  ).map(list), "always", quick=200)
def accepted(ctx, case):
    """What lies just inside the domain is taken."""
    world, threshold = case
    w = purity.World(purity.expand(world["samples"]), world)
    with ephemeris.installed():
        for lighting in Lighting:
            check(isinstance(generate_vtws(w.satellite, w.location, threshold, lighting),
                             WindowCollection), "no windows for %r", threshold)
    Scheduler(w.satellite, threshold)
    for frame in (w.gcrs, w.itrs):
        Coordinate(frame)
        check(Satellite(frame).velocity is None, "a satellite made without velocity has one")
        Satellite(frame, w.velocity)
    Coordinate(w.wgs84)
    for jd in (w.arrays["jd"], float(w.arrays["jd"][0]), list(w.arrays["jd"]), tuple(w.arrays["jd"]),
               np.float64(w.arrays["jd"][0])):
        got = np.asarray(Time(jd).julian.data)
        if not (got.ndim == 1 and np.array_equal(got, np.atleast_1d(np.asarray(jd, float)))):
            raise Fail("the times %r became %r" % (jd, got))
    for lat, lon in ((90, 180), (-90, -180), (90.0, -180.0), (0, 0)):
        GroundLocation(lat, lon, 0, u.deg, u.km)
    ctx.nontrivial()
