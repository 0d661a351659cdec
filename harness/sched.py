"""Request sets for the scheduling laws: generation, construction and feasibility.

A world is plain JSON: {"base": jd, "pitch": [amplitude deg, period min, phase],
"requests": [{"dur": s, "priority", "quality", "deadline": minute, "look": deg or None,
"vtws": [[rise minute, set minute], ...], "placed": [window, fraction] or None}]}.
Minutes are on a quarter-minute grid, the samples of the attitude. Requests are
identified by their duration, unique in a world.
"""

import math
import random

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.schedule.request_handler import RequestHandler, RequestIndices
from celest.units.quantity import Quantity
from harness import build
from harness.core import Fail, check

HORIZON = 120           # minutes
GRID = 4                # samples per minute
MINUTE = 1 / 1440
EPS = 2e-8              # days (2 ms): Julian dates resolve 4e-10


@st.composite
def world(draw, low=1, high=6, looks=True, placed=True, max_vtws=4, distinct=False):
    n = draw(st.integers(low, high))
    crowded = draw(st.booleans())
    span = 30 if crowded else HORIZON
    minute = st.one_of(st.integers(0, span).map(float),
                       st.integers(0, span * GRID).map(lambda x: x / GRID))
    priorities = list(range(1, 11))
    if distinct:
        priorities = draw(st.permutations(priorities))
    requests, pool = [], []
    for k in range(n):
        vtws = []
        for _ in range(draw(st.integers(0 if draw(st.integers(0, 5)) == 0 else 1, max_vtws))):
            if pool and draw(st.integers(0, 2)) == 0:       # shared with another request
                vtws.append(list(draw(st.sampled_from(pool))))
                continue
            rise = draw(minute)
            width = draw(st.one_of(st.sampled_from([2.0, 5.0, 8.0, 10.0, 15.0]),
                                   st.integers(4, 80).map(lambda x: x / GRID)))
            vtws.append([rise, min(rise + width, float(HORIZON))])
            if vtws[-1][1] - vtws[-1][0] < 1:
                vtws[-1] = [HORIZON - 3.0, float(HORIZON)]
        pool += vtws
        long = draw(st.integers(0, 4)) == 0
        duration = draw(st.integers(1, 24)) * (20 if long else 5) + 0.125 * (k + 1)
        deadline = draw(st.one_of(st.just(500.0), st.just(500.0), minute))
        if vtws and draw(st.integers(0, 4)) == 0:           # around the middle of a window
            a, b = draw(st.sampled_from(vtws))
            deadline = (a + b) / 2 + draw(st.sampled_from([0.0, -1.0, 1.0, 2.0]))
        requests.append({
            "dur": duration, "deadline": deadline,
            "priority": priorities[k] if distinct else draw(st.one_of(
                st.integers(1, 10), st.integers(1, 10), st.sampled_from([0, 0.5, 2.5, 2.25, -1, -3]))),
            "quality": draw(st.one_of(st.just(1), st.just(1), st.integers(1, 10))),
            "look": draw(st.one_of(st.none(), st.none(), st.integers(-30, 30).map(float)))
            if looks else None,
            "vtws": vtws,
            "placed": [draw(st.integers(0, 3)), draw(st.floats(0.05, 0.95))]
            if placed and draw(st.booleans()) else None})
    made = {"base": float(draw(st.sampled_from([2459000.5, 2451545.0, 2460310.25]))),
            "pitch": [draw(st.sampled_from([40.0, 60.0, 25.0])),
                      draw(st.sampled_from([240.0, 60.0, 30.0])), draw(st.integers(0, 7)) * 0.8],
            "requests": requests}
    for request in requests:
        if request["look"] is not None and request["vtws"] and draw(st.booleans()):
            request["look"] = pitch_inside(made, draw(st.sampled_from(request["vtws"])),
                                           draw(st.integers(1, 7)) / 8)
    return made


def pitch_inside(world_, vtw, fraction):
    """Exactly the pitch of a sample inside a window."""
    low, high = vtw[0] * GRID, vtw[1] * GRID
    return float(pitches(world_)[int(low + fraction * (high - low))])


def grow(case):
    """A world of many requests, from [number, seed, span in minutes, most windows, looks]."""
    n, seed, span, most, looks = case
    rng = random.Random(seed)
    priorities = [1 + 9 * k / n for k in range(n)]
    rng.shuffle(priorities)
    requests, pool = [], []
    for k in range(n):
        vtws = []
        for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, most)):
            if pool and rng.random() < 0.1:
                vtws.append(list(rng.choice(pool)))
                continue
            rise = rng.randint(0, (span - 4) * GRID) / GRID
            vtws.append([rise, min(rise + rng.randint(4, 40) / GRID, float(HORIZON))])
        pool += vtws
        requests.append({
            "dur": rng.randint(1, 24) * 2 + (k + 1) / 128,
            "deadline": 500.0 if rng.random() < 0.7 else float(rng.randint(0, span)),
            "priority": priorities[k], "quality": 1 if rng.random() < 0.7 else rng.randint(1, 10),
            "look": float(rng.randint(-30, 30)) if looks and rng.random() < 0.2 else None,
            "vtws": vtws,
            "placed": [rng.randint(0, 3), rng.uniform(0.05, 0.95)] if rng.random() < 0.5 else None})
    made = {"base": 2459000.5, "pitch": [40.0, 60.0, 0.8], "requests": requests}
    for request in requests:
        if request["look"] is not None and request["vtws"] and rng.random() < 0.5:
            request["look"] = pitch_inside(made, rng.choice(request["vtws"]), rng.uniform(0.1, 0.9))
    return made


@st.composite
def rivals(draw):
    """A few requests for the same few passes, nearly in order of priority."""
    n = draw(st.integers(2, 6))
    priorities = sorted(draw(st.permutations(list(range(1, 11))))[:n], reverse=True)
    order = draw(st.sampled_from(["swap", "swap", "last", "shuffled", "ascending"]))
    i = n - 2 if order == "last" else draw(st.integers(0, n - 2))
    priorities[i:i + 2] = priorities[i:i + 2][::-1]
    if order == "shuffled":
        priorities = list(draw(st.permutations(priorities)))
    elif order == "ascending":
        priorities.sort()
    slots = draw(st.integers(1, 3))
    requests = []
    for k in range(n):
        chosen = draw(st.lists(st.integers(0, slots - 1), min_size=1, max_size=slots, unique=True))
        requests.append({
            "dur": draw(st.integers(50, 110)) + 0.125 * (k + 1), "deadline": 500.0,
            "priority": priorities[k], "quality": 1, "look": None,
            "vtws": [[10.0 * s + draw(st.sampled_from([0.0, 0.0, 0.25])), 10.0 * s + 4] for s in chosen],
            "placed": None})
    return {"base": 2459000.5, "pitch": [40.0, 60.0, 0.8], "requests": requests}


def many(low=9, high=40, looks=True):
    """Worlds of more requests than `world` makes, some with many windows each."""
    return st.tuples(st.integers(low, high), st.integers(0, 10 ** 6), st.sampled_from([30, HORIZON]),
                     st.sampled_from([1, 3, 3, 12]), st.just(looks)).map(grow)


def grid(world_):
    return world_["base"] + np.arange(HORIZON * GRID + 1) / GRID * MINUTE


def at(world_, minute):
    """The Julian date of a grid minute, exactly as in the attitude's times."""
    return float(world_["base"] + np.float64(minute * GRID) / GRID * MINUTE)


def pitches(world_):
    amplitude, period, phase = world_["pitch"]
    return amplitude * np.sin(2 * np.pi * np.arange(HORIZON * GRID + 1) / GRID / period + phase)


def attitude_of(world_, location):
    times = grid(world_)
    pitch = pitches(world_)
    return Attitude(times, 0.1 * pitch + 1, pitch, 0.01 * pitch - 2, u.deg, location)


def windows_of(world_, request, attitude, collection=True):
    out = WindowCollection() if collection else []
    for rise, set_ in request["vtws"]:
        window = VisibleTimeWindow(at(world_, rise), at(world_, set_), attitude)
        out.add_window(window) if collection else out.append(window)
    return out


def add(handler, world_, request, attitude, location, collection=True):
    handler.add_request(
        location, Quantity(at(world_, request["deadline"]), u.jd2000),
        Quantity(request["dur"], u.s), request["priority"], request["quality"],
        None if request["look"] is None else Quantity(request["look"], u.deg),
        windows_of(world_, request, attitude, collection))


def handler_of(world_, requests=None, collection=True):
    handler = RequestHandler()
    location = build.ground([20.0, 30.0, 0.1])
    attitude = attitude_of(world_, location)
    for request in world_["requests"] if requests is None else requests:
        add(handler, world_, request, attitude, location, collection)
    return handler


# ------------------------------------------------------------- read-back ---

def number(quantity, unit, what):
    try:
        return float(np.asarray(quantity.to(unit)).reshape(-1)[0])
    except Exception as error:
        raise Fail("%s is not a quantity: %r (%s)" % (what, quantity, error)) from None


def identity(handler, index):
    return number(handler.duration(index), u.s, "duration")


def vtw_pair(vtw):
    return [number(vtw.rise_time, u.jd2000, "rise time"), number(vtw.set_time, u.jd2000, "set time")]


def read(handler):
    """[record, ...] in the handler's order, through its accessors."""
    out = []
    for i in range(len(handler)):
        scheduled = handler.is_request_scheduled(i)
        check(scheduled in (True, False), "request %d is scheduled: %r", i, scheduled)
        record = {
            "id": identity(handler, i),
            "deadline": number(handler.deadline(i), u.jd2000, "deadline"),
            "priority": handler.priority(i), "quality": handler.image_quality(i),
            "look": None if handler.look_angle(i) is None else
            number(handler.look_angle(i), u.deg, "look angle"),
            "vtws": [vtw_pair(w) for w in handler.vtw_list(i)], "scheduled": None}
        if scheduled:
            index = handler.vtw_index(i)
            check(isinstance(index, (int, np.integer)) and 0 <= index < len(record["vtws"]),
                  "request %r is scheduled in window %r of %d", record["id"], index,
                  len(record["vtws"]))
            record["scheduled"] = {
                "vtw": record["vtws"][index],
                "start": number(handler.start_time(i), u.jd2000, "start time"),
                "dur": number(handler.scheduled_duration(i), u.s, "scheduled duration")}
        out.append(record)
    return out


def check_container(handler, world_, requests=None, what="the requests"):
    """The handler holds exactly the world's requests; returns {id: record} in order."""
    records = read(handler)
    wanted = {r["dur"]: r for r in (world_["requests"] if requests is None else requests)}
    ids = [r["id"] for r in records]
    check(sorted(ids) == sorted(wanted), "%s are %r, expected %r", what, sorted(ids), sorted(wanted))
    check(len(handler) == handler.number_of_requests == len(wanted), "%s: length %r, count %r of %d",
          what, len(handler), handler.number_of_requests, len(wanted))
    seen = [number(r[RequestIndices.duration], u.s, "duration") for r in handler]
    check(seen == ids, "iteration visits %r, the requests are %r", seen, ids)
    marked = sum(1 for r in records if r["scheduled"])
    check(handler.number_of_scheduled_requests == marked, "scheduled count is %r, %d are scheduled",
          handler.number_of_scheduled_requests, marked)
    for record in records:
        request = wanted[record["id"]]
        for key, value in (("priority", request["priority"]), ("quality", request["quality"]),
                           ("look", request["look"]), ("deadline", at(world_, request["deadline"]))):
            check(record[key] == value or abs(record[key] - value) < 1e-9,
                  "%s of request %r is %r, given %r", key, record["id"], record[key], value)
        given = sorted([at(world_, a), at(world_, b)] for a, b in request["vtws"])
        check(sorted(record["vtws"]) == given, "windows of request %r are %r, given %r",
              record["id"], record["vtws"], given)
    return {r["id"]: r for r in records}


# ----------------------------------------------------------- feasibility ---

def days(seconds):
    return seconds / 86400.0


def overlap(a_start, a_dur, b_start, b_dur, slack=EPS):
    return a_start + days(a_dur) > b_start + slack and b_start + days(b_dur) > a_start + slack


def feasible_alone(world_, request, vtw, start, what):
    rise, set_ = vtw
    end = start + days(request["dur"])
    check([rise, set_] in [[at(world_, a), at(world_, b)] for a, b in request["vtws"]],
          "%s is in window %r, not one of its own", what, vtw)
    check(rise - EPS <= start and end <= set_ + EPS,
          "%s runs %r to %r outside its window %r", what, start, end, vtw)
    check(end <= at(world_, request["deadline"]) + EPS, "%s ends at %r, after its deadline %r",
          what, end, at(world_, request["deadline"]))
    middle = (rise + set_) / 2
    quality = 10 - 9 * abs(start - middle) / ((set_ - rise) / 2)
    check(quality >= request["quality"] - 1e-4, "%s has quality %r, %r was asked for", what, quality,
          request["quality"])
    if request["look"] is not None:
        times, offset = grid(world_), pitches(world_) - request["look"]
        i = int(np.argmin(np.abs(times - start)))
        near = offset[max(i - 1, 0):i + 3]
        check(near.min() <= 1e-9 and near.max() >= -1e-9,
              "%s starts where the pitch is off by %r degrees, without crossing the angle asked for",
              what, float(offset[i]))


def check_schedule(world_, records, requests=None):
    """Every scheduled observation is feasible and none overlap."""
    wanted = {r["dur"]: r for r in (world_["requests"] if requests is None else requests)}
    placed = [(k, r["scheduled"]) for k, r in records.items() if r["scheduled"]]
    for key, s in placed:
        check(abs(s["dur"] - key) < 1e-9, "request %r is scheduled for %r s", key, s["dur"])
        feasible_alone(world_, wanted[key], s["vtw"], s["start"], "request %r" % key)
    for i, (a, s) in enumerate(placed):
        for b, t in placed[:i]:
            check(not overlap(s["start"], s["dur"], t["start"], t["dur"]),
                  "requests %r (from %r) and %r (from %r) overlap", b, t["start"], a, s["start"])


def is_feasible(world_, request, vtw, start, others):
    try:
        feasible_alone(world_, request, vtw, start, "")
    except Fail:
        return False
    return not any(overlap(start, request["dur"], s, d, -1e-6) for s, d in others)


def place(handler, world_):
    """Schedule the requests that ask to be placed, where that is feasible."""
    others, keys = [], [identity(handler, i) for i in range(len(handler))]
    for request in world_["requests"]:
        if not request["placed"] or not request["vtws"] or request["look"] is not None:
            continue
        k = request["placed"][0] % len(request["vtws"])
        rise, set_ = (at(world_, x) for x in request["vtws"][k])
        room = set_ - rise - days(request["dur"])
        if room <= 1e-6:
            continue
        start = rise + room * request["placed"][1]
        if is_feasible(world_, request, [rise, set_], start, others):
            i = keys.index(request["dur"])
            handler.schedule_request(i, k, Quantity(start, u.jd2000), Quantity(request["dur"], u.s))
            others.append((start, request["dur"]))
    return len(others)


def easy_windows(world_, request, records):
    """Windows any sensible rule can use: roomy, before the deadline, free of observations."""
    if request["quality"] > 1:
        return []
    busy = [(r["scheduled"]["start"], r["scheduled"]["dur"]) for k, r in records.items()
            if r["scheduled"] and k != request["dur"]]
    out = []
    for rise, set_ in ([at(world_, a), at(world_, b)] for a, b in request["vtws"]):
        need = days(request["dur"])
        if at(world_, request["deadline"]) <= set_ + 2 * MINUTE:
            continue
        if any(overlap(rise, (set_ - rise) * 86400, s, d, -1e-6) for s, d in busy):
            continue
        if request["look"] is None:
            if 4 * need < set_ - rise:
                out.append([rise, set_])
            continue
        times, offset = grid(world_), pitches(world_) - request["look"]
        inside = (times >= rise - EPS) & (times <= set_ + EPS)
        turns = np.diff(offset[inside])
        if not ((turns > 0).all() or (turns < 0).all()):
            continue
        part = offset[inside]
        crossing = np.flatnonzero(part[:-1] * part[1:] <= 0)
        if not crossing.size:
            continue
        when = times[inside][crossing[0]]
        if when - rise > 3 * MINUTE / GRID and when + need + 3 * MINUTE / GRID < set_:
            out.append([rise, set_])
    return out


def degrees(world_, requests=None):
    """Conflict degree of every window, {(rise, set): days}."""
    every = [(at(world_, a), at(world_, b))
             for r in (world_["requests"] if requests is None else requests) for a, b in r["vtws"]]
    out = {}
    for a in set(every):
        meets = [min(a[1], b[1]) - max(a[0], b[0]) for b in every
                 if not (a[1] < b[0] or b[1] < a[0])]
        out[a] = math.fsum(meets) / len(meets)
    return out
