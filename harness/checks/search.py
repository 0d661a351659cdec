"""C27, C28: generated schedules and the neighbourhood search."""

import copy
import math
import random

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import ObservationWindow, WindowCollection
from celest.satellite import Satellite
from celest.schedule.alns import ALNS
from celest.schedule.request_handler import RequestHandler
from celest.schedule.scheduler import Scheduler
from celest.schedule.scheduling_utils import cost, initialize_solution
from celest.units.quantity import Quantity
from harness import build, ephemeris, gens, oracles, sched
from harness.checks import windows
from harness.core import Fail, as_array, check, law

# ----------------------------------------------------------------- C28 ---

COST = st.one_of(st.integers(-5, 5).map(float), st.floats(-100, 100), st.sampled_from(
    [0.0, -0.0, 1e-9, -1e-9, 1e6, -1e6]), st.integers(-50, -1).map(float))
MOVE = st.tuples(st.integers(1, 11), st.integers(0, 11)).map(list)      # multiply, add


@st.composite
def search_case(draw):
    large = draw(st.integers(0, 11)) == 0
    n = draw(st.integers(13, 60) if large else st.integers(2, 12))
    costs = [draw(COST) for _ in range(n)]
    if draw(st.booleans()):
        costs = [float(x) for x in draw(st.permutations(list(range(-n, 0))))]
    complete = []
    if draw(st.booleans()):         # often a complete solution is an optimal one
        complete = [i for i in range(n) if costs[i] == min(costs)]
    elif draw(st.integers(0, 2)) == 0:
        complete = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n))
    return {"costs": costs, "complete": complete, "start": draw(st.integers(0, n - 1)),
            "destroy": draw(st.lists(MOVE, min_size=1, max_size=12 if large else 4)),
            "repair": draw(st.lists(MOVE, min_size=1, max_size=9 if large else 3)),
            "iterations": draw(st.integers(40, 400) if large else
                               st.one_of(st.integers(0, 40), st.integers(0, 3))),
            "p": draw(st.one_of(st.sampled_from([0.0, 0.5, 0.9, 1.0]), st.floats(0, 1))),
            "l": draw(st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1))),
            "numbers": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
            "twice": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 10 ** 6))}


class Recorder:
    """A search over {"cells": [position]} with every operator call written down."""

    def __init__(self, case, initial):
        self.case, self.entries, self.candidates = case, [], []
        self.used, self.weights = [], []
        self.search = search = ALNS(initial)
        search.add_cost_function(lambda s: case["costs"][s["cells"][0]])
        search.add_completeness_function(lambda s: s["cells"][0] in case["complete"])
        search.add_destroy_functions([self.operator(i, m, True)
                                      for i, m in enumerate(case["destroy"])])
        search.add_repair_functions([self.operator(i, m, False)
                                     for i, m in enumerate(case["repair"])])

    def read_weights(self):
        search = self.search
        return [list(getattr(search, "destroy_weights", [])), list(getattr(search, "repair_weights", []))]

    def operator(self, index, move, first):
        def act(solution, number):
            cells = solution["cells"]
            expected = self.case["numbers"][0 if first else 1]
            check(number == expected, "operator was asked for %r items, expected %r", number, expected)
            if first:
                check(len(self.entries) == len(self.candidates), "destroyed twice without repair")
                self.entries.append(cells[0])
                self.weights.append(self.read_weights())
                self.used.append([index, None])
            else:
                check(len(self.entries) == len(self.candidates) + 1, "repaired without destroying")
            cells[0] = (cells[0] * move[0] + move[1] + number * len(self.entries)) % len(
                self.case["costs"])
            solution["junk"]["deep"].append(cells[0])
            if not first:
                self.candidates.append(cells[0])
                self.used[-1][1] = index
            return solution
        return act


def judge_search(ctx, case, record, result, first):
    costs = case["costs"]
    position = result["cells"][0]
    seen = [first] + record.candidates
    best = min(costs[x] for x in seen)
    check(position in seen, "the result %r was never produced (%r)", position, seen)
    check(costs[position] == best, "the result costs %r, the best of %r is %r", costs[position],
          [costs[x] for x in seen], best)
    check(len(record.entries) == len(record.candidates), "the last candidate was not repaired")
    count = len(record.candidates)
    check(count <= case["iterations"], "%d iterations, at most %d were allowed", count,
          case["iterations"])
    hits = [i for i, x in enumerate(record.candidates) if x in case["complete"]]
    if first in case["complete"]:
        check(count == 0, "an initially complete solution was searched for %d iterations", count)
    elif hits:
        # A complete candidate that is not the best need not end the search.
        sure = [i for i in hits if all(x in case["complete"] for x in seen[:i + 2]
                                       if costs[x] == min(costs[y] for y in seen[:i + 2]))]
        last = sure[0] + 1 if sure else case["iterations"]
        check(hits[0] < count <= last, "the search went on for %d iterations, candidates %r were "
              "complete", count, hits)
        check(count == case["iterations"] or count - 1 in hits, "the search ended after %d of %d "
              "iterations, candidates %r were complete", count, case["iterations"], hits)
        ctx.label("complete and not the best", len(sure) < len(hits))
    else:
        check(count == case["iterations"], "the search ended after %d of %d iterations", count,
              case["iterations"])
    # acceptance: each iteration starts from the current solution or the accepted candidate
    current, lowest = first, costs[first]
    rewards = {"best": [], "better": [], "accepted": [], "rejected": []}
    weights = record.weights + [record.read_weights()]
    for i in range(count):
        check(record.entries[i] == current, "iteration %d started from %r, the current solution is "
              "%r", i, record.entries[i], current)
        candidate = record.candidates[i]
        following = record.entries[i + 1] if i + 1 < count else None
        if following is not None:
            check(following in (current, candidate), "iteration %d starts from %r, neither %r nor "
                  "the candidate %r", i + 1, following, current, candidate)
        kind = None
        if costs[candidate] < lowest:
            kind, lowest = "best", costs[candidate]
        elif costs[candidate] < costs[current]:
            kind = "better"
        elif candidate != current and following is not None:
            kind = "accepted" if following == candidate else "rejected"
        if costs[candidate] < costs[current] and following is not None:
            check(following == candidate, "the improvement %r from %r was not accepted",
                  costs[candidate], costs[current])
        if kind and not (i + 1 == count and hits):      # an early end need not update weights
            rewards[kind] += reward(case, record.used[i], weights[i], weights[i + 1])
        if following is not None:
            current = following
    names = ["best", "better", "accepted", "rejected"]
    for kind in names:
        for value in rewards[kind]:
            ctx.label("rewarded " + kind)
            check(value >= -1e-9, "an operator was rewarded %r for a %s candidate", value, kind)
    for higher, lower in zip(names, names[1:]):
        others = [x for k in names[names.index(lower):] for x in rewards[k]]
        if rewards[higher] and others:
            check(min(rewards[higher]) > max(others) - 1e-9, "a %s candidate is rewarded %r, a "
                  "worse one %r", higher, min(rewards[higher]), max(others))
            check(min(rewards[higher]) > max(others) + 1e-9 or case["l"] == 0, "a %s candidate is "
                  "rewarded as little as a worse one: %r", higher, max(others))
    for pair in weights:
        for ws in pair:
            check(all(x >= 0 and math.isfinite(x) for x in ws), "weights became %r", ws)


def reward(case, used, before, after):
    """The share of the new weights due to the candidate; other operators keep theirs."""
    if case["l"] < 1e-3:
        return []
    out = []
    for index, old, new in zip(used, before, after):
        if not old or len(old) != len(new):
            continue
        for k in range(len(old)):
            if k != index:
                check(abs(new[k] - old[k]) < 1e-12, "the weight of operator %d went from %r to %r "
                      "though %d was used", k, old[k], new[k], index)
        out.append((new[index] - (1 - case["l"]) * old[index]) / case["l"])
    return out


@law("C28", "search", search_case(), "two or more candidates, one improving on the start",
     quick=4000)
def alns(ctx, case):
    """A recorded search over a cost table."""
    initial = {"cells": [case["start"]], "junk": {"deep": []}}
    random.seed(case["seed"])
    record = Recorder(case, initial)
    arguments = (case["iterations"], case["p"], case["l"]) + tuple(case["numbers"])
    result = record.search.solve(*arguments)
    judge_search(ctx, case, record, result, case["start"])
    untouched = {"cells": [case["start"]], "junk": {"deep": []}}
    check(initial == untouched, "the initial solution became %r", initial)
    check(record.search.initial_solution == untouched, "the search's initial solution became %r",
          record.search.initial_solution)
    if case["twice"]:               # the same search again, from the same start
        record.entries, record.candidates, record.used, record.weights = [], [], [], []
        result["cells"][0] = 0      # the caller may do as it likes with the result
        result["junk"]["deep"].append(-1)
        again = record.search.solve(*arguments)
        judge_search(ctx, case, record, again, case["start"])
        check(initial == untouched, "the initial solution became %r", initial)
    costs = case["costs"]
    ctx.nontrivial(len(record.candidates) > 1 and
                   min(costs[x] for x in record.candidates) < costs[case["start"]])
    ctx.label("complete found", any(x in case["complete"] for x in record.candidates))
    ctx.label("complete at start", case["start"] in case["complete"])
    ctx.label("no improvement", bool(record.candidates) and
              min(costs[x] for x in record.candidates) >= costs[case["start"]])


@law("C28", "adaptive", st.tuples(st.floats(0.2, 0.9), st.booleans(), st.booleans(),
                                  st.integers(0, 10 ** 6), st.integers(2, 4)).map(list),
     "always", quick=60)
def adaptive(ctx, case):
    """Operators that keep improving are picked more often than ones always rejected."""
    l, last, negative, seed, operators = case
    random.seed(seed)
    calls = [0] * operators
    good = operators - 1 if last else 0
    sign = -1.0 if negative else 0.0

    def make(k):
        def act(solution, number):
            calls[k] += 1
            solution[0] += -1.0 if k == good else 1e9
            return solution
        return act

    neutral = [lambda s, n: s]
    for repair in (True, False):
        calls[:] = [0] * operators
        search = ALNS([2000.0 if not negative else -1.0])
        search.add_cost_function(lambda s: s[0] + sign)
        search.add_completeness_function(lambda s: False)
        search.add_destroy_functions(neutral if repair else [make(k) for k in range(operators)])
        search.add_repair_functions([make(k) for k in range(operators)] if repair else neutral)
        result = search.solve(200, 0.5, l, 1, 1)
        check(calls[good] > 100, "in 200 iterations the improving operator was used %d times: %r",
              calls[good], calls)
        expected = (2000.0 if not negative else -1.0) - calls[good]
        check(result[0] == expected, "result %r, expected %r", result[0], expected)
    ctx.nontrivial()


@law("C28", "decay", st.tuples(st.sampled_from([0.0, 0.1, 0.9, 1.0]), st.integers(1, 3),
                               st.integers(1, 3), st.integers(0, 99)).map(list), "always", quick=24)
def decay(ctx, case):
    """A long run of rejections leaves operators that can still be selected."""
    l, destroys, repairs, seed = case
    random.seed(seed)
    calls = []
    search = ALNS([-5.0])
    search.add_cost_function(lambda s: s[0])
    search.add_completeness_function(lambda s: False)
    search.add_destroy_functions([lambda s, n: calls.append(0) for _ in range(destroys)])
    search.add_repair_functions([lambda s, n: s.__setitem__(0, 1e12) for _ in range(repairs)])
    result = search.solve(4000, 0.5, l, 1, 1)
    check(result == [-5.0], "result %r", result)
    check(len(calls) == 4000, "%d iterations of 4000", len(calls))
    ctx.nontrivial()


# ----------------------------------------------------------------- C27 ---

@st.composite
def schedule_case(draw):
    orbit = [draw(st.floats(6750, 7400)), draw(st.floats(0, 0.01)),
             draw(st.sampled_from([30.0, 51.6, 97.6, 98.0, 63.4])), draw(st.floats(0, 360)),
             draw(st.floats(0, 360)), draw(st.floats(0, 360))]
    n = draw(st.sampled_from([60, 90, 120, 200]))
    requests, crowded = [], draw(st.booleans())
    priorities = draw(st.permutations(list(range(1, 11))))
    if draw(st.integers(0, 3)) == 0:
        priorities = [1 + p % 2 for p in priorities]        # ties
    for k in range(draw(st.integers(1, 6))):
        # In view around some sample, or somewhere else.
        spot = [draw(st.integers(0, n - 1)), draw(st.floats(-6, 6)), draw(st.floats(-6, 6))]
        if requests and draw(st.integers(0, 3 if not crowded else 9)) > (2 if not crowded else 0):
            near = requests[0]["spot"][0] + draw(st.integers(-6, 6)) * crowded
            spot = [min(max(near, 0), n - 1)] + spot[1:]
        requests.append({
            "spot": spot, "far": draw(st.integers(0, 9)) == 0,
            "deadline": draw(st.floats(-0.01, 0.1)) if draw(st.integers(0, 9)) in (4, 7) else 10.0,
            "dur": draw(st.one_of(st.integers(5, 90), st.integers(60, 180), st.integers(200, 2000)))
            + (k + 1) / 16,
            # At the place of an earlier request: the same location object.
            "share": draw(st.integers(0, k - 1)) if k and draw(st.integers(0, 3)) == 0 else None,
            "priority": priorities[k], "quality": draw(st.integers(1, 10)) if draw(st.integers(0, 9)) in (3, 5, 8) else 1,
            "look": draw(st.integers(-40, 40).map(float)) if draw(st.integers(0, 9)) in (4, 7) else None,
            "lighting": draw(st.sampled_from(["ANYTIME", "ANYTIME", "ANYTIME", "DAYTIME",
                                              "NIGHTTIME"]))})
    return {"orbit": orbit, "jd": draw(gens.jd(2451545.0, 2470000.0)),
            "step": draw(st.sampled_from([30, 30, 60])), "n": n, "requests": requests,
            "threshold": draw(st.sampled_from([0, 5, 10.0, 20, 7.75, 12.5])),
            # Or a little above or below the highest elevation from the first request's place.
            "peak": draw(st.floats(-3, 1)) if draw(st.integers(0, 9)) in (4, 7) else None,
            "settings": [draw(st.sampled_from([0, 1, 2, 5, 12, 25])),
                         draw(st.one_of(st.sampled_from([0.0, 0.8, 1.0]), st.floats(0, 1))),
                         draw(st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1)))],
            "later": draw(st.one_of(st.just(0), st.integers(1, 3))),
            # A second scheduler at the same time: for the same satellite, or one ahead of it.
            "beside": draw(st.sampled_from([None, None, 0, 0, -4, 3])),
            "seed": draw(st.integers(0, 10 ** 6))}


class Task:
    """A request of a case, with its visibility recomputed."""

    def __init__(self, case, request, satellite, jd, track, location=None):
        self.request = request
        i, north, east = request["spot"]
        lat, lon, _ = oracles.itrs_to_geodetic(track[i])
        if request["far"]:
            lat, lon = -lat, lon + 180
        lat = max(-85.0, min(85.0, float(lat) + north))
        lon = (float(lon) + east / math.cos(math.radians(lat)) + 180) % 360 - 180
        self.spec = [lat, lon, 0.0]
        self.location = build.ground(self.spec)
        if location is not None:
            self.spec, self.location = location
        self.deadline = float(jd[0] + request["deadline"])
        true, own = windows.elevations(satellite, {"jd": list(jd), "location": self.spec},
                                       self.location)
        self.elevation = true
        visible, self.sure = windows.lit(windows.mask(true, own, case["threshold"]), jd, self.spec,
                                         request["lighting"])
        self.spans = [(jd[max(a - 1, 0)], jd[b]) for a, b in windows.runs(visible)]
        self.attitude = satellite.attitude(self.location)
        self.angles = [as_array(q.to(u.deg), "attitude", len(jd)) for q in (
            self.attitude.roll, self.attitude.pitch, self.attitude.yaw)]

    def add_to(self, scheduler):
        r = self.request
        arguments = [self.location, self.deadline, r["dur"], r["priority"], r["quality"]]
        if r["look"] is None and r["lighting"] == "DAYTIME":
            scheduler.add_request(*arguments)           # the documented defaults
        elif r["look"] is None:
            scheduler.add_request(*arguments, lighting=Lighting[r["lighting"]])
        else:
            scheduler.add_request(*arguments, r["look"], Lighting[r["lighting"]])


def judge_schedule(ctx, case, tasks, jd, schedule):
    """Every observation is a feasible one of its own request; returns the total priority."""
    check(isinstance(schedule, WindowCollection), "the schedule is a %s", type(schedule).__name__)
    used, spans, total = {}, [], 0
    by_duration = {t.request["dur"]: t for t in tasks}
    for window in schedule:
        check(isinstance(window, ObservationWindow), "the schedule holds a %s", type(window).__name__)
        start = sched.number(window.start_time, u.jd2000, "start time")
        duration = sched.number(window.duration, u.s, "duration")
        key = min(by_duration, key=lambda d: abs(d - duration))
        check(abs(key - duration) < 1e-6, "an observation lasts %r s, no request does", duration)
        task, request = by_duration[key], by_duration[key].request
        check(key not in used, "request %r is scheduled twice", key)
        used[key] = start
        total += request["priority"]
        what = "the observation of request %r from %r" % (key, start)
        place = [float(np.asarray(q.to(unit)).reshape(-1)[0]) for q, unit in (
            (window.location.latitude, u.deg), (window.location.longitude, u.deg),
            (window.location.height, u.km))]
        check(max(abs(a - b) for a, b in zip(place, task.spec)) < 1e-9, "%s is at %r, asked for %r",
              what, place, task.spec)
        end = start + sched.days(duration)
        inside = [s for s in task.spans if s[0] - sched.EPS <= start and end <= s[1] + sched.EPS]
        check(bool(inside), "%s until %r is in none of the visible times %r", what, end, task.spans)
        check(end <= task.deadline + sched.EPS, "%s ends after its deadline %r", what, task.deadline)
        rise, set_ = inside[0]
        quality = 10 - 18 * abs(start - (rise + set_) / 2) / (set_ - rise)
        check(quality >= request["quality"] - 1e-3, "%s has quality %r, %r was asked for", what,
              quality, request["quality"])
        nearest = np.abs(jd - start)
        i = int(np.argmin(nearest))
        if request["look"] is not None:
            offset = task.angles[1][max(i - 1, 0):i + 3] - request["look"]
            check(offset.min() <= 1e-9 and offset.max() >= -1e-9, "%s has pitch %r, %r was asked "
                  "for", what, float(task.angles[1][i]), request["look"])
            ctx.label("look angle")
        attitude = window.attitude
        check(isinstance(attitude, Attitude), "%s has attitude %r", what, attitude)
        times = as_array(attitude.time.to(u.jd2000), "attitude time", 1)
        near = np.flatnonzero(nearest <= nearest[i] + 2e-9)
        match = [k for k in near if jd[k] == times[0]]
        check(bool(match), "%s has the attitude at %r, the nearest sample is %r", what, times[0],
              jd[i])
        for name, q, values in zip(("roll", "pitch", "yaw"),
                                   (attitude.roll, attitude.pitch, attitude.yaw), task.angles):
            got = as_array(q.to(u.deg), name, 1)[0]
            check(abs(got - values[match[0]]) < 1e-8, "%s has %s %r, pointing needs %r", what, name,
                  got, values[match[0]])
        aimed = attitude.location
        check(aimed is not None and abs(float(aimed.latitude.to(u.deg)) - task.spec[0]) < 1e-9 and
              abs(float(aimed.longitude.to(u.deg)) - task.spec[1]) < 1e-9,
              "%s is pointed at %s", what, aimed)
        for other, s, d in spans:
            check(not sched.overlap(start, duration, s, d), "%s overlaps that of request %r from "
                  "%r", what, other, s)
        spans.append((key, start, duration))
    check(len(schedule) == len(used), "the schedule's length is %r, it has %d windows",
          len(schedule), len(used))
    return total


def greedy_total(case, satellite, tasks):
    """Total priority of the greedy schedule of the same requests."""
    handler = RequestHandler()
    for task in tasks:
        r = task.request
        handler.add_request(
            task.location, Quantity(task.deadline, u.jd2000), Quantity(r["dur"], u.s), r["priority"],
            r["quality"], None if r["look"] is None else Quantity(r["look"], u.deg),
            generate_vtws(satellite, task.location, case["threshold"], Lighting[r["lighting"]]))
    initialize_solution(handler)
    return -cost(handler)


@law("C27", "schedule", schedule_case(), "two or more observations scheduled", quick=700, cap=150)
def schedule(ctx, case):
    """Schedules of small request sets along an orbit, checked from scratch."""
    satellite, jd, inertial = windows.orbit_satellite(case)
    track = np.einsum("kij,kj->ki", oracles.gcrs_to_itrs_matrix(jd), inertial)
    random.seed(case["seed"])
    with ephemeris.installed():
        tasks = []
        if case.get("peak") is not None:
            highest = np.max(Task(case, case["requests"][0], satellite, jd, track).elevation)
            case = dict(case, threshold=float(min(max(round(highest + case["peak"], 3), 0), 90)))
            ctx.label("threshold near the highest elevation", case["threshold"] > 0)
        for r in case["requests"]:
            shared = tasks[r["share"]] if r["share"] is not None else None
            tasks.append(Task(case, r, satellite, jd, track,
                              shared and (shared.spec, shared.location)))
        if not all(t.sure for t in tasks):
            return
        scheduler = Scheduler(satellite, case["threshold"])
        first = tasks[:max(1, len(tasks) - case["later"])]
        beside, others = None, first[::2]
        if case.get("beside") is not None:
            companion = satellite
            if case["beside"]:
                orbit = list(case["orbit"])
                orbit[5] += case["beside"]
                companion, _, ahead = windows.orbit_satellite(dict(case, orbit=orbit))
                ahead = np.einsum("kij,kj->ki", oracles.gcrs_to_itrs_matrix(jd), ahead)
                others = [Task(case, t.request, companion, jd, ahead, (t.spec, t.location))
                          for t in others]
            if all(t.sure for t in others):
                beside = Scheduler(companion, case["threshold"])
        for k, task in enumerate(first):
            task.add_to(scheduler)
            if beside and k % 2 == 0:       # some of the same requests
                others[k // 2].add_to(beside)
        result = scheduler.generate(*case["settings"])
        total = judge_schedule(ctx, case, first, jd, result)
        if beside:
            other = beside.generate(*case["settings"])
            reached = judge_schedule(ctx, case, others, jd, other)
            expected = greedy_total(case, companion, others)
            check(reached >= expected - 1e-9, "the second schedule's total priority is %r, greedily "
                  "it is %r", reached, expected)
            judge_schedule(ctx, case, first, jd, result)
            ctx.label("two satellites" if case["beside"] else "two schedulers")
        least = greedy_total(case, satellite, first)
        check(total >= least - 1e-9, "the schedule's total priority is %r, greedily it is %r", total, least)
        ctx.label("better than greedy", total > least + 1e-9)
        if len(first) < len(tasks):         # more requests arrive, and a new schedule is made
            for task in tasks[len(first):]:
                task.add_to(scheduler)
            result = scheduler.generate(*case["settings"])
            total = judge_schedule(ctx, case, tasks, jd, result)
            least = greedy_total(case, satellite, tasks)
            # Ties are considered in any order, so there is no one greedy schedule.
            tied = len({t.request["priority"] for t in tasks}) < len(tasks)
            check(tied or total >= least - 1e-9, "with %d more requests the schedule's total priority is %r, "
                  "greedily it is %r", len(tasks) - len(first), total, least)
            ctx.label("in two rounds")
    ctx.nontrivial(len(result) >= 2)
    ctx.label("not all scheduled", len(result) < len(tasks))
    ctx.label("none scheduled", len(result) == 0)
    ctx.label("single request", len(tasks) == 1)
    ctx.label("shared location", any(r["share"] is not None for r in case["requests"]))


@st.composite
def contention_case(draw):
    world = draw(sched.world(1, 8, placed=False, max_vtws=3, distinct=True) if
                 draw(st.integers(0, 3)) else sched.rivals())
    if draw(st.booleans()):         # one long observation in the way of several short ones
        for k, request in enumerate(world["requests"]):
            request["quality"], request["look"], request["deadline"] = 1, None, 500.0
            if k == 0:
                request["vtws"] = [[0.0, 30.0], [40.0, 44.0]][:draw(st.integers(1, 2))]
                request["dur"], request["priority"] = 480.125, 9
            else:
                rise = float(draw(st.integers(0, 26)))
                request["vtws"] = [[rise, rise + 6]]
                request["dur"] = 60 + 0.125 * (k + 1)
                request["priority"] = k
    return {"world": world, "seed": draw(st.integers(0, 10 ** 6)),
            "settings": [draw(st.sampled_from([0, 1, 3, 10, 40])),
                         draw(st.one_of(st.sampled_from([0.0, 0.8, 1.0]), st.floats(0, 1))),
                         draw(st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1)))],
            "rounds": draw(st.integers(1, 2))}


@law("C27", "contention", contention_case(), "two or more observations, not every request scheduled",
     quick=800, cap=150)
def contention(ctx, case):
    """The scheduler on request sets with many conflicts."""
    world = case["world"]
    greedy = sched.handler_of(world)
    initialize_solution(greedy)
    least = -cost(greedy)
    random.seed(case["seed"])
    rows = [[7000.0, 0.0, 0.0]]
    moving = build.frame("ITRS", [world["base"]], rows, "km")
    scheduler = Scheduler(Satellite(moving, build.frame("ITRS", [world["base"]], [[0.0, 7.0, 1.0]])),
                          10)
    scheduler.request_handler = sched.handler_of(world)
    times, pitch = sched.grid(world), sched.pitches(world)
    by_id = {r["dur"]: r for r in world["requests"]}
    for _ in range(case["rounds"]):
        result = scheduler.generate(*case["settings"])
        spans = {}
        for window in result:
            key = sched.number(window.duration, u.s, "duration")
            start = sched.number(window.start_time, u.jd2000, "start time")
            check(key in by_id, "an observation lasts %r s, no request does", key)
            check(key not in spans, "request %r is scheduled twice", key)
            request, errors = by_id[key], []
            for rise, set_ in ([sched.at(world, a), sched.at(world, b)] for a, b in request["vtws"]):
                try:
                    sched.feasible_alone(world, request, [rise, set_], start, "request %r" % key)
                    break
                except Fail as error:
                    errors.append(str(error))
            else:
                raise Fail("; ".join(errors))
            for other, (s, d) in spans.items():
                check(not sched.overlap(start, key, s, d), "requests %r and %r overlap", key, other)
            spans[key] = (start, key)
            near = np.abs(times - start)
            at = as_array(window.attitude.time.to(u.jd2000), "attitude time", 1)[0]
            match = [i for i in np.flatnonzero(near <= near.min() + 2e-9) if times[i] == at]
            check(bool(match), "the attitude of request %r is that at %r, it starts at %r", key, at,
                  start)
            got = [as_array(q.to(u.deg), "angle", 1)[0] for q in (
                window.attitude.roll, window.attitude.pitch, window.attitude.yaw)]
            p = pitch[match[0]]
            check(max(abs(a - b) for a, b in zip(got, (0.1 * p + 1, p, 0.01 * p - 2))) < 1e-8,
                  "the attitude of request %r is %r, the sample's pitch is %r", key, got, p)
        total = sum(by_id[key]["priority"] for key in spans)
        check(total >= least - 1e-9, "the schedule's total priority is %r, greedily it is %r", total, least)
        ctx.label("better than greedy", total > least + 1e-9)
    ctx.nontrivial(2 <= len(result) < len(by_id))


@law("C27", "many", st.fixed_dictionaries({
    "world": sched.many(9, 24), "seed": st.integers(0, 10 ** 6),
    "settings": st.tuples(st.sampled_from([0, 1, 3, 8]), st.floats(0, 1), st.floats(0, 1)).map(list),
    "rounds": st.integers(1, 2)}), "two or more observations, not every request scheduled", quick=40)
def contention_of_many(ctx, case):
    """The scheduler on up to 24 requests, some with a dozen windows each."""
    contention(ctx, case)
