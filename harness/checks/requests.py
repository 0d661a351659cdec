"""C24, C25, C26, C29: request bookkeeping, insertion, removal, cost and the greedy start."""

import copy
import math
import random

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.schedule.insertion_operators import (
    does_conflict_exist,
    greedy_insertion,
    image_quality,
    minimum_conflict_insertion,
    minimum_opportunity_insertion,
)
from celest.schedule.removal_operators import (
    conflict_removal,
    opportunity_removal,
    priority_removal,
    random_removal,
)
from celest.schedule.request_handler import RequestHandler, RequestIndices
from celest.schedule.scheduling_utils import cost, initialize_solution, is_complete
from celest.units.quantity import Quantity
from harness import build, sched
from harness.core import Fail, check, law
from harness.sched import at

SORTS = ["sort_by_decreasing_priority", "sort_by_decreasing_opportunity",
         "sort_by_increasing_opportunity", "sort_by_decreasing_conflict_degree",
         "sort_vtws_by_increasing_conflict_degree", "sort_vtws_by_increasing_rise_time"]
TIES = 1e-9     # days: overlaps are differences of Julian dates


def state(records):
    """What must not change: {id: (windows as a multiset, schedule)}."""
    return {k: (sorted(r["vtws"]), r["scheduled"]) for k, r in records.items()}


def same_state(before, after, what, but=()):
    for key, value in before.items():
        if key not in but:
            check(key in after and after[key] == value, "%s changed request %r from %r to %r", what,
                  key, value, after.get(key))


def monotone(values, what):
    for a, b in zip(values, values[1:]):
        check(a <= b + TIES, "%s: %r is followed by %r in %r", what, a, b, values)


# --------------------------------------------------------------- C24 ---

STEP = st.one_of(
    st.tuples(st.just("add"), st.integers(0, 1)),
    st.tuples(st.just("schedule"), st.integers(0, 9), st.integers(0, 3), st.floats(0, 1)),
    st.tuples(st.just("schedule"), st.integers(0, 9), st.integers(0, 3), st.floats(0, 1)),
    st.tuples(st.just("unschedule"), st.integers(0, 9)),
    st.tuples(st.just("clear")), st.tuples(st.just("fork"), st.integers(0, 5)),
    st.tuples(st.just("iterate"), st.integers(0, 6)),
    st.tuples(st.just("sort"), st.integers(0, 5)), st.tuples(st.just("sort"), st.integers(0, 5)),
    st.tuples(st.just("sort"), st.integers(0, 5)),
).map(list)


@st.composite
def history_case(draw):
    n = draw(st.integers(3, 30))
    return {"world": draw(sched.world(2, 7, placed=False)),
            "start": draw(st.integers(0, 3)),
            "steps": draw(st.lists(STEP, min_size=n, max_size=n + 5))}


def sorted_by(handler, records, name, world, present):
    """Judge the order a sort leaves."""
    order = list(records.values())
    if name == "sort_by_decreasing_priority":
        monotone([-r["priority"] for r in order], name)
    elif name == "sort_by_decreasing_opportunity":
        monotone([-len(r["vtws"]) for r in order], name)
    elif name == "sort_by_increasing_opportunity":
        monotone([len(r["vtws"]) for r in order], name)
    elif name == "sort_vtws_by_increasing_rise_time":
        for r in order:
            monotone([v[0] for v in r["vtws"]], name)
    else:
        degree = sched.degrees(world, present)
        if name == "sort_by_decreasing_conflict_degree":
            monotone([-degree[tuple(r["scheduled"]["vtw"])] if r["scheduled"] else 0.0
                      for r in order], name)
        else:
            for r in order:
                monotone([degree[tuple(v)] for v in r["vtws"]], name)


@law("C24", "history", history_case(),
     "a sort after scheduling, with at least two requests scheduled at some point", quick=1500)
def history(ctx, case):
    """A history of operations against records kept by identity."""
    world = case["world"]
    waiting = list(world["requests"])
    present, model = [], {}
    handler = RequestHandler()
    location = build.ground([20.0, 30.0, 0.1])
    attitude = sched.attitude_of(world, location)
    most, sorts = 0, 0
    steps = [["add", 1]] * (1 + case["start"]) + case["steps"]
    for k, step in enumerate(steps):
        name = step[0]
        order = [sched.identity(handler, i) for i in range(len(handler))]
        expected_order = order
        if name == "add":
            if not waiting:
                continue
            request = waiting.pop(0)
            sched.add(handler, world, request, attitude, location, bool(step[1]))
            present.append(request)
            model[request["dur"]] = None
            expected_order = order + [request["dur"]]
        elif not order:
            continue
        elif name == "schedule":
            i = step[1] % len(order)
            windows = handler.vtw_list(i)
            if not len(windows):
                continue
            w = step[2] % len(windows)
            rise, set_ = sched.vtw_pair(windows[w])
            start = rise + (set_ - rise) * step[3]
            handler.schedule_request(i, w, Quantity(start, u.jd2000), Quantity(order[i], u.s))
            model[order[i]] = {"vtw": [rise, set_], "start": start, "dur": order[i]}
        elif name == "unschedule":
            handler.unschedule_request(step[1] % len(order))
            model[order[step[1] % len(order)]] = None
        elif name == "clear":
            handler.unschedule_all_requests()
            model = {key: None for key in model}
        elif name == "fork":        # what happens to a copy stays there
            other = copy.deepcopy(handler)
            getattr(other, SORTS[step[1]])()
            other.unschedule_all_requests()
        elif name == "iterate":     # an abandoned iteration
            for j, _ in enumerate(handler):
                if j == step[1]:
                    break
        elif name == "sort":
            getattr(handler, SORTS[step[1]])()
            sorts += any(model.values())
            expected_order = None
        records = sched.check_container(handler, world, present, "after %r the requests" % (step,))
        for key, value in model.items():
            check(records[key]["scheduled"] == value, "after %r request %r is scheduled as %r, "
                  "expected %r", step, key, records[key]["scheduled"], value)
        if expected_order is not None:
            check(list(records) == expected_order, "%r reordered the requests from %r to %r", step,
                  expected_order, list(records))
        else:
            sorted_by(handler, records, SORTS[step[1]], world, present)
        most = max(most, sum(1 for v in model.values() if v))
    ctx.nontrivial(sorts > 0 and most >= 2)
    ctx.label("three scheduled", most >= 3)
    ctx.label("sorts", sorts)


@st.composite
def long_history(draw):
    steps = st.tuples(st.sampled_from(["schedule"] * 5 + ["sort"] * 2 + ["unschedule", "add", "iterate"]),
                      st.integers(0, 99), st.integers(0, 12), st.floats(0, 1)).map(list)
    n = draw(st.integers(3, 14))
    return {"world": draw(sched.many()), "start": draw(st.integers(8, 38)),
            "steps": [[x[0], x[1] % 6] if x[0] == "sort" else x
                      for x in draw(st.lists(steps, min_size=n, max_size=n + 3))]}


@law("C24", "many", long_history(),
     "a sort after scheduling, with at least two of nine or more requests scheduled", quick=120)
def many_requests(ctx, case):
    """Histories of request sets of up to 40, some with a dozen windows each."""
    history(ctx, case)


@st.composite
def crowd(draw):
    """Many windows on a coarse grid: touching, nested and equal ones, no schedule yet."""
    world = draw(sched.world(2, 6, looks=False, placed=False))
    for request in world["requests"]:
        request["vtws"] = []
        for _ in range(draw(st.integers(1, 4))):
            a = draw(st.integers(0, 20))
            request["vtws"].append([float(a), float(a + draw(st.integers(1, 10)))])
    return {"world": world, "pick": [draw(st.integers(0, 3)) for _ in world["requests"]],
            "held": [draw(st.integers(0, 3)) > 0 for _ in world["requests"]]}


@law("C24", "conflict", crowd(), "conflict degrees differ and a window is nested or equal",
     quick=1500)
def conflict(ctx, case):
    """Orders by conflict degree: mean overlap with every window that intersects."""
    world = case["world"]
    handler = sched.handler_of(world)
    for i, request in enumerate(world["requests"]):
        if case["held"][i]:
            w = case["pick"][i] % len(request["vtws"])
            handler.schedule_request(i, w, Quantity(at(world, request["vtws"][w][0]), u.jd2000),
                                     Quantity(request["dur"], u.s))
    before = state(sched.check_container(handler, world))
    for name in ("sort_vtws_by_increasing_conflict_degree", "sort_by_decreasing_conflict_degree",
                 "sort_vtws_by_increasing_rise_time"):
        getattr(handler, name)()
        records = sched.check_container(handler, world)
        same_state(before, state(records), name)
        sorted_by(handler, records, name, world, world["requests"])
    degree = sched.degrees(world)
    spans = [tuple(v) for r in world["requests"] for v in r["vtws"]]
    ctx.nontrivial(len({round(x, 9) for x in degree.values()}) > 1 and any(
        a != b and a[0] <= b[0] and b[1] <= a[1] for a in spans for b in spans))


# --------------------------------------------------------------- C25 ---

INSERTIONS = {"greedy": greedy_insertion, "opportunity": minimum_opportunity_insertion,
              "conflict": minimum_conflict_insertion}


@st.composite
def insertion_case(draw, distinct=False):
    return {"world": draw(sched.world(1, 8, distinct=distinct)),
            "operator": draw(st.sampled_from(sorted(INSERTIONS))),
            "again": draw(st.sampled_from([None] + sorted(INSERTIONS))),
            "number": draw(st.integers(0, 9))}


def judge_insertion(world, before, after, number, key, what):
    """Feasibility, frame condition, count, completeness and order of an insertion."""
    for k, record in before.items():
        if record["scheduled"]:
            check(after[k]["scheduled"] == record["scheduled"],
                  "%s moved request %r from %r to %r", what, k, record["scheduled"],
                  after[k]["scheduled"])
    sched.check_schedule(world, after)
    new = [k for k in after if after[k]["scheduled"] and not before[k]["scheduled"]]
    check(len(new) <= number, "%s added %d requests, asked for %d", what, len(new), number)
    by_id = {r["dur"]: r for r in world["requests"]}
    missed = 0
    for k, record in after.items():
        if record["scheduled"]:
            continue
        easy = sched.easy_windows(world, by_id[k], after)
        if not easy:
            continue
        missed += 1
        check(len(new) == number, "%s left out request %r, which fits its window %r, having added "
              "%d of %d", what, k, easy[0], len(new), number)
        if key is not None:
            for other in new:
                check(key(by_id[other]) <= key(by_id[k]),
                      "%s scheduled request %r (%r) before %r (%r)", what, other,
                      key(by_id[other]), k, key(by_id[k]))
    return new, missed


KEYS = {"greedy": lambda r: -r["priority"], "opportunity": lambda r: len(r["vtws"]),
        "conflict": None}


@law("C25", "insertion", insertion_case(), "a request inserted into a partial schedule",
     quick=2500)
def insertion(ctx, case):
    """One or two insertion steps on a feasible partial schedule."""
    world = case["world"]
    handler = sched.handler_of(world)
    placed = sched.place(handler, world)
    before = sched.check_container(handler, world)
    inserted = 0
    for name in [case["operator"]] + ([case["again"]] if case["again"] else []):
        INSERTIONS[name](handler, case["number"])
        after = sched.check_container(handler, world)
        new, missed = judge_insertion(world, before, after, case["number"], KEYS[name],
                                      name + " insertion")
        by_id = {r["dur"]: r for r in world["requests"]}
        if name == "conflict":
            degree = sched.degrees(world)
            for k in new:
                used = degree[tuple(after[k]["scheduled"]["vtw"])]
                for easy in sched.easy_windows(world, by_id[k], after):
                    check(used <= degree[tuple(easy)] + TIES, "request %r was placed in a window "
                          "of conflict degree %r, %r was free with %r", k, used, easy,
                          degree[tuple(easy)])
        ctx.label("look angle placed", any(by_id[k]["look"] is not None for k in new))
        ctx.label("number reached", missed > 0)
        inserted += len(new)
        before = after
    ctx.nontrivial(inserted > 0 and placed > 0)
    ctx.label(case["operator"])


@st.composite
def many_insertions(draw):
    return {"world": draw(sched.many()), "operator": draw(st.sampled_from(sorted(INSERTIONS))),
            "again": draw(st.sampled_from([None] + sorted(INSERTIONS))),
            "number": draw(st.integers(0, 45))}


@law("C25", "many", many_insertions(), "a request inserted into a partial schedule of many", quick=80)
def insertion_of_many(ctx, case):
    """Insertion into schedules of up to 40 requests."""
    insertion(ctx, case)


@st.composite
def last_resort(draw):
    """Requests that share many disjoint windows, most of them too short or taken."""
    m = draw(st.integers(5, 45))
    order = draw(st.permutations(range(m))) if draw(st.booleans()) else list(range(m))
    clear = set(draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=3))) \
        if draw(st.booleans()) else set(range(m))
    vtws = [[2.5 * k, 2.5 * k + (2.0 if k in clear else 0.25)] for k in order]
    operator = draw(st.sampled_from(sorted(INSERTIONS)))
    # The conflict degrees of n m windows take (n m) ** 2 steps.
    n = draw(st.sampled_from([1, 2, 3]) if operator == "conflict" else
             st.sampled_from([1, 2, 3, min(m, 14), min(m, 16) + 1]))
    return {"world": {"base": 2459000.5, "pitch": [40.0, 60.0, 0.8], "requests": [
        {"dur": 20 + (k + 1) / 8, "deadline": 500.0, "priority": 1 + k % 10, "quality": 1,
         "look": None, "vtws": [list(v) for v in vtws], "placed": None} for k in range(n)]},
        "operator": operator, "again": None, "number": n}


@law("C25", "last resort", last_resort(), "always: up to 45 windows shared by up to 17 requests",
     quick=60)
def insertion_in_last_window(ctx, case):
    """A request takes the clear window however many others there are before it."""
    insertion(ctx, case)
    ctx.nontrivial()


def alone(world, requests, request, schedule, vtw=None):
    """The schedule of `request` if inserted alone beside `schedule` ({id: entry}), or None."""
    present = [r for r in requests if r["dur"] in schedule] + [request]
    if vtw is not None:
        present[-1] = dict(request, vtws=[vtw])
    handler = sched.handler_of(world, present)
    for i, r in enumerate(present[:-1]):
        entry = schedule[r["dur"]]
        w = [[at(world, a), at(world, b)] for a, b in r["vtws"]].index(entry["vtw"])
        handler.schedule_request(i, w, Quantity(entry["start"], u.jd2000), Quantity(entry["dur"], u.s))
    greedy_insertion(handler, 1)
    for record in sched.read(handler):
        if record["id"] == request["dur"]:
            return record["scheduled"]
    raise Fail("request %r disappeared" % request["dur"])


@law("C25", "one by one", insertion_case(distinct=True), "two or more requests inserted",
     quick=700)
def one_by_one(ctx, case):
    """Inserting n requests is inserting them one at a time in the promised order."""
    world = case["world"]
    handler = sched.handler_of(world)
    sched.place(handler, world)
    before = sched.check_container(handler, world)
    greedy_insertion(handler, case["number"])
    after = sched.check_container(handler, world)
    schedule = {k: r["scheduled"] for k, r in before.items() if r["scheduled"]}
    expected, added = dict(schedule), 0
    for request in sorted(world["requests"], key=lambda r: -r["priority"]):
        if request["dur"] in schedule or added == case["number"]:
            continue
        entry = alone(world, world["requests"], request, expected)
        if entry:
            expected[request["dur"]] = entry
            added += 1
    got = {k: r["scheduled"] for k, r in after.items() if r["scheduled"]}
    check(got == expected, "greedy insertion of %d gives %r; one at a time, %r", case["number"], got,
          expected)
    ctx.nontrivial(added >= 2)


@law("C25", "many one by one", st.fixed_dictionaries({
    "world": sched.many(9, 24), "number": st.integers(0, 25)}), "two or more requests inserted",
     quick=150)
def many_one_by_one(ctx, case):
    """The same for up to 24 requests."""
    one_by_one(ctx, case)


@st.composite
def conflict_case(draw):
    world = draw(sched.world(1, 5, looks=False))
    return {"world": world, "start": draw(st.floats(-5, 125)),
            "at": draw(st.sampled_from(["free", "start", "end", "inside", "around"])),
            "which": draw(st.integers(0, 4)), "dur": draw(st.sampled_from([1.0, 30.0, 300.0, 3600.0])),
            "shift": draw(st.sampled_from([0.01, -0.01, 1.0, -1.0, 60.0]))}


@law("C25", "overlap test", conflict_case(), "something scheduled and the spans within a minute",
     quick=1500)
def overlap_test(ctx, case):
    """An observation conflicts exactly when it overlaps a scheduled one (touching not judged)."""
    world = case["world"]
    handler = sched.handler_of(world)
    sched.place(handler, world)
    spans = [(r["scheduled"]["start"], r["scheduled"]["dur"])
             for r in sched.read(handler) if r["scheduled"]]
    start, duration = at(world, 0) + case["start"] * sched.MINUTE, case["dur"]
    if spans and case["at"] != "free":
        s, d = spans[case["which"] % len(spans)]
        shift = sched.days(case["shift"])
        if case["at"] == "start":       # ends around its start
            start = s - sched.days(duration) + shift
        elif case["at"] == "end":
            start = s + sched.days(d) + shift
        elif case["at"] == "inside":
            start, duration = s + sched.days(d) / 4, d / 3
        else:
            start, duration = s - sched.days(d) / 4, d * 2
    truth = any(sched.overlap(start, duration, s, d) for s, d in spans)
    if truth != any(sched.overlap(start, duration, s, d, -sched.EPS) for s, d in spans):
        return
    got = does_conflict_exist(handler, Quantity(start, u.jd2000),
                              Quantity(sched.days(duration), u.jd2000))
    check(bool(got) == truth, "conflict of %r for %r s with %r is %r", start, duration, spans, got)
    ctx.nontrivial(bool(spans))
    ctx.label("overlap", truth)


@law("C25", "quality", st.tuples(st.integers(0, 100), st.integers(2, 200), st.floats(0, 1),
                                 st.floats(0, 1)).map(list), "the two starts differ", quick=500)
def quality(ctx, case):
    """Image quality is 1 to 10, best in the middle, and no better further from it."""
    rise = 2459000.5 + case[0] * sched.MINUTE
    set_ = rise + case[1] * sched.MINUTE / 4
    from celest.encounter.window_handling import VisibleTimeWindow
    window = VisibleTimeWindow(rise, set_, None)
    values = []
    for fraction in case[2:]:
        start = rise + (set_ - rise) * fraction
        q = image_quality(window, Quantity(start, u.jd2000))
        exact = 10 - 9 * abs(fraction - 0.5) * 2
        check(math.floor(exact - 1e-4) <= q <= math.floor(exact + 1e-4) and q == int(q),
              "image quality at %r of the window is %r, expected the floor of %r", fraction, q, exact)
        values.append((abs(fraction - 0.5), q))
    (d1, q1), (d2, q2) = sorted(values)
    check(q1 >= q2 or d2 - d1 < 1e-5, "quality %r near the middle, %r further away", q1, q2)
    ctx.nontrivial(d1 != d2)


# --------------------------------------------------------------- C26 ---

REMOVALS = {"random": random_removal, "priority": priority_removal,
            "opportunity": opportunity_removal, "conflict": conflict_removal}


@st.composite
def removal_case(draw):
    world = draw(sched.world(draw(st.sampled_from([1, 4, 5])), 9, looks=False, max_vtws=3))
    for request in world["requests"]:
        if draw(st.integers(0, 3)):
            request["placed"] = [draw(st.integers(0, 3)), draw(st.floats(0.05, 0.95))]
    return {"world": world, "operator": draw(st.sampled_from(sorted(REMOVALS))),
            "number": draw(st.one_of(st.integers(1, 3), st.integers(0, 10))), "seed": draw(st.integers(0, 10 ** 6)),
            "greedy": draw(st.booleans()), "loose": draw(st.booleans()),
            "again": draw(st.integers(0, 3))}


@law("C26", "removal", removal_case(), "some but not all of two or more scheduled requests removed",
     quick=3000)
def removal(ctx, case):
    """Exactly the requested number is freed, in order; the rest keep their schedule."""
    world = case["world"]
    handler = sched.handler_of(world)
    if case["loose"]:       # any schedule, not only a feasible one
        for i, request in enumerate(world["requests"]):
            if request["vtws"] and request["placed"]:
                w = request["placed"][0] % len(request["vtws"])
                start = at(world, request["vtws"][w][0])
                handler.schedule_request(i, w, Quantity(start, u.jd2000),
                                         Quantity(request["dur"], u.s))
    else:
        sched.place(handler, world)
        if case["greedy"]:
            greedy_insertion(handler, 10)
    degree = sched.degrees(world)
    random.seed(case["seed"])
    before = sched.check_container(handler, world)
    numbers = [case["number"]] + ([case["again"]] if case["again"] else [])
    for number in numbers:
        REMOVALS[case["operator"]](handler, number)
        after = sched.check_container(handler, world)
        held = [k for k, r in before.items() if r["scheduled"]]
        freed = [k for k in held if not after[k]["scheduled"]]
        what = "%s removal of %d" % (case["operator"], number)
        check(len(freed) == min(number, len(held)), "%s of %d scheduled freed %d", what, len(held),
              len(freed))
        same_state(state(before), state(after), what, freed)
        for k in freed:
            check(sorted(after[k]["vtws"]) == sorted(before[k]["vtws"]), "%s changed the windows of "
                  "%r", what, k)
        key = {"priority": lambda k: before[k]["priority"],
               "opportunity": lambda k: len(before[k]["vtws"]),
               "conflict": lambda k: degree[tuple(before[k]["scheduled"]["vtw"])],
               "random": lambda k: 0}[case["operator"]]
        kept = [k for k in held if k not in freed]
        if freed and kept:
            lowest, highest = min(freed, key=key), max(kept, key=key)
            check(key(lowest) >= key(highest) - TIES, "%s freed %r (%r) and kept %r (%r)", what,
                  lowest, key(lowest), highest, key(highest))
            ctx.nontrivial()
            ctx.label(case["operator"])
        ctx.label("all freed", bool(freed) and not kept)
        before = after


@st.composite
def many_removals(draw):
    return {"world": draw(sched.many(looks=False)), "operator": draw(st.sampled_from(sorted(REMOVALS))),
            "number": draw(st.one_of(st.integers(1, 6), st.integers(0, 42))),
            "seed": draw(st.integers(0, 10 ** 6)), "greedy": draw(st.booleans()),
            "loose": draw(st.booleans()), "again": draw(st.integers(0, 12))}


@law("C26", "many", many_removals(), "some but not all of two or more scheduled requests removed",
     quick=240)
def removal_from_many(ctx, case):
    """Removal from schedules of up to 40 requests."""
    removal(ctx, case)


@law("C26", "uniform", st.tuples(st.integers(2, 6), st.integers(0, 4), st.integers(1, 5),
                                 st.integers(0, 10 ** 6), st.booleans()).map(list),
     "fewer removed than scheduled", quick=30)
def uniform(ctx, case):
    """Random removal frees every scheduled request equally often (6 sigma)."""
    held, idle, number, seed, front = case
    if number >= held:
        return
    total = held + idle
    busy = set(range(held)) if front else set(range(idle, total))
    world = {"base": 2459000.5, "pitch": [1.0, 30.0, 0.0], "requests": [
        {"dur": 10.0 + k, "priority": 1 + k % 3, "quality": 1, "deadline": 500.0, "look": None,
         "vtws": [[10.0 * k, 10.0 * k + 5]], "placed": [0, 0.5]} for k in range(total)]}
    handler = sched.handler_of(world)
    random.seed(seed)
    rounds, counts = 500, [0] * total
    for _ in range(rounds):
        for i in range(total):
            if i in busy and not handler.is_request_scheduled(i):
                handler.schedule_request(i, 0, Quantity(at(world, 10.0 * i + 1), u.jd2000),
                                         Quantity(10.0 + i, u.s))
        order = [sched.identity(handler, i) for i in range(total)]
        random_removal(handler, number)
        free = [i for i in range(total) if not handler.is_request_scheduled(i)]
        gone = {int(round(sched.identity(handler, i) - 10)) for i in free} & busy
        check(len(gone) == number, "random removal of %d freed %d", number, len(gone))
        for k in gone:
            counts[k] += 1
        if [sched.identity(handler, i) for i in range(total)] != order:
            handler = sched.handler_of(world)
    p = number / held
    sigma = math.sqrt(rounds * p * (1 - p))
    for k in busy:
        check(abs(counts[k] - rounds * p) < 6 * sigma, "in %d random removals of %d from %d "
              "scheduled, request %d was freed %d times, %.0f expected (sigma %.1f)", rounds, number,
              held, k, counts[k], rounds * p, sigma)
    ctx.nontrivial()


@law("C26", "reach", st.integers(0, 10 ** 6).map(lambda x: [x]),
     "always: each of 20, 50 and 100 scheduled requests is freed within 28 n random removals", quick=16)
def reach(ctx, case):
    """No scheduled request of many is out of reach of random removal (missed once in 1e10)."""
    random.seed(case[0])
    for total in (20, 50, 100):
        reach_all(total)
    ctx.nontrivial()


def reach_all(total):
    world = {"base": 2459000.5, "pitch": [1.0, 30.0, 0.0], "requests": [
        {"dur": 10.0 + k, "priority": 1 + k % 3, "quality": 1, "deadline": 5000.0, "look": None,
         "vtws": [[10.0 * k, 10.0 * k + 5]], "placed": [0, 0.5]} for k in range(total)]}
    handler = sched.handler_of(world)
    start = [Quantity(at(world, 10.0 * k + 1), u.jd2000) for k in range(total)]
    duration = [Quantity(10.0 + k, u.s) for k in range(total)]
    gone = set()
    for _ in range(28 * total):
        for i in range(total):
            if not handler.is_request_scheduled(i):
                k = int(round(sched.identity(handler, i) - 10))
                handler.schedule_request(i, 0, start[k], duration[k])
        random_removal(handler, 1)
        free = [i for i in range(total) if not handler.is_request_scheduled(i)]
        check(len(free) == 1, "random removal of 1 of %d freed %d", total, len(free))
        gone.add(int(round(sched.identity(handler, free[0]) - 10)))
    check(len(gone) == total, "in %d random removals of 1 of %d scheduled, requests %r were never "
          "freed", 28 * total, total, sorted(set(range(total)) - gone))


# --------------------------------------------------------------- C29 ---

@st.composite
def cost_case(draw):
    world = draw(sched.world(0, 9, looks=False, max_vtws=2))
    scale = draw(st.sampled_from(["as is", "as is", "float", "large", "equal", "zero"]))
    for request in world["requests"]:
        if scale == "float":
            request["priority"] = draw(st.floats(0.25, 10))
        elif scale == "large":
            request["priority"] = draw(st.integers(1, 10 ** 9))
        elif scale == "equal":
            request["priority"] = 4
        elif scale == "zero":
            request["priority"] = draw(st.sampled_from([0, 0.0, 1, 2]))
    held = draw(st.sampled_from(["some", "all", "all but one", "none"]))
    n = len(world["requests"])
    marks = {"some": [draw(st.booleans()) for _ in range(n)], "all": [True] * n,
             "none": [False] * n, "all but one": [True] * n}[held]
    if held == "all but one" and n:
        marks[draw(st.sampled_from([0, n - 1, draw(st.integers(0, n - 1))]))] = False
    return {"world": world, "marks": marks,
            "sorts": draw(st.lists(st.integers(0, 5), max_size=2))}


@law("C29", "cost", cost_case(), "some scheduled", quick=3000)
def cost_and_completeness(ctx, case):
    """Cost and completeness against direct sums."""
    world = case["world"]
    handler = sched.handler_of(world)
    for i, request in enumerate(world["requests"]):
        if case["marks"][i]:
            handler.schedule_request(i, 0, Quantity(at(world, 1.0), u.jd2000),
                                     Quantity(request["dur"], u.s))
    held = [r["priority"] for r, m in zip(world["requests"], case["marks"]) if m]
    for number in [None] + case["sorts"]:
        if number is not None:
            if any(m and not r["vtws"] for r, m in zip(world["requests"], case["marks"])):
                break               # nothing to sort by
            getattr(handler, SORTS[number])()
        for _ in range(2):
            got = cost(handler)
            check(abs(got + math.fsum(held)) <= 1e-9 * (1 + sum(map(abs, held))), "cost is %r, the scheduled "
                  "priorities are %r", got, held)
            check(bool(is_complete(handler)) == all(case["marks"]), "complete is %r for %r",
                  is_complete(handler), case["marks"])
    ctx.nontrivial(bool(held))
    ctx.label("complete", bool(held) and all(case["marks"]))
    ctx.label("one missing", sum(case["marks"]) == len(case["marks"]) - 1)


@law("C29", "many", st.tuples(st.integers(10, 300), st.integers(0, 10 ** 6)).map(list), "always",
     quick=120)
def cost_of_many(ctx, case):
    """The cost and completeness of up to 300 requests."""
    n, seed = case
    rng = random.Random(seed)
    world = {"base": 2459000.5, "pitch": [1.0, 30.0, 0.0], "requests": [
        {"dur": 10.0 + k / 16, "priority": rng.randint(1, 10), "quality": 1, "deadline": 500.0,
         "look": None, "vtws": [[0.0, 10.0]]} for k in range(n)]}
    marks = [rng.random() < rng.choice([0.5, 1.0]) for _ in range(n)]
    if seed % 3 == 0:
        marks = [True] * n
        marks[rng.choice([0, n - 1, rng.randrange(n)])] = seed % 2 == 0
    cost_and_completeness(ctx, {"world": world, "marks": marks, "sorts": [0] if n < 60 else []})
    ctx.nontrivial()


@law("C29", "initial many", sched.many(9, 20), "always", quick=120)
def initial_many(ctx, case):
    """The greedy start of up to 20 requests, some with a dozen windows."""
    initial(ctx, case)
    ctx.nontrivial()


@law("C29", "initial rivals", sched.rivals(), "a request left out or in a later pass", quick=500)
def initial_rivals(ctx, case):
    """The greedy start of a few requests for the same passes."""
    initial(ctx, case)


@law("C29", "initial resumed", sched.world(1, 7, distinct=True), "some requests scheduled before",
     quick=400)
def initial_resumed(ctx, case):
    """The greedy start keeps what is scheduled and fills in the rest by priority and time."""
    handler = sched.handler_of(case)
    placed = sched.place(handler, case)
    before = sched.check_container(handler, case)
    initialize_solution(handler)
    after = sched.check_container(handler, case)
    new, _ = judge_insertion(case, before, after, len(case["requests"]), KEYS["greedy"],
                             "the greedy start")
    by_id = {r["dur"]: r for r in case["requests"]}
    for k in new:
        entry = after[k]["scheduled"]
        for easy in sched.easy_windows(case, by_id[k], after):
            check(entry["vtw"][0] <= easy[0], "request %r starts in window %r, %r was free", k,
                  entry["vtw"], easy)
    ctx.nontrivial(placed > 0 and bool(new))


@law("C29", "initial", sched.world(1, 7, placed=False, distinct=True),
     "two or more requests, one with several windows", quick=800)
def initial(ctx, case):
    """The greedy start: by priority, each request in its earliest feasible window."""
    handler = sched.handler_of(case)
    before = sched.check_container(handler, case)
    initialize_solution(handler)
    after = sched.check_container(handler, case)
    judge_insertion(case, before, after, len(case["requests"]), KEYS["greedy"], "the greedy start")
    expected = {}
    for request in sorted(case["requests"], key=lambda r: -r["priority"]):
        for vtw in sorted(request["vtws"]):
            entry = alone(case, case["requests"], request, expected, vtw)
            if entry:
                expected[request["dur"]] = entry
                break
    got = {k: r["scheduled"] for k, r in after.items() if r["scheduled"]}
    starts = {k: e["start"] for k, e in got.items()}
    wanted = {k: e["start"] for k, e in expected.items()}
    # Windows that rise together may be tried in either order.
    tied = any(len({v[0] for v in r["vtws"]}) < len(r["vtws"]) for r in case["requests"])
    if not tied:
        check(starts == wanted, "the greedy start schedules %r, expected %r", starts, wanted)
    by_id = {r["dur"]: r for r in case["requests"]}
    for k, entry in got.items():
        for easy in sched.easy_windows(case, by_id[k], after):
            check(entry["vtw"][0] <= easy[0], "request %r starts in window %r, %r was free", k,
                  entry["vtw"], easy)
    ctx.nontrivial(len(case["requests"]) > 1 and any(len(r["vtws"]) > 1 for r in case["requests"]))
    ctx.label("left out", len(got) < len(case["requests"]))
    ctx.label("later window used", any(
        e["vtw"][0] > min(at(case, v[0]) for v in by_id[k]["vtws"]) for k, e in got.items()))
