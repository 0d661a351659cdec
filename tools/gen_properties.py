"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


U = "celest/units/"
prop("C01", "Units form a consistent algebra",
     "Multiplying, dividing and raising units to powers behaves like multiplying, dividing and raising the physical "
     "magnitudes they stand for: the result's dimension has the exact sum, difference or multiple of the operands' "
     "exponents, and its size relative to the base units is the product, quotient or power of theirs, whatever order "
     "or nesting of operations produced it and whatever numeric factors were multiplied in. Units that cancel "
     "completely are dimensionless, two expressions of the same dimension report the same dimension string, and the "
     "printed form of a unit lists each base once with its exponent.",
     ["inputs", "programs"], "every expression tree over the predefined units, numeric prefactors and powers",
     "unit tests build a few two-term products; nesting, cancellation, repeated bases and prefactors are unbounded",
     [U + "core.py", U + "display.py", U + "unit_initialization.py"],
     [("operator overloads build compound units", U + "core.py"),
      ("bases collected and merged", U + "core.py CompoundUnit._expand_and_collect"),
      ("dimension strings", U + "display.py get_dimension_string")],
     ["celest.units", "unit.dimension", "unit.scale/bases/powers", "str(unit)"])

prop("C02", "Unit conversion of quantities is exact and reversible",
     "Converting a quantity to another unit of the same dimension yields the same physical amount (agreeing with the "
     "defined size of both units), for scalars and arrays of any numeric type, element by element; converting back "
     "recovers the original, converting through an intermediate unit changes nothing, and the original quantity is "
     "left unchanged, also by later changes to the converted data. Converting to a unit of a different dimension raises ValueError.",
     ["inputs"], "every value (scalar, int or float array) and every pair of same-dimension units, simple or compound",
     "tests convert single scalars between a few named units",
     [U + "quantity.py", U + "core.py"],
     [("conversion by ratio of unit sizes on a copy", U + "quantity.py Quantity.convert_to")],
     ["Quantity.to", "Quantity.convert_to"])

prop("C03", "Quantity arithmetic and comparison do not depend on the units used",
     "Adding, subtracting, multiplying, dividing, negating and comparing quantities gives the result for the physical "
     "amounts they represent, in any mixture of compatible units, scalar or array, with a number on either side where "
     "numbers are allowed; operands are never modified. Adding, subtracting or ordering quantities of "
     "different dimension raises ArithmeticError, and equality with something that is not a quantity is false rather than an error.",
     ["inputs", "programs"], "every pair of operands (values, shapes, units) and every operator",
     "tests use one or two fixed operand pairs per operator",
     [U + "quantity.py"],
     [("operators convert the right operand to the left operand's unit", U + "quantity.py")],
     ["Quantity operators"])

prop("C04", "A ground location is the WGS84 point its latitude, longitude, height say",
     "For every latitude, longitude and height in any angular and length unit, the location's Earth-fixed x, y, z is the "
     "WGS84 geodetic point, and its reported radius is the geocentric ellipsoid radius at that latitude plus the "
     "height. A location is accepted exactly when its latitude is within ±90 degrees and its longitude within ±180 degrees, "
     "whatever unit they are given in, and it reports back the coordinates it was given.",
     ["inputs"], "every latitude/longitude/height and unit choice, including poles, equator and date line",
     "tests use one location in degrees",
     ["celest/coordinates/ground_location.py", "celest/coordinates/astronomical_quantities.py", "celest/constants.py"],
     [("closed-form geodetic to Cartesian", "celest/coordinates/ground_location.py"),
      ("range validation in the constructor", "celest/coordinates/ground_location.py")],
     ["GroundLocation.itrs_x/y/z", "GroundLocation.radius", "constructor"])

prop("C05", "Printed locations decode back to the location",
     "The printed form of a ground location is well formed (degrees, minutes below 60, seconds below 60.00, correct "
     "N/S and E/W letter, height with unit) and decodes to the original latitude and longitude within half of the last printed digit "
     "(0.005 arc seconds), for every location and every angular unit.",
     ["inputs"], "every latitude, longitude, height and unit",
     "tests print one location",
     ["celest/angle_strings.py", "celest/coordinates/ground_location.py"],
     [("sexagesimal splitting and rounding", "celest/angle_strings.py")],
     ["str(GroundLocation)"])

prop("C06", "Position containers reject inconsistent data and keep what they are given",
     "A time-tagged position (inertial, Earth-fixed, geographic, horizontal, orbital or attitude) is accepted only when all its "
     "components and its times are one-dimensional and equally long, and raises ValueError otherwise. Accepted data is reported "
     "back unchanged in the given unit and order, and exporting it as an array in any compatible unit gives one row per "
     "time with the components in order.",
     ["inputs"], "every combination of component and time lengths, dimensionalities, values and units",
     "tests try one set of wrong lengths and one valid set",
     ["celest/coordinates/frames/base_positions.py", "celest/coordinates/frames/"],
     [("constructor validation", "celest/coordinates/frames/base_positions.py")],
     ["frame constructors", "to_numpy"])

prop("C07", "Inertial and Earth-fixed conversions are inverse rigid rotations",
     "Converting positions from the inertial to the Earth-fixed frame and back (or the reverse) returns the original "
     "positions, and each conversion is a proper rotation at each instant: lengths, angles between simultaneous vectors and "
     "handedness are preserved. Times, units and the number and order of samples are preserved.",
     ["inputs"], "every date, every position vector (any magnitude, direction, numeric type and length unit)",
     "the only tests need a data file that is not shipped and sample one trajectory",
     ["celest/coordinates/transforms.py", "celest/coordinates/nutation_precession_matrices.py"],
     [("bias, precession, nutation and Earth rotation matrices and their inverses", "celest/coordinates/transforms.py")],
     ["Coordinate.convert_to(ITRS)", "Coordinate.convert_to(GCRS)"])

prop("C08", "Inertial to Earth-fixed rotation agrees with the IAU standard",
     "For dates between 1950 and 2100 the conversion between the inertial and the Earth-fixed frame agrees with the "
     "IAU 2006/2000A celestial-to-terrestrial rotation (with polar motion and UT1-UTC ignored) to within 1 arc second in any direction, and the "
     "rotation advances by one sidereal day's turn per sidereal day.",
     ["inputs"], "every date in 1950-2100 and every direction",
     "tests compare one 2020 trajectory whose data is not shipped with a 0.35 km tolerance",
     ["celest/coordinates/transforms.py", "celest/coordinates/nutation_precession_matrices.py",
      "celest/coordinates/astronomical_quantities.py", "celest/constants.py"],
     [("frame bias, precession, nutation, Earth rotation", "celest/coordinates/nutation_precession_matrices.py"),
      ("order of composition", "celest/coordinates/transforms.py")],
     ["Coordinate.convert_to"])

prop("C09", "Earth-fixed and geographic conversions agree with the WGS84 ellipsoid",
     "Converting an Earth-fixed position to latitude, longitude and height gives its WGS84 geodetic coordinates, and converting "
     "geographic coordinates to Earth-fixed gives the WGS84 geodetic point; the two are inverse of each other everywhere from "
     "the surface to beyond geosynchronous height, including the poles and the date line. Latitude lies in [-90, 90] and longitude in "
     "[-180, 180] degrees, and a satellite's reported altitude is that geodetic height.",
     ["inputs"], "every position above the surface, every unit, single samples and batches",
     "tests use one trajectory (data not shipped)",
     ["celest/coordinates/transforms.py", "celest/satellite.py"],
     [("iterative geodetic height", "celest/coordinates/transforms.py _altitude"),
      ("closed-form geodetic to Cartesian", "celest/coordinates/transforms.py _wgs84_to_itrs")],
     ["Coordinate.convert_to(WGS84)", "Coordinate.convert_to(ITRS)", "Satellite.altitude"])

prop("C10", "Converting through any route of frames gives the same answer",
     "Converting a position directly to a frame and converting it through intermediate frames give the same result, with the same "
     "times, and converting to the frame it is already in returns the same position. Horizontal coordinates require a location (ValueError without one), and "
     "a position in a frame that cannot be converted from is rejected with ValueError.",
     ["inputs", "programs"], "every start frame, every sequence of conversions, every position, date and location",
     "tests check single conversions against individual functions",
     ["celest/coordinates/coordinate.py", "celest/coordinates/transforms.py"],
     [("conversion dispatch through the Earth-fixed frame", "celest/coordinates/coordinate.py")],
     ["Coordinate.convert_to"])

prop("C11", "Azimuth and elevation describe the true direction from the location",
     "For every ground location and every target position, elevation is the angle above the location's local (geodetic) horizon and "
     "azimuth is the direction of the target clockwise from true north, so that together with the distance they "
     "reconstruct the target's position. Azimuth lies in [0, 360] degrees and elevation in [-90, 90] degrees, in both hemispheres, on the equator and for "
     "targets straight overhead or below the horizon.",
     ["inputs"], "every location (all latitudes, longitudes, heights), every target, single samples and batches",
     "tests use one northern location with data that is not shipped",
     ["celest/coordinates/transforms.py", "celest/coordinates/frames/azel.py"],
     [("azimuth from the horizon plane", "celest/coordinates/transforms.py _azimuth"),
      ("elevation from the local vertical", "celest/coordinates/transforms.py _elevation")],
     ["Coordinate.convert_to(AzEl, location)"])

prop("C12", "Each sample of a trajectory is processed independently",
     "Every conversion, time quantity, astronomical quantity and satellite quantity computed for a series of samples equals, sample by "
     "sample, what is computed for each sample alone: reordering, splitting, repeating or extending the series never changes the value for a "
     "given sample, and the output has as many samples as the input.",
     ["inputs"], "every series, every permutation, split and extension of it, every operation",
     "tests compute each quantity on one fixed array",
     ["celest/coordinates/", "celest/time.py", "celest/satellite.py"],
     [("vectorised numpy code, masks and iterative loops", "celest/coordinates/transforms.py")],
     ["all array-valued public operations"])

prop("C13", "Computing never modifies the caller's data",
     "No conversion, query, window generation or export changes the arrays, positions, quantities, locations or satellite handed "
     "to it: repeating the same call gives the same answer, and the objects given read back exactly as before. Results do not depend on whether "
     "whole-number data was supplied as integers or as floats.",
     ["inputs", "histories"], "every sequence of operations on shared objects, every numeric type of input",
     "tests build fresh float inputs and do not re-read them",
     ["celest/coordinates/transforms.py", "celest/satellite.py", "celest/units/quantity.py", "celest/time.py"],
     [("copies before in-place rotation", "celest/coordinates/transforms.py"),
      ("copy before scaling", "celest/units/quantity.py")],
     ["all public operations"])

T = "celest/time.py"
prop("C14", "Solar time and hour angle relations hold everywhere",
     "Mean solar time advances 24 hours per day and 1 hour per 15 degrees of east longitude and equals universal time at Greenwich; true solar time "
     "exceeds mean solar time by the equation of time; hour angles are the solar times less 12 hours. All lie in [0, 24) hours, for scalar or per-sample "
     "longitudes of any size, and the equation of time agrees with the Sun's position to within a minute of time.",
     ["inputs"], "every date and longitude, scalar and array",
     "tests compare a handful of dates and longitudes to tabulated values",
     [T, "celest/coordinates/astronomical_quantities.py"],
     [("modular arithmetic in hours", T)],
     ["Time.mean_solar_time", "Time.true_solar_time", "Time.mean_hour_angle", "Time.true_hour_angle", "Time.ut1"])

prop("C15", "Sidereal times agree with the IAU definition and with each other",
     "Greenwich mean and apparent sidereal times agree with the IAU definition to within a tenth of a second between 1950 and 2100 and lie in [0, 24) hours, the mean one equals the polynomial it cites (Meeus) at any date; apparent minus mean "
     "is the equation of the equinoxes. Local sidereal times are the Greenwich ones plus the east longitude (15 degrees per hour), modulo "
     "24 hours, for scalar and per-sample longitudes.",
     ["inputs"], "every date and longitude, scalar and array",
     "tests compare three dates at one longitude, local times only to 0.1 hour",
     [T, "celest/coordinates/astronomical_quantities.py"],
     [("sidereal time polynomial and equation of equinoxes", T)],
     ["Time.gmst", "Time.gast", "Time.lmst", "Time.last"])

prop("C16", "Julian dates map to the right calendar dates and times",
     "For every Julian date, the calendar year, month and decimal day, the day of the year and the date-time object returned denote that same instant "
     "(Julian calendar before 15 October 1582, Gregorian after), including leap years, century years, year boundaries and exact midnights, "
     "for single dates and for mixed series. Building times with an offset is the same as adding the offset to the dates.",
     ["inputs"], "every Julian date (years -4000 to 9999 where representable) and every series of them",
     "tests check a few modern dates",
     [T, "celest/coordinates/astronomical_quantities.py"],
     [("Meeus calendar algorithm", "celest/coordinates/astronomical_quantities.py from_julian"),
      ("day of year", "celest/coordinates/astronomical_quantities.py day_of_year")],
     ["from_julian", "day_of_year", "Time.datetime", "Time(julian, offset)"])

prop("C17", "Astronomical quantities agree with the reference models",
     "Between 1900 and 2100 the obliquity, nutation, precession angles, lunar and solar arguments, equation of the equinoxes, equation of "
     "time, Earth rotation angle and solar right ascension agree with standard reference models (IAU SOFA) within the accuracy of the published "
     "formulas they cite and equal those formulas, and the angles documented as wrapped lie in [0, 360) degrees.",
     ["inputs"], "every date in the range, scalar and array",
     "tests check one or two textbook dates per quantity",
     ["celest/coordinates/astronomical_quantities.py"],
     [("polynomial and trigonometric series", "celest/coordinates/astronomical_quantities.py")],
     ["public functions of celest.coordinates.astronomical_quantities"])

prop("C18", "Satellite range and look angle are the true geometry",
     "The distance from a satellite to a location is the straight-line distance between their Earth-fixed positions, and the look angle is "
     "the angle at the satellite between the direction to Earth's centre and the direction to the location, in [0, 180] degrees and zero straight overhead. "
     "Both are the same whether the satellite was given in the inertial or Earth-fixed frame and in whatever length unit.",
     ["inputs"], "every satellite position, date and location",
     "tests use one trajectory (data not shipped)",
     ["celest/satellite.py", "celest/coordinates/transforms.py"],
     [("vector geometry", "celest/satellite.py")],
     ["Satellite.distance", "Satellite.look_angle"])

prop("C19", "The orbital (LVLH) frame is the documented one",
     "Expressed in the orbital frame, a satellite's own position lies on the negative z axis (z points to Earth's centre), its angular momentum lies on the "
     "negative y axis and the forward velocity component is non-negative along x, with lengths and the angle between position and velocity preserved, for every orbit. "
     "Times and units are preserved.",
     ["inputs"], "every non-degenerate position/velocity pair",
     "tests use one trajectory (data not shipped)",
     ["celest/coordinates/transforms.py", "celest/coordinates/frames/lvlh.py"],
     [("rotation built from position and angular momentum", "celest/coordinates/transforms.py")],
     ["conversion to the orbital frame"])

prop("C20", "Attitude angles point the satellite at the target",
     "Applying the reported roll, pitch and yaw to the satellite's nadir axis in the orbital frame gives exactly the direction from the satellite to the target, "
     "with no more rotation than the off-nadir angle requires; straight overhead all three angles are zero. Attitude requires a velocity and carries "
     "the target location and the satellite's times.",
     ["inputs"], "every satellite state, date and target",
     "tests use one trajectory (data not shipped) and recomputed formulas",
     ["celest/satellite.py", "celest/coordinates/transforms.py"],
     [("shortest-arc rotation from nadir to target", "celest/satellite.py attitude")],
     ["Satellite.attitude"])

W = "celest/encounter/"
prop("C21", "Visible time windows are exactly the passes above the threshold",
     "The generated windows are ordered, disjoint and lie within the satellite's time span, and together contain every sample where "
     "the satellite's elevation exceeds the threshold and the lighting condition holds, and no others (a window "
     "starts at the last sample before the pass, or at the first sample of the span if already visible). A satellite that is never visible yields an empty "
     "collection, and thresholds outside 0-90 degrees are rejected with ValueError.",
     ["inputs"], "every trajectory, location and threshold, including never, always, at-the-edge and single-sample visibility",
     "tests use one trajectory (data not shipped) and compare with a stored result",
     [W + "window_generator.py"],
     [("threshold mask, consecutive-run splitting", W + "window_generator.py generate_vtws")],
     ["generate_vtws"])

prop("C22", "Lighting conditions select day or night at the location",
     "Daytime windows contain only times when the Sun is above the location's horizon and nighttime windows only times when it is below; for any satellite "
     "the anytime windows' visible samples are the union of the two, apart from samples with the Sun exactly on the horizon.",
     ["inputs"], "every trajectory, date, location, threshold and lighting condition",
     "the ephemeris file is not shipped, so no test of lighting runs",
     [W + "window_generator.py"],
     [("Sun direction from ephemeris, sign of its elevation", W + "window_generator.py")],
     ["generate_vtws(..., lighting)"])

prop("C23", "A window collection behaves as an append-only list of one kind",
     "After any sequence of additions, a window collection has the length, indexing, slicing, iteration order and repeated, nested or abandoned iteration "
     "behaviour of a list of the windows added, in order of addition. Adding a window of the other kind or another object raises TypeError and leaves the collection unchanged.",
     ["histories"], "every sequence of additions, lookups, complete, partial and nested iterations",
     "tests add one or two windows and iterate once",
     [W + "window_handling.py"],
     [("list of windows with type check", W + "window_handling.py WindowCollection")],
     ["WindowCollection"])

S = "celest/schedule/"
prop("C24", "Request bookkeeping stays consistent through any history",
     "After any sequence of adding, scheduling, unscheduling and sorting requests, the container holds exactly the requests added, iteration visits each of them once, "
     "the scheduled count equals the number marked scheduled, and each scheduled request still refers to the visible window, start and duration it was scheduled with. "
     "Sorting by priority, opportunity count, conflict degree or rise time leaves the items in that order; a request's conflict degree is its window's mean overlap with all windows intersecting it.",
     ["histories"], "every sequence of operations on any set of requests and windows, including ties",
     "tests call each operation once on one data set",
     [S + "request_handler.py"],
     [("request records, sorting, iteration, counters", S + "request_handler.py")],
     ["RequestHandler"],
     [("number_of_scheduled_requests", "count of scheduled requests", S + "request_handler.py")])

prop("C25", "Insertion only ever produces feasible schedules",
     "After any insertion step on any feasible partial schedule, every scheduled observation lies inside one of its own request's visible windows, ends before its deadline, meets "
     "its minimum image quality, has its own duration, and overlaps no other scheduled observation; requests already scheduled are untouched and at most the requested number are added, "
     "in the order the operator promises. A request with a long clear window, a late deadline and minimum quality is not left out while there is room, and a request asking for a look angle "
     "starts where its along-track pointing angle passes through that angle.",
     ["inputs", "histories"], "every set of requests, windows and partial schedule, each operator and count",
     "tests insert one or two items into one data set and check only counts",
     [S + "insertion_operators.py"],
     [("bounds, deadline, quality and conflict tests before scheduling", S + "insertion_operators.py")],
     ["insertion operators"])

prop("C26", "Removal frees exactly the requested number of observations",
     "Each removal step unschedules exactly the requested number of scheduled requests (all of them if fewer are scheduled), in the operator's promised order (highest priority, most opportunities, "
     "highest conflict degree, or uniformly at random among all scheduled requests), always terminates, and leaves every other request and its schedule unchanged.",
     ["inputs", "histories"], "every set of requests and partial schedule, each operator, count and random seed",
     "tests remove one or two items from fully scheduled data and check only counts",
     [S + "removal_operators.py"],
     [("ordered scan / random choice over scheduled requests", S + "removal_operators.py")],
     ["removal operators"])

prop("C27", "Generated schedules are feasible and at least as good as the greedy start",
     "A generated schedule contains at most one observation per request, each at that request's location with its duration, inside a time when the satellite is visible there, before the deadline, and no "
     "two observations overlap; its total priority is at least that of the greedy priority-ordered schedule. Each observation's attitude is the satellite's pointing attitude to that location at "
     "the sample nearest its start, and any request set (including impossible or single requests) and any valid search settings terminate with a schedule.",
     ["inputs", "configurations"], "every satellite pass geometry, set of requests, search settings and random seed",
     "the tests need a data file that is not shipped and only check that a result is returned",
     [S + "scheduler.py", S + "alns.py", S + "insertion_operators.py", S + "removal_operators.py", S + "request_handler.py"],
     [("adaptive large neighbourhood search over feasible schedules", S + "alns.py"),
      ("conversion to observation windows", S + "scheduler.py")],
     ["Scheduler.add_request", "Scheduler.generate"])

prop("C28", "The neighbourhood search returns the best solution it has seen",
     "For any cost function, set of destroy and repair operators and settings, the search returns the lowest-cost solution among the initial one and all candidates it produced, never modifies the "
     "initial solution, stops as soon as a complete solution is found, performs at most the given number of iterations, always accepts improvements, and "
     "rewards operators for new best, improving, accepted and rejected candidates in that order with weights that stay non-negative so that selection remains possible. An initial solution that is already complete is returned without any search.",
     ["inputs", "histories"], "every cost landscape, operator set, iteration count, annealing and decay setting, and random seed",
     "tests run one toy problem with fixed settings",
     [S + "alns.py"],
     [("best-so-far tracking with deep copies", S + "alns.py solve"), ("simulated-annealing acceptance", S + "alns.py _accept")],
     ["ALNS.solve"])

prop("C29", "Solution cost and completeness reflect every request",
     "The cost of a schedule is minus the sum of the priorities of all and only its scheduled requests, and a schedule is complete exactly when every request is scheduled, whatever the number and order of requests. "
     "The initial solution is the greedy one: requests considered in decreasing priority with each request placed in its earliest feasible window.",
     ["inputs", "histories"], "every request set and every partial schedule, including empty, single-request and last-request-only",
     "tests schedule the first two or all ten of one data set",
     [S + "scheduling_utils.py", S + "request_handler.py"],
     [("scan over requests", S + "scheduling_utils.py")],
     ["cost", "is_complete", "initialize_solution"])

prop("C30", "Saved text files contain exactly the data saved",
     "Saving a position, attitude, satellite, window collection or custom layered report writes a text file (with .txt appended once if missing) whose header, parameters, column labels with units and rows decode to "
     "exactly the data given, in order, to the precision of the format, for any values, column lengths, signs and non-numeric columns. Saving twice gives the same file, and an empty window collection is refused rather than written.",
     ["inputs"], "every table of values, labels, units, layers and formats; every frame, satellite (with or without velocity) and window collection",
     "tests only check that a file appears",
     ["celest/file_save.py", "celest/coordinates/frames/", "celest/satellite.py", W + "window_handling.py"],
     [("layer writer", "celest/file_save.py")],
     ["TextFileWriter.save", "save_text_file"])

prop("C31", "Input outside the documented domain is refused and changes nothing",
     "An argument outside what is documented is refused with its documented kind of error rather than computed with: "
     "ValueError for a coordinate, satellite or frame transformation given an object of another frame, horizontal "
     "coordinates without a location, an attitude without velocity, a visibility threshold outside 0-90 degrees, a "
     "lighting that does not exist (whether or not the satellite is ever visible), times or positions that are not "
     "one-dimensional arrays of one length, conversions to another dimension and locations off the globe; TypeError for a scheduler of something other "
     "than a satellite or with a non-numeric threshold, a unit raised to something other than a number and windows of another kind; an error "
     "for windows of a satellite without velocity, a schedule of no requests and saving no windows. After a refusal "
     "every object involved is as it was and gives the same answers (a refused request is not kept by the "
     "scheduler), while the limits of the domain themselves are accepted.",
     ["inputs", "histories"], "every operation, wrong argument and history of refused and accepted calls",
     "tests check single wrong arguments of some operations, and not what is left behind",
     ["celest/satellite.py", "celest/time.py", "celest/coordinates/", "celest/encounter/",
      "celest/schedule/scheduler.py", U + "core.py"],
     [("argument checks of constructors and conversions", "celest/coordinates/coordinate.py, celest/satellite.py"),
      ("threshold, velocity and lighting checks", "celest/encounter/window_generator.py generate_vtws"),
      ("scheduler argument checks", "celest/schedule/scheduler.py")],
     ["the exception raised", "the objects' values and later answers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
