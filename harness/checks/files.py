"""C30: text files decode to the data saved."""

import glob
import json
import math
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.encounter.window_handling import (
    ObservationWindow,
    VisibleTimeWindow,
    WindowCollection,
)
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.units.quantity import Quantity
from harness import build, core, gens
from harness.core import Fail, check, law, raises

SHORT = st.text(st.sampled_from("abcXYZ019 .,:;()%'\"/-+*°éλ#"), min_size=1, max_size=14).map(
    lambda s: s.strip() or "x").filter(lambda s: set(s) - set("-= "))
TEXT = st.one_of(*[SHORT] * 9, st.tuples(SHORT, st.integers(20, 300)).map(
    lambda t: (t[0] * t[1])[:t[1]].strip()))
UNITS = {"m": lambda: u.m, "km": lambda: u.km, "deg": lambda: u.deg, "rad": lambda: u.rad,
         "jd2000": lambda: u.jd2000, "m/s": lambda: u.m / u.s, "1/s2": lambda: 1 / u.s ** 2,
         "km2/hr": lambda: u.km ** 2 / u.hr}
NUMBER = st.one_of(st.floats(-1e4, 1e4), st.floats(-1, 1), st.floats(allow_nan=True),
                   st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-16, 2451545.0, 2459000.123456789,
                                    -123456.789012345, 1e15, -1e15, 0.1, 1 / 3]))
FORMATS = ["%.15f", "%.15f", "%.5f", "%.0f", "%.9e", "%10.4g", "%+.3f", "%20.12f"]
NAMES = ["out", "out.txt", "my.file", "a b", "data.TXT", "x.txt.txt", "txt", "t.tx", "out txt",
         "sub/out", "sub/out.txt", "sub.txt/out"]


def start(name, old_text=None):
    """A place for `name`, empty or with an earlier file; the path the file must have."""
    for old in glob.glob("*.txt") + glob.glob("*.TXT") + glob.glob("*/*.txt"):
        if os.path.isfile(old):
            os.remove(old)
    if "/" in name:
        os.makedirs(os.path.dirname(name), exist_ok=True)
    path = name if name.endswith(".txt") else name + ".txt"
    if old_text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(old_text)
    return path


def files():
    return sorted(p for p in glob.glob("**", recursive=True) if os.path.isfile(p))


def written(path, save):
    """Save twice; the file's text."""
    save()
    check(files() == [path], "saving wrote %r, expected %r", files(), path)
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    save()
    with open(path, encoding="utf-8", newline="") as f:
        again = f.read()
    check(text == again, "saving twice wrote %r, then %r", text[:400], again[:400])
    check(files() == [path], "saving twice left %r", files())
    os.remove(path)
    return text.replace("\r\n", "\n")


class Reader:
    """Blocks of a file: pieces separated by blank lines."""

    def __init__(self, text):
        self.text = text
        self.blocks = [b for b in text.split("\n\n") if b.strip()]

    def next(self, what):
        check(bool(self.blocks), "the file has no %s: %r", what, self.text[:600])
        return self.blocks.pop(0).strip("\n").split("\n")

    def heading(self, header):
        lines = self.next("header")
        check(lines[0].rstrip() == header and len(lines) == 2 and set(lines[1].strip()) == {"="},
              "the header is %r, expected %r underlined", lines, header)

    def subheading(self, text):
        lines = self.next("subheading")
        check([l.rstrip() for l in lines] == [text], "the subheading is %r, expected %r", lines, text)

    def parameters(self, pairs):
        lines = [l.rstrip() for l in self.next("parameters")]
        expected = ["%s: %s" % (a, b) for a, b in pairs]
        check(lines == expected, "the parameters are %r, expected %r", lines, expected)

    def table(self, columns, fmt="%.15f"):
        """columns: [label, unit or None, values, single precision or not]."""
        lines = self.next("table")
        labels = [x.strip() for x in lines[0].split("\t")]
        expected = [a if b is None else "%s (%s)" % (a, b) for a, b, *_ in columns]
        check(labels == expected, "the columns are %r, expected %r", labels, expected)
        check(len(lines) >= 2, "the table has no underline: %r", lines)
        rules = [x.strip() for x in lines[1].split("\t")]
        check(len(rules) == len(columns) and all(set(x) == {"-"} for x in rules),
              "the labels are underlined with %r", lines[1])
        rows = [[x.strip() for x in l.split("\t")] for l in lines[2:]]
        n = len(columns[0][2])
        # Beside other numbers whole ones are kept as floats.
        whole = all(isinstance(v, int) for _, _, values, *_ in columns for v in values)
        check(len(rows) == n, "%d rows, %d were given: %r", len(rows), n, lines)
        for i, row in enumerate(rows):
            check(len(row) == len(columns), "row %d is %r, for columns %r", i, row, expected)
            for text, (label, _, values, *single) in zip(row, columns):
                entry(text, values[i], fmt, "row %d of %s" % (i, label), any(single), whole)

    def end(self):
        check(not self.blocks, "the file goes on with %r", self.blocks[:2])


def entry(text, value, fmt, what, single=False, whole=False):
    if whole and abs(value) > 2 ** 53 and text.lstrip("+-").isdigit():
        check(int(text) == value, "%s reads %r, expected %r", what, text, value)
        return
    if isinstance(value, str):
        check(text == value, "%s reads %r, expected %r", what, text, value)
        return
    try:
        got = float(text)
    except ValueError:
        raise Fail("%s reads %r, expected %r" % (what, text, value)) from None
    if math.isnan(value) or math.isinf(value):
        check(got == value or math.isnan(got) and math.isnan(value), "%s reads %r, expected %r",
              what, text, value)
        return
    if single and np.float32(got) == np.float32(value):
        return                  # written with the digits a single-precision number has
    rounded = float(fmt % value)
    # At least as close as the format's rounding (and the float's own).
    check(abs(got - value) <= abs(rounded - value) * 1.000001 + 4e-16 * abs(value),
          "%s reads %r, expected %r", what, text, fmt % value)


# ---------------------------------------------------------- custom layers ---

@st.composite
def column(draw, n):
    kind = draw(st.sampled_from(["float", "float", "quantity", "quantity", "int", "int quantity",
                                 "str", "float32", "object"]))
    out = {"label": draw(TEXT), "kind": kind}
    if "quantity" in kind:
        out["unit"] = draw(st.sampled_from(sorted(UNITS)))
    if kind in ("str", "object"):
        out["values"] = [draw(TEXT) for _ in range(n)]
    elif kind.startswith("int"):
        out["values"] = [draw(st.one_of(st.integers(-10 ** 9, 10 ** 9), st.integers(-2 ** 62, 2 ** 62)))
                         for _ in range(n)]
    elif kind == "float32":
        out["values"] = [float(np.float32(draw(st.floats(-1e4, 1e4)))) for _ in range(n)]
    else:
        out["values"] = [draw(NUMBER) for _ in range(n)]
        if n and draw(st.integers(0, 4)) == 0:  # the maximum is narrow, another entry is not
            out["values"][draw(st.integers(0, n - 1))] = -98765432.123456789
    return out


@st.composite
def layer(draw):
    parts = draw(st.sampled_from(["spd", "spd", "d", "d", "sd", "pd", "s", "p", "sp"]))
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]))
    return {"subheading": draw(TEXT) if "s" in parts else None,
            "parameters": [[draw(TEXT), draw(TEXT)] for _ in range(draw(st.integers(1, 3)))]
            if "p" in parts else None,
            "data": [draw(column(n)) for _ in range(draw(st.integers(1, 5)))]
            if "d" in parts else None,
            "format": draw(st.sampled_from(FORMATS))}


@st.composite
def custom_case(draw):
    layers = draw(st.lists(layer(), min_size=0, max_size=3))
    header = draw(TEXT) if not layers or draw(st.integers(0, 3)) else None
    return {"name": draw(st.sampled_from(NAMES)), "header": header, "layers": layers,
            "old": draw(st.sampled_from([None, None, "old\n\n" * 400]))}


def real(columns):
    """A case's columns as the arrays and quantities handed to the writer."""
    out = []
    for c in columns:
        dtype = {"int": int, "int quantity": int, "float32": np.float32, "object": object,
                 "str": str}.get(c["kind"], float)
        array = np.array(c["values"], dtype=dtype)
        if "quantity" in c["kind"]:
            array = Quantity(array, UNITS[c["unit"]]())
        out.append([c["label"], array])
    return out


@law("C30", "layers", custom_case(), "a table with two or more columns and rows", quick=3000)
def layers(ctx, case):
    """Reports built from custom layers."""
    path = start(case["name"], case["old"])
    writer = TextFileWriter(case["name"], case["header"])
    for x in case["layers"]:
        arguments = {"subheading": x["subheading"], "parameters": x["parameters"],
                     "data": None if x["data"] is None else real(x["data"])}
        if x["format"] == "%.15f":
            writer.add_layer(**arguments)       # the default
        else:
            writer.add_layer(**arguments, data_format=x["format"])
    reader = Reader(written(path, writer.save))
    if case["header"] is not None:
        reader.heading(case["header"])
    for x in case["layers"]:
        if x["subheading"] is not None:
            reader.subheading(x["subheading"])
        if x["parameters"] is not None:
            reader.parameters(x["parameters"])
        if x["data"] is not None:
            reader.table([[c["label"], str(UNITS[c["unit"]]()) if "quantity" in c["kind"] else None,
                           c["values"], c["kind"] == "float32"] for c in x["data"]], x["format"])
            ctx.nontrivial(len(x["data"]) > 1 and len(x["data"][0]["values"]) > 1)
            ctx.label("text and numbers", len({c["kind"] in ("str", "object")
                                               for c in x["data"]}) > 1)
    reader.end()
    ctx.label("several layers", len(case["layers"]) > 1)


@st.composite
def long_case(draw):
    sizes = st.one_of(st.integers(1, 40), st.sampled_from([99, 100, 101, 999, 1000, 1001, 1025, 2500]))
    return {"header": draw(TEXT), "seed": draw(st.integers(0, 10 ** 6)),
            "layers": [{"rows": draw(sizes), "columns": draw(st.integers(1, 14)),
                        "parameters": draw(st.integers(0, 30)),
                        "style": draw(st.sampled_from(["float", "quantity", "int", "mixed"])),
                        "format": draw(st.sampled_from(FORMATS))}
                       for _ in range(draw(st.one_of(st.integers(1, 2), st.integers(1, 25))))]}


@law("C30", "long", long_case(), "a layer of more than 40 rows", quick=120)
def long(ctx, case):
    """Reports of many layers, parameters, columns and rows."""
    if sum(x["rows"] * x["columns"] for x in case["layers"]) > 20000:
        case = dict(case, layers=case["layers"][:1] + [
            dict(x, rows=min(x["rows"], 40)) for x in case["layers"][1:]])
    rng = np.random.default_rng(case["seed"])
    path, writer, expected = start("long"), TextFileWriter("long", case["header"]), []
    for k, x in enumerate(case["layers"]):
        columns, table = [], []
        for c in range(x["columns"]):
            kind = ["float", "quantity", "int"][c % 3] if x["style"] == "mixed" else x["style"]
            values = (rng.integers(-10 ** 6, 10 ** 6, x["rows"]) if kind == "int" else
                      rng.normal(size=x["rows"]) * 10.0 ** rng.integers(-3, 6, x["rows"]))
            unit = u.km if kind == "quantity" else None
            columns.append(["C%d" % c, values if unit is None else Quantity(values, unit)])
            table.append(["C%d" % c, None if unit is None else str(unit), values.tolist()])
        pairs = [["P%d" % i, "%d of layer %d" % (i, k)] for i in range(x["parameters"])] or None
        writer.add_layer("Layer %d" % k, pairs, columns, x["format"])
        expected.append((pairs, table, x["format"]))
        ctx.nontrivial(x["rows"] > 40)
    reader = Reader(written(path, writer.save))
    reader.heading(case["header"])
    for k, (pairs, table, fmt) in enumerate(expected):
        reader.subheading("Layer %d" % k)
        if pairs:
            reader.parameters(pairs)
        reader.table(table, fmt)
    reader.end()
    ctx.label("more than 1000 rows", max(x["rows"] for x in case["layers"]) > 1000)
    ctx.label("more than 10 layers", len(case["layers"]) > 10)


@st.composite
def long_frame(draw):
    return {"kind": draw(st.sampled_from(["GCRS", "ITRS", "LVLH", "WGS84", "Attitude", "AzEl"])),
            "n": draw(st.sampled_from([12, 150, 1001, 1800])), "seed": draw(st.integers(0, 10 ** 6))}


@law("C30", "long frames", long_frame(), "always: twelve or more samples", quick=60)
def long_frames(ctx, case):
    """Positions, directions and attitudes of long tracks."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    frames(ctx, {
        "kind": case["kind"], "jd": (2459000.0 + np.arange(n) / 1440).tolist(),
        "columns": (rng.uniform(-90, 90, (3, n))).tolist(), "length": "km", "angle": "deg",
        "location": [43.6, -79.4, 0.1], "name": "out"})
    ctx.label("more than 1000 samples", n > 1000)


# ----------------------------------------------------------------- frames ---

@st.composite
def frame_case(draw):
    kind = draw(st.sampled_from(["GCRS", "ITRS", "LVLH", "WGS84", "Attitude", "AzEl"]))
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 4, 5, 6]))
    number = st.one_of(st.floats(-1e5, 1e5), st.floats(-1, 1),
                       st.sampled_from([0.0, 7000.0, -1e-9, 1 / 3]))
    return {"kind": kind, "jd": [draw(gens.jd()) for _ in range(n)],
            "columns": [[draw(number) for _ in range(n)] for _ in range(3)],
            "length": draw(st.sampled_from(["km", "m", "mi"])),
            "angle": draw(st.sampled_from(["deg", "rad", "arcmin"])),
            "location": draw(gens.location()), "name": draw(st.sampled_from(NAMES))}


@law("C30", "frames", frame_case(), "two or more samples", quick=1500)
def frames(ctx, case):
    """Positions, directions and attitudes."""
    jd, (a, b, c) = np.array(case["jd"]), (np.array(x) for x in case["columns"])
    length, angle = getattr(u, case["length"]), getattr(u, case["angle"])
    location = build.ground(case["location"])
    kind = case["kind"]
    cartesian = [["X", length, a], ["Y", length, b], ["Z", length, c]]
    header, columns, parameters = kind + " Coordinate Data", cartesian, None
    if kind == "LVLH":
        header, frame = "Satellite LVLH Coordinate Data", LVLH(jd, a, b, c, length)
    elif kind in ("GCRS", "ITRS"):
        frame = {"GCRS": GCRS, "ITRS": ITRS}[kind](jd, a, b, c, length)
    elif kind == "WGS84":
        frame = WGS84(jd, a, b, c, angle, length)
        columns = [["Latitude", angle, a], ["Longitude", angle, b], ["Height", length, c]]
    elif kind == "Attitude":
        frame = Attitude(jd, a, b, c, angle, location)
        columns = [["Roll", angle, a], ["Pitch", angle, b], ["Yaw", angle, c]]
        parameters = [["Location", str(location)]]
    else:
        frame = AzEl(jd, a, b, angle, location)
        columns = [["Azimuth", angle, a], ["Elevation", angle, b]]
        header, parameters = "Azimuth-Elevation Coordinate Data", [["Location", str(location)]]
    path = start(case["name"])
    reader = Reader(written(path, lambda: frame.save_text_file(case["name"])))
    reader.heading(header)
    if parameters:
        reader.parameters(parameters)
    reader.table([["Time", str(u.jd2000), case["jd"]]] +
                 [[label, str(unit), [float(x) for x in values]] for label, unit, values in columns])
    reader.end()
    ctx.nontrivial(len(jd) > 1)
    ctx.label(kind)


@st.composite
def satellite_case(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 4]))
    return {"kind": draw(st.sampled_from(["GCRS", "ITRS"])), "jd": [draw(gens.jd()) for _ in range(n)],
            "rows": [draw(gens.position_km()) for _ in range(n)],
            "speeds": [draw(gens.unit_vector()) for _ in range(n)], "moving": draw(st.booleans()),
            "unit": draw(st.sampled_from(["km", "m"])), "name": draw(st.sampled_from(NAMES))}


@law("C30", "satellite", satellite_case(), "two or more samples", quick=800)
def satellite(ctx, case):
    """Satellites: Earth-fixed and inertial columns."""
    position = build.frame(case["kind"], case["jd"], case["rows"], case["unit"])
    motion = None
    if case["moving"]:
        x, y, z = (np.array(v) * 7500 for v in np.array(case["speeds"], float).reshape(-1, 3).T)
        motion = type(position)(np.array(case["jd"]), x, y, z, u.m / u.s)
    sat = Satellite(position, motion)
    expected, header = [], "Satellite Position"
    fixed, inertial = [["Time", str(u.jd2000), case["jd"]]], []
    for vector, letter in ((sat.position, ""), (sat.velocity, "V")):
        if vector is None:
            continue
        other = Coordinate(vector).convert_to(GCRS)
        for out, name, frame in ((fixed, "Itrs ", vector), (inertial, "Gcrs ", other)):
            for axis in "xyz":
                q = getattr(frame, axis)
                out.append([name + letter + axis.upper(), str(q.unit), [float(v) for v in q.data]])
    if case["moving"]:
        header += " and Velocity"
    expected = fixed + inertial
    path = start(case["name"])
    reader = Reader(written(path, lambda: sat.save_text_file(case["name"])))
    reader.heading(header)
    reader.table(expected, "%.9f")
    reader.end()
    ctx.nontrivial(len(case["jd"]) > 1)
    ctx.label("moving", case["moving"])


# ---------------------------------------------------------------- windows ---

@st.composite
def windows_case(draw):
    kind = draw(st.sampled_from(["v", "o"]))
    n = draw(st.integers(1, 5))
    items = []
    for _ in range(n):
        items.append({"start": draw(gens.jd()), "length": draw(st.floats(0.001, 0.5)),
                      "duration": draw(st.one_of(st.integers(1, 600).map(float), st.floats(0.1, 7200))),
                      "location": draw(gens.location()),
                      "angles": [draw(gens.angle(180.0)) for _ in range(3)],
                      "angle": draw(st.sampled_from(["deg", "rad"])),
                      "time": draw(st.sampled_from(["s", "hr", "dy"]))})
    return {"kind": kind, "items": items, "name": draw(st.sampled_from(NAMES))}


TIME = {"s": (lambda: u.s, 1.0), "hr": (lambda: u.hr, 3600.0), "dy": (lambda: u.dy, 86400.0)}


@law("C30", "windows", windows_case(), "two or more windows", quick=1000)
def windows(ctx, case):
    """Collections of visible and observation windows."""
    collection, rows = WindowCollection(), []
    for item in case["items"]:
        location = build.ground(item["location"])
        values = [np.array([v * build.DEG[item["angle"]]]) for v in item["angles"]]
        attitude = Attitude(np.array([item["start"]]), *values, getattr(u, item["angle"]), location)
        if case["kind"] == "v":
            end = item["start"] + item["length"]
            collection.add_window(VisibleTimeWindow(item["start"], end, attitude))
            rows.append([item["start"], end])
        else:
            make, factor = TIME[item["time"]]
            collection.add_window(ObservationWindow(
                Quantity(item["start"], u.jd2000), Quantity(item["duration"] / factor, make()),
                location, attitude))
            rows.append([item["start"], item["duration"], str(location)] + item["angles"])
    columns = [list(c) for c in zip(*rows)]
    labels = [["Rise Time", u.jd2000], ["Set Time", u.jd2000]] if case["kind"] == "v" else [
        ["Start Time", u.jd2000], ["Duration", u.s], ["Location", None], ["Roll", u.deg],
        ["Pitch", u.deg], ["Yaw", u.deg]]
    path = start(case["name"])
    reader = Reader(written(path, lambda: collection.save_text_file(case["name"])))
    reader.heading(("Visible" if case["kind"] == "v" else "Observation") +
                   ("TimeWindow" if case["kind"] == "v" else "Window") + " Data")
    reader.table([[label, None if unit is None else str(unit), values]
                  for (label, unit), values in zip(labels, columns)], "%.12f")
    reader.end()
    ctx.nontrivial(len(rows) > 1)
    ctx.label("observations", case["kind"] == "o")


@law("C30", "empty", st.sampled_from(NAMES), "always", quick=12)
def empty(ctx, name):
    """An empty window collection is refused and nothing is written."""
    path = start(name)
    raises(Exception, lambda: WindowCollection().save_text_file(name), "saving no windows")
    check(files() == [], "saving no windows wrote %r (%r)", files(), path)
    ctx.nontrivial()


@law("C30", "locale", st.one_of(
    st.tuples(st.just("windows"), windows_case().map(lambda c: dict(c, kind="o"))),
    st.tuples(st.just("layers"), custom_case())).map(list), "text beyond ASCII", quick=40, thorough=200)
def locale(ctx, case):
    """The same files written by a process whose locale is plain ASCII."""
    name, inner = case
    os.makedirs("elsewhere", exist_ok=True)
    path = os.path.abspath("elsewhere/case.json")
    with open(path, "w") as f:
        json.dump({"property": "C30", "law": name, "case": inner}, f)
    environment = dict(os.environ, LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0",
                       PYTHONIOENCODING="utf-8")
    run = subprocess.run([sys.executable, os.path.join(core.VERIF, "harness", "run.py"), "--replay",
                          path], env=environment, capture_output=True, text=True, timeout=60)
    os.remove(path)
    os.rmdir("elsewhere")
    if run.returncode not in (0, 1):
        raise core.HarnessError(run.stderr[-2000:])
    check(run.returncode == 0, "in an ASCII locale: %s",
          run.stdout[:2000].split("VIOLATION")[0])
    ctx.nontrivial(name == "windows" or "\\u" in json.dumps(inner))
    ctx.label(name)
