"""C01 unit algebra, C02 conversion, C03 quantity arithmetic."""

import math
import operator
import re
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from celest import units as u
from celest.units.core import Unit
from celest.units.quantity import Quantity
from harness.build import same_unit as is_same_unit
from harness.core import Fail, as_array, check, close, law, raises

# Defined sizes, relative to metre, second, Julian day (date) and degree.
DEFINED = {
    "m": 1.0, "mm": 1e-3, "cm": 1e-2, "km": 1e3, "inch": 0.0254, "ft": 0.3048,
    "yd": 0.9144, "mi": 1609.344, "s": 1.0, "min": 60.0, "hr": 3600.0, "dy": 86400.0,
    "jd2000": 1.0, "deg": 1.0, "rad": 180 / math.pi, "arcsec": 1 / 3600,
    "arcmin": 1 / 60, "hourangle": 15.0,
}
DIM = {}
for _d, _names in (("L", "m mm cm km inch ft yd mi"), ("T", "s min hr dy"),
                   ("D", "jd2000"), ("A", "deg rad arcsec arcmin hourangle")):
    for _n in _names.split():
        DIM[_n] = _d
BASE = {"L": "m", "T": "s", "D": "jd2000", "A": "deg"}
BY_DIM = {d: [n for n in DIM if DIM[n] == d] for d in "LTDA"}
PINNED = {"ft": 0.305, "yd": 0.914}      # recorded findings, see DESIGN.md


def size(name):
    """The size laws other than unit-size hold the unit to."""
    if name in PINNED:
        actual = getattr(u, name).scale
        if isinstance(actual, float) and abs(actual - PINNED[name]) < 1e-12:
            return PINNED[name]
    return DEFINED[name]


# ------------------------------------------------------------ unit trees ---

POWERS = [0, 1, 2, 3, -1, -2, -3, 0.5, -0.5, 1.5, 2.0, -1.0, 4]
FACTORS = [1, 1.0, 2, 0.5, 1000, 0.001, 3.0, 7, 0.1, 60, 12.5, 1e-6]

names = st.sampled_from(sorted(DEFINED))
leaf = names.map(lambda n: ["u", n])


def _extend(inner):
    return st.one_of(
        st.tuples(st.just("mul"), inner, inner).map(list),
        st.tuples(st.just("div"), inner, inner).map(list),
        st.tuples(st.just("pow"), inner, st.sampled_from(POWERS)).map(list),
        st.tuples(st.just("scale"), inner, st.sampled_from(FACTORS)).map(list),
        st.tuples(st.just("rscale"), inner, st.sampled_from(FACTORS)).map(list),
        st.tuples(st.just("inv"), inner).map(list),
        st.tuples(st.just("user"), inner).map(list),
    )


trees = st.recursive(leaf, _extend, max_leaves=8)
few = st.sampled_from(["m", "km", "s", "deg"]).map(lambda n: ["u", n])
narrow_trees = st.recursive(few, _extend, max_leaves=8)   # many repeated units
tree = st.one_of(trees, narrow_trees)


class Build:
    """Evaluates a tree in celest."""

    def __init__(self):
        self.users = 0
        self.names = list(DEFINED)

    def __call__(self, t):
        kind = t[0]
        if kind == "u":
            return getattr(u, t[1])
        a = self(t[1])
        if kind == "mul":
            return a * self(t[2])
        if kind == "div":
            return a / self(t[2])
        if kind == "pow":
            return a ** t[2]
        if kind == "scale":
            return t[2] * a
        if kind == "rscale":
            return a * t[2]
        if kind == "inv":
            return 1 / a
        self.users += 1
        name = "user" + "abcdefghijklmnopqrstuvwxyz"[self.users % 26] * (1 + self.users // 26)
        self.names.append(name)
        return Unit(name, "user unit", None, a)


def model(t):
    """(log10 of the size, exponents by dimension) of a tree."""
    kind = t[0]
    if kind == "u":
        return math.log10(size(t[1])), {DIM[t[1]]: 1}
    s, d = model(t[1])
    if kind in ("mul", "div"):
        s2, d2 = model(t[2])
        sign = 1 if kind == "mul" else -1
        total = dict(d)
        for k, v in d2.items():
            total[k] = total.get(k, 0) + sign * v
        return s + sign * s2, {k: v for k, v in total.items() if v}
    if kind == "pow":
        return s * t[2], {k: v * t[2] for k, v in d.items() if v * t[2]}
    if kind in ("scale", "rscale"):
        return s + math.log10(t[2]), d
    if kind == "inv":
        return -s, {k: -v for k, v in d.items()}
    return s, d


def parse_dimension(text):
    check(isinstance(text, str), "dimension %r is not a string", text)
    parts = [p.split() for p in text.split("/")]
    check(len(parts) <= 2, "dimension %r has several '/'", text)
    result = {}
    for sign, tokens in zip((1, -1), parts):
        for token in tokens:
            if token == "1" and sign == 1 and len(tokens) == 1:
                continue
            m = re.fullmatch(r"([LTDA])(\d+(?:\.\d+)?)?", token)
            check(m, "dimension %r has a malformed term %r", text, token)
            check(m.group(1) not in result, "dimension %r repeats %s", text, m.group(1))
            result[m.group(1)] = sign * float(m.group(2) or 1)
    return result


def base_unit(exponents):
    """The same dimension written in base units."""
    unit = None
    for d in "LTDA":
        p = exponents.get(d)
        if p:
            part = getattr(u, BASE[d]) ** p
            unit = part if unit is None else unit * part
    return u.m / u.m if unit is None else unit


def total_size(unit):
    scale = unit.scale
    if not isinstance(unit, Unit):
        for base, power in zip(unit.bases, unit.powers):
            scale = scale * base.scale ** power
    return scale


def check_unit(unit, t, known_names):
    log_size, exponents = model(t)
    got = parse_dimension(unit.dimension)
    check(got == exponents, "dimension of %r is %r, expected %r", t, unit.dimension, exponents)
    if abs(log_size) < 200:
        actual = total_size(unit)
        check(isinstance(actual, (int, float)) and actual > 0, "size %r", actual)
        check(abs(math.log10(actual) - log_size) < 1e-9, "size of %r (%s) is %r, expected %r",
              t, unit, actual, 10 ** log_size)
        reference = base_unit(exponents)
        value = Quantity(1.0, unit).to(reference)
        check(value > 0 and abs(math.log10(value) - log_size) < 1e-9,
              "1 %s converts to %r %s, expected %r", unit, value, reference, 10 ** log_size)
    return log_size, exponents


@law("C01", "trees", tree.map(lambda t: {"tree": t}),
     "expression tree over named units; non-trivial: at least two operations", quick=2500)
def trees_law(ctx, case):
    t = case["tree"]
    build = Build()
    unit = build(t)
    check_unit(unit, t, build.names)
    ctx.nontrivial(t[0] != "u" and any(isinstance(x, list) and x[0] != "u" for x in t[1:]))
    text = str(t)
    for kind in ("mul", "div", "pow", "scale", "inv", "user"):
        ctx.label(kind, "'%s'" % kind in text)
    # Units used to build another one are unchanged, and building again agrees.
    again = Build()(t)
    check(again.dimension == unit.dimension and str(again) == str(unit),
          "building %r twice gives %s and %s", t, unit, again)


@law("C01", "number over", st.fixed_dictionaries({
    "tree": tree, "number": st.sampled_from(FACTORS + [1, 1.0, 4, 10, 0.25])}),
     "a number divided by a unit, or refused; non-trivial: a number other than one", quick=600)
def number_over_law(ctx, case):
    """A number divided by a unit keeps the number, unless it is refused."""
    x, unit = case["number"], Build()(case["tree"])
    try:
        over = x / unit
    except TypeError:
        check(x != 1, "1 / %s is refused", unit)
        ctx.label("refused")
        ctx.nontrivial()
        return
    t = ["inv", case["tree"]]
    check_unit(over, t if x == 1 else ["scale", t, x], DEFINED)
    ctx.nontrivial(x != 1)


def parse_unit(text, known):
    sides = text.split(" / ")
    check(len(sides) <= 2, "printed unit %r has several '/'", text)
    scale, exponents = 1.0, {}
    order = sorted(known, key=len, reverse=True)
    for sign, side in zip((1, -1), sides):
        tokens = side.split(" ")
        for i, token in enumerate(tokens):
            try:
                number = float(token)
            except ValueError:
                pass
            else:
                check(sign == 1, "printed unit %r has a number in the denominator", text)
                scale *= number
                continue
            for name in order:
                if token.startswith(name):
                    rest = token[len(name):]
                    if rest == "" or re.fullmatch(r"\d+(\.\d+)?", rest):
                        break
            else:
                raise Fail("printed unit %r has an unknown term %r" % (text, token))
            check(name not in exponents, "printed unit %r repeats %s", text, name)
            exponents[name] = sign * float(rest or 1)
    return scale, exponents


@law("C01", "printed", tree.map(lambda t: {"tree": t}),
     "expression tree; non-trivial: a compound unit of two or more bases", quick=2500)
def printed_law(ctx, case):
    build = Build()
    unit = build(case["tree"])
    scale, exponents = parse_unit(str(unit), build.names)
    if isinstance(unit, Unit):
        check(str(unit) == unit.short_name, "unit prints as %r", str(unit))
        expected_scale, expected = 1.0, {unit.short_name: 1.0}
    else:
        expected_scale = float(unit.scale)
        expected = {}
        for base, power in zip(unit.bases, unit.powers):
            check(base.short_name not in expected, "bases of %s repeat %s", unit, base)
            check(power != 0, "base %s of %s has power 0", base, unit)
            expected[base.short_name] = float(power)
    check(exponents == expected, "%r lists %r, the unit has %r", str(unit), exponents, expected)
    check(abs(scale - expected_scale) <= 1e-12 * abs(expected_scale),
          "%r shows the factor %r, the unit has %r", str(unit), scale, expected_scale)
    ctx.nontrivial(len(expected) >= 2)
    ctx.label("negative powers", any(v < 0 for v in expected.values()))
    ctx.label("user units", any(k.startswith("user") for k in expected))


factor_list = st.lists(st.tuples(names, st.sampled_from([1, 2, 3, -1, -2, 0.5, 2.0])).map(list),
                       min_size=1, max_size=6)


@st.composite
def permuted(draw):
    factors = draw(factor_list)
    order = draw(st.permutations(range(len(factors))))
    split = draw(st.integers(0, len(factors)))
    how = draw(st.lists(st.booleans(), min_size=len(factors), max_size=len(factors)))
    return {"factors": factors, "order": list(order), "split": split, "divide": how}


def _product(factors, divide):
    unit = None
    for (name, power), d in zip(factors, divide):
        if unit is None:
            unit = getattr(u, name) ** power
        elif d:
            unit = unit / getattr(u, name) ** -power
        else:
            unit = unit * getattr(u, name) ** power
    return unit


@law("C01", "order", permuted(),
     "one product of powers built in two orders and nestings; non-trivial: 3 or more factors",
     quick=2500)
def order_law(ctx, case):
    factors = case["factors"]
    shuffled = [factors[i] for i in case["order"]]
    one = _product(factors, case["divide"])
    left = _product(shuffled[:case["split"]], [False] * len(shuffled))
    right = _product(shuffled[case["split"]:], [False] * len(shuffled))
    two = right if left is None else left if right is None else left * right
    check(one.dimension == two.dimension, "the same product has dimension %r and %r (%r)",
          one.dimension, two.dimension, case)
    expected = {}
    log = 0.0
    for name, power in factors:
        expected[DIM[name]] = expected.get(DIM[name], 0) + power
        log += power * math.log10(size(name))
    expected = {k: v for k, v in expected.items() if v}
    for unit in (one, two):
        check(parse_dimension(unit.dimension) == expected, "dimension %r, expected %r",
              unit.dimension, expected)
        check(abs(math.log10(total_size(unit)) - log) < 1e-9, "size of %s is %r, expected %r",
              unit, total_size(unit), 10 ** log)
    ratio = one / two
    check(ratio.dimension == "1", "ratio of equal units has dimension %r", ratio.dimension)
    check(abs(total_size(ratio) - 1) < 1e-9, "ratio of equal units has size %r", total_size(ratio))
    # Named units cancelled in full leave the unit out of the bases.
    left_over = {}
    for name, power in factors:
        left_over[name] = left_over.get(name, 0) + power
    got = {b.short_name: p for b, p in zip(two.bases, two.powers)}
    want = {k: v for k, v in left_over.items() if v}
    check(got == want, "bases of %s are %r, expected %r", two, got, want)
    check(two.is_unity() == (not want), "is_unity() of %s is %r", two, two.is_unity())
    ctx.nontrivial(len(factors) >= 3)
    ctx.label("cancels", len(want) < len(left_over))


@st.composite
def fractions_of(draw):
    den = draw(st.sampled_from([10, 3, 6, 5, 7]))
    which = draw(st.lists(names, min_size=1, max_size=3, unique=True))
    parts = draw(st.lists(st.tuples(st.sampled_from(which), st.integers(-15, 15).filter(bool),
                                    st.sampled_from([1, 1, 1, 2, 3])).map(list),
                          min_size=2, max_size=7))
    if draw(st.booleans()):  # close the product so that one unit cancels
        name = parts[0][0]
        rest = -sum(n * k for m, n, k in parts if m == name)
        if rest:
            parts.append([name, rest, 1])
    return {"den": den, "parts": parts, "divide": draw(st.lists(
        st.booleans(), min_size=len(parts), max_size=len(parts))),
        "order": list(draw(st.permutations(range(len(parts)))))}


@law("C01", "fractional", fractions_of(),
     "products of fractional powers (tenths, thirds, ...) that add up to whole powers, to each "
     "other or to nothing; non-trivial: two or more factors of one unit", quick=2500)
def fractional_law(ctx, case):
    den = case["den"]

    def build(order):
        unit = None
        for i in order:
            name, n, k = case["parts"][i]
            d = case["divide"][i] and unit is not None
            factor = (getattr(u, name) ** ((-n if d else n) / den)) ** k
            unit = factor if unit is None else unit / factor if d else unit * factor
        return unit

    left, dims, log = {}, {}, 0.0
    for name, n, k in case["parts"]:
        power = Fraction(n * k, den)
        left[name] = left.get(name, 0) + power
        dims[DIM[name]] = dims.get(DIM[name], 0) + power
        log += float(power) * math.log10(size(name))
    left = {k: v for k, v in left.items() if v}
    dims = {k: v for k, v in dims.items() if v}
    one, two = build(range(len(case["parts"]))), build(case["order"])
    check(one.dimension == two.dimension, "the same product has dimension %r and %r (%r)",
          one.dimension, two.dimension, case)
    for unit in (one, two):
        got = parse_dimension(unit.dimension)
        check(set(got) == set(dims) and all(abs(got[k] - float(dims[k])) < 1e-9 for k in dims),
              "dimension %r, expected %r", unit.dimension, dims)
        got = {b.short_name: p for b, p in zip(unit.bases, unit.powers)}
        check(set(got) == set(left) and all(abs(got[k] - float(left[k])) < 1e-9 for k in left),
              "bases of %s are %r, expected %r", unit, got, left)
        check(abs(math.log10(total_size(unit)) - log) < 1e-9, "size of %s is %r, expected %r",
              unit, total_size(unit), 10 ** log)
    ratio = one / two
    check(ratio.dimension == "1", "ratio of equal units has dimension %r", ratio.dimension)
    value = Quantity(3.0, one).to(two)
    check(abs(value - 3.0) < 1e-8, "3 %s is %r %s", one, value, two)
    ctx.nontrivial(len({p[0] for p in case["parts"]}) < len(case["parts"]))
    ctx.label("cancels", len(left) < len({p[0] for p in case["parts"]}))


# ---------------------------------------------------------- conversions ---

@st.composite
def vector(draw):
    dims = draw(st.lists(st.sampled_from("LTDA"), min_size=1, max_size=3, unique=True))
    return {d: draw(st.sampled_from([1, 1, 1, -1, 2, -2, 3, 0.5, 1.5, -2.5])) for d in dims}


def related(exponents):
    """Exponents of the same base dimensions: reciprocal, permuted, signs or sizes changed."""
    keys = sorted(exponents)
    return st.one_of(
        st.just({k: -v for k, v in exponents.items()}),
        st.permutations([exponents[k] for k in keys]).map(lambda v: dict(zip(keys, v))),
        st.lists(st.sampled_from([1, -1, 2, -2]), min_size=len(keys), max_size=len(keys)).map(
            lambda v: dict(zip(keys, v))))


@st.composite
def unit_of(draw, exponents, simple=False):
    """A tree with the given dimension exponents (list of [dim, power])."""
    t = None
    for d, p in draw(st.permutations(sorted(exponents.items()))):
        pieces = [p] if simple or draw(st.integers(0, 2)) else [p - 1, 1]
        for piece in pieces:
            if piece == 0:
                continue
            x = ["u", draw(st.sampled_from(BY_DIM[d]))]
            if piece != 1 or draw(st.booleans()):
                x = ["pow", x, piece]
            t = x if t is None else ["mul", t, x]
    if not simple and draw(st.integers(0, 3)) == 0:
        t = [draw(st.sampled_from(["scale", "rscale"])), t, draw(st.sampled_from(FACTORS))]
    if not simple and draw(st.integers(0, 5)) == 0:
        t = ["user", t]
    if draw(st.integers(0, 1)) and list(exponents.values()) == [1] and simple:
        t = t if t[0] == "u" else t[1]
    return t


number = st.one_of(
    st.floats(-1e6, 1e6).map(lambda x: x if abs(x) > 1e-9 else 0.0),
    st.sampled_from([0.0, 1.0, -1.0, 0.1, 1e-9, 1e9, 180.0, 360.0, -0.0]))
integer = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.sampled_from([0, 1, -1, 5, 90, 360]))
data = st.one_of(
    st.tuples(st.just("f"), number).map(list),
    st.tuples(st.just("i"), integer).map(list),
    st.tuples(st.just("fa"), st.lists(number, min_size=1, max_size=6)).map(list),
    st.tuples(st.just("ia"), st.lists(integer, min_size=1, max_size=6)).map(list),
    st.tuples(st.just("i4"), st.lists(st.integers(-1000, 1000), min_size=1, max_size=6)).map(list),
    st.tuples(st.just("f4"), st.lists(st.integers(-1000, 1000).map(lambda x: x / 4),
                                      min_size=1, max_size=6)).map(list),
    st.tuples(st.just("f8"), number).map(list),
    st.tuples(st.just("fa2"), st.lists(number, min_size=2, max_size=2)).map(list),
)

# Small and unsigned integers, truth values, layouts, long arrays.
more_data = st.one_of(
    data, data, data,
    st.tuples(st.sampled_from(["i1", "u1", "i2", "u2", "u8", "b1"]),
              st.lists(st.integers(0, 100), min_size=1, max_size=6)).map(list),
    st.tuples(st.sampled_from(["i1", "i2"]), st.lists(st.integers(-100, 100), min_size=1, max_size=6)).map(list),
    st.tuples(st.sampled_from(["frozen", "strided", "empty", "zero"]),
              st.lists(number, min_size=1, max_size=6)).map(list),
    st.tuples(st.just("long"), st.tuples(st.sampled_from([99, 1000, 1001, 5000]), st.integers(0, 999))).map(
        lambda x: [x[0], list(x[1])]),
)


def make(spec):
    kind, value = spec
    if kind == "long":
        return np.random.RandomState(value[1]).normal(size=value[0]) * 1e3
    if kind == "frozen":
        out = np.array(value, float)
        out.setflags(write=False)
        return out
    if kind == "strided":
        return np.repeat(np.array(value, float), 3)[::-3]
    if kind in ("empty", "zero"):
        return np.array([] if kind == "empty" else value[0], float)
    if kind in ("i1", "u1", "i2", "u2", "u8", "b1"):
        return np.array(value).astype(kind)
    if kind == "f":
        return float(value)
    if kind == "i":
        return int(value)
    if kind == "f8":
        return np.float64(value)
    if kind == "fa2":
        return np.array([value, value[::-1]], dtype=float)
    return np.array(value, dtype={"fa": "f8", "ia": "i8", "i4": "i4", "f4": "f4"}[kind])


def tolerance(spec):
    return 1e-5 if spec[0] == "f4" else 1e-11


def flat(value, like, what):
    array = np.asarray(value)
    check(array.shape == np.shape(like), "%s has shape %r, expected %r", what, array.shape,
          np.shape(like))
    try:
        return np.asarray(array, dtype=float).reshape(-1)
    except Exception:
        raise Fail("%s is not numeric: %r" % (what, value)) from None


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


@st.composite
def conversion(draw):
    exponents = draw(vector())
    simple = draw(st.booleans())
    return {"data": draw(more_data), "from": draw(unit_of(exponents, simple)),
            "to": draw(unit_of(exponents, simple)), "via": draw(unit_of(exponents, simple))}


@law("C02", "convert", conversion(),
     "value or array converted between two units of one dimension, directly and through a "
     "third; non-trivial: the units differ in size and the data is not zero", quick=2500)
def convert_law(ctx, case):
    build = Build()
    source, target, via = build(case["from"]), build(case["to"]), build(case["via"])
    ls, lt = model(case["from"])[0], model(case["to"])[0]
    if abs(ls - lt) > 100:
        return
    values, before = make(case["data"]), make(case["data"])
    tol = tolerance(case["data"])
    ratio = 10 ** (ls - lt)
    q = Quantity(values, source)
    q_unit = str(source)
    expected = np.asarray(before, float).reshape(-1) * ratio
    scale = np.abs(expected) * (tol + 1e-10)
    out = q.to(target)
    close(flat(out, before, "converted data"), expected, scale,
          "%r %s in %s" % (case["data"], source, target))
    check(same(values, before) and same(q.data, before) and str(q.unit) == q_unit,
          "converting changed the quantity: %r -> %r", case["data"], values)
    converted = q.convert_to(target)
    check(isinstance(converted, Quantity), "convert_to returned %r", type(converted))
    check(is_same_unit(converted.unit, target), "converted quantity has unit %s", converted.unit)
    close(flat(converted.data, before, "converted data"), expected, scale, "convert_to")
    check(str(converted.dimension) == str(q.dimension), "dimension changed")
    back = converted.to(source)
    close(flat(back, before, "data converted back"), np.asarray(before, float).reshape(-1),
          np.abs(np.asarray(before, float).reshape(-1)) * (4 * tol + 1e-12), "there and back")
    if abs(model(case["via"])[0] - lt) < 100:
        through = q.convert_to(via).to(target)
        close(flat(through, before, "data through a third unit"),
              expected, scale * 4, "via %s" % via)
    same_unit = q.to(source)
    check(np.array_equal(np.asarray(same_unit), np.asarray(before)),
          "converting to its own unit changed %r to %r", before, same_unit)
    for result in (same_unit, q.convert_to(source).data, out, converted.data):
        if isinstance(result, np.ndarray) and result.flags.writeable:
            result[...] = 7         # the caller's own data from here on
            check(same(values, before) and same(q.data, before), "writing to the converted data "
                  "changed the quantity: %r -> %r", before, values)
    if isinstance(q.data, np.ndarray) and q.data.size and q.data.flags.writeable:
        q.data[...] = q.data[..., ::-1].copy() if q.data.ndim else 3      # changed in place
        close(flat(q.to(target), before, "data converted after a change"),
              np.asarray(q.data, float).reshape(-1) * ratio,
              np.abs(np.asarray(q.data, float).reshape(-1) * ratio) * (tol + 1e-10),
              "after a change of its data in place")
    ctx.nontrivial(abs(ls - lt) > 1e-12 and bool(np.any(np.asarray(before) != 0)))
    ctx.label("array", case["data"][0] not in ("f", "i", "f8"))
    ctx.label("integer", case["data"][0] in ("i", "ia", "i4"))


@st.composite
def named_pair(draw):
    source = draw(names)
    alike = sorted(n for n in DIM if DIM[n] == DIM[source])
    return {"from": source, "to": draw(st.one_of(st.sampled_from(alike), st.sampled_from(alike), names)),
            "data": draw(more_data)}


@law("C02", "named", named_pair(),
     "conversion between two named units; non-trivial: different units of one dimension",
     quick=2500)
def named_law(ctx, case):
    source, target = getattr(u, case["from"]), getattr(u, case["to"])
    values = make(case["data"])
    if DIM[case["from"]] != DIM[case["to"]]:
        raises(ValueError, lambda: Quantity(values, source).to(target), "conversion of "
               "%s to %s" % (case["from"], case["to"]))
        raises(ValueError, lambda: Quantity(values, source).convert_to(target), "conversion of "
               "%s to %s" % (case["from"], case["to"]))
        return
    expected = np.asarray(values, float).reshape(-1) * (size(case["from"]) / size(case["to"]))
    out = Quantity(values, source).to(target)
    close(flat(out, values, "converted data"), expected,
          np.abs(expected) * (tolerance(case["data"]) * 1.01), "%r %s in %s" % (
              case["data"], case["from"], case["to"]))
    ctx.nontrivial(case["from"] != case["to"])
    ctx.label(DIM[case["from"]])


@st.composite
def two_units(draw):
    if draw(st.booleans()):
        return {"from": draw(tree), "to": draw(tree), "data": draw(data)}
    exponents = draw(vector())
    return {"from": draw(unit_of(exponents)), "to": draw(unit_of(draw(related(exponents)))),
            "data": draw(data)}


@law("C02", "incompatible", two_units(),
     "conversion between two arbitrary units; non-trivial: dimensions differ", quick=1500)
def incompatible_law(ctx, case):
    build = Build()
    source, target = build(case["from"]), build(case["to"])
    (ls, ds), (lt, dt) = model(case["from"]), model(case["to"])
    values, before = make(case["data"]), make(case["data"])
    q = Quantity(values, source)
    if ds != dt:
        raises(ValueError, lambda: q.to(target), "conversion of %s to %s" % (source, target))
        raises(ValueError, lambda: q.convert_to(target), "conversion of %s to %s" % (source, target))
        ctx.nontrivial()
    elif abs(ls - lt) < 100:
        expected = np.asarray(before, float).reshape(-1) * 10 ** (ls - lt)
        close(flat(q.to(target), before, "converted data"), expected,
              np.abs(expected) * (tolerance(case["data"]) + 1e-9), "conversion")
        ctx.label("compatible")
    check(same(values, before), "conversion changed the quantity's data")


@law("C02", "unit-size", st.fixed_dictionaries({"unit": names, "n": st.integers(1, 10 ** 6)}),
     "each named unit against its definition; non-trivial: not a base unit", quick=400)
def unit_size_law(ctx, case):
    name = case["unit"]
    value = float(Quantity(float(case["n"]), getattr(u, name)).to(getattr(u, BASE[DIM[name]])))
    got, want = value / case["n"], DEFINED[name]
    ctx.nontrivial(name not in BASE.values())
    if abs(got - want) > 1e-12 * want:
        message = "1 %s is %.12g %s, defined as %.12g" % (name, got, BASE[DIM[name]], want)
        if name in PINNED and abs(got - PINNED[name]) <= 1e-12 * want:
            ctx.finding("%s=%r" % (name, PINNED[name]), message.replace("%.12g" % got, repr(PINNED[name])))
        else:
            raise Fail(message)


# ---------------------------------------------------------- arithmetic ---

@st.composite
def operands(draw):
    exponents = draw(vector())
    simple = draw(st.integers(0, 3)) > 0
    same_dimension = draw(st.integers(0, 2)) > 0
    other = exponents if same_dimension else draw(st.one_of(vector(), related(exponents)))
    a = draw(unit_of(exponents, simple))
    b = a if draw(st.integers(0, 4)) == 0 and same_dimension else draw(unit_of(other, simple))
    size_ = draw(st.integers(1, 5))
    many = draw(st.sampled_from([0] * 30 + [257, 1001]))

    def values():
        if many and draw(st.booleans()):
            return ["long", [many, draw(st.integers(0, 99))]]
        if many:
            return ["f", draw(number)]
        if draw(st.booleans()):
            return draw(st.one_of(st.tuples(st.just("f"), number).map(list),
                                  st.tuples(st.just("i"), integer).map(list),
                                  st.tuples(st.just("f8"), number).map(list)))
        if draw(st.booleans()):
            return ["fa", draw(st.lists(number, min_size=size_, max_size=size_))]
        return ["ia", draw(st.lists(integer, min_size=size_, max_size=size_))]
    return {"a": values(), "ua": a, "b": values(), "ub": b}


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
       "radd": lambda a, b: b.__radd__(a), "rsub": lambda a, b: b.__rsub__(a),
       "rmul": lambda a, b: b.__rmul__(a), "rdiv": lambda a, b: b.__rtruediv__(a)}


def amount(q, what):
    """Physical amount of a quantity (in base units)."""
    check(isinstance(q, Quantity), "%s is %r, not a Quantity", what, type(q))
    try:
        return np.asarray(q.data, float) * total_size(q.unit)
    except (TypeError, ValueError):
        raise Fail("%s has data %r" % (what, q.data)) from None


@law("C03", "operators", operands(),
     "two quantities in mixed units and every arithmetic operator; non-trivial: units differ",
     quick=2500)
def operators_law(ctx, case):
    build = Build()
    ua, ub = build(case["ua"]), build(case["ub"])
    (la, da), (lb, db) = model(case["ua"]), model(case["ub"])
    if abs(la) > 60 or abs(lb) > 60:
        return
    xa, xb = make(case["a"]), make(case["b"])
    ka, kb = make(case["a"]), make(case["b"])
    qa, qb = Quantity(xa, ua), Quantity(xb, ub)
    A, B = np.asarray(ka, float) * 10 ** la, np.asarray(kb, float) * 10 ** lb
    texts = str(ua), str(ub)
    for name, op in OPS.items():
        what = "%s of %r %s and %r %s" % (name, case["a"], ua, case["b"], ub)
        base = name[-3:]
        if base in ("add", "sub"):
            if da != db:
                raises(ArithmeticError, lambda: op(qa, qb), what)
                continue
            expected = A + B if base == "add" else A - B
            bound = 1e-9 * (np.abs(A) + np.abs(B))
            dimension = da
        elif base == "mul":
            expected, bound = A * B, 1e-9 * np.abs(A * B)
            dimension = {k: da.get(k, 0) + db.get(k, 0) for k in set(da) | set(db)}
        else:
            if np.any(B == 0):
                continue
            expected, bound = A / B, 1e-9 * np.abs(A / B)
            dimension = {k: da.get(k, 0) - db.get(k, 0) for k in set(da) | set(db)}
        result = op(qa, qb)
        got = amount(result, what)
        check(got.shape == expected.shape, "%s has shape %r", what, got.shape)
        close(got.reshape(-1), expected.reshape(-1), bound.reshape(-1) + 1e-300, what)
        dimension = {k: v for k, v in dimension.items() if v}
        check(parse_dimension(result.dimension) == dimension, "%s has dimension %r, expected %r",
              what, result.dimension, dimension)
        check(same(xa, ka) and same(xb, kb) and same(qa.data, ka) and same(qb.data, kb)
              and (str(qa.unit), str(qb.unit)) == texts, "%s changed an operand", what)
    negative = amount(-qa, "negation")
    close(negative.reshape(-1), -A.reshape(-1), 1e-9 * np.abs(A).reshape(-1) + 1e-300, "negation")
    check(same(xa, ka), "negation changed the operand")
    alias, q = qa, Quantity(xa, ua)
    if da == db:
        q += qb
        close(amount(q, "+=").reshape(-1), (A + B).reshape(-1),
              (1e-9 * (np.abs(A) + np.abs(B))).reshape(-1) + 1e-300, "+=")
        check(same(xa, ka) and same(xb, kb), "+= changed the data handed in")
        close(amount(alias, "alias").reshape(-1), A.reshape(-1), 1e-9 * np.abs(A).reshape(-1) + 1e-300, "alias")
    ctx.nontrivial(str(ua) != str(ub))
    ctx.label("same dimension", da == db)
    ctx.label("array", np.ndim(xa) or np.ndim(xb))


@st.composite
def with_number(draw):
    return {"a": draw(data), "ua": draw(st.one_of(tree, unit_of(draw(vector())))),
            "k": draw(st.one_of(number, integer))}


@law("C03", "numbers", with_number(),
     "a quantity and a plain number on either side; non-trivial: number not 0 or 1", quick=2000)
def numbers_law(ctx, case):
    unit = Build()(case["ua"])
    exponents = model(case["ua"])[1]
    text = str(unit)
    x, kept, k = make(case["a"]), make(case["a"]), case["k"]
    q = Quantity(x, unit)
    ref = np.asarray(kept, float)
    tol = tolerance(case["a"])
    cases = [("q + k", lambda: q + k, ref + k, 1, np.abs(ref) + abs(k)),
             ("k + q", lambda: k + q, ref + k, 1, np.abs(ref) + abs(k)),
             ("q - k", lambda: q - k, ref - k, 1, np.abs(ref) + abs(k)),
             ("k - q", lambda: k - q, k - ref, 1, np.abs(ref) + abs(k)),
             ("q * k", lambda: q * k, ref * k, 1, np.abs(ref * k)),
             ("k * q", lambda: k * q, k * ref, 1, np.abs(ref * k))]
    if k != 0:
        cases.append(("q / k", lambda: q / k, ref / k, 1, np.abs(ref / k)))
    if np.all(ref != 0):
        cases.append(("k / q", lambda: k / q, k / ref, -1, np.abs(k / ref)))
    for what, function, expected, power, scale in cases:
        result = function()
        check(isinstance(result, Quantity), "%s is %r", what, type(result))
        close(flat(result.data, expected, what), expected.reshape(-1),
              tol * scale.reshape(-1) + 1e-300, "%s for %r %s, k=%r" % (what, case["a"], unit, k))
        want = {d: power * p for d, p in exponents.items()}
        check(parse_dimension(result.dimension) == want, "%s has dimension %r, expected %r",
              what, result.dimension, want)
        ratio = total_size(result.unit) / total_size(unit) ** power
        check(abs(ratio - 1) < 1e-9, "%s is in %s, not in %s", what, result.unit, unit)
        check(same(x, kept) and str(q.unit) == text, "%s changed the quantity", what)
    ctx.nontrivial(k not in (0, 1))


# ---- small and unsigned integers: exact unless numpy's type cannot hold the result ----

NARROW = ["u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8"]


@st.composite
def narrow_operands(draw):
    exponents = draw(vector())
    size_ = draw(st.integers(1, 3))

    def values():
        kind = draw(st.sampled_from(NARROW))
        low = 0 if kind[0] == "u" else -12
        return [kind, draw(st.lists(st.integers(low, 12), min_size=size_, max_size=size_))]
    a = draw(unit_of(exponents, True))
    return {"a": values(), "ua": a, "b": values(),
            "ub": a if draw(st.booleans()) else draw(unit_of(exponents, True)),
            "k": draw(st.one_of(st.integers(-9, 9), st.sampled_from([0.5, -2.5, 4.0])))}


@law("C03", "narrow", narrow_operands(),
     "two arrays of small, unsigned or other number types in mixed units, and a plain number; "
     "results that the array type itself cannot hold are not judged; non-trivial: different "
     "types, one of them unsigned", quick=1500)
def narrow_law(ctx, case):
    build = Build()
    ua, ub = build(case["ua"]), build(case["ub"])
    (la, da), (lb, db) = model(case["ua"]), model(case["ub"])
    if abs(la) > 25 or abs(lb) > 25:
        return
    xa, xb = (np.array(v, dtype=kind) for kind, v in (case["a"], case["b"]))
    ka, kb, k = xa.copy(), xb.copy(), case["k"]
    qa, qb = Quantity(xa, ua), Quantity(xb, ub)
    fa, fb = np.asarray(ka, float), np.asarray(kb, float)
    A, B = fa * 10 ** la, fb * 10 ** lb
    cases = [("a + b", lambda: qa + qb, A + B), ("a - b", lambda: qa - qb, A - B),
             ("b - a", lambda: qb - qa, B - A), ("b.rsub(a)", lambda: qb.__rsub__(qa), A - B),
             ("a * b", lambda: qa * qb, A * B),
             ("a + k", lambda: qa + k, (fa + k) * 10 ** la), ("k + a", lambda: k + qa, (fa + k) * 10 ** la),
             ("a - k", lambda: qa - k, (fa - k) * 10 ** la), ("k - a", lambda: k - qa, (k - fa) * 10 ** la),
             ("a * k", lambda: qa * k, fa * k * 10 ** la), ("-a", lambda: -qa, -A)]
    if np.all(kb != 0):
        cases.append(("a / b", lambda: qa / qb, A / B))
    for what, function, expected in cases:
        result = function()
        got = amount(result, what)
        in_unit = expected / total_size(result.unit)
        dtype = np.asarray(result.data).dtype
        if dtype.kind in "iu":
            info = np.iinfo(dtype)
            if np.any((in_unit < info.min - 1e-6) | (in_unit > info.max * (1 + 1e-9))):
                ctx.label("beyond the type")
                continue
        scale = np.abs(A) + np.abs(B) if what in ("a + b", "a - b", "b - a", "b.rsub(a)") else (
            (np.abs(fa) + abs(k)) * 10 ** la if what[-1] == "k" or what[0] == "k" else np.abs(expected))
        close(got, expected, (2e-6 if "f4" in (case["a"][0], case["b"][0]) else 1e-11) * (scale + np.abs(expected)) + 1e-300,
              "%s of %r %s, %r %s, k=%r" % (what, case["a"], ua, case["b"], ub, k))
    check(same(xa, ka) and same(xb, kb), "the operands' data changed")
    ctx.nontrivial(case["a"][0] != case["b"][0] and "u" in case["a"][0] + case["b"][0])


COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
           "==": operator.eq, "!=": operator.ne}


@st.composite
def comparison(draw):
    exponents = draw(vector())
    a = draw(unit_of(exponents, draw(st.integers(0, 2)) > 0))
    kind = draw(st.sampled_from(["same unit", "other unit", "near", "exact", "other dimension"]))
    n = draw(st.integers(1, 5))
    values = st.one_of(number, integer.map(float), st.sampled_from([1.0, 2.0, 3.0]))

    def spec():
        return draw(st.one_of(
            values.map(lambda v: ["f", v]), integer.map(lambda v: ["i", v]),
            st.lists(values, min_size=n, max_size=n).map(lambda v: ["fa", v]),
            st.lists(st.integers(-3, 3), min_size=n, max_size=n).map(lambda v: ["ia", v])))
    case = {"kind": kind, "a": spec(), "b": spec(), "ua": a, "ub": a}
    if kind == "other unit":
        case["ub"] = draw(unit_of(exponents, draw(st.integers(0, 2)) > 0))
    elif kind == "near":
        # Different amounts that only an exact comparison tells apart.
        size = draw(st.sampled_from([2459000.5, 1.0, 7000.0, 1e-6, 1e9]))
        base = draw(st.lists(st.floats(0.5, 2).map(lambda v: v * size), min_size=n, max_size=n))
        gaps = draw(st.lists(st.sampled_from(
            [0.0, 0.0, 0.0, -1e-14, 1e-13, -1e-12, 3e-11, -1e-9, 1e-8, 1e-6, -1e-5, 1e-4]),
            min_size=n, max_size=n))
        near = [v * (1 + g) for v, g in zip(base, gaps)]
        case.update(a=["fa", base], b=["fa", near])
        if draw(st.booleans()):
            case.update(a=["f", base[0]], b=["f", near[0]])
    elif kind == "exact":
        fine, coarse, ratio = draw(st.sampled_from(
            [("m", "km", 1000), ("s", "min", 60), ("s", "hr", 3600), ("s", "dy", 86400),
             ("deg", "hourangle", 15)]))
        values_ = draw(st.lists(st.integers(-1000, 1000), min_size=n, max_size=n))
        steps = draw(st.lists(st.sampled_from([0, 0, 0, 1, -1]), min_size=n, max_size=n))
        case.update(ua=["u", fine], ub=["u", coarse], b=["ia", values_],
                    a=["ia", [v * ratio + s for v, s in zip(values_, steps)]])
        if draw(st.booleans()):
            case.update(a=["i", case["a"][1][0]], b=["i", case["b"][1][0]])
        if draw(st.booleans()):
            case["a"] = ["f" if case["a"][0] == "i" else "fa",
                         float(case["a"][1]) if case["a"][0] == "i" else [float(v) for v in case["a"][1]]]
    elif kind == "other dimension":
        other = draw(st.one_of(vector(), related(exponents)))
        if other == exponents:
            other = {"L": 3, "D": -1}
        case["ub"] = draw(unit_of(other))
    return case


@law("C03", "comparisons", comparison(),
     "two quantities compared with each operator; non-trivial: different units or nearly equal",
     quick=3000)
def comparisons_law(ctx, case):
    build = Build()
    same_unit = case["ua"] == case["ub"]
    ua = build(case["ua"])
    ub = ua if same_unit else build(case["ub"])
    (la, da), (lb, db) = model(case["ua"]), model(case["ub"])
    if abs(la) > 60 or abs(lb) > 60:
        return
    xa, xb = make(case["a"]), make(case["b"])
    ka, kb = make(case["a"]), make(case["b"])
    qa, qb = Quantity(xa, ua), Quantity(xb, ub)
    if same_unit:
        A, B = np.asarray(ka, float), np.asarray(kb, float)
    elif case["kind"] == "exact":
        A, B = np.asarray(ka, float), np.asarray(kb, float) * round(10 ** (lb - la))
    else:
        A, B = np.asarray(ka, float) * 10 ** la, np.asarray(kb, float) * 10 ** lb
    A, B = np.broadcast_arrays(A, B)
    decided = np.ones(A.shape, bool)
    if not same_unit and case["kind"] != "exact":
        decided = (np.abs(A - B) > 1e-9 * np.maximum(np.abs(A), np.abs(B))) | ((A == 0) & (B == 0))
    for symbol, op in COMPARE.items():
        what = "%r %s %s %r %s" % (case["a"], ua, symbol, case["b"], ub)
        if da != db:
            raises(ArithmeticError, lambda: op(qa, qb), what)
            continue
        result = op(qa, qb)
        expected = op(A, B)
        got = np.asarray(result)
        check(got.dtype == bool and got.shape == expected.shape, "%s gives %r", what, result)
        check(np.array_equal(got[decided], expected[decided]), "%s gives %r, expected %r",
              what, result, expected.tolist())
        check(same(xa, ka) and same(xb, kb), "%s changed an operand", what)
    ctx.nontrivial(not same_unit or case["kind"] == "near")
    ctx.label(case["kind"])
    ctx.label("with equal amounts", da == db and bool(np.any((A == B) & decided)))


OTHERS = [None, "text", 5, 0, 1.5, [1], (1, 2), {"a": 1}]


@law("C03", "others", st.fixed_dictionaries(
    {"a": data, "ua": tree, "other": st.integers(0, len(OTHERS) - 1)}),
     "equality of a quantity with something else; non-trivial: every case", quick=400)
def others_law(ctx, case):
    q = Quantity(make(case["a"]), Build()(case["ua"]))
    other = OTHERS[case["other"]]
    check((q == other) is False, "%r == %r is %r", q, other, q == other)
    check((q != other) is True, "%r != %r is %r", q, other, q != other)
    check((other == q) is False and (other != q) is True, "reflected equality of %r", q)
    ctx.nontrivial()


# Units the user defines may share a name (a second definition in one session).

@law("C02", "namesakes", st.fixed_dictionaries({
    "base": st.sampled_from(["m", "km", "s", "deg", "dy"]),
    "factors": st.lists(st.sampled_from([0.75, 1.5, 2, 3.0, 10, 0.001, 12.5]), min_size=2, max_size=2),
    "over": st.sampled_from([None, None, "min", "square"]),
    "value": st.lists(st.one_of(st.floats(0.01, 1e6), st.floats(-1e6, -0.01)), min_size=1, max_size=4)}),
    "two user-defined units of one name and different sizes; non-trivial: sizes differ", quick=400)
def namesakes_law(ctx, case):
    base = getattr(u, case["base"])
    first, second = (Unit("pace", "pace", None, f * base) for f in case["factors"])
    ratio = case["factors"][0] / case["factors"][1]
    if case["over"] == "min":
        first, second, base = first / u.min, second / u.min, base / u.min
    elif case["over"] == "square":
        first, second, base, ratio = first ** 2, second ** 2, base ** 2, ratio ** 2
    data = np.array(case["value"])
    q = Quantity(data, first)
    for unit, factor in ((second, ratio), (first, 1.0), (base, case["factors"][0] ** (
            2 if case["over"] == "square" else 1))):
        got = q.to(unit)
        check(np.allclose(got, data * factor, rtol=1e-11, atol=0), "%r %s is %r, expected %r",
              data, first, got, data * factor)
    back = q.convert_to(second).to(first)
    check(np.allclose(back, data, rtol=1e-11, atol=0), "there and back is %r, not %r", back, data)
    ctx.nontrivial(case["factors"][0] != case["factors"][1])
