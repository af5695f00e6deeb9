"""C21: validation accepts exactly what it promises."""
import itertools

import numpy as np

from mc import core
from mc.core import attempt

LEVEL = "exploration"
RULE = ("complete product of value kinds, bounds, exclusivity, integer flag, "
    "dtype, dimensions and shapes for every validation function, against a "
    "decision table; where an argument is wrong in several ways any of the "
    "applicable kinds of error counts")
ASSUMPTIONS = ["booleans and unsigned integers as numbers, array subclasses "
    "and bounds that are not numbers of any kind other than str and None are "
    "unspecified and left out"]

INF, NAN = float("inf"), float("nan")


class Base:
    pass


class Derived(Base):
    pass


INTS = [int, np.int8, np.int16, np.int32, np.int64]
FLOATS = [float, np.float16, np.float32, np.float64, np.longdouble]
STRANGE = [None, "1", "", b"1", 1j, [1.0], (1,), {1: 1}, np.array(1.0),
    np.array([0.5]), Base(), int, np.complex128(1)]
BOUNDS = [-INF, -1, 0, 0.5, 1, np.float32(2), np.int64(2), 2.5, INF]
SHAPES = [(), (0,), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (1, 1, 2),
    (2, 1, 1), (2, 1, 3), (1, 1, 1, 2)]
DTYPES = ["float64", "float32", "float16", "int64", "int32", "int8", "uint64",
    "uint8", "bool"]


def cases(tier):
    out = []
    for integer in (False, True):
        for exclusive in (False, True):
            out.append(dict(kind="number", integer=integer,
                exclusive=exclusive))
    for low in [None, *BOUNDS]:
        for exclusive in (False, True):
            out.append(dict(kind="array", low=core.short(low), index=([None,
                *BOUNDS]).index(low), exclusive=exclusive))
    out.append(dict(kind="forms"))
    out.append(dict(kind="classes"))
    for first in range(len(SHAPES)):
        out.append(dict(kind="shapes", first=first))
    if tier == "thorough":
        for low in [None, *BOUNDS]:
            for exclusive in (False, True):
                out.append(dict(kind="deep", index=([None,
                    *BOUNDS]).index(low), exclusive=exclusive))
    return out


def judge(ctx, label, wanted, function, value, *args, **kwargs):
    """wanted: empty for acceptance, otherwise the kinds of error allowed"""
    before = core.fingerprint(value)
    got = attempt(function, value, *args, **kwargs)
    ctx.add(evaluations=1)
    # a call without restrictions on a fitting value is trivial
    if kwargs or wanted:
        ctx.distinct("distinct_nontrivial", label)
    ctx.outcome(f"{label.split()[0]} {sorted(wanted)}")
    if isinstance(got, core.Raised):
        ctx.check(got.kind in wanted, lambda: f"{label}: {got}, "
            f"{'expected ' + str(sorted(wanted)) if wanted else 'although valid'}")
    else:
        ctx.check(not wanted, lambda: f"{label}: accepted instead of "
            f"{sorted(wanted)}")
        ctx.check(got is value, lambda: f"{label}: returned {core.short(got)} "
            "instead of its argument")
    ctx.check(core.fingerprint(value) == before, lambda: f"{label}: changed "
        "its argument")


def inside(value, low, high, exclusive):
    if value != value:
        return False
    if exclusive:
        return bool(low < value < high)
    return bool(low <= value <= high)


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def numbers():
    for kind in INTS:
        for value in (-100, -2, -1, 0, 1, 2, 3, 127):
            yield kind(value), True
    yield 10 ** 30, True
    yield -10 ** 30, True
    for kind in FLOATS:
        for value in (-INF, -1e30 if kind is not np.float16 else -6e4, -1.0,
                -0.5, -0.0, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0,
                INF, NAN):
            yield kind(value), False
    for value in (np.nextafter(b, d) for b in (-1.0, 0.5, 1.0, 2.0, 2.5)
            for d in (-INF, INF)):
        yield float(value), False


def run_number(case, ctx):
    import validate
    integer, exclusive = case["integer"], case["exclusive"]
    for low, high in itertools.product([None, *BOUNDS], repeat=2):
        options = dict(check_integer=integer, exclusive=exclusive)
        if low is not None:
            options["lower_bound"] = low
        if high is not None:
            options["upper_bound"] = high
        lower = -INF if low is None else low
        upper = INF if high is None else high
        for value, whole in numbers():
            bounded = lower != -INF or upper != INF
            wanted = set()
            if integer and not whole:
                wanted.add("TypeError")
            if lower > upper:
                wanted.add("ValueError")
            elif value != value:
                if bounded:
                    wanted.add("ValueError")
                elif exclusive:
                    # nothing is requested but a number
                    continue
            elif not inside(value, lower, upper, exclusive):
                wanted.add("ValueError")
            judge(ctx, f"number {type(value).__name__}({value}) {options}",
                wanted, validate.number, value, "name", **options)
        for value in STRANGE:
            wanted = {"TypeError"}
            if lower > upper:
                wanted.add("ValueError")
            judge(ctx, f"number {value!r} {options}", wanted,
                validate.number, value, "name", **options)
    for wrong in STRANGE:
        for option in ("lower_bound", "upper_bound", "exclusive",
                "check_integer"):
            if wrong is None and option.endswith("bound"):
                continue
            judge(ctx, f"number 1 {option}={wrong!r}", {"TypeError"},
                validate.number, 1, "name", **{option: wrong})
    for option in ("exclusive", "check_integer"):
        judge(ctx, f"number 1 {option}=1", {"TypeError"}, validate.number, 1,
            "name", **{option: 1})


VALUES = [-INF, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 2.5, 3.0, INF, NAN]


def bound_cases(case):
    lows = [None, *BOUNDS]
    low = lows[case["index"]]
    for high in lows:
        options = dict(exclusive=case["exclusive"])
        if low is not None:
            options["lower_bound"] = low
        if high is not None:
            options["upper_bound"] = high
        yield low, high, options


def bounds_wanted(elements, low, high, exclusive):
    if low is None and high is None:
        return set()
    lower = -INF if low is None else low
    upper = INF if high is None else high
    if lower > upper:
        return {"ValueError"}
    if all(inside(e, lower, upper, exclusive) for e in elements):
        return set()
    return {"ValueError"}


def run_array(case, ctx):
    import validate
    for low, high, options in bound_cases(case):
        for a, b in itertools.product(VALUES, repeat=2):
            for shape in ((2,), (2, 1), (1, 1, 2)):
                value = np.array([a, b]).reshape(shape)
                judge(ctx, f"array {[a, b]} {shape} {options}",
                    bounds_wanted((a, b), low, high, case["exclusive"]),
                    validate.array, value, "name", **options)
        for elements, dtype in (((-1, 0, 2), "int64"), ((1,), "int32"),
                ((0, 1), "float32"), ((), "float64"), ((), "int64"), ((1.0,
                0.5, -1.0, 2.5), "float64"), ((0.5,) * 30 + (NAN,),
                "float64"), ((NAN,) + (0.5,) * 30, "float64"), ((0.5,) * 15
                + (3,) + (0.5,) * 15, "float64"), ((0.75,) * 31,
                "float64")):
            value = np.array(elements, dtype=dtype)
            judge(ctx, f"array {elements} {dtype} {options}", bounds_wanted(
                elements, low, high, case["exclusive"]), validate.array,
                value, "name", **options)
        # a view that is not contiguous, and one whose order is Fortran's
        block = np.arange(12.0).reshape(3, 4)
        for view in (block[:, ::2], block.T, block[::-1, 1:2]):
            judge(ctx, f"array view {options}", bounds_wanted(view.ravel(),
                low, high, case["exclusive"]), validate.array, view, "name",
                **options)


def run_deep(case, ctx):
    import validate
    for low, high, options in bound_cases(case):
        for elements in itertools.product(VALUES, repeat=3):
            judge(ctx, f"array {elements} {options}", bounds_wanted(elements,
                low, high, case["exclusive"]), validate.array, np.array(
                elements), "name", **options)


def run_forms(case, ctx):
    """dtype, dimensions and bounds together."""
    import validate
    for shape in SHAPES:
        for dtype in DTYPES:
            value = np.ones(shape, dtype=dtype)
            for asked, dims, bounds in itertools.product([None, *DTYPES,
                    "float", "f8"], [None, 0, 1, 2, 3, 4,
                    np.int64(2)], [None, (0, 2), (2, 3), (1, None), (None,
                    0.5)]):
                options, wanted = {}, set()
                if asked is not None:
                    options["dtype"] = asked
                    if asked in ("float", "f8"):
                        if dtype == "float64":
                            continue
                        wanted.add("TypeError")
                    elif asked != dtype:
                        wanted.add("TypeError")
                if dims is not None:
                    options["num_dimensions"] = dims
                    if dims != len(shape):
                        wanted.add("InvalidDimensionsError")
                if bounds is not None:
                    if dtype == "bool":
                        continue
                    options.update(lower_bound=bounds[0],
                        upper_bound=bounds[1])
                    if bounds in ((2, 3), (None, 0.5)) and value.size:
                        wanted.add("ValueError")
                judge(ctx, f"array ones {shape} {dtype} {options}", wanted,
                    validate.array, value, "name", **options)
    for value in STRANGE + [1, 1.0, np.float64(1), True]:
        if isinstance(value, np.ndarray):
            continue
        for options in (dict(), dict(dtype="float64"), dict(num_dimensions=1),
                dict(lower_bound=0), dict(upper_bound=INF, exclusive=True)):
            judge(ctx, f"array {value!r} {options}", {"TypeError"},
                validate.array, value, "name", **options)
    value = np.array([0.5, 1.0])
    for wrong in STRANGE:
        for options in (dict(lower_bound=wrong), dict(upper_bound=wrong),
                dict(lower_bound=0, exclusive=wrong), dict(
                num_dimensions=wrong), dict(dtype=wrong)):
            if wrong is None and "exclusive" not in options:
                continue
            if isinstance(wrong, str) and "dtype" in options:
                continue
            judge(ctx, f"array valid {options}", {"TypeError"},
                validate.array, value, "name", **options)
    for wrong in (1.0, 1.5):
        judge(ctx, f"array valid num_dimensions={wrong}", {"TypeError"},
            validate.array, value, "name", num_dimensions=wrong)


def run_classes(case, ctx):
    import validate
    values = STRANGE + [0, 1, 1.0, -3, NAN, True, False, "text", np.str_(
        "text"), Derived(), np.ones(2), [], (), {}, np.float64(1)]
    for value in values:
        judge(ctx, f"boolean {value!r}", set() if value is True or value is
            False else {"TypeError"}, validate.boolean, value, "name")
        judge(ctx, f"string {value!r}", set() if isinstance(value, str) else
            {"TypeError"}, validate.string, value, "name")
        for kind in (Base, Derived, int, float, str, list, dict, tuple,
                np.ndarray, bool):
            judge(ctx, f"class_object {value!r} {kind.__name__}", set() if
                isinstance(value, kind) else {"TypeError"},
                validate.class_object, value, "name", kind, "title")


def run_shapes(case, ctx):
    import validate
    first = SHAPES[case["first"]]
    lists = [[first]]
    for count in (1, 2, 3) if ctx.tier == "thorough" else (1, 2):
        lists += [[first, *rest] for rest in itertools.product(SHAPES,
            repeat=count)]
    for shapes in lists:
        arrays = [np.ones(s) for s in shapes]
        for names in (len(shapes), len(shapes) + 1, len(shapes) - 1):
            wanted = set()
            if len(shapes) < 2 or names != len(shapes):
                wanted.add("AttributeError")
            if len(set(shapes)) > 1:
                wanted.add("InvalidShapeError")
            shape_call(ctx, validate, arrays, names, wanted)
        if len(shapes) > 3:
            continue
        for position in range(len(shapes)):
            for odd in ([1.0], None, 1.0, "ab"):
                mixed = list(arrays)
                mixed[position] = odd
                wanted = {"TypeError"}
                if position == 0 or len(shapes) < 2:
                    wanted.add("AttributeError")
                if len({s for i, s in enumerate(shapes) if i != position}
                        ) > 1:
                    wanted.add("InvalidShapeError")
                shape_call(ctx, validate, mixed, len(mixed), wanted)
    for value in ([], ):
        shape_call(ctx, validate, [], 0, {"AttributeError"})


def shape_call(ctx, validate, arrays, names, wanted):
    label = (f"same_shape_arrays {[getattr(a, 'shape', a) for a in arrays]} "
        f"{names} names")
    names = [f"n{i}" for i in range(names)]
    got = attempt(validate.same_shape_arrays, arrays, names)
    ctx.add(evaluations=1)
    ctx.distinct("distinct_nontrivial", label)
    ctx.outcome(f"same_shape_arrays {sorted(wanted)}")
    if isinstance(got, core.Raised):
        ctx.check(got.kind in wanted, lambda: f"{label}: {got} instead of "
            f"{sorted(wanted) or 'acceptance'}")
    else:
        ctx.check(not wanted, lambda: f"{label}: accepted instead of "
            f"{sorted(wanted)}")
