"""C15: a ring stays valid under every history of assignments."""
import copy
import math

import numpy as np

from mc import core
from mc.core import Raised, Violation, attempt

LEVEL = "model_checking"
RULE = ("breadth-first over all attribute assignments (valid, boundary, "
    "invalid and non-numerical values for each attribute) to closure of the "
    "reachable states, compared after every step with an independent "
    "validity rule; all constructions that vary two arguments at once; "
    "histories replayed on fresh rings")
ASSUMPTIONS = ["a radius must be finite", "booleans and unsigned integers "
    "are left out: whether they count as numbers is not specified"]

INF, NAN = math.inf, math.nan
ODD = {"text": "0.5", "none": None, "list": [0.5], "complex": 0.5 + 0j,
    "array": np.array([0.5]), "array0": np.array(0.5), "pair":
    np.array([0.5, 1.0]), "nan": NAN, "-inf": -INF, "inf": INF}
RADII = {"-1": -1.0, "-tiny": -1e-16, "-0": -0.0, "0": 0, "least": 5e-324,
    "1e-17": 1e-17, "1e-16": 1e-16, "half": 0.5, "one": 1, "one64":
    np.float64(1.0), "above": math.nextafter(1.0, 2.0), "below":
    math.nextafter(1.0, 0.0), "three": np.float32(3.0), "i3": np.int64(3)}
VALUES = {
    "inner_radius": {**RADII, **ODD},
    "outer_radius": {**RADII, **ODD},
    "transmission": {"-least": -5e-324, "-0": -0.0, "0": 0, "third": 0.3,
        "one": 1.0, "above": math.nextafter(1.0, 2.0), **ODD},
    "inclination": {"-least": -5e-324, "0": 0, "forty": 40.0, "ninety": 90,
        "above": math.nextafter(90.0, 91.0), "180": 180, **ODD},
    "tilt": {"-181": -181, "below": math.nextafter(-180.0, -181.0),
        "-180": -180.0, "-90": -90, "0": 0.0, "180": np.int64(180), "above":
        math.nextafter(180.0, 181.0), **ODD},
}
ATTRIBUTES = list(VALUES)
NUMBERS = (int, float, np.int64, np.int32, np.float32, np.float64)


def effective(attribute, value):
    """What is stored if the value is accepted; None if it never is."""
    if not isinstance(value, NUMBERS) or isinstance(value, bool):
        return None
    if value != value:
        return None
    if attribute == "inner_radius" and value == 0:
        return "negligible"
    return value


def valid(state):
    inner, outer, transmission, inclination, tilt = state
    return (0 < inner < outer < INF and 0 <= transmission <= 1
        and 0 <= inclination <= 90 and -180 <= tilt <= 180)


def seen(ring):
    return tuple(getattr(ring, a) for a in ATTRIBUTES)


class World:
    def __init__(self, state):
        from Ring import Ring
        self.ring = Ring(*state)


def canon(world):
    return tuple((type(v).__name__, repr(v)) for v in seen(world.ring))


def apply(world, op):
    attribute, name = op
    value = VALUES[attribute][name]
    before = seen(world.ring)
    result = attempt(setattr, world.ring, attribute, copy.copy(value))
    after = seen(world.ring)
    judge(op, attribute, value, before, after, result)


def judge(op, attribute, value, before, after, result):
    index = ATTRIBUTES.index(attribute)
    stored = effective(attribute, value)
    if stored is None:
        allowed = False
    elif stored == "negligible":
        # replaced by something positive and negligible
        allowed = "depends" if not before[1] > 1e-9 else True
    else:
        wanted = list(before)
        wanted[index] = stored
        allowed = valid(wanted)
    if not valid(after):
        raise Violation(f"{op} on {before} leaves an invalid ring {after}")
    if isinstance(result, Raised):
        if after != before:
            raise Violation(f"{op} was rejected ({result}) but changed "
                f"{before} to {after}")
        if allowed is True:
            raise Violation(f"{op} on {before} was rejected: {result}")
        return
    if allowed is False:
        raise Violation(f"{op} on {before} was accepted: {after}")
    others = [k for k in range(5) if k != index]
    if any(after[k] != before[k] for k in others):
        raise Violation(f"{op} on {before} changed more than that: {after}")
    if stored == "negligible":
        if not 0 < after[0] <= 1e-9:
            raise Violation(f"{op}: inner radius {after[0]} is not "
                "negligible")
    elif after[index] != value:
        raise Violation(f"{op}: stored {after[index]!r}")


STARTS = [(0.5, 1, 0.3, 0, 0.0), (0, 3.0, 0, 90, -180)]


def cases(tier):
    out = []
    starts = STARTS[:1] if tier == "quick" else STARTS
    for attribute in ATTRIBUTES:
        out.append(dict(kind="construct", attribute=attribute))
    for start in starts:
        out.append(dict(kind="history", start=start, vary=ATTRIBUTES[:2]))
        out.append(dict(kind="history", start=start, vary=ATTRIBUTES[:3]))
        out.append(dict(kind="history", start=start, vary=ATTRIBUTES[2:]))
        out.append(dict(kind="history", start=start, vary=[ATTRIBUTES[k]
            for k in (0, 1, 4)]))
        out.append(dict(kind="history", start=start, vary=[ATTRIBUTES[k]
            for k in (1, 3, 4)]))
        if tier == "thorough":
            out.append(dict(kind="history", start=start, vary=ATTRIBUTES[
                :4]))
            out.append(dict(kind="history", start=start, vary=ATTRIBUTES[
                1:]))
    if tier == "thorough":
        out.append(dict(kind="history", start=STARTS[0], vary=ATTRIBUTES))
    return out


def run(case, ctx):
    if case["kind"] == "construct":
        construct(case, ctx)
        return
    operations = [(a, n) for a in case["vary"] for n in VALUES[a]]
    core.explore(ctx, lambda: World(case["start"]), lambda w: operations,
        apply, canon, 50, label=lambda w: repr(seen(w.ring)))


def construct(case, ctx):
    from Ring import Ring
    base = [0.5, 1.0, 0.3, 40.0, -20.0]
    first = ATTRIBUTES.index(case["attribute"])
    for second in range(first + 1, 5):
        for a, x in VALUES[ATTRIBUTES[first]].items():
            for b, y in VALUES[ATTRIBUTES[second]].items():
                arguments = list(base)
                arguments[first], arguments[second] = x, y
                stored = [effective(ATTRIBUTES[k], v) for k, v in
                    enumerate(arguments)]
                if any(v is None for v in stored):
                    allowed = False
                else:
                    small = stored[0] == "negligible"
                    allowed = valid([1e-16 if small else stored[0],
                        *stored[1:]])
                    if small and not arguments[1] > 1e-9:
                        allowed = allowed and None
                result = attempt(Ring, *arguments)
                ctx.add(transitions=1)
                ctx.distinct("states", arguments)
                if isinstance(result, Raised):
                    ctx.check(allowed is not True, f"Ring{arguments} was "
                        f"rejected: {result}")
                    continue
                ctx.check(allowed is not False, f"Ring{arguments} was "
                    "accepted")
                got = seen(result)
                ctx.check(valid(got), f"Ring{arguments} is invalid: {got}")
                ctx.check(all(v == g for v, g in zip(stored, got) if v !=
                    "negligible"), f"Ring{arguments} became {got}")
                ctx.outcome(repr(got))
    # the defaults
    ctx.check(seen(Ring(0.5, 1, 0.2))[3:] == (0, 0), "default orientation")
    ctx.sample(case)


def replay(case, history, ctx):
    core.replay_history(ctx, lambda: World(case["start"]), apply, history)
