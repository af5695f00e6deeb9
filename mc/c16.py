"""C16: ring systems against a list of rings."""
import copy
import itertools

import numpy as np

from mc import core
from mc.core import Raised, Violation, attempt

LEVEL = "model_checking"
RULE = ("breadth-first over histories of adding, removing, replacing, "
    "splitting and merging rings (every index in and around the system, "
    "fitting, touching, overlapping and foreign rings, the same ring object "
    "several times) and of changing the caller's own ring objects, compared "
    "after every step with a reference list; histories replayed on fresh "
    "systems; construction from every list of up to three rings with radii "
    "from a lattice")
ASSUMPTIONS = ["the rings are changed through the system's methods only"]

# name -> (inner, outer, transmission, inclination, tilt)
ULP = 2.0**-52
POOL = {"inside": (0.0, 0.5, 0.9, 10, 20), "first": (0.5, 1.0, 0.25, 0, 0),
    "gap": (1.0, 1.5, 0.25, 60, -30), "third": (1.5, 2.0, 0.75, 90, 180),
    "far": (2.5, 4.0, 0.25, 60, -30), "thin": (2.0, 2.25, 0.5, 0, 5)}
BIGGER = {"wide": (0.25, 3.0, 0.5, 5, 5), "nearly": (2.0 + 2.0**-22, 2.5,
    0.25, 60, -30),
    # overlap their neighbours by a little
    "low": (1.0 - 1e-9, 1.5, 0.3, 60, -30), "lower": (1.0 - 2e-4, 1.25, 0.3,
    60, -30), "up": (1.0, 1.5 + 2 * ULP, 0.3, 60, -30), "upper": (1.0, 1.5
    + 2e-4, 0.3, 60, -30)}
STARTS = {
    "empty": (0.4, [], [], [], 60.0, -30.0),
    "two": (1.0, [0.5, 1.5], [1.0, 2.0], [0.25, 0.75], 60.0, -30.0),
    "three": (0.0, [0.0, 1.0, 2.0], [0.5, 1.5, 2.5], [0.9, 0.25, 0.25], 0,
        180),
    "touching": (9.0, [0.5, 1.0, 1.5], [1.0, 1.5, 2.0], [0.25, 0.25, 0.5],
        90, 0.0),
}
MOVES = {"inner_radius": 1e-3, "outer_radius": 7.0, "transmission": 0.5,
    "inclination": 33, "tilt": 44}


def pool(tier):
    return {**POOL, **(BIGGER if tier != "small" else {})}


class World:
    def __init__(self, name):
        from Ring import Ring
        from RingSystem import RingSystem
        planet, inner, outer, transmission, inclination, tilt = STARTS[name]
        arrays = [np.array(a, float) for a in (inner, outer, transmission)]
        self.system = RingSystem(planet, *arrays, inclination, tilt,
            logging_level=50)
        self.model = [[1e-16 if i == 0 else i, o, t] for i, o, t in zip(
            inner, outer, transmission)]
        for array in arrays:
            array[:] = 0.123
        self.frame = (planet, inclination, tilt)
        self.mine = {k: Ring(*v) for k, v in pool("").items()}
        self.theirs = {k: attributes(r) for k, r in self.mine.items()}
        self.steps = 0
        compare(self, "construction")


def attributes(ring):
    return [float(ring.inner_radius), float(ring.outer_radius), float(
        ring.transmission), float(ring.inclination), float(ring.tilt)]


def compare(world, op, tolerance=0.0):
    system = world.system
    if (system.planet_radius, system.inclination, system.tilt) != \
            world.frame:
        raise Violation(f"{op} changed the planet or the orientation")
    rings = [attributes(r) for r in system.rings]
    expected = [[*r, float(world.frame[1]), float(world.frame[2])] for r in
        world.model]
    if len(rings) != len(expected) or not core.same(rings, expected,
            tolerance):
        raise Violation(f"{op}: rings {rings} instead of {expected}")
    for a, b in zip(rings, rings[1:]):
        if not a[1] <= b[0]:
            raise Violation(f"{op}: rings overlap or are not ordered: "
                f"{rings}")
    if any(not 0 < r[0] < r[1] for r in rings):
        raise Violation(f"{op}: invalid ring in {rings}")
    told = dict(number=system.get_num_rings(), inner=system.
        get_inner_radii(), outer=system.get_outer_radii(), transmission=
        system.get_transmissions(), data=list(system.get_rings_data()))
    columns = [np.array([r[k] for r in rings], float) for k in range(3)]
    right = dict(number=len(rings), inner=columns[0], outer=columns[1],
        transmission=columns[2], data=columns)
    if not core.same(told, right):
        raise Violation(f"{op}: the reported values do not agree with the "
            "rings: " + core.first_difference(told, right))
    for array in (told["inner"], told["outer"], told["transmission"],
            *told["data"]):
        array[:] = -5
    if not core.same([attributes(r) for r in system.rings], rings):
        raise Violation(f"{op}: changing reported values changes the rings")
    if len({id(r) for r in system.rings}) != len(rings):
        raise Violation(f"{op}: the same ring object is used twice")
    for name, ring in world.mine.items():
        if attributes(ring) != world.theirs[name]:
            raise Violation(f"{op} changed the caller's ring {name}: "
                f"{attributes(ring)} instead of {world.theirs[name]}")
    text = str(system)
    for r in rings:
        for value in r[:3]:
            if f"{value:.2f}" not in text:
                raise Violation(f"{op}: the description misses {value:.2f}")
    world.model = [r[:3] for r in rings]


def canon(world):
    return (tuple(tuple(attributes(r)) for r in world.system.rings),
        tuple(tuple(attributes(r)) for r in world.mine.values()),
        tuple([k for k, m in enumerate(world.mine.values()) if any(m is r
            for r in world.system.rings)]),
        core.fingerprint(world.system))


def ordered(rings):
    return all(a[1] <= b[0] for a, b in zip(rings, rings[1:]))


def whole(index):
    return isinstance(index, int) and not isinstance(index, bool)


def predict(world, op):
    """The reference list after the operation, or None if rejected."""
    kind, *args = op
    model = [list(r) for r in world.model]
    if kind in ("add", "replace"):
        index, name = args
        if name not in world.mine or not whole(index):
            return None
        last = len(model) if kind == "add" else len(model) - 1
        if not 0 <= index <= last:
            return None
        model[index:index + (kind == "replace")] = [attributes(
            world.mine[name])[:3]]
        return model if ordered(model) else None
    if kind == "remove":
        if not whole(args[0]) or not 0 <= args[0] < len(model):
            return None
        del model[args[0]]
        return model
    if kind == "split":
        counts = args[0]
        if whole(counts):
            if counts < 2:
                return None
            counts = [counts] * len(model)
        elif not isinstance(counts, tuple) or len(counts) != len(model) or \
                any(not whole(c) or c < 1 for c in counts):
            return None
        out = []
        for (inner, outer, transmission), count in zip(model, counts):
            width = (outer - inner) / count
            out += [[inner + k * width, inner + (k + 1) * width,
                transmission] for k in range(count)]
        return out
    if kind == "merge":
        tolerance = args[0]
        if not isinstance(tolerance, (int, float)) or not tolerance >= 0:
            return None
        out = []
        for ring in model:
            if (out and abs(ring[0] - out[-1][1]) <= tolerance and ring[2]
                    == out[-1][2]):
                out[-1][1] = ring[1]
            else:
                out.append(ring)
        return out
    raise AssertionError(op)


def perform(world, op):
    kind, *args = op
    system = world.system
    if kind == "add":
        return system.add_ring(args[0], world.mine.get(args[1], args[1]))
    if kind == "replace":
        return system.replace_ring(args[0], world.mine.get(args[1],
            args[1]))
    if kind == "remove":
        return system.remove_ring(args[0])
    if kind == "split":
        counts = args[0]
        if isinstance(counts, tuple):
            kept = np.array(counts, dtype="int64" if all(whole(c) for c in
                counts) else float)
            given = kept.copy()
            system.split_rings(given)
            if not np.array_equal(kept, given):
                raise Violation(f"{op} changed its argument")
            return None
        return system.split_rings(counts)
    if kind == "merge":
        return system.merge_rings(args[0])
    raise AssertionError(op)


def apply(world, op):
    op = tuple(op)
    world.steps += 1
    if op[0] == "caller":
        _, name, attribute = op
        ring = world.mine[name]
        attempt(setattr, ring, attribute, MOVES[attribute])
        world.theirs[name] = attributes(ring)
        compare(world, op)
        return
    expected = predict(world, op)
    before = copy.deepcopy(world.model)
    try:
        perform(world, op)
        rejected = None
    except Violation:
        raise
    except Exception as error:
        rejected = Raised(error)
    if rejected is not None:
        if expected is not None:
            raise Violation(f"{op} on {before} was rejected: {rejected}")
        compare(world, f"rejected {op}")
        return
    if expected is None:
        raise Violation(f"{op} on {before} was accepted: "
            f"{[attributes(r)[:3] for r in world.system.rings]}")
    world.model = expected
    compare(world, op, 1e-12 if op[0] == "split" else 0.0)


def operations(world, tier, limit=5):
    count = len(world.model)
    out = []
    for name in world.mine:
        for index in range(-1, count + 2):
            out += [("add", index, name), ("replace", index, name)]
    out += [("remove", index) for index in range(-1, count + 1)]
    if count <= limit:
        out += [("split", 2), ("split", 3)]
        out += [("split", tuple(1 + (k == which) for k in range(count)))
            for which in range(count)]
        out += [("split", tuple(range(1, count + 1)))]
    out += [("merge", 1e-6), ("merge", 0.0), ("merge", 0.5)]
    out += [("split", 1), ("split", (0,) * count) if count else ("split",
        -1), ("split", (2,) * (count + 1)), ("split", 2.0), ("split",
        "two"), ("split", None), ("merge", -1.0), ("merge", float("nan")),
        ("merge", "x"), ("add", 0.0, "first"), ("add", "0", "first"),
        ("add", None, "first"), ("add", count, "nothing"), ("replace", 0,
        "nothing"), ("remove", 0.0), ("remove", None)]
    if count:
        out.append(("split", (2.0,) * count))
    if world.steps >= (2 if tier == "quick" else 3):
        # the last step of the longest histories: only what is accepted
        out = [op for op in out if predict(world, op) is not None]
    for name in ("first", "gap", "far"):
        out += [("caller", name, a) for a in ("outer_radius",
            "transmission", "tilt")]
    return out


def cases(tier):
    out = []
    for name in STARTS:
        world = World(name)
        firsts = operations(world, tier)
        size = 8 if tier == "quick" else 3
        for k in range(0, len(firsts), size):
            out.append(dict(start=name, firsts=firsts[k:k + size], depth=3
                if tier == "quick" else 4))
        out.append(dict(start=name, firsts=[], depth=0))
    core.drop_loggers()
    out += [dict(start="construction", first=k) for k in range(-1,
        len(RINGS))]
    return out


RADII = (0.0, 0.5, 1.0 - 1e-9, 1.0, 1.0 + ULP, 1.5, 2.0)
RINGS = [(a, b) for a in RADII for b in RADII if a < b]


def construction(case, ctx):
    """Every list of rings: accepted exactly when ordered and apart."""
    from RingSystem import RingSystem
    lists = [()] + [((a, b),) for a in RADII for b in RADII] + [(r, (a, b))
        for r in RINGS for a in RADII for b in RADII if a >= b]
    if case["first"] >= 0:
        first = RINGS[case["first"]]
        lists = [(first, *others) for n in (1, 2) for others in
            itertools.product(RINGS, repeat=n)]
    for rings in lists:
        inner, outer = [np.array([r[k] for r in rings], float) for k in (0,
            1)]
        transmission = np.linspace(0.1, 0.9, len(rings))
        model = [[1e-16 if a == 0 else a, b, t] for (a, b), t in zip(rings,
            transmission)]
        valid = ordered(model) and all(a < b for a, b, _ in model)
        told = attempt(RingSystem, 0.5, inner, outer, transmission, 30, 40,
            50)
        ctx.add(states=1, transitions=1, traces_validated_against_impl=1)
        ctx.outcome(f"constructing {len(rings)} rings {valid}")
        if isinstance(told, Raised):
            ctx.check(not valid and told.kind == "ValueError", f"{rings} "
                f"refused: {told}")
        elif ctx.check(valid, f"constructing a system from {rings} is "
                "accepted"):
            ctx.check(core.same([attributes(r) for r in told.rings], [[*r,
                30., 40.] for r in model]), f"{rings} gives "
                f"{[attributes(r) for r in told.rings]}")
    core.drop_loggers()


def run(case, ctx):
    if case["start"] == "construction":
        return construction(case, ctx)
    for first in case["firsts"]:
        state = World(case["start"])
        try:
            apply(state, first)
        except Violation as error:
            ctx.fail(str(error), history=[first])
            continue
        except Exception as error:
            ctx.fail(f"unexpected {type(error).__name__}: {error}",
                history=[first])
            continue
        if canon(state) == canon(World(case["start"])):
            continue        # explored by the cases of the other operations

        def start():
            world = World(case["start"])
            apply(world, first)
            return world

        core.explore(ctx, start, lambda w: operations(w, ctx.tier), apply,
            canon, case["depth"] - 1, trace_every=3, label=lambda w: repr(
            w.model))
    if not case["firsts"]:
        core.explore(ctx, lambda: World(case["start"]), lambda w: [], apply,
            canon, 0)


def replay(case, history, ctx):
    core.replay_history(ctx, lambda: World(case["start"]), apply, history)
