"""C22: grid axes, also after mirroring."""
import itertools
import math
import os

import numpy as np

from mc import core
from mc.core import Raised, Violation, attempt

LEVEL = "model_checking"
RULE = ("every combination of ranges and counts of a lattice; for each "
    "every history of mirroring, refused mirroring and saving and loading "
    "to a fixed depth, compared after every step with axes computed "
    "independently; every construction with one or two invalid arguments; "
    "histories replayed")
ASSUMPTIONS = ["the position of a grid line may differ by rounding (1e-14 "
    "of the range); ends and zeros are exact", "a grid of one cell is its "
    "own mirror image"]

RANGES = [(0, 1), (0.0, 0.3), (0, 1e-3), (0.0, 1e6), (-1.0, 1.0), (-1.0,
    0.0), (0.25, 0.75), (-0.0, 0.7), (1e-300, 1.0), (-3, -2), (np.float64(
    0.0), np.int64(5))]
COUNTS = [1, 2, 3, 10]
FACTORS = [(1, 1), (1, 3), (1.0, 2), (2.0, 1), (2.0, 2), (3.7, 5), (10, 4)]


def axis(low, high, count):
    if count == 1:
        return np.array([float(low)])
    return float(low) + (float(high) - float(low)) * np.arange(count) / (
        count - 1)


class World:
    number = 0

    def __init__(self, x, nx, y, ny, rf):
        from GridParameters import GridParameters
        self.grid = GridParameters(*x, nx, *y, ny, *rf)
        self.dx, self.dy = axis(*x, nx), axis(*y, ny)
        up = axis(1, *rf)
        self.rf = up
        self.both = np.concatenate([up[::-1], up[1:]])
        self.ends = ((float(x[0]), float(x[1]) if nx > 1 else float(x[0])),
            (float(y[0]), float(y[1]) if ny > 1 else float(y[0])))
        self.mirrored = False
        judge(self, "construction")


def canon(world):
    return core.fingerprint(world.grid), world.mirrored


def close(a, b):
    span = max(1e-300, float(np.max(np.abs(b))))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-14 *
        span))


def judge(world, op):
    g = world.grid
    dx, dy, rf = [np.asarray(a) for a in (g.dx, g.dy, g.rf)]
    nx, ny, nr = len(world.dx), len(world.dy), len(world.both)
    if world.mirrored:
        nx, ny = 2 * nx - 1, 2 * ny - 1
    if dx.shape != (1, nx, 1) or dy.shape != (ny, 1, 1):
        raise Violation(f"{op}: axes of shape {dx.shape} and {dy.shape} "
            f"instead of {nx} and {ny} values")
    if any(a.dtype != float for a in (dx, dy, rf)):
        raise Violation(f"{op}: axes are not floats")
    shapes = (tuple(g.grid_shape), tuple(g.slice_shape))
    if shapes != ((ny, nx, nr), (ny, nx)):
        raise Violation(f"{op}: shapes {shapes} do not agree with the axes")
    flat = dict(dx=dx.ravel(), dy=dy.ravel())
    for name, values, wanted, ends in (("dx", flat["dx"], world.dx,
            world.ends[0]), ("dy", flat["dy"], world.dy, world.ends[1])):
        half = values
        if world.mirrored:
            middle = len(values) // 2
            half = values[middle:]
            if values[middle] != 0 or not np.array_equal(values, -values[
                    ::-1]):
                raise Violation(f"{op}: {name} {values} is not mirrored")
            if not np.array_equal(half, world.original[name]):
                raise Violation(f"{op}: mirroring changed {name} to "
                    f"{values}")
        if not close(half, wanted) or (half[0], half[-1]) != ends:
            raise Violation(f"{op}: {name} is {half} instead of {wanted}")
        if np.any(np.diff(values) <= 0):
            raise Violation(f"{op}: {name} does not ascend")
    if not close(rf, world.rf) or not close(np.asarray(g.rf_array),
            world.both):
        raise Violation(f"{op}: rf is {g.rf_array} instead of {world.both}")
    array = np.asarray(g.rf_array)
    middle = len(array) // 2
    if array[middle] != 1 or rf[0] != 1 or not np.array_equal(array, array[
            ::-1]) or not np.array_equal(array[middle:], rf):
        raise Violation(f"{op}: rf axis {array} is not 1 in the middle and "
            "symmetric")
    told = g.get_vectors()
    if not core.same(list(told), [flat["dy"], flat["dx"], array]):
        raise Violation(f"{op}: get_vectors gives {told}")
    can = flat["dx"][0] == 0 and flat["dy"][0] == 0
    if bool(g.extendable) != bool(can):
        raise Violation(f"{op}: extendable is {g.extendable}")
    text = str(g)
    if str((ny, nx, nr)) not in text:
        raise Violation(f"{op}: described as {text}")


def apply(world, op):
    (kind,) = op
    if kind == "mirror":
        before = core.fingerprint(world.grid)
        can = (world.ends[0][0] == 0 and world.ends[1][0] == 0 and not
            world.mirrored)
        single = len(world.dx) == len(world.dy) == 1
        old = dict(dx=np.copy(world.grid.dx).ravel(), dy=np.copy(
            world.grid.dy).ravel())
        result = attempt(world.grid.extend_grid)
        if isinstance(result, Raised):
            if can:
                raise Violation(f"mirroring was refused: {result}")
            if core.fingerprint(world.grid) != before:
                raise Violation("refused mirroring changed the grid")
        elif not can and not single:
            raise Violation("mirroring was not refused")
        elif can:
            world.original = old
            world.mirrored = True
    else:
        World.number += 1
        directory = os.path.abspath(f"p{World.number}")
        before = core.fingerprint(world.grid)
        world.grid.save(directory)
        if core.fingerprint(world.grid) != before:
            raise Violation("saving changed the grid parameters")
        world.grid = type(world.grid).load(directory)
    judge(world, kind)


OPERATIONS = [("mirror",), ("reload",)]
GOOD = [0.0, 1.0, 3, -0.5, 0.5, 2, 2.0, 2]
NAN, INF = math.nan, math.inf
BAD = {0: [1.0, 2, NAN, INF, -INF, "0", None], 1: [0.0, -1, NAN, INF, -INF,
    "1"], 2: [0, -3, 2.0, "3", None, NAN], 3: [0.5, 9, NAN, -INF, INF, []],
    4: [-0.5, -1, NAN, INF, None], 5: [0, -1, 2.5, 3.0, "2"], 6: [0.5, 0,
    -2, math.nextafter(1.0, 0.0), NAN, INF, "2"], 7: [0, -1, 1.5, None]}


def cases(tier):
    out = []
    for x in range(len(RANGES)):
        out.append(dict(kind="axes", x=x))
    out.append(dict(kind="invalid"))
    out.append(dict(kind="counts"))
    return out


def run(case, ctx):
    if case["kind"] == "invalid":
        invalid(ctx)
        return
    if case["kind"] == "counts":
        every_count(ctx)
        return
    counts = COUNTS if ctx.tier == "quick" else [*COUNTS, 4, 37, 101]
    for nx, y, ny, rf in itertools.product(counts, RANGES, counts, FACTORS):
        x = RANGES[case["x"]]
        core.explore(ctx, lambda: World(x, nx, y, ny, rf), lambda w:
            OPERATIONS, apply, canon, 4 if ctx.tier == "quick" else 6)
        ctx.outcome(f"{nx} {ny} {rf} {y}")
        if ctx.failures:
            ctx.failures[-1]["message"] += f" ({x}, {nx}, {y}, {ny}, {rf})"


MAXIMA = [0.1, 0.7, 1 / 3, 1.1, 3.3, 1e-3, 7.7e5]
MINIMA = [0.0, -0.3, 0.05, -1 / 3]


def every_count(ctx):
    """Every number of lines; steps that do not add up exactly included."""
    ranges = [r for r in RANGES] + [(a, b) for a in MINIMA for b in MAXIMA if
        a < b]
    for count in range(1, 130 if ctx.tier == "quick" else 700):
        factor = (1 + count / 7, count)
        for k, x in enumerate(ranges):
            y = ranges[(k + count) % len(ranges)]
            try:
                world = World(x, count, y, count, factor)
                apply(world, ("mirror",))
            except Violation as error:
                ctx.fail(f"{error} ({x}, {count}, {y}, {count}, {factor})")
                return
            ctx.add(transitions=2, traces_validated_against_impl=1)
            ctx.distinct("states", (x, y, count))
        ctx.outcome(f"count {count}")


def invalid(ctx):
    from GridParameters import GridParameters
    for first, second in itertools.combinations_with_replacement(BAD, 2):
        for a, b in itertools.product(BAD[first], BAD[second] if second !=
                first else [None]):
            arguments = list(GOOD)
            arguments[first] = a
            if second != first:
                arguments[second] = b
            # two replaced ends may form a proper range again
            if acceptable(arguments):
                continue
            result = attempt(GridParameters, *arguments)
            ctx.add(transitions=1)
            ctx.distinct("states", arguments)
            ctx.check(isinstance(result, Raised) and result.kind in (
                "ValueError", "TypeError"), f"GridParameters{arguments}: "
                f"{result!r}")
            ctx.outcome(f"{first} {second} {a} {b}")
    # counts and factors at their limits are fine
    for arguments in ([0, 1, 1, 0, 1, 1, 1, 1], [0, 1e-300, 2, -1e300, 1, 1,
            1.0, 2]):
        ctx.check(not isinstance(attempt(GridParameters, *arguments),
            Raised), f"GridParameters{arguments} was refused")


def acceptable(arguments):
    try:
        return (arguments[0] < arguments[1] and arguments[3] < arguments[4]
            and all(math.isfinite(v) for v in arguments) and all(isinstance(
            arguments[k], int) and arguments[k] > 0 for k in (2, 5, 7)) and
            arguments[6] >= 1)
    except TypeError:
        return False


def replay(case, history, ctx):
    run(case, ctx)
