"""C20: diagnostics belong to the cell they were recorded at."""
import copy
import itertools
import os

import numpy as np

from mc import core, objects
from mc.core import Raised, Violation, attempt

LEVEL = "model_checking"
RULE = ("breadth-first over histories of recording (two different records "
    "per cell), rejected recordings, extending, saving and loading, to "
    "closure for small grids and to a depth for larger ones; after every "
    "step every cell in and around the (mirrored) grid is looked up and "
    "compared with a map of the last records; histories replayed")
ASSUMPTIONS = ["the caller does not modify arrays after recording them"]

SHAPES = {"1x1": (1, 1), "1x2": (1, 2), "2x1": (2, 1), "2x2": (2, 2),
    "3x1": (3, 1), "2x3": (2, 3), "3x2": (3, 2), "12x2": (12, 2)}
KNOWN = "extended-lookup"
NOTE = []


def record(y, x, variant):
    size = 3 + variant + (x + y) % 2
    base = 100 * y + 10 * x + variant
    first = base + np.arange(size, dtype=float)
    second = -base - np.arange(size, dtype=float) / 7
    # values that repeat, unsorted ones, values that are not finite
    if (x + 2 * y + variant) % 4 == 1:
        first[1:] = first[0]
    elif (x + 2 * y + variant) % 4 == 2:
        first, second = first[::-1].copy(), np.full(size, second[0])
    elif (x + 2 * y + variant) % 4 == 3:
        first[-1], second[0] = np.nan, np.inf
    return first, second


class World:
    number = 0

    def __init__(self, shape):
        from GridDiagnostics import GridDiagnostics
        ny, nx = self.shape = SHAPES[shape]
        self.parameters = objects.make_parameters([(0.0, 1.0, nx, 0.0, 1.0,
            ny, 2.0, 2), False])
        self.store = GridDiagnostics(self.parameters)
        self.model = {}
        self.extended = False
        look(self, "construction")


def canon(world):
    return (tuple(sorted(world.model.items())), world.extended,
        core.fingerprint(world.store))


def look(world, op):
    ny, nx = world.shape
    top, right = ((2 * ny - 1, 2 * nx - 1) if world.extended else (ny, nx))
    before = core.fingerprint(world.store)
    cells = list(itertools.product(range(-1, top + 2), range(-1, right +
        2)))
    cells += [(0, right + 5), (-2, 0), (top * 7, right * 7)]
    for y, x in cells:
        told = attempt(world.store.get_diagnostic, y, x)
        inside = 0 <= y < top and 0 <= x < right
        if not inside:
            if not isinstance(told, Raised):
                raise Violation(f"{op}: a lookup of the outside cell "
                    f"({y}, {x}) of {(top, right)} was answered")
            continue
        cell = (abs(y - ny + 1), abs(x - nx + 1)) if world.extended else (y,
            x)
        if agrees(world, told, cell):
            continue
        if world.extended and agrees(world, told, (abs(y - ny), abs(x -
                nx))):
            # the listed finding, and only that
            NOTE.append(f"{op}: ({y}, {x}) of {(top, right)} returns the "
                f"record of {(abs(y - ny), abs(x - nx))} instead of {cell}")
            continue
        raise Violation(f"{op}: looking up ({y}, {x}) of {(top, right)} "
            f"gives {core.short(told)} instead of the record of {cell}: "
            f"{world.model.get(cell)}")
    for odd in ((0.0, 0), (0, "0"), (None, 0)):
        if not isinstance(attempt(world.store.get_diagnostic, *odd),
                Raised):
            raise Violation(f"{op}: a lookup of {odd} was answered")
    str(world.store)
    if core.fingerprint(world.store) != before:
        raise Violation(f"{op}: looking up changes the store")


def agrees(world, told, cell):
    if cell not in world.model:
        return isinstance(told, Raised)
    if isinstance(told, Raised) or len(told) != 2:
        return False
    return core.same(list(told), list(record(*cell, world.model[cell])))


def operations(world):
    ny, nx = world.shape
    out = [("record", y, x, v) for y in range(ny) for x in range(nx) for v
        in (0, 1)]
    if world.shape == SHAPES["12x2"]:
        out = [("record", y, x, 0) for y in (0, 1, 2, 10, 11) for x in (0,
            1)] + [("record", 1, 0, 1)]
    out += [("record", ny, 0, 0), ("record", 0, nx, 0), ("record", -1, 0,
        0), ("record", 0, -1, 1)]
    out += [("invalid", name) for name in INVALID]
    out += [("extend",), ("reload",), ("overwrite",)]
    return out


GOOD = np.array([1.0, 2.0])
INVALID = {"shapes": (0, 0, GOOD, np.array([1.0])), "integers": (0, 0,
    np.array([1, 2]), GOOD), "integers second": (0, 0, GOOD, np.array([1,
    2])), "matrix": (0, 0, np.ones((2, 1)), np.ones((2, 1))), "list": (0, 0,
    [1.0, 2.0], GOOD), "float cell": (0.0, 0, GOOD, GOOD), "text cell": (0,
    "0", GOOD, GOOD), "none": (0, 0, GOOD, None)}


def apply(world, op):
    kind, *args = op
    ny, nx = world.shape
    if kind == "record":
        y, x, variant = args
        result = attempt(world.store.save_diagnostic, y, x, *record(y, x,
            variant))
        allowed = not world.extended and 0 <= y < ny and 0 <= x < nx
        if allowed == isinstance(result, Raised):
            raise Violation(f"{op} in a store of {world.shape} (extended: "
                f"{world.extended}): {result}")
        if allowed:
            world.model[(y, x)] = variant
    elif kind == "invalid":
        if not isinstance(attempt(world.store.save_diagnostic,
                *copy.deepcopy(INVALID[args[0]])), Raised):
            raise Violation(f"{op} was accepted")
    elif kind == "extend":
        world.store.extend()
        world.extended = True
    else:
        World.number += 1
        directory = os.path.abspath(f"store{World.number}")
        if kind == "overwrite":
            # over an earlier save of another state of this store
            from GridDiagnostics import GridDiagnostics
            earlier = GridDiagnostics(world.parameters)
            earlier.save_diagnostic(0, 0, GOOD, GOOD)
            earlier.extend()
            earlier.save(directory)
        world.store.save(directory)
        look(world, op)
        world.store = type(world.store).load(directory)
    look(world, op)


def cases(tier):
    out = [dict(shape=s, depth=40) for s in ("1x1", "1x2", "2x1", "2x2",
        "3x1")]
    deep = 4 if tier == "quick" else 7
    for shape in ("2x3", "3x2"):
        out.append(dict(shape=shape, depth=deep))
    out.append(dict(shape="12x2", depth=3 if tier == "quick" else 5))
    return out


def run(case, ctx):
    NOTE.clear()
    core.explore(ctx, lambda: World(case["shape"]), operations, apply,
        canon, case["depth"], label=lambda w: repr((sorted(w.model.items()),
        w.extended)))
    if NOTE:
        ctx.known(KNOWN, NOTE[0])


def replay(case, history, ctx):
    core.replay_history(ctx, lambda: World(case["shape"]), apply, history)
