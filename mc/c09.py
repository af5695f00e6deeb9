"""C09: extracted solutions are the best unmasked cells, in order."""
import collections
import copy

import numpy as np

from mc import core, worlds

LEVEL = "exploration"
RULE = ("grids x measurement sets (plateaus and ties included) x weighting x "
    "masks applied before or after the fit x every number of solutions from "
    "zero to all (and the counts just outside); non-trivial: at least one "
    "solution asked for; distinct by (fit landscape, mask, count)")
ASSUMPTIONS = ["among cells of equal fit any order is right, as long as it "
    "is the same every time"]

CONFIGS = [worlds.SMALL, worlds.OFFSET, worlds.PLANE,
    (0.0, 1.0, 3, 0.0, 1.0, 2, 1.0, 2, 30),
    (-0.6, 0.9, 4, 0.2, 1.0, 3, 3.0, 3, 40)]
MEASUREMENTS = [
    [("add", (0.1,), (0.0,), None, None)],
    [("add", (0.1,), (0.8,), None, None)],
    [("add", (-0.1, 0.35), (0.02, 0.1), None, (0.5, 1.0))],
    [("add", (0.0, 0.5), (0.2, 0.1), (0.3, 2.0), None)],
    [("add", (-0.3, 0.2, 0.4), (0.5, 0.3, 0.6), (0.1, 0.7, 0.2),
        (1.0, 0.6, 0.9))],
    [("add", (-0.2,), (0.5,), None, None), ("add", (0.2,), (0.5,), (0.5,),
        None), ("remove", (0,))],
]
MASKS = [[], [("hill", 1.0)], [("hill", 1.6), ("mask", "tilt", 3)],
    [("hill", 0.1)]]


def cases(tier):
    configs = list(CONFIGS)
    if tier == "thorough":
        configs += [(0.0, 1.0, 4, 0.0, 1.0, 4, 4.0, 3, 40),
            (-1.25, -0.5, 4, -0.5, 1.5, 3, 2.0, 3, 40)]
    return [dict(config=c, measurement=m, masks=k, weighted=w, late=late)
        for c in configs for m in range(len(MEASUREMENTS))
        for k in range(len(MASKS)) for w in (True, False)
        for late in ((False, True) if k else (False,))]


def run(case, ctx):
    config = tuple(case["config"])
    grid = worlds.grids.build(config)
    steps = [("eclipse", 1.0, 3.0, 0.3), *MEASUREMENTS[case["measurement"]]]
    late = [("fit", case["weighted"])]
    masks = MASKS[case["masks"]]
    steps += late + masks if case["late"] else masks + late
    for op in steps:
        worlds.perform(grid, op)
    where = f"grid {config} after {steps}"

    pristine = copy.deepcopy(grid)
    fit = pristine.get_gradient_fit(False, False)
    mask = pristine.get_combined_mask()
    shape = fit.shape
    dy, dx, _ = worlds.grids.axes(pristine)
    columns = [fit, pristine.get_disk_radius(False, False),
        pristine.get_inclination(False, False),
        pristine.get_tilt(False, False), np.broadcast_to(dx, shape),
        np.broadcast_to(dy, shape)]
    table = collections.Counter(row(columns, tuple(c)) for c in
        np.argwhere(~mask))
    order = np.sort(fit[~mask])
    total = int((~mask).sum())
    ctx.check(not np.isnan(order).any(), f"{where}: unmasked cells without "
        "fit")
    everything = grid.extract_solutions()
    for count in range(total + 1):
        ctx.add(evaluations=1, distinct_nontrivial=int(count > 0))
        told = grid.extract_solutions(count)
        if not ctx.check(len(told) == 6 and all(len(c) == count for c in
                told), f"{where}: {count} solutions asked, got "
                f"{[len(c) for c in told]}"):
            break
        ctx.check(np.array_equal(told[0], order[:count]), lambda: f"{where}:"
            f" the best {count} fits are {order[:count]}, got {told[0]}")
        rows = collections.Counter(tuple(float(c[k]) + 0.0 for c in told)
            for k in range(count))
        extra = rows - table
        ctx.check(not extra, lambda: f"{where}: solution {next(iter(extra))} "
            "is no unmasked cell of the grid (or repeated)")
        ctx.check(core.same(told, [c[:count] for c in everything]),
            f"{where}: the best {count} are no prefix of all solutions")
    ctx.check(len(everything[0]) == total, f"{where}: {total} cells are "
        f"unmasked, {len(everything[0])} solutions")
    ctx.check(core.same(grid.extract_solutions(), everything),
        f"{where}: asking again gives another answer")
    for count in (-1, total + 1):
        ctx.check(isinstance(core.attempt(grid.extract_solutions, count),
            core.Raised), f"{where}: {count} of {total} solutions accepted")
    ctx.outcome(f"{total} of {fit.size}, {len(np.unique(order))} distinct")
    ctx.sample(dict(where=where, total=total))


def row(columns, cell):
    return tuple(float(c[cell]) + 0.0 for c in columns)
