"""C10: the closest grid point is really the closest."""
import itertools

import numpy as np

from mc import core, grids, worlds

LEVEL = "exploration"
RULE = ("grids x mask states x masked or not x targets: every cell of the "
    "grid itself (with tilt also shifted by -180), and a product lattice of "
    "radius, inclination, tilt and impact parameter, and every cell with one "
    "coordinate shifted, mirrored or turned; the reported distance "
    "is compared with the minimum over all cells computed one by one. "
    "Non-trivial: at least one cell is eligible")
ASSUMPTIONS = ["dy = 0 counts as not opposite to any target; ties may be "
    "broken either way"]

CONFIGS = [worlds.SMALL, worlds.OFFSET, worlds.PLANE,
    (0.0, 0.4, 2, -0.5, 1.5, 3, 3.0, 3, 40),
    (-1.25, -0.5, 2, -1.25, -0.5, 3, 2.0, 2, 40),
    # rows just beside the path of the star, and none on it
    (-1.0, 1.0, 3, -0.02, 1.0, 2, 2.0, 2, 40),
    (-0.5, 1.0, 3, -0.004, 0.004, 2, 3.0, 2, 40),
    (-0.5, 1.0, 4, -1e-5, 0.03, 4, 2.0, 2, 40),
    (0.0, 5.0, 2, 0.0, 6.0, 3, 2.0, 3, 60)]
MASKS = [[], [("hill", 1.3)], [("mask", "tilt", 3), ("mask", "inclination",
    5)], [("eclipse", 1.0, 5.0, 0.3), ("add", (0.2,), (0.9,), None, None)]]


def cases(tier):
    configs = list(CONFIGS)
    if tier == "thorough":
        configs += [(0.0, 1.0, 4, 0.0, 1.0, 3, 4.0, 3, 40),
            (0.0, 5.0, 3, 0.0, 0.4, 4, 3.0, 2, 40)]
    return [dict(config=c, masks=m, masked=k) for c in configs
        for m in range(len(MASKS)) for k in (True, False)]


def targets(d, dy, tier):
    out = []
    for cell in np.argwhere(~np.isnan(d["radius"])):
        c = tuple(cell)
        values = (float(d["radius"][c]), min(90., max(0.,
            float(d["inclination"][c]))), float(d["tilt"][c]),
            float(dy[c[0], 0, 0]))
        out.append((values, c))
        out.append(((values[0], values[1], max(-180., values[2] - 180),
            values[3]), c))
        # nearly or partly that cell: nothing but the distance decides
        near = []
        for shift in (-0.3, -0.01, -1e-6, 1e-6, 0.01, 0.3):
            near += [(values[0], values[1], values[2], values[3] + shift),
                (max(0., values[0] + shift), *values[1:]),
                (values[0], min(90., max(0., values[1] + shift)),
                    *values[2:]),
                (values[0], values[1], min(180., max(-180., values[2]
                    + shift)), values[3])]
        near += [(values[0], values[1], values[2], -values[3]),
            (values[0], values[1], 180 - values[2], values[3]),
            (values[0], values[1], -values[2], values[3]),
            (values[0], 90 - values[1], values[2], values[3])]
        out += [(t, None) for t in near]
    lattice = itertools.product((0, 0.7, 1.4, 20.0), (0, 35, 90),
        (-180, -95, 0, 60, 179.0), (-3.0, -0.6, -0.1, 0, 0.3, 0.5, 2.0))
    if tier == "thorough":
        lattice = itertools.product((0, 0.5, 0.7, 1.0, 1.4, 3.0, 20.0),
            (0, 10, 35, 60, 90), (-180, -135, -95, -20, 0, 60, 120, 179.0),
            (-3.0, -0.6, -0.3, -0.1, 0, 0.1, 0.3, 0.5, 2.0))
    out += [(t, None) for t in lattice]
    return out


def run(case, ctx):
    config = tuple(case["config"])
    grid = grids.build(config)
    d = {k: np.copy(v) for k, v in grids.data(grid).items()}
    dy, dx, rf = grids.axes(grid)
    steps = MASKS[case["masks"]]
    for op in steps:
        worlds.perform(grid, op)
    hidden = grid.get_combined_mask() if case["masked"] else np.zeros(
        d["radius"].shape, bool)
    where = f"grid {config} after {steps} masked={case['masked']}"
    for target, cell in targets(d, dy, ctx.tier):
        radius, inclination, tilt, impact = target
        turn = np.mod(d["tilt"] - tilt, 180)
        turn = np.minimum(turn, 180 - turn)
        squared = ((d["radius"] - radius)**2 + (d["inclination"]
            - inclination)**2 + turn**2 + (dy - impact)**2)
        eligible = ~hidden & ~np.isnan(squared) & ~(dy * impact < 0)
        ctx.add(evaluations=1, distinct_nontrivial=int(eligible.any()))
        told = core.attempt(grid.determine_closest_grid_point, radius,
            inclination, tilt, impact, case["masked"])
        text = f"{where}, target {target}"
        if not eligible.any():
            ctx.check(isinstance(told, core.Raised), f"{text}: no cell is "
                f"eligible, reported {told}")
            continue
        if not ctx.check(not isinstance(told, core.Raised), f"{text}: "
                f"{told}"):
            continue
        coordinates, index, distance = told
        index = tuple(int(i) for i in index)
        best = np.sqrt(squared[eligible].min())
        tolerance = 1e-9 * (1 + best)
        ctx.check(eligible[index], f"{text}: cell {index} is masked or on "
            "the opposite side")
        ctx.check(abs(distance - best) <= tolerance, f"{text}: distance "
            f"{distance}, the closest cell is at {best}")
        ctx.check(abs(np.sqrt(squared[index]) - best) <= tolerance,
            f"{text}: cell {index} is at {np.sqrt(squared[index])}, the "
            f"closest at {best}")
        ctx.check(np.allclose(coordinates, (dy[index[0], 0, 0],
            dx[0, index[1], 0], rf[0, 0, index[2]]), rtol=0, atol=1e-12),
            f"{text}: coordinates {coordinates} are not those of {index}")
        if cell is not None and not hidden[cell]:
            ctx.check(distance <= 1e-5, f"{text}: taken from cell {cell}, "
                f"but found at distance {distance}")
        ctx.outcome(f"{index}")
    ctx.sample(dict(where=where, target=target))
