"""C01: every disk spans the eclipse exactly."""
import numpy as np

from mc import geom, grids

LEVEL = "exploration"
RULE = ("all grid configurations of a product lattice (x-range x y-range x "
    "shape x rf axis x fx/fy resolution), every cell of each; a cell is "
    "non-trivial when the grid reports a disk there, cells are distinct by "
    "(configuration, index)")
ASSUMPTIONS = ["IEEE double arithmetic; residuals up to 1e-9 of the disk "
    "size are rounding"]


def cases(tier):
    configs = grids.lattice(tier)
    out = []
    for number, chunk in enumerate(grids.chunks(configs, 6)):
        out.append(dict(configs=chunk, reload=number % 5 == 0,
            diagnostics=number % 3 == 0))
    return out


def judge(ctx, config, grid, kind):
    d = grids.data(grid)
    dy, dx, _ = grids.axes(grid)
    exists = ~np.isnan(d["radius"])
    ctx.add(evaluations=int(exists.size),
        distinct_nontrivial=int(exists.sum()))
    if not ctx.check(exists.any() or not np.any((dy != 0) | (dx == 0)),
            f"{kind} grid {config} reports no disk at all"):
        return
    for sign in (-1, 1):
        residual = geom.edge_residual(d["radius"], d["inclination"],
            d["tilt"], dx, dy, sign)
        bad = exists & ~(np.abs(residual) <= 1e-9)
        if bad.any():
            cell = tuple(int(i) for i in np.argwhere(bad)[0])
            ctx.fail(f"{kind} grid {config} cell {cell}: ellipse R="
                f"{d['radius'][cell]:.6g} i={d['inclination'][cell]:.6g} "
                f"tilt={d['tilt'][cell]:.6g} misses ({sign}/2, 0) by "
                f"{residual[cell]:.3g}; {int(bad.sum())} cells")
    told = geom.covariance_from_axes(d["radius"], d["inclination"],
        d["tilt"])
    made = geom.covariance_from_stretch(d["fx"], d["fy"], dx, dy)
    for name, a, b in zip(("xx", "xy", "yy"), told, made):
        error = np.abs(a - b) / d["radius"]**2
        bad = exists & ~(error <= 1e-9)
        if bad.any():
            cell = tuple(int(i) for i in np.argwhere(bad)[0])
            ctx.fail(f"{kind} grid {config} cell {cell}: fx, fy describe "
                f"another ellipse than R, i, tilt ({name} differs by "
                f"{error[cell]:.3g}); {int(bad.sum())} cells")
    ctx.outcome(f"disks={int(exists.sum())}")


def run(case, ctx):
    from Shallot import ShallotGrid
    for number, config in enumerate(case["configs"]):
        grid = grids.build(config, keep_diagnostics=case["diagnostics"])
        judge(ctx, config, grid, "built")
        if case["reload"] and number == 0:
            grid.save("saved")
            judge(ctx, config, ShallotGrid.load("saved",
                logging_level=grids.LEVEL), "reloaded")
            __import__("shutil").rmtree("saved")
    ctx.sample(dict(config=config, shape=list(grid.parameters.grid_shape)))
