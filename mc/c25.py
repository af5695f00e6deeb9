"""C25: kept diagnostics are the search each disk was taken from, and no
option of building changes the grid."""
import itertools
import os

import numpy as np

from mc import core, geom, grids
from mc.core import attempt, same

LEVEL = "exploration"
RULE = ("all grid configurations of the product lattice built with "
    "diagnostics: every cell's record against the analytic family of "
    "ellipses and the stored disk; a product of all options (diagnostics, "
    "intermittent saving, logging level, copies by save and load) against "
    "the plain grid; non-trivial cells carry a disk")
ASSUMPTIONS = ["lookups in extended stores may be shifted by one as the "
    "known finding of C20 says: there the record of a cell may be at either "
    "of the two places", "any search that brackets the stored disk between "
    "neighbouring samples is accepted, whatever its step or interpolation"]


def cases(tier):
    lattice = grids.lattice(tier)
    out = [dict(kind="records", configs=chunk) for chunk in
        grids.chunks(lattice, 6)]
    some = lattice[::29] if tier == "quick" else lattice[::97]
    out += [dict(kind="options", config=config) for config in some]
    return out


def run(case, ctx):
    if case["kind"] == "records":
        for config in case["configs"]:
            grid = grids.build(tuple(config), keep_diagnostics=True)
            records(ctx, tuple(config), grid)
        ctx.sample(dict(config=config))
    else:
        options(ctx, tuple(case["config"]))
    core.drop_loggers()


def lookup(grid, y, x):
    told = attempt(grid.diagnostics.get_diagnostic, y, x)
    return told if isinstance(told, tuple) else None


def records(ctx, config, grid, where="built"):
    d = grids.data(grid)
    dy, dx, rf = [np.ravel(a) for a in grids.axes(grid)]
    ny, nx = len(dy), len(dx)
    mirrored = config[0] == 0 and config[3] == 0
    rows, columns = config[5], config[2]
    for y, x in itertools.product(range(rows), range(columns)):
        what = f"grid {config} ({where}) cell {(y, x)}"
        if mirrored:
            # the cell in the positive quadrant, and where it is looked up
            cell = (ny // 2 + y, nx // 2 + x)
            places = [(rows - y, columns - x), (rows - 1 - y, columns - 1
                - x), (rows - 1 + y, columns - 1 + x)]
            places = [p for p in places if p[0] < ny and p[1] < nx]
        else:
            cell, places = (y, x), [(y, x)]
        found = [r for r in (lookup(grid, *p) for p in places) if r]
        disk = {k: v[cell] for k, v in d.items()}
        exists = ~np.isnan(disk["radius"])
        ctx.add(evaluations=1, distinct_nontrivial=int(exists.any()))
        if not exists.any():
            if not mirrored:
                ctx.check(not found, f"{what}: a record of a search "
                    "although no disk exists")
            continue
        problems = [judge(r, disk, rf, dy[cell[0]], dx[cell[1]]) for r in
            found]
        if not problems and mirrored and 1 in (rows, columns):
            # the known finding of C20: an axis of one cell has no lookup
            continue
        if not problems:
            ctx.fail(f"{what}: no record although a disk exists")
        elif None not in problems:
            ctx.fail(f"{what} (dx={dx[cell[1]]:.4g}, dy={dy[cell[0]]:.4g}): "
                f"{problems[0]}")
    ctx.outcome(f"mirrored {mirrored}")


def analytic(fy, dy, dx):
    """Semi-major axis of the ellipse with the given vertical stretch."""
    if dy == 0:
        return fy / 2
    with np.errstate(all="ignore"):
        s = geom.s_from_fy(fy, dy)
        return np.where((s > 0) & (s < 1), geom.radius_from_s(s, dx, dy),
            np.nan)


def judge(record, disk, rf, dy, dx):
    """What is wrong with a record as the search of this disk, or None."""
    fy, radius = (np.asarray(a, float) for a in record)
    if fy.ndim != 1 or fy.shape != radius.shape or len(fy) == 0:
        return f"fy and radius of shapes {fy.shape} and {radius.shape}"
    middle = len(rf) // 2
    smallest = disk["radius"][middle]
    usable = ~np.isnan(fy) & ~np.isnan(radius)
    if not usable.any():
        return "nothing but undefined samples"
    if dy == 0:
        vertical = usable & (fy >= 1 - 1e-12)
        expected = np.where(vertical, fy / 2, radius)
    else:
        expected = analytic(fy, dy, dx)
    # next to s = 0 or 1 the radius is very sensitive to rounding of fy
    with np.errstate(all="ignore"):
        spread = np.abs(analytic(fy * (1 + 1e-13), dy, dx) - analytic(fy
            * (1 - 1e-13), dy, dx))
    sure = usable & ~np.isnan(expected) & ~np.isnan(spread)
    wrong = sure & ~(np.abs(radius - expected) <= 1e-8 * expected + 100
        * spread)
    if wrong.any():
        k = int(np.argmax(wrong))
        return (f"sample {k} has radius {radius[k]:.9g}, the ellipse with fy ="
            f" {fy[k]:.9g} has {expected[k]:.9g}")
    least = np.nanmin(radius[usable])
    if not abs(least - smallest) <= 1e-9 * smallest:
        return (f"the smallest radius is {least:.9g}, the disk at rf = 1 has "
            f"{smallest:.9g}")
    at = np.flatnonzero(usable)[int(np.nanargmin(radius[usable]))]
    if not abs(fy[at] - disk["fy"][middle]) <= 1e-9 * fy[at]:
        return (f"the smallest sample has fy = {fy[at]:.9g}, the disk at rf "
            f"= 1 has {disk['fy'][middle]:.9g}")
    # both directions of the search, away from the smallest disk
    order = np.argsort(fy[usable], kind="stable")
    sorted_fy, sorted_radius = fy[usable][order], radius[usable][order]
    sides = dict(horizontal=sorted_fy <= fy[at], vertical=sorted_fy >= fy[
        at])
    ends = dict(horizontal=range(0, middle), vertical=range(middle + 1,
        len(rf)))
    for side, part in sides.items():
        if dy == 0 and side == "horizontal":
            continue
        f, r = sorted_fy[part], sorted_radius[part]
        if not r.max() >= smallest * rf.max() * (1 - 1e-9):
            return (f"the {side} search ends at {r.max() / smallest:.6g} "
                f"times the smallest, rf goes to {rf.max():.6g}")
        for k in ends[side]:
            told = disk["fy"][k]
            if np.isnan(told):
                return f"no {side} disk at rf = {rf[k]:.6g}"
            if not f[0] * (1 - 1e-9) <= told <= f[-1] * (1 + 1e-9):
                return f"fy of rf = {rf[k]:.6g} is outside the samples"
            # neighbouring samples around the stored disk
            low = max(int(np.searchsorted(f, told * (1 - 1e-12),
                side="right")) - 1, 0)
            high = min(int(np.searchsorted(f, told * (1 + 1e-12),
                side="left")), len(f) - 1)
            around = r[low:high + 1] / smallest
            if not around.min() * (1 - 1e-9) <= rf[k] <= around.max() * (1
                    + 1e-9):
                return (f"the {side} disk at rf = {rf[k]:.6g} lies between "
                    f"samples with {around.min():.6g} and "
                    f"{around.max():.6g}")
    return None


# ---------------------------------------------------------------- options

def everything(grid):
    out = {k: np.copy(v) for k, v in grids.data(grid).items()}
    out["axes"] = [np.ravel(a) for a in grids.axes(grid)]
    out["diagnostic"] = np.copy(grid.get_diagnostic_map(False, False))
    out["shape"] = tuple(grid.parameters.grid_shape)
    out["contrast"] = [[p.vmin, p.vmax, p.color_map, p.num_colors] for p in
        (grid.disk_radius, grid.inclination, grid.tilt, grid.fx_map,
        grid.fy_map, grid.diagnostic_map)]
    return out


def stored(grid):
    ny, nx = grid.parameters.slice_shape
    if grid.diagnostics is None:
        return None
    out = {}
    for y, x in itertools.product(range(ny), range(nx)):
        found = lookup(grid, y, x)
        out[f"{y},{x}"] = None if found is None else [np.copy(a) for a in
            found]
    return out


def options(ctx, config):
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    *parameters, num = config
    plain = ShallotGrid(GridParameters(*parameters), num)
    expected = everything(plain)
    search = None
    for keep, saving, level, reload in itertools.product((False, True),
            (False, True), (10, 20, 30, 50), (0, 1, 2)):
        if reload and level not in (10, 50):
            continue
        what = (f"grid {config} with keep_diagnostics={keep}, "
            f"intermittent_saving={saving}, logging_level={level}, "
            f"{reload} reloads")
        before = sorted(os.listdir("."))
        grid = ShallotGrid(GridParameters(*parameters), num, level, keep,
            saving)
        ctx.check(sorted(os.listdir(".")) == before, f"{what}: files are "
            f"left: {sorted(os.listdir('.'))}")
        for number in range(reload):
            name = f"saved-{keep}-{saving}-{level}-{reload}-{number}"
            grid.save(name)
            grid = ShallotGrid.load(name, level)
        told = everything(grid)
        ctx.check(same(told, expected, 1e-12), lambda: f"{what}: "
            + core.first_difference(told, expected, 1e-12))
        kept = stored(grid)
        ctx.check((kept is None) == (not keep), f"{what}: diagnostics "
            f"{'missing' if keep else 'kept'}")
        if keep:
            if search is None:
                search = kept
            ctx.check(same(kept, search), lambda: f"{what}: other records "
                + core.first_difference(kept, search))
            records(ctx, config, grid, what)
        ctx.add(evaluations=1, distinct_nontrivial=1)
        core.drop_loggers()
    ctx.outcome("options")
