"""C28: what a grid holds for a cell does not depend on the other cells."""
import copy
import itertools

import numpy as np

from mc import core, grids

LEVEL = "exploration"
RULE = ("every evenly spaced choice of columns x rows x radius factors of "
    "fine grids (single cells, halves, every second cell, without the "
    "mirrored part, ...) built and analysed as a grid of its own and "
    "compared cell by cell with the fine grid; likewise every order and "
    "every way of handing over the same measurements; non-trivial: smaller "
    "grids in which a disk exists")
ASSUMPTIONS = ["grids are compared whose search reaches equally far: the "
    "reach follows from the largest |dx| and |dy| beyond one"]

# (min, max, number) of columns and rows, radius factors, resolution
FINE = {
    "around": ((-1.0, 1.0, 5), (-1.0, 1.0, 5), (3.0, 3), 20),
    "quadrant": ((0.0, 1.0, 5), (0.0, 1.0, 5), (4.0, 4), 40),
    "beside": ((0.125, 0.625, 5), (-0.5, 0.75, 6), (2.0, 3), 30),
    "wide": ((0.0, 3.0, 4), (0.0, 2.5, 6), (3.0, 5), 25),
    "far": ((-4.0, -1.0, 7), (1.5, 3.5, 5), (2.5, 4), 15),
    "tall": ((-0.5, 0.5, 3), (-6.0, 6.0, 7), (5.0, 3), 35),
}
MORE = {
    "fine": ((-1.0, 1.0, 9), (-1.0, 1.0, 9), (2.0, 2), 50),
    "half": ((0.0, 1.0, 9), (-1.0, 1.0, 5), (3.0, 5), 12),
    "corner": ((0.0, 8.0, 9), (0.0, 8.0, 9), (9.0, 5), 20),
}
TIMES = (0.1, -0.25, 0.0, 0.4)
VALUES = (0.3, 0.05, 0.15, 0.0)
ERRORS = (0.5, 1.0, 0.02, 2.0)
CHANGES = (1.0, 0.5, 0.25, 0.9)


def choices(low, high, number):
    """Every evenly spaced part of an axis: (min, max, number), indices."""
    values = np.linspace(low, high, number)
    reach = max(1.0, np.abs(values).max())
    out = []
    for start, step, count in itertools.product(range(number), range(1,
            number), range(1, number + 1)):
        indices = start + step * np.arange(count)
        if indices[-1] >= number or (count == 1 and step > 1):
            continue
        part = values[indices]
        if max(1.0, np.abs(part).max()) != reach:
            continue
        top = part[-1] if count > 1 else part[0] + 0.5
        out.append(((float(part[0]), float(top), count), indices.tolist()))
    return out


def stretches(highest, number):
    """Radius factors that the fine grid has as well."""
    values = np.linspace(1, highest, number).tolist()
    out = []
    for first, step in itertools.product(range(number), range(1, number)):
        part = values[0:first + 1:step]
        if first % step == 0 and len(part) > 1:
            out.append((part[-1], len(part)))
    return sorted(set(out))


def cases(tier):
    named = {**FINE, **(MORE if tier == "thorough" else {})}
    out = []
    for name, (x, y, rf, _) in named.items():
        for part in stretches(*rf):
            for columns in grids.chunks(choices(*x), 8):
                out.append(dict(kind="parts", fine=name, columns=columns,
                    stretch=part))
        out.append(dict(kind="orders", fine=name))
    return out


def build(x, y, rf, num):
    return grids.build((*x, *y, *rf, num), keep_diagnostics=True)


def measure(grid, indices=range(4), weighted=True):
    grid.set_eclipse_parameters(1.0, 6.0, 0.4)
    add(grid, indices)
    grid.generate_hill_radius_mask(1.4)
    grid.determine_gradient_fit(weighted)
    return grid


def add(grid, indices):
    pick = [np.array([v[k] for k in indices], float) for v in (TIMES, VALUES,
        ERRORS, CHANGES)]
    grid.add_gradients(*pick)


def everything(grid):
    """Per cell: disk, gradients, masks and fit."""
    out = grids.data(grid)
    out = {k: np.copy(v) for k, v in out.items()}
    out["diagnostic"] = np.copy(grid.get_diagnostic_map(False, False))
    out["combined"] = grid.get_combined_mask().astype(float)
    for k, gradient in enumerate(grid.gradients):
        out[f"gradient {k}"] = np.copy(gradient.get_data(False))
        out[f"hidden {k}"] = np.isnan(gradient.get_data(True)).astype(float)
    for masked in (False, True):
        out[f"fit {masked}"] = np.copy(grid.get_gradient_fit(masked, False))
    return out


def run(case, ctx):
    x, y, rf, num = {**FINE, **MORE}[case["fine"]]
    fine = measure(build(x, y, rf, num))
    if case["kind"] == "orders":
        orders(case, ctx, fine, (x, y, rf, num))
        return
    whole = everything(fine)
    mirrored = x[0] == 0 and y[0] == 0
    column0 = x[2] - 1 if mirrored else 0
    row0 = y[2] - 1 if mirrored else 0
    factors = np.linspace(1, rf[0], rf[1])
    highest, number = case["stretch"]
    places = [int(np.argmin(np.abs(factors - f))) for f in np.linspace(1,
        highest, number)]
    # both branches of the radius factor
    layers = sorted({rf[1] - 1 + s * p for p in places for s in (-1, 1)})
    for (part_x, columns), (part_y, rows) in itertools.product(
            case["columns"], choices(*y)):
        part = measure(build(part_x, part_y, (highest, number), num))
        what = (f"columns {columns} and rows {rows} of {case['fine']}, rf "
            f"{(highest, number)}")
        told = everything(part)
        alone = part_x[0] == 0 and part_y[0] == 0
        cells = np.ix_([row0 + r for r in rows], [column0 + c for c in
            columns], layers)
        ctx.add(evaluations=1, distinct_nontrivial=int((~np.isnan(told[
            "radius"])).any()))
        for name, values in told.items():
            if alone:
                # the mirrored part is C03's matter
                values = values[len(rows) - 1:, len(columns) - 1:]
            if whole[name].ndim == 3:
                wanted = whole[name][cells]
            else:
                wanted = whole[name][cells[0][..., 0], cells[1][..., 0]]
            compare(ctx, what, name, values, wanted, whole, cells)
        if not mirrored and not alone:
            records(ctx, what, part, fine, rows, columns)
            points(ctx, what, part, fine, rows, columns, layers)
    core.drop_loggers()
    ctx.outcome(case["fine"])
    ctx.sample(dict(fine=case["fine"], last=what))


def compare(ctx, what, name, told, wanted, whole, cells):
    if not ctx.check(told.shape == wanted.shape, f"{what}: {name} has shape "
            f"{told.shape} instead of {wanted.shape}"):
        return
    tolerance = 1e-5 if name in ("inclination", "tilt") else 1e-7
    with np.errstate(invalid="ignore"):
        fits = np.isclose(told, wanted, rtol=1e-7, atol=tolerance,
            equal_nan=True)
        if name == "tilt":
            # half a turn is the same orientation
            turn = np.abs((told - wanted + 90) % 180 - 90)
            fits |= turn < tolerance
        if told.ndim == 3:
            # circles have no orientation; nor a sharp border
            fits |= (name == "tilt") & (whole["inclination"][cells] < 1e-3)
            fits |= close_call(name, whole, cells)
    ctx.check(fits.all(), lambda: f"{what}: {name} of cell "
        f"{tuple(np.argwhere(~fits)[0].tolist())} is "
        f"{told[tuple(np.argwhere(~fits)[0])]} but "
        f"{wanted[tuple(np.argwhere(~fits)[0])]} in the fine grid")


def close_call(name, whole, cells):
    """Masks may differ where the comparison hangs on rounding."""
    close = np.zeros(whole["radius"][cells].shape, bool)
    if name.startswith(("combined", "hidden", "fit")):
        close |= np.abs(whole["radius"][cells] - 1.4) < 1e-9
        scale = (6 - 0.8) / (12 - 4.8 + 1.2 * np.pi) * np.pi / 6
        for k in range(4):
            close |= np.abs(whole[f"gradient {k}"][cells] - VALUES[k]
                * scale / CHANGES[k]) < 1e-9
    return close


def records(ctx, what, part, fine, rows, columns):
    """The search of a cell is its own, up to how far it had to go."""
    for (r, row), (c, column) in itertools.product(enumerate(rows),
            enumerate(columns)):
        told = core.attempt(part.diagnostics.get_diagnostic, r, c)
        wanted = core.attempt(fine.diagnostics.get_diagnostic, row, column)
        none = [not isinstance(t, tuple) for t in (told, wanted)]
        if not ctx.check(none[0] == none[1], f"{what}: a record of cell "
                f"{(r, c)} is kept by one grid only") or none[0]:
            continue
        (fy, radius), (all_fy, all_radius) = told, wanted
        if part.parameters.rf[-1] == fine.parameters.rf[-1]:
            ctx.check(core.same([fy, radius], [all_fy, all_radius], 1e-7),
                f"{what}: the record of cell {(r, c)} is another one")
            continue
        # the smaller grid may ask for smaller disks
        sizes = np.sort(radius[~np.isnan(radius)])
        all_sizes = np.sort(all_radius[~np.isnan(all_radius)])
        if len(sizes) > len(all_sizes):
            ctx.fail(f"{what}: cell {(r, c)} was searched further than in "
                "the fine grid")
            continue
        near = np.searchsorted(all_sizes, sizes * (1 - 1e-9))
        near = np.clip(near, 0, len(all_sizes) - 1)
        ctx.check(np.allclose(all_sizes[near], sizes, rtol=1e-7),
            f"{what}: the record of cell {(r, c)} has radii that the fine "
            "grid did not meet")


def points(ctx, what, part, fine, rows, columns, layers):
    for (r, row), (c, column), (k, layer) in itertools.product(
            enumerate(rows), enumerate(columns), enumerate(layers)):
        if (r + c + k) % 3:
            continue
        told = core.attempt(part.get_grid_point_data, r, c, k)
        wanted = core.attempt(fine.get_grid_point_data, row, column, layer)
        ctx.check(core.same(plain(told), plain(wanted), 1e-5), lambda:
            f"{what}: the point {(r, c, k)} is told as {core.short(told)} "
            f"but {core.short(wanted)} in the fine grid")


def plain(told):
    if isinstance(told, core.Raised):
        return told.kind
    out = [[np.array(v, float) for v in part] for part in told]
    # circles have no orientation, half a turn is the same one
    tilt = np.deg2rad(out[0][2])
    tilted = out[0][1] >= 1e-3
    out[0][2] = np.where(tilted, [np.cos(2 * tilt), np.sin(2 * tilt)], 0)
    return out


def orders(case, ctx, fine, config):
    """The same measurements, handed over in every way."""
    wanted = everything(fine)
    pristine = build(*config)
    for order in itertools.permutations(range(4)):
        for size in range(4):
            for cuts in itertools.combinations((1, 2, 3), size):
                grid = copy.deepcopy(pristine)
                grid.generate_hill_radius_mask(1.4)
                grid.set_eclipse_parameters(1.0, 6.0, 0.4)
                edges = [0, *cuts, 4]
                for a, b in zip(edges, edges[1:]):
                    add(grid, order[a:b])
                grid.determine_gradient_fit()
                told = everything(grid)
                ctx.add(evaluations=1, distinct_nontrivial=1)
                what = (f"{case['fine']}: measurements {order} added in "
                    f"groups {edges}")
                for name, values in wanted.items():
                    key = name
                    if name.split()[0] in ("gradient", "hidden"):
                        kind, k = name.split()
                        key = f"{kind} {order.index(int(k))}"
                    same = np.isclose(told[key], values, rtol=1e-9,
                        atol=1e-12, equal_nan=True).all()
                    ctx.check(same, f"{what}: {name} is another one")
    core.drop_loggers()
    ctx.outcome("orders")
    ctx.sample(dict(fine=case["fine"], last=what))
