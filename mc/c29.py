"""C29: the disk that made the measurements is found, and drawn, again."""
import copy
import itertools
import os
import shutil

import numpy as np

from mc import c18, core, geom, grids, worlds
from mc.core import Raised

LEVEL = "exploration"
RULE = ("every disk of every grid is taken as the true one: the slopes that "
    "it causes are calculated from the five reported parameters alone, and "
    "reach the grid along routes (quick: three of eight in turn; at once, one by one, with scales "
    "that are corrected later, after measurements that are taken away "
    "again, after a save and load, ...); the disk has to stay allowed, to "
    "fit perfectly, to be extracted and to be found from its parameters, "
    "and its ring system has to touch both contact points; non-trivial: "
    "disks with a route")
ASSUMPTIONS = ["nearly edge-on disks (cos i < 1e-3) are left out: their "
    "reported inclination does not settle their shape",
    "slopes are given as one in a million (and 1e-9) less steep than calculated, so "
    "that rounding does not hide the disk"]

GRIDS = {
    "mirrored": (0.0, 1.0, 3, 0.0, 1.0, 3, 3.0, 3, 40),
    "offset": (-0.4, 1.0, 3, 0.25, 1.0, 3, 3.0, 3, 40),
    "plane": (-1.0, 1.0, 3, -0.5, 0.5, 3, 2.0, 2, 40),
    "below": (0.1, 0.9, 3, -2.0, -0.2, 3, 4.0, 2, 60),
    "far": (-3.0, -1.0, 3, 1.5, 3.5, 2, 2.0, 3, 30),
}
MORE = {
    "wide": (0.0, 3.0, 5, 0.0, 2.0, 4, 5.0, 4, 50),
    "fine": (0.0, 1.0, 6, 0.0, 1.0, 6, 2.0, 3, 120),
    "large": (-0.6, 0.6, 4, 0.0, 0.5, 4, 25.0, 3, 60),
    "row": (-2.0, 2.0, 9, 0.3, 0.7, 1, 3.0, 4, 30),
}
# duration [day], velocity [R*/day], linear limb darkening
STARS = [(54.0, 7.0, 0.8), (2.0, 3.5, 0.0), (1.0, 12.0, 1.0)]
# times in units of the duration, changes in transmission, errors
LIGHT_CURVES = [
    ((-0.3, 0.2, 0.45), (1.0, 0.6, 0.9), (1.0, 0.5, 0.1)),
    ((0.0, -0.5), (0.5, 1.0), (0.02, 2.0)),
    ((0.1, -0.15, 0.35, -0.42), (0.05, 0.3, 1.0, 0.7), (1.0,) * 4),
]
ROUTES = ["at once", "one by one", "backwards", "corrected", "cleared up",
    "loaded", "later", "restarted"]


def cases(tier):
    named = {**GRIDS, **(MORE if tier == "thorough" else {})}
    out = []
    for name, star, curve in itertools.product(named, range(len(STARS)),
            range(len(LIGHT_CURVES))):
        out.append(dict(grid=name, star=star, curve=curve, routes=len(
            ROUTES) if tier == "thorough" else 3))
    return out


def run(case, ctx):
    grid = grids.build({**GRIDS, **MORE}[case["grid"]])
    grid.save("pristine")
    star = STARS[case["star"]]
    times, changes, errors = map(np.array, LIGHT_CURVES[case["curve"]])
    parameters = [np.broadcast_to(v, grid.parameters.grid_shape) for v in (
        grid.disk_radius.data, grid.inclination.data, grid.tilt.data,
        grids.axes(grid)[1], grids.axes(grid)[0])]
    number = case["star"] + case["curve"]
    for cell in np.ndindex(*grid.parameters.grid_shape):
        disk = tuple(float(p[cell]) for p in parameters)
        if np.isnan(disk[0]) or np.cos(np.deg2rad(disk[1])) < 1e-3:
            continue
        slopes = geom.tangent_gradient(*disk, -times)
        if np.isnan(slopes).any():
            continue
        slopes = np.maximum(slopes * (1 - 1e-6) - 1e-9, 0)
        light = (times * star[0], slopes * changes / worlds.orbital_scale(
            *star[1:]), errors, changes)
        number += 1
        for offset in range(case["routes"]):
            route = ROUTES[(number * 3 + offset) % len(ROUTES)]
            judge(ctx, grid, cell, disk, slopes, star, light, route)
        if case["curve"] == 0:
            closest(ctx, grid, cell, disk, parameters)
            hill(ctx, grid, cell, disk)
            drawn(ctx, disk, star)
    core.drop_loggers()
    ctx.outcome(case["grid"])


def travel(grid, route, star, light):
    """Bring the measurements to a grid."""
    times, values, errors, changes = light
    if route == "loaded":
        grid = type(grid).load("pristine", logging_level=grids.LEVEL)
    else:
        grid = copy.deepcopy(grid)
    if route in ("cleared up", "restarted"):
        # measurements that are not of this disk
        grid.set_eclipse_parameters(star[0] * 2, star[1] / 2, 0.5)
        grid.add_gradients(np.array([0.3]), np.array([0.05]))
        grid.determine_gradient_fit()
    if route == "corrected":
        grid.set_eclipse_parameters(star[0], star[1] * 2, 0.4)
    else:
        grid.set_eclipse_parameters(*star)
    if route in ("one by one", "backwards", "later"):
        order = range(len(times))
        for k in order if route != "backwards" else reversed(order):
            grid.add_gradients(times[[k]], values[[k]], errors[[k]],
                changes[[k]])
            if route == "later" and k == 0:
                grid.save("way")
                grid = type(grid).load("way", logging_level=grids.LEVEL)
                shutil.rmtree(os.path.abspath("way"))
                grid.set_eclipse_parameters(*star)
                grid.add_gradients(times[[k]], values[[k]], errors[[k]],
                    changes[[k]])
    elif route == "corrected":
        grid.add_gradients(times, values, errors)
        grid.determine_gradient_fit()
        grid.update_gradient_scaling(star[1], star[2], changes)
    elif route == "cleared up":
        extra = [np.concatenate([[v], light[k]]) for k, v in enumerate((
            0.25 * star[0], 1e-3, 0.3, 0.5))]
        grid.add_gradients(*extra)
        grid.remove_gradients(np.array([0]))
    else:
        grid.add_gradients(*light)
    grid.determine_gradient_fit()
    return grid


def judge(ctx, pristine, cell, disk, slopes, star, light, route):
    what = (f"the disk {tuple(round(v, 4) for v in disk)} at {cell}, "
        f"measured at {light[0].tolist()} ({route})")
    grid = travel(pristine, route, star, light)
    ctx.add(evaluations=1, distinct_nontrivial=1)
    if not ctx.check(len(grid.gradients or []) == len(slopes), f"{what}: "
            f"{len(grid.gradients or [])} measurements are there"):
        return
    order = range(len(slopes))
    for k, gradient in zip(order if route != "backwards" else reversed(
            order), grid.gradients):
        told = gradient.get_data(False)[cell]
        ctx.check(abs(told - slopes[k]) < 3e-6, f"{what}: causes a slope of "
            f"{slopes[k]}, but the grid says {told}")
        scaled = gradient.get_scaled_gradient()
        ctx.check(abs(scaled - slopes[k]) < 1e-9, f"{what}: the slope "
            f"{slopes[k]} became {scaled}")
    hidden = grid.get_combined_mask()
    if not ctx.check(not hidden[cell], f"{what}: is ruled out by its own "
            "measurements"):
        return
    fit = grid.get_gradient_fit(True, False)
    limit = 9e-12 * float(np.sum(1 / np.asarray(light[2])**2))
    if not ctx.check(0 <= fit[cell] <= limit, f"{what}: has a fit of "
            f"{fit[cell]}"):
        return
    allowed = int((~hidden).sum())
    told = np.array(grid.extract_solutions())
    if not ctx.check(told.shape == (6, allowed), f"{what}: solutions of "
            f"shape {told.shape}, {allowed} allowed"):
        return
    same = np.isclose(told[1:].T, disk, rtol=1e-9, atol=1e-9).all(1)
    ctx.check(same.any(), f"{what}: is not among the solutions")
    ctx.check(told[0, 0] <= limit, f"{what}: fits perfectly, but the best "
        f"solution has a fit of {told[0, 0]}")
    better = np.argwhere(same)[0, 0] if same.any() else 0
    ctx.check(told[0, better] <= limit, f"{what}: is extracted with a fit "
        f"of {told[0, better]}")
    ctx.sample(dict(disk=disk, route=route, fit=fit[cell],
        allowed=allowed))


def closest(ctx, grid, cell, disk, parameters):
    """The disk is found from its parameters, at either tilt."""
    radius, inclination, tilt, _, dy = disk
    for turn in (0, 180, -180):
        if abs(tilt + turn) > 180:
            continue
        told = core.attempt(grid.determine_closest_grid_point, radius,
            inclination, tilt + turn, dy)
        what = f"the closest to the disk {disk} (tilt {tilt + turn})"
        if not ctx.check(not isinstance(told, Raised), f"{what}: {told!r}"):
            continue
        place, indices, distance = told
        ctx.add(evaluations=1)
        ctx.check(distance < 1e-7, f"{what}: at a distance of {distance}")
        found = [float(p[tuple(indices)]) for p in parameters]
        turned = abs((found[2] - tilt + 90) % 180 - 90)
        ctx.check(np.allclose([found[0], found[1], found[4]], [radius,
            inclination, dy], rtol=0, atol=1e-7) and turned < 1e-7,
            f"{what}: is {found}")
        ctx.check(np.allclose(place[:2], [found[4], found[3]]),
            f"{what}: is said to be at {place}, it is at {found[4], found[3]}")


def hill(ctx, pristine, cell, disk):
    grid = copy.deepcopy(pristine)
    for factor in (1 - 1e-6, 1, 1 + 1e-9):
        grid.generate_hill_radius_mask(disk[0] * factor)
        ctx.check(grid.get_combined_mask()[cell] == (factor < 1), "the disk "
            f"{disk} at {cell} within a Hill radius of {factor} times its "
            "own")


def drawn(ctx, disk, star):
    """A ring system of that size touches both contact points."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from RingSystem import RingSystem
    radius, inclination, tilt, dx, dy = disk
    scale = star[0] * star[1]
    system = RingSystem(0.0, np.array([0.0, radius * scale / 2]), np.array([
        radius * scale / 2, radius * scale]), np.array([0.5, 0.8]),
        inclination, tilt, 50)
    figure = plt.figure()
    ax = system.plot(figure.add_subplot(), dx * scale, dy * scale)
    outlines = [c18.outline(p.get_path(), p.get_patch_transform()) for p in
        ax.patches[1:]]
    centre = np.array([dx, dy]) * scale
    for sign in (-0.5, 0.5):
        edge = np.array([sign, 0.0]) * scale
        for factor, inside in ((0.995, True), (1.005, False)):
            point = centre + (edge - centre) * factor
            told = [bool(c18.filled(o, point[None])[0]) for o in outlines]
            ctx.check(told == [False, inside], f"the ring system of {disk}: "
                f"its rings cover {told} at {factor} of the way to the "
                "contact point")
    plt.close(figure)
