"""C03: built grids are complete, coherent, physical and symmetric."""
import itertools

import numpy as np

from mc import grids

LEVEL = "exploration"
RULE = ("all grid configurations of a product lattice, every cell, plus "
    "every pair (grid mirrored from one quadrant, grid built directly on "
    "the plane) and (grid, grid built on the reflected ranges); non-trivial "
    "cells carry a disk, distinct by (configuration, index)")
ASSUMPTIONS = ["tilts are compared modulo 180 degrees, with a tolerance "
    "inversely proportional to how far the disk is from a circle"]


def cases(tier):
    out = [dict(kind="single", configs=chunk) for chunk in
        grids.chunks(grids.lattice(tier), 6)]
    xs = [0.4, 1.0, 2.5] if tier == "quick" else [0.1, 0.4, 1.0, 1.3, 2.5, 5.]
    sizes = [(2, 3), (3, 2), (1, 2), (2, 1), (4, 4)]
    rfs = [(2.0, 2), (3.0, 3)]
    for (mx, my, size, rf) in itertools.product(xs, xs, sizes, rfs):
        out.append(dict(kind="plane", mx=mx, my=my, nx=size[0], ny=size[1],
            rf=rf[0], nrf=rf[1], num=60))
    ranges = [(0.25, 1.5), (-0.5, 1.5), (0.1, 0.7)]
    for x, y, size in itertools.product(ranges, ranges, [(2, 3), (3, 4)]):
        out.append(dict(kind="reflect", x=x, y=y, nx=size[0], ny=size[1],
            rf=2.5, nrf=3, num=60))
    return out


def report(ctx, label, bad, what):
    if np.any(bad):
        cell = tuple(int(i) for i in np.argwhere(bad)[0])
        ctx.fail(f"{label} cell {cell}: {what}; {int(np.sum(bad))} cells")


def judge(ctx, label, grid):
    d = grids.data(grid)
    dy, dx, rf = grids.axes(grid)
    shape = (dy.shape[0], dx.shape[1], rf.shape[2])
    ctx.check(tuple(grid.parameters.grid_shape) == shape,
        f"{label}: grid shape {grid.parameters.grid_shape}, axes {shape}")
    for name, values in d.items():
        ctx.check(values.shape == shape,
            f"{label}: {name} has shape {values.shape}, not {shape}")
    if ctx.failures:
        return None
    exists = ~np.isnan(d["radius"])
    ctx.add(evaluations=int(exists.size),
        distinct_nontrivial=int(exists.sum()))
    middle = shape[2] // 2
    index = np.arange(shape[2])[None, None, :]
    possible = np.broadcast_to((dy != 0) | ((dx == 0) & (index >= middle)),
        shape)
    for name, values in d.items():
        report(ctx, label, ~np.isnan(values) != possible, f"{name} must be "
            "defined exactly where a disk is possible")
        report(ctx, label, np.isinf(values), f"{name} is infinite")
    e = possible
    report(ctx, label, e & ~(d["radius"] >= 0.5 - 1e-9),
        "radius below half an eclipse")
    report(ctx, label, e & ~((d["inclination"] >= 0) &
        (d["inclination"] <= 90 + 1e-6)), "inclination outside [0, 90]")
    # a circle has no tilt: what is reported for it is rounding noise
    roundness = np.sin(np.deg2rad(d["inclination"]))**2
    outside = np.maximum(np.maximum(-d["tilt"], d["tilt"] - 180), 0)
    report(ctx, label, e & ~(outside * roundness <= 1e-7),
        "tilt outside [0, 180]")
    report(ctx, label, e & ~((d["fx"] > 0) & (d["fy"] > 0)),
        "stretch factors must be positive")
    ctx.outcome(f"{int(e.sum())}/{e.size}")
    return d


def compare(ctx, label, a, b, flip_tilt):
    """b is the reflection of a (already brought to the same cells)."""
    for name in ("radius", "fx", "fy"):
        report(ctx, label, ~np.isclose(a[name], b[name], rtol=1e-9,
            atol=1e-9, equal_nan=True), f"{name} not mirror symmetric")
    report(ctx, label, ~np.isclose(np.cos(np.deg2rad(a["inclination"])),
        np.cos(np.deg2rad(b["inclination"])), rtol=1e-9, atol=1e-9,
        equal_nan=True), "inclination not mirror symmetric")
    other = 180 - b["tilt"] if flip_tilt else b["tilt"]
    gap = np.mod(a["tilt"] - other, 180)
    gap = np.minimum(gap, 180 - gap)
    roundness = np.sin(np.deg2rad(a["inclination"]))**2
    report(ctx, label, ~np.isnan(gap) & ~(gap * roundness <= 1e-7),
        "tilt not mirror symmetric")


def run(case, ctx):
    if case["kind"] == "single":
        for config in case["configs"]:
            grid = grids.build(config)
            d = judge(ctx, f"grid {config}", grid)
            if d and config[0] == 0 and config[3] == 0:
                compare(ctx, f"grid {config} (left-right)", d,
                    {k: v[:, ::-1] for k, v in d.items()}, True)
                compare(ctx, f"grid {config} (up-down)", d,
                    {k: v[::-1] for k, v in d.items()}, True)
        ctx.sample(dict(config=config))
    elif case["kind"] == "plane":
        nx, ny = case["nx"], case["ny"]
        rest = (case["rf"], case["nrf"], case["num"])
        quadrant = grids.build((0., case["mx"], nx, 0., case["my"], ny,
            *rest))
        a = judge(ctx, f"mirrored {case}", quadrant)
        if nx == 1 or ny == 1:
            return
        plane = grids.build((-case["mx"], case["mx"], 2 * nx - 1,
            -case["my"], case["my"], 2 * ny - 1, *rest))
        b = judge(ctx, f"direct {case}", plane)
        for mine, his in zip(grids.axes(quadrant), grids.axes(plane)):
            ctx.check(np.allclose(mine, his, rtol=0, atol=1e-12),
                f"{case}: axes differ from those of the direct grid")
        if a and b:
            compare(ctx, f"mirrored vs direct {case}", a, b, False)
        ctx.sample(case)
    else:
        x, y = case["x"], case["y"]
        rest = (case["rf"], case["nrf"], case["num"])
        nx, ny = case["nx"], case["ny"]
        a = judge(ctx, f"{case}", grids.build((*x, nx, *y, ny, *rest)))
        mirror_x, mirror_y = (-x[1], -x[0]), (-y[1], -y[0])
        b = judge(ctx, f"x-reflected {case}",
            grids.build((*mirror_x, nx, *y, ny, *rest)))
        c = judge(ctx, f"y-reflected {case}",
            grids.build((*x, nx, *mirror_y, ny, *rest)))
        if a and b and c:
            compare(ctx, f"x-reflected {case}", a,
                {k: v[:, ::-1] for k, v in b.items()}, True)
            compare(ctx, f"y-reflected {case}", a,
                {k: v[::-1] for k, v in c.items()}, True)
        ctx.sample(case)
