"""C02: rf is the radius relative to the smallest possible disk."""
import numpy as np

from mc import geom, grids

LEVEL = "exploration"
RULE = ("all grid configurations of a product lattice, every cell of each; "
    "non-trivial cells carry a disk; distinct by (configuration, index). "
    "Tolerances are the exact change of the radius over one fx/fy sampling "
    "step, computed from the analytic family, not calibrated")
ASSUMPTIONS = ["fx and fy are sampled with a step of at most max(1, largest "
    "|dx|, largest |dy|) / (num_fxfy - 1)"]


def cases(tier):
    return [dict(configs=chunk) for chunk in
        grids.chunks(grids.lattice(tier), 6)]


def radius_of(factor, horizontal, dx, dy):
    """Radius when the factor >= 1 of the (fx, fy) pair is given."""
    s_h = geom.s_from_fx(factor, dy)
    s_v = geom.s_from_fy(factor, dy)
    return geom.radius_from_s(np.where(horizontal, s_h, s_v), dx, dy)


def run(case, ctx):
    for config in case["configs"]:
        judge(ctx, config, grids.build(config))
    ctx.sample(dict(config=config))


def judge(ctx, config, grid):
    d = grids.data(grid)
    dy, dx, rf = grids.axes(grid)
    middle = rf.shape[2] // 2
    radius, fx, fy = d["radius"], d["fx"], d["fy"]
    exists = ~np.isnan(radius)
    ctx.add(evaluations=int(exists.size),
        distinct_nontrivial=int(exists.sum()))
    shape = radius.shape
    DX, DY = np.broadcast_to(dx, shape), np.broadcast_to(dy, shape)
    RF = np.broadcast_to(rf, shape)
    minimum = np.broadcast_to(radius[:, :, middle:middle + 1], shape)
    step = max(1.0, np.abs(dx).max(), np.abs(dy).max()) / max(
        1, config[8] - 1) * 1.001

    def report(bad, what):
        if bad.any():
            cell = tuple(int(i) for i in np.argwhere(bad)[0])
            ctx.fail(f"grid {config} cell {cell} (dx={DX[cell]:.4g}, dy="
                f"{DY[cell]:.4g}, rf={RF[cell]:.4g}, R={radius[cell]:.6g}):"
                f" {what}; {int(bad.sum())} cells")

    # --- generic cells -------------------------------------------------
    generic = exists & (DY != 0)
    if generic.any():
        g = generic[:, :, middle]
        gx, gy = DX[:, :, middle][g], DY[:, :, middle][g]
        best, best_s = geom.smallest(gx, gy)
        stored = radius[:, :, middle][g]
        # the optimum, as the factor that is at least one
        best_fx = 1 / np.sqrt(4 * (1 - best_s) * (0.25 + gy**2))
        horizontal = best_fx >= 1
        best_fy = np.abs(gy) / np.sqrt((0.25 + gy**2) * best_s)
        factor = np.where(horizontal, best_fx, best_fy)
        factor = np.maximum(factor, 1)
        worst = np.maximum(radius_of(factor + step, horizontal, gx, gy),
            radius_of(np.maximum(factor - step, 1), horizontal, gx, gy))
        bad = np.zeros(shape, bool)
        bad[:, :, middle][g] = ~(stored >= best * (1 - 1e-9))
        report(bad, "smaller than any ellipse through the contact points")
        bad[:] = False
        bad[:, :, middle][g] = ~(stored <= worst * (1 + 1e-9))
        report(bad, "the disk at rf = 1 is not the smallest one")

        horizontal = fx >= fy
        factor = np.maximum(np.where(horizontal, fx, fy), 1)
        with np.errstate(all="ignore"):
            here = radius_of(factor, horizontal, DX, DY)
            up = radius_of(factor + step, horizontal, DX, DY)
            down = radius_of(np.maximum(factor - step, 1), horizontal, DX,
                DY)
            slack = (np.maximum(np.abs(up - here), np.abs(down - here))
                / minimum + 1e-9 * RF)
        deviation = np.abs(radius / minimum - RF)
        report(generic & ~(deviation <= slack),
            "radius is not rf times the radius at rf = 1")
        # sides
        fy_mid = np.broadcast_to(fy[:, :, middle:middle + 1], shape)
        fx_mid = np.broadcast_to(fx[:, :, middle:middle + 1], shape)
        index = np.broadcast_to(np.arange(shape[2])[None, None, :], shape)
        report(generic & (index < middle) & ~((fy <= fy_mid + 1e-12) &
            (fx >= fx_mid - 1e-12)), "not horizontally stretched")
        report(generic & (index > middle) & ~((fy >= fy_mid - 1e-12) &
            (fx <= fx_mid + 1e-12)), "not vertically stretched")
        ctx.outcome("generic")

    # --- the centre of the eclipse -------------------------------------
    centre = exists & (DY == 0)
    if centre.any():
        expected = 0.5 * RF
        report(centre & ~(np.abs(radius - expected) <= 1e-9 * RF),
            "the disk at the eclipse centre must have radius rf / 2")
        ctx.outcome("centre")

    # --- diagnostic map -------------------------------------------------
    told = grid.get_diagnostic_map(False, False)
    true = radius / minimum - RF
    report(np.isnan(told) != np.isnan(true), "diagnostic map undefined")
    report(~np.isnan(true) & ~(np.abs(told - true) <= 1e-12 * (1 + RF)),
        "diagnostic map does not show the actual deviation")
