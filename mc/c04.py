"""C04: disk gradients equal the local tangent of the concentric ellipse."""
import numpy as np

from mc import geom, grids

LEVEL = "exploration"
RULE = ("every grid of a configuration lattice x eclipse durations x a "
    "position alphabet derived from the grid (eclipse centre and contacts, "
    "every ellipse centre, next to centres, vertical tangents of its own "
    "ellipses, far outside), every cell; non-trivial cells have a defined "
    "tangent; distinct by (grid, duration, position, cell)")
ASSUMPTIONS = ["rounding of the tangent below 1e-7 when the oracle itself is "
    "conditioned that well"]
DURATIONS = [1.0, 2.75, 0.4]


def cases(tier):
    configs = grids.lattice("quick")
    if tier == "thorough":
        configs = configs + grids.lattice("thorough")[::7]
    else:
        configs = configs[::2] + configs[-9:]
    return [dict(configs=chunk, duration=DURATIONS[n % 3]) for n, chunk in
        enumerate(grids.chunks(configs, 6))]


def alphabet(grid, d):
    dy, dx, rf = grids.axes(grid)
    values = [0.0, 0.5, -0.5, 0.25, -1.2, 3.5, -8.0]
    values += [float(v) for v in dx.ravel()]
    values += [float(dx.ravel()[-1]) + 1e-3]
    # vertical tangents of a few of its ellipses: b x + c y = 0
    exists = np.argwhere(~np.isnan(d["radius"]))
    for index in exists[::max(1, len(exists) // 6)]:
        i = tuple(index)
        a, b, c = geom.form_from_axes(d["radius"][i], d["inclination"][i],
            d["tilt"][i])
        if abs(b) > 1e-9 * abs(c):
            values.append(float(dx[0, i[1], 0] + c / b * dy[i[0], 0, 0]))
    return sorted(v for v in set(values) if abs(v) < 1e4)


def run(case, ctx):
    for config in case["configs"]:
        judge(ctx, case, config)
    ctx.sample(dict(config=config, duration=case["duration"]))


def judge(ctx, case, config):
    grid = grids.build(config)
    d = grids.data(grid)
    dy, dx, rf = grids.axes(grid)
    duration = case["duration"]
    wanted = alphabet(grid, d)
    times = np.array([-v * duration for v in wanted])
    grid.set_eclipse_parameters(duration, 10.0, 0.0)
    grid.add_gradients(times, np.zeros(len(times)))
    positions, _, _, told = grid.get_gradients(False, False)
    expected = -times / duration
    if not ctx.check(np.allclose(positions, expected, rtol=1e-12, atol=1e-12),
            f"grid {config}: times {times} at duration {duration} have "
            f"positions {positions}"):
        return
    exists = ~np.isnan(d["radius"])
    x_size = np.abs(dx).max() + 1
    for k, position in enumerate(positions):
        centre = np.broadcast_to((dx == position) & (dy == 0), exists.shape)
        true = geom.tangent_gradient(d["radius"], d["inclination"],
            d["tilt"], dx, dy, position)
        defined = exists & ~centre
        ctx.add(evaluations=int(exists.size),
            distinct_nontrivial=int(defined.sum()))
        value = told[k]
        where = f"grid {config} duration {duration} position {position!r}"
        report(ctx, where, np.isnan(value) == defined, "must be undefined "
            "exactly without disk and at the ellipse centre", value, true)
        with np.errstate(invalid="ignore"):
            report(ctx, where, defined & ~((value >= 0) & (value <= 1)),
                "outside [0, 1]", value, true)
            # conditioning: how much relative rounding 1e-13 of the form
            # can turn the normal
            a, b, c = geom.form_from_axes(d["radius"], d["inclination"],
                d["tilt"])
            x, y = position - dx, 0.0 - dy
            scale = (np.abs(a) + np.abs(b) + np.abs(c)) * (np.abs(x)
                + np.abs(y))
            normal = np.hypot(a * x + b * y, b * x + c * y)
            slack = 1e-9 + 1e-12 * scale / normal * (1 + d["radius"]**2)
            report(ctx, where, defined & ~(np.abs(value - true) <= slack),
                "not the tangent of the ellipse", value, true)
    ctx.outcome(f"{int(exists.sum())} disks, {len(wanted)} positions")


def report(ctx, where, bad, what, value, true):
    if np.any(bad):
        cell = tuple(int(i) for i in np.argwhere(bad)[0])
        ctx.fail(f"{where} cell {cell}: {what}; reported {value[cell]!r}, "
            f"expected {true[cell]!r}; {int(np.sum(bad))} cells")
