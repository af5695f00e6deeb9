"""C05: measured gradients are scaled by the physics and masks are exact."""
import itertools

import numpy as np

from mc import core, grids, worlds

LEVEL = "exploration"
RULE = ("product of limb darkening x velocity x measured gradient x error x "
    "transmission change on several grids; every distinct disk gradient and "
    "disk radius of a grid as an exact tie and one representable number "
    "below and above it; every subset of masks through every getter. "
    "Non-trivial: the mask (or the rejection) depends on the value tried")
ASSUMPTIONS = ["away from constructed ties, cells within 1e-12 of a "
    "threshold are not compared"]

CONFIGS = [worlds.SMALL, worlds.OFFSET, worlds.PLANE,
    (0.0, 2.5, 3, 0.0, 0.4, 2, 3.0, 3, 40)]
MORE = [(0.0, 1.0, 4, 0.0, 1.0, 4, 4.0, 4, 60),
    (-1.25, -0.5, 3, -0.5, 1.5, 4, 2.0, 3, 60)]


def cases(tier):
    configs = CONFIGS + (MORE if tier == "thorough" else [])
    out = []
    for config in configs:
        for u in ([0.0, 0.3, 1.0] if tier == "quick" else
                [0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0]):
            out.append(dict(kind="scale", config=config, u=u))
        out.append(dict(kind="gradient ties", config=config))
        out.append(dict(kind="tiny", config=config))
        out.append(dict(kind="hill ties", config=config))
        out.append(dict(kind="subsets", config=config))
    return out


def run(case, ctx):
    config = tuple(case["config"])
    reference = worlds.Reference(config)
    dict(zip(["scale", "gradient ties", "tiny", "hill ties", "subsets"],
        [scale, gradient_ties, tiny, hill_ties, subsets]))[case["kind"]](
        case, ctx, config, reference)
    ctx.sample(case)


def scale(case, ctx, config, reference):
    u = case["u"]
    base = grids.build(config)
    for v, g, error, change, position in itertools.product(
            [0.5, 3.0, 40.0], [0.0, 0.01, 0.3, 1.0, 20.0], [None, 0.25],
            [None, 1.0, 0.5, 0.01], [0.2, -0.45]):
        world = worlds.GridWorld.__new__(worlds.GridWorld)
        world.grid = core.copy.deepcopy(base)
        world.ledger, world.reference = worlds.Ledger(), reference
        ctx.add(evaluations=1)
        # a second, harmless gradient reveals mixed-up values
        values = (g, 0.002)
        try:
            world.apply(("eclipse", 1.0, v, u))
            world.apply(("add", (-position, 0.7), values,
                None if error is None else (error, 0.5),
                None if change is None else (change, 1.0)))
            masked = int(reference.combined(world.ledger).sum())
            ctx.outcome(f"{len(world.ledger.entries)} {masked}")
            ctx.add(distinct_nontrivial=1)
        except core.Violation as problem:
            ctx.fail(f"grid {config}, u={u}, v={v}, g={g}, error={error}, "
                f"T={change}: {problem}")


def gradient_ties(case, ctx, config, reference):
    """u = 0 and v = pi/2 make the scale exactly one."""
    base = grids.build(config)
    base.set_eclipse_parameters(1.0, np.pi / 2, 0.0)
    for position in (0.2, -0.45, 0.0):
        data = reference.disk_gradient(position)
        for value in np.unique(data[~np.isnan(data)]):
            for near, change in itertools.product((value,
                    np.nextafter(value, 0), np.nextafter(value, 2)),
                    (1.0, 0.5)):
                if 0 < near < 1e-300:
                    continue
                grid = core.copy.deepcopy(base)
                result = core.attempt(grid.add_gradients,
                    np.array([-position]), np.array([near * change]), None,
                    np.array([change]))
                ctx.add(evaluations=1)
                if near > 1:
                    ctx.check(isinstance(result, core.Raised), f"grid "
                        f"{config}: scaled gradient {near!r} accepted")
                    continue
                ctx.add(distinct_nontrivial=1)
                if not ctx.check(result is None, f"grid {config}: scaled "
                        f"gradient {near!r} gives {result}"):
                    continue
                expected = np.isnan(data) | (data < near)
                for told in (grid.gradients[0].mask,
                        grid.get_combined_mask()):
                    wrong = told != expected
                    ctx.check(not wrong.any(), f"grid {config} position "
                        f"{position}, scaled gradient {near!r}: mask wrong "
                        f"at {np.argwhere(wrong)[:1].tolist()} where the "
                        f"disk gradient is {data[wrong][:1]}")
                ctx.outcome(f"{int(expected.sum())}")


TINY = [0.0, 5e-324, 1e-310, 1e-300, 1e-154, 1e-39, 1e-20, 1e-17]


def tiny(case, ctx, config, reference):
    """Gradients and thresholds that vanish beside one but are not zero."""
    from GridParameters import GridParameters
    from GridProperty import GridGradient
    parameters = GridParameters(*config[:-1])
    shape = parameters.grid_shape
    some = np.array([*TINY, np.nan, 1.0, 1 - 2**-53, 0.5])
    for seed in range(4):
        data = np.resize(np.roll(some, seed * 3), shape)
        for threshold, change in itertools.product([*TINY, 0.5, 1 - 2**-53,
                1.0], (1.0, 0.5)):
            ctx.add(evaluations=1, distinct_nontrivial=1)
            gradient = GridGradient(np.copy(data), parameters, 0.25)
            measured = threshold * change
            gradient.determine_mask(measured, 1.0, change)
            wanted = measured / change
            with np.errstate(invalid="ignore"):
                expected = np.isnan(data) | (data < wanted)
            wrong = gradient.mask != expected
            ctx.check(not wrong.any(), lambda: f"scaled gradient {wanted!r}:"
                f" mask wrong where the disk gradient is {data[wrong][:1]}")
            ctx.outcome(f"tiny {int(expected.sum())}")


def hill_ties(case, ctx, config, reference):
    grid = grids.build(config)
    radius = reference.data["disk_radius"]
    values = list(np.unique(radius[~np.isnan(radius)]))
    for value in values + [0.0, 1e9]:
        for near in (value, np.nextafter(value, 0), np.nextafter(value,
                1e10)):
            near = float(near)
            ctx.add(evaluations=1, distinct_nontrivial=1)
            grid.generate_hill_radius_mask(near)
            with np.errstate(invalid="ignore"):
                expected = np.isnan(radius) | (radius > near)
            for told in (grid.disk_radius.mask, grid.get_combined_mask()):
                wrong = told != expected
                ctx.check(not wrong.any(), f"grid {config} Hill radius "
                    f"{near!r}: mask wrong at "
                    f"{np.argwhere(wrong)[:1].tolist()} where the radius is "
                    f"{radius[wrong][:1]}")
            ctx.outcome(f"{int(expected.sum())}")


STEPS = [("hill", 1.1), ("add", (-0.2,), (0.6,), None, None),
    ("add", (0.45, 0.1), (0.3, 0.9), None, (1.0, 0.9)),
    ("mask", "inclination", 3), ("mask", "tilt", 4)]


def subsets(case, ctx, config, reference):
    base = worlds.GridWorld(config, reference)
    base.apply(("eclipse", 1.0, 2.0, 0.4))
    for size in range(len(STEPS) + 1):
        for chosen in itertools.permutations(STEPS, size):
            world = core.copy.deepcopy(base)
            ctx.add(evaluations=1, distinct_nontrivial=1)
            try:
                for op in chosen:
                    world.apply(op, compare=False)
                if world.ledger.entries:
                    world.apply(("fit", True))
                world.compare(chosen)
            except core.Violation as problem:
                ctx.fail(f"grid {config}: {problem}", history=list(chosen))
                continue
            getters(ctx, config, world, chosen)
            if ctx.failures:
                return


def getters(ctx, config, world, chosen):
    grid, ledger = world.grid, world.ledger
    combined = world.reference.combined(ledger)
    own = world.reference.expected_masks(ledger)
    for name in worlds.PROPERTIES:
        data = world.reference.data[name]
        for masked, property_masked in itertools.product((True, False),
                repeat=2):
            told = getattr(grid, f"get_{name}")(masked, property_masked)
            gone = np.zeros(data.shape, bool)
            if masked:
                gone |= combined
            if property_masked and name in own:
                gone |= own[name]
            ctx.check(core.same(told, np.where(gone, np.nan, data), 1e-12),
                lambda: f"grid {config} after {chosen}: get_{name}("
                f"{masked}, {property_masked}) does not hide exactly the "
                "masked cells")
    for masked, property_masked in itertools.product((True, False),
            repeat=2):
        if not ledger.entries:
            break
        told = grid.get_gradients(masked, property_masked)[3]
        for k, entry in enumerate(ledger.entries):
            data = world.reference.disk_gradient(entry["position"])
            gone = combined if masked else np.zeros(data.shape, bool)
            if property_masked:
                gone = gone | world.reference.gradient_mask(entry)
            ctx.check(core.same(told[k], np.where(gone, np.nan, data),
                1e-12), lambda: f"grid {config} after {chosen}: "
                f"get_gradients({masked}, {property_masked}) does not hide "
                f"exactly the masked cells of gradient {k}")
    ctx.outcome(f"subset {int(combined.sum())}")
