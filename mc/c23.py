"""C23: a grid point query reports that cell and nothing else."""
import itertools

import numpy as np

from mc import core, grids, worlds

LEVEL = "exploration"
RULE = ("grids x mask and gradient states x masked or not x every index "
    "triple from just outside to just outside, plus non-integer indices; "
    "non-trivial: triples inside the grid")
ASSUMPTIONS = []

CONFIGS = [worlds.SMALL, worlds.OFFSET, (0.0, 1.0, 1, 0.0, 1.0, 2, 2.0, 1,
    30), (-0.5, 1.5, 4, 0.25, 1.5, 2, 3.0, 2, 30)]
STATES = [[], [("hill", 1.1), ("mask", "fx_map", 3), ("mask", "fy_map", 4)],
    [("eclipse", 2.0, 5.0, 0.3), ("add", (-0.2, 0.5), (0.5, 0.9), None,
        None), ("mask", "diagnostic_map", 2)],
    [("eclipse", 1.0, 9.0, 0.3), ("add", (0.5,), (0.5,), None, None),
        ("add", (-0.1, 0.1), (0.9, 2.0), None, None), ("remove", (1,)),
        ("mask", "tilt", 5), ("hill", 2.0)],
    # slopes that are exactly zero in some cells
    [("eclipse", 1.0, 5.0, 0.3), ("add", (0.1, 0.0, 0.25), (0.9, 0.0, 0.5),
        None, None)]]


def cases(tier):
    configs = list(CONFIGS)
    if tier == "thorough":
        configs += [(0.0, 1.0, 4, 0.0, 0.4, 4, 4.0, 4, 30),
            (-0.5, 1.5, 3, -0.25, 1.5, 5, 3.0, 4, 30)]
    return [dict(config=c, state=s, masked=m) for c in configs
        for s in range(len(STATES)) for m in (True, False)]


def run(case, ctx):
    config = tuple(case["config"])
    grid = grids.build(config)
    reference = worlds.Reference(config)
    ledger = worlds.Ledger()
    for op in STATES[case["state"]]:
        worlds.perform(grid, op)
        ledger.perform(op)
    masked = case["masked"]
    dy, dx, rf = reference.vectors
    shape = reference.shape
    combined = reference.combined(ledger)
    own = reference.expected_masks(ledger)
    values = {}
    for name, data in reference.data.items():
        gone = combined | own.get(name, False) if masked else np.zeros(shape,
            bool)
        values[name] = np.where(gone, np.nan, data)
    gradients = []
    for entry in ledger.entries:
        data = reference.disk_gradient(entry["position"])
        gone = reference.gradient_mask(entry) if masked else np.zeros(shape,
            bool)
        gradients.append(np.where(gone, np.nan, data))
    where = f"grid {config} after {STATES[case['state']]} masked={masked}"

    for index in itertools.product(*[range(-2, n + 2) for n in shape]):
        inside = all(0 <= i < n for i, n in zip(index, shape))
        ctx.add(evaluations=1, distinct_nontrivial=int(inside))
        told = core.attempt(grid.get_grid_point_data, *index, masked)
        if not inside:
            ctx.check(isinstance(told, core.Raised) and told.kind in
                ("ValueError", "TypeError"), f"{where}: index {index} is "
                f"outside but gives {told!r}")
            continue
        y, x, r = index
        expected = ((values["disk_radius"][index], values["inclination"][
            index], values["tilt"][index], dx[x], dy[y]),
            (rf[r], values["fx_map"][index], values["fy_map"][index],
            values["diagnostic_map"][index]),
            (None, None) if not gradients else (
                [e["position"] for e in ledger.entries],
                [g[index] for g in gradients]))
        ctx.check(core.same(told, expected, 1e-12), lambda: f"{where}: index "
            f"{index}: " + core.first_difference(told, expected, 1e-12))
        ctx.outcome(f"{core.short(told, 80)}")
    for position, bad in itertools.product(range(3), (0.0, 1.5, "0", None,
            float("nan"), [0])):
        index = [0, 0, 0]
        index[position] = bad
        told = core.attempt(grid.get_grid_point_data, *index, masked)
        ctx.add(evaluations=1)
        ctx.check(isinstance(told, core.Raised) and told.kind in
            ("TypeError", "ValueError"), f"{where}: index {index} gives "
            f"{told!r}")
    ctx.sample(dict(where=where))
