"""C11: a saved grid loads back as a behaviourally identical grid."""
import copy
import os
import shutil

from mc import core, worlds

LEVEL = "model_checking"
RULE = ("breadth-first over analysis histories (with and without kept "
    "diagnostics); in every state the grid is saved to a new directory and "
    "loaded, twice in a row; all observations of original, first and second "
    "copy must agree, also after every single further operation, and after "
    "saving and loading again behind that")
ASSUMPTIONS = ["the file system returns what was written",
    "contrast settings chosen by the user and masks put on the diagnostic "
    "map are not part of a save"]

ALPHABET = [
    ("eclipse", 1.0, 5.0, 0.0),
    ("eclipse", 2.0, 8.0, 0.5),
    ("add", (0.1,), (0.9,), None, None),
    # two equal positions and one a little off
    ("add", (-0.2, -0.2, -0.20000001), (0.3, 0.5, 0.1), (0.5, 0.2, 1.0),
        (0.5, 1.0, 0.9)),
    ("add", (0.3, -0.4, 0.0), (0.2, 0.0, 0.05), (0.5, 0.0, 1.0), None),
    ("remove", (0,)),
    ("remove", (1,)),
    ("scale", 6.5, None, None),
    ("scale", None, 0.75, None),
    ("hill", 0.9),
    ("hill", 50.0),
    ("fit", True),
    ("fit", False),
    ("mask", "inclination", 4),
    ("mask", "fy_map", 3),
    ("mask", "disk_radius", 3),
]
CONTINUE = ALPHABET + [("point", 0, 1, 1), ("closest", 1.2, 30, 100, 0.4),
    ("extract",), ("diagnose",)]
MANY = ("add", tuple(0.01 * k for k in range(12)), (0.1,) * 12, None, None)
PREFIXES = [[], [ALPHABET[0], ALPHABET[3]], [ALPHABET[1], ALPHABET[4],
    ALPHABET[11]], [ALPHABET[0], MANY, ALPHABET[9]]]


def cases(tier):
    configs = [worlds.SMALL, worlds.OFFSET]
    out = []
    for config in configs:
        for prefix in PREFIXES:
            for number, op in enumerate(ALPHABET):
                out.append(dict(config=config, diagnostics=number % 2 == 0,
                    prefix=[*prefix, op], depth=1 if tier == "quick" else 2))
    return out


def build(case):
    grid = worlds.grids.build(tuple(case["config"]),
        keep_diagnostics=case["diagnostics"])
    for op in case["prefix"]:
        core.attempt(worlds.perform, grid, tuples(op))
    return grid


def tuples(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def roundtrip(grid, name):
    from Shallot import ShallotGrid
    grid.save(name)
    try:
        return ShallotGrid.load(name, logging_level=50)
    finally:
        shutil.rmtree(name)


def run(case, ctx):
    start = build(case)
    states = {core.fingerprint(start): ((), start)}
    frontier = list(states.values())
    for _ in range(case["depth"]):
        following = []
        for history, grid in frontier:
            for op in ALPHABET:
                twin = copy.deepcopy(grid)
                core.attempt(worlds.perform, twin, op)
                key = core.fingerprint(twin)
                ctx.add(transitions=1)
                if key not in states:
                    states[key] = ((*history, op), twin)
                    following.append(states[key])
        frontier = following
    for number, (history, grid) in enumerate(states.values()):
        history = [*map(tuples, case["prefix"]), *history]
        judge(case, ctx, history, grid,
            deep=number % (1 if ctx.tier == "quick" else 2) == 0)
        if number % 20 == 0:
            core.drop_loggers()
    ctx.sample(dict(case=case, states=len(states)))


def judge(case, ctx, history, grid, deep):
    label = f"grid {case['config']} after {history}"
    before = worlds.observe(grid)
    loaded = roundtrip(grid, "one")
    ctx.add(states=1, transitions=1, traces_validated_against_impl=1)
    same(ctx, before, worlds.observe(loaded), f"{label}, saved and loaded")
    again = roundtrip(loaded, "two")
    same(ctx, before, worlds.observe(again), f"{label}, saved and loaded "
        "twice")
    ctx.check(not os.listdir("."), f"{label}: saving left files elsewhere: "
        f"{os.listdir('.')}")
    ctx.outcome(f"{len(before['gradients'])} {before['fit'][0] is None} "
        f"{int(before['combined'].sum())} {before['probe']}")
    if not deep:
        return
    for op in CONTINUE:
        mine, his = copy.deepcopy(grid), copy.deepcopy(loaded)
        results = [core.attempt(worlds.perform, g, op) for g in (mine, his)]
        ctx.add(transitions=1)
        ctx.check(core.same(*results), lambda: f"{label}: {op} gives "
            f"{core.short(results[0])}, on the loaded grid "
            f"{core.short(results[1])}")
        same(ctx, worlds.observe(mine, probe=False), worlds.observe(his,
            probe=False), f"{label}, loaded, then {op}")


def same(ctx, a, b, label):
    ctx.check(core.same(a, b), lambda: f"{label}: differs in "
        + core.first_difference(a, b))
