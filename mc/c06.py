"""C06: the analysis state reflects exactly the operations performed."""
from mc import core, worlds

LEVEL = "model_checking"
RULE = ("breadth-first over operation histories of the real grid, starting "
    "from the initial and from prepared states, compared with a ledger after "
    "every transition; states are merged only when every attribute is equal; "
    "the history of every fifth state is replayed on a freshly built grid")
ASSUMPTIONS = ["disk gradients are compared with those of a lone gradient on "
    "a fresh grid; C04 decides whether those are right",
    "cells within 1e-12 of a mask threshold are not compared"]

ALPHABET = [
    ("eclipse", 1.0, 5.0, 0.0),
    ("eclipse", 2.0, 8.0, 0.5),
    ("add", (0.1,), (0.9,), None, None),
    ("add", (-0.2, 0.1), (1.0, 0.6), (0.5, 0.2), (0.5, 1.0)),
    ("add", (0.3, 0.4), (0.2, 50.0), None, None),
    ("add", (-0.3, 0.4), (0.2, 0.3), (0.1, 0.3, 0.4), None),
    ("remove", (0,)),
    ("remove", (1,)),
    ("remove", (1, 0)),
    ("remove", (0, 0)),
    ("remove", (2,)),
    ("scale", 6.5, None, None),
    ("scale", None, 1.0, None),
    ("scale", 0.05, None, None),
    ("scale", None, None, (0.7,)),
    ("scale", 7.0, 0.25, (0.9, 0.4)),
    ("scale", None, None, (0.8, 0.01)),
    ("hill", 0.9),
    ("hill", 1.6),
    ("fit", True),
    ("fit", False),
    ("mask", "inclination", 4),
    ("add", (0.0, 0.25), (0.0, 0.1), (0.0, 1.0), None),
    ("add", (0.2,), (0.0,), None, (0.0,)),
    ("scale", None, 0.0, None),
    ("scale", 6.0, 0.0, (0.9,)),
    ("hill", 0.0),
    ("add", (), (), None, None),
    ("scale", None, None, None),
]
PREFIXES = [
    [],
    [ALPHABET[0], ALPHABET[3]],
    [ALPHABET[1], ALPHABET[2], ALPHABET[3]],
    [ALPHABET[0], ALPHABET[3], ALPHABET[2], ALPHABET[17], ALPHABET[19]],
    [ALPHABET[0], ALPHABET[2], ALPHABET[20], ALPHABET[11]],
    [ALPHABET[0], ALPHABET[3], ALPHABET[19], ALPHABET[8]],
    [ALPHABET[0], ALPHABET[3], ALPHABET[19]],
]


def operations(world):
    """The alphabet, and updates that fit the present number of gradients."""
    n = len(world.ledger.entries)
    if n == 0:
        return ALPHABET
    changes = tuple(0.95 - 0.05 * (k % 3) for k in range(n))
    return [*ALPHABET, ("scale", None, None, changes),
        ("scale", None, 0.75, changes[::-1]),
        ("remove", tuple(range(n)))]


def cases(tier):
    configs = [worlds.SMALL, worlds.OFFSET]
    depth = 2
    if tier == "thorough":
        configs.append(worlds.PLANE)
        depth = 3
    out = []
    for config in configs:
        for prefix in PREFIXES:
            for op in ALPHABET:
                out.append(dict(config=config, prefix=[*prefix, op],
                    depth=depth))
    return out


def run(case, ctx):
    reference = worlds.Reference(tuple(case["config"]))
    start = starter(case, reference)
    start()
    core.explore(ctx, start, operations, apply, worlds.canon,
        case["depth"], trace_every=5, label=lambda w: repr((
        len(w.ledger.entries), w.ledger.fit, w.ledger.hill, w.ledger.eclipse)))


def starter(case, reference):
    def start():
        world = worlds.GridWorld(tuple(case["config"]), reference)
        world.compare("build")
        for op in case["prefix"]:
            world.apply(tuples(op))
        return world
    return start


def tuples(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def apply(world, op):
    world.apply(op)


def replay(case, history, ctx):
    reference = worlds.Reference(tuple(case["config"]))
    core.replay_history(ctx, starter(case, reference), apply,
        [tuples(op) for op in history or []])
