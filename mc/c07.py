"""C07: reading, plotting and saving never change what is stored."""
import copy
import itertools

from mc import core, objects

LEVEL = "model_checking"
RULE = ("every kind of object in several mask and measurement states; every "
    "ordered sequence of two readers (three for the small classes in the "
    "thorough tier) is run on a copy; compared: all observations before and "
    "after, the last reader's result with its result on an untouched copy, "
    "and the arrays returned earlier with what they were")
ASSUMPTIONS = ["a matplotlib figure on the Agg backend stands for the screen"]


def cases(tier):
    out = []
    for kind, states in objects.STATES.items():
        readers = objects.READERS[kind]
        depth = 3 if tier == "thorough" and kind in ("property",
            "parameters", "ring", "gradient", "system") else 2
        for state in states:
            for first in range(len(readers)):
                out.append(dict(kind=kind, state=state, first=first,
                    depth=depth))
    return out


def run(case, ctx):
    kind = case["kind"]
    readers = objects.READERS[kind]
    original = objects.MAKE[kind](case["state"])
    before = objects.observe(kind, original)
    alone = [objects.plain(read(copy.deepcopy(original))) for _, read in
        readers]
    ctx.add(states=int(case["first"] == 0))
    sequences = [(case["first"], *rest) for size in range(case["depth"])
        for rest in itertools.product(range(len(readers)), repeat=size)]
    for sequence in sequences:
        obj = copy.deepcopy(original)
        held = []
        names = [readers[i][0] for i in sequence]
        for step, i in enumerate(sequence):
            result = readers[i][1](obj)
            held.append((result, objects.plain(result)))
            ctx.check(core.same(result, alone[i]), lambda: f"{kind} "
                f"{case['state']}: {names[step]!r} after {names[:step]} "
                "differs from its value on an untouched object: "
                + core.first_difference(alone[i], result), history=names)
        ctx.add(transitions=len(sequence), traces_validated_against_impl=1)
        for (result, then), name in zip(held, names):
            ctx.check(core.same(result, then), lambda: f"{kind} "
                f"{case['state']}: what {name!r} returned was changed by the "
                "readers after it", history=names)
        after = objects.observe(kind, obj)
        ctx.check(core.same(before, after), lambda: f"{kind} "
            f"{case['state']}: reading {names} changed "
            + core.first_difference(before, after), history=names)
    ctx.outcome(f"{kind} {readers[case['first']][0]} "
        f"{core.short(alone[case['first']], 60)}")
    ctx.sample(dict(readers=[name for name, _ in readers]))
