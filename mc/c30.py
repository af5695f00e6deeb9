"""C30: the logging level filters what is printed and changes nothing else."""
import io
import itertools
import os
import re
import shutil
import sys

import numpy as np

from mc import c16, core, objects, worlds

LEVEL = "model_checking"
RULE = ("every history of operations (grid: building with every option, "
    "analysis, save and load; ring system: construction and manipulation) is "
    "run once per logging level and once with the level left out, with and "
    "without a second object of another level working in between; what is "
    "printed must be the messages of that level and above of the run at the "
    "lowest level, results and states must be equal; non-trivial: histories "
    "that print something at the lowest level and not everything at another")
ASSUMPTIONS = ["messages start with time and name of the level, as the "
    "format of the loggers says"]

# every standard level, its neighbours, and some in between
LEVELS = [10, 11, 15, 19, 20, 21, 25, 30, 31, 40, 45, 50]
NAMES = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
START = re.compile(r"^\d{4}-\d\d-\d\d .*?\b(" + "|".join(NAMES) + r")\b",
    re.M)

GRID_OPS = [
    ("eclipse", 1.0, 5.0, 0.3),
    ("add", (0.1, -0.2), (0.1, 0.06), None, None),
    ("add", (0.3,), (-0.1,), None, None),
    ("remove", (0,)),
    ("remove", (7,)),
    ("scale", 3.5, None, None),
    ("scale", None, None, None),
    ("hill", 0.9),
    ("fit", True),
    ("extract", 2),
    ("extract", 10000),
    ("closest", 1.05, 33.3, 120.0, 0.4),
    ("diagnose",),
    ("fit_read",),
    ("describe",),
    ("reload",),
    ("talk",),
]
PREFIXES = [[], [GRID_OPS[0]], [GRID_OPS[0], GRID_OPS[1]],
    [GRID_OPS[0], GRID_OPS[1], GRID_OPS[8]]]
OPTIONS = [{}, dict(keep_diagnostics=True), dict(intermittent_saving=True),
    dict(keep_diagnostics=True, intermittent_saving=True)]
PRECISE = (4.0123456, 5.98765, 0.123456, 12.3456, -7.6543)
SYSTEM_OPS = [("add", -1, "precise"), ("add", 0, "inside"), ("add", 2, "far"), ("add", 1, "gap"),
    ("remove", 0), ("remove", 9), ("replace", 0, "inside"),
    ("replace", 1, "gap"), ("split", 2), ("merge", 1e-3), ("describe",),
    ("talk",)]


def cases(tier):
    out = []
    for number, config in enumerate((worlds.SMALL, worlds.OFFSET)):
        for prefix, options in itertools.product(PREFIXES, OPTIONS):
            for op in GRID_OPS:
                if tier == "quick" and options is not OPTIONS[(number +
                        len(prefix) + GRID_OPS.index(op)) % 4]:
                    continue
                out.append(dict(kind="grid", config=config, options=options,
                    prefix=[*prefix, op],
                    depth=1 if tier == "quick" else 2))
    for start in c16.STARTS:
        out.append(dict(kind="system", start=start,
            depth=2 if tier == "quick" else 4))
    return out


class Printed:
    """Everything printed while inside, on either stream."""

    def __init__(self):
        self.stream = io.StringIO()

    def __enter__(self):
        self.real = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.stream

    def __exit__(self, *_):
        sys.stdout, sys.stderr = self.real

    def take(self):
        text = self.stream.getvalue()
        self.stream.seek(0)
        self.stream.truncate()
        return messages(text)


def messages(text):
    """[(level, text without the time)], what precedes them is level 99."""
    starts = list(START.finditer(text))
    out = []
    head = text[:starts[0].start() if starts else len(text)]
    if head.strip():
        out.append((99, head))
    for a, b in zip(starts, [*starts[1:], None]):
        end = b.start() if b else len(text)
        out.append((NAMES[a[1]], text[a.start(1):end]))
    return out


class Grid:
    def __init__(self, case, level):
        from GridParameters import GridParameters
        from Shallot import ShallotGrid
        *parameters, num = case["config"]
        self.level = level
        self.grid = ShallotGrid(GridParameters(*parameters), num,
            **given(level), **case["options"])

    def perform(self, op):
        if op[0] == "fit_read":
            return core.attempt(self.grid.get_gradient_fit)
        if op[0] == "describe":
            return str(self.grid)
        if op[0] == "reload":
            from Shallot import ShallotGrid
            self.grid.save("kept")
            try:
                self.grid = ShallotGrid.load("kept", **given(self.level))
            finally:
                shutil.rmtree("kept")
            return None
        if op[0] == "talk":
            return own_messages(self.grid)
        return core.attempt(worlds.perform, self.grid, op)

    def observe(self):
        return worlds.observe(self.grid, probe=False)


class System:
    def __init__(self, case, level):
        from Ring import Ring
        from RingSystem import RingSystem
        planet, inner, outer, transmission, inclination, tilt = \
            c16.STARTS[case["start"]]
        self.system = RingSystem(planet, *[np.array(a, float) for a in (
            inner, outer, transmission)], inclination, tilt, **given(level))
        self.mine = {k: Ring(*v) for k, v in c16.POOL.items()}
        self.mine["precise"] = Ring(*PRECISE)

    def perform(self, op):
        if op[1:2] == (-1,):
            op = (op[0], self.system.get_num_rings(), *op[2:])
        if op[0] == "describe":
            return str(self.system)
        if op[0] == "talk":
            return own_messages(self.system)
        return core.attempt(c16.perform, self, op)

    def observe(self):
        return objects.view_system(self.system)


def given(level):
    return {} if level is None else dict(logging_level=level)


def own_messages(obj):
    """The user's own messages through the logger of the object."""
    for name, level in NAMES.items():
        obj.logger.log(level, f"this is {name}")


def record(case, history, level, beside=None):
    """Messages, result and final state of every step at one level."""
    make = Grid if case["kind"] == "grid" else System
    mine, his = Printed(), Printed()
    steps = []
    other = None
    if beside is not None:
        with his:
            other = make(case, beside)
            his.take()
    with mine:
        world = make(case, level)
    steps.append((None, mine.take()))
    for op in history:
        with mine:
            result = world.perform(op)
        steps.append((result, mine.take()))
        if other is not None:
            with his:
                other.perform(op)
            stray = mine.take()
            if stray:
                raise core.Violation(f"work on another object printed "
                    f"{core.short(stray)} for this one")
            steps[-1] += (his.take(),)
    with mine, his:
        state = world.observe()
    return steps, state


def histories(case):
    if case["kind"] == "grid":
        start = [tuples(op) for op in case["prefix"]]
        for rest in itertools.product(GRID_OPS, repeat=case["depth"]):
            yield [*start, *rest]
    else:
        for length in range(1, case["depth"] + 1):
            yield from map(list, itertools.product(SYSTEM_OPS,
                repeat=length))


def tuples(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def run(case, ctx):
    for number, history in enumerate(histories(case)):
        judge(case, ctx, history, number)
        core.drop_loggers()
    ctx.sample(dict(case=case))


def judge(case, ctx, history, number):
    name = f"{case.get('config', case.get('start'))} {case.get('options')}"
    full, state = record(case, history, 10)
    ctx.add(states=1)
    loud = [m for step in full for m in step[1]]
    for level, text in loud:
        ctx.check(level != 99, f"{name} after {history}: printed {text!r}")
    for op, (result, told) in zip(history, full[1:]):
        ctx.check(op != ("talk",) or {m[0] for m in told} == set(
            NAMES.values()), lambda: f"{name} after {history}: messages "
            f"given to the logger became {core.short(told)}")
        if case["kind"] == "system" and op[0] in ("add", "remove",
                "replace", "split") and not isinstance(result, core.Raised):
            ctx.check({m[0] for m in told} >= {10, 20}, lambda: f"{name}: "
                f"{op} printed {core.short(told)} only")
    levels = LEVELS[1:] + [None]
    if ctx.tier == "quick":
        levels = levels[number % 2::2]
    for level in levels:
        limit = 20 if level is None else level
        beside = (None, 10, 50, 20)[(number + limit) % 4]
        steps, final = record(case, history, level, beside)
        ctx.add(transitions=len(steps), traces_validated_against_impl=1)
        wanted = sum(m[0] >= limit for m in loud)
        ctx.outcome(f"{limit} {wanted}/{len(loud)}")
        for k, (step, mine) in enumerate(zip(full, steps)):
            label = (f"{name}, logging level {level}, operation {k} of "
                f"{history}")
            expected = [m for m in step[1] if m[0] >= limit]
            ctx.check(mine[1] == expected, lambda: f"{label}: printed "
                f"{core.short(mine[1])}, not {core.short(expected)}")
            ctx.check(core.same(plain(step[0]), plain(mine[0])), lambda:
                f"{label}: gives {core.short(mine[0])}, not "
                f"{core.short(step[0])}")
            if len(mine) > 2:
                his = [m for m in step[1] if m[0] >= beside]
                ctx.check(mine[2] == his, lambda: f"{label}: the other "
                    f"object of level {beside} printed "
                    f"{core.short(mine[2])}, not {core.short(his)}")
        ctx.check(core.same(state, final), lambda: f"{name} after {history}, "
            f"logging level {level}: the state differs in "
            + core.first_difference(state, final))
    if case["kind"] == "grid":
        loaded(case, ctx, history, name, number)
    ctx.check(not os.listdir("."), f"{name} after {history}: left files "
        f"{os.listdir('.')}")


AFTER = [("eclipse", 2.0, 4.0, 0.1), ("closest", 1.0, 30, 20, 0.1),
    ("diagnose",)]


def loaded(case, ctx, history, name, number):
    """A loaded grid prints what the saved one does."""
    from Shallot import ShallotGrid
    for op in AFTER[number % 3:][:1] if ctx.tier == "quick" else AFTER:
        for level in (10, 20, 25):
            one = Printed()
            with one:
                world = Grid(case, level)
                for step in history:
                    world.perform(step)
                world.grid.save("saved")
                one.take()
                world.perform(op)
                own_messages(world.grid)
            two = Printed()
            with two:
                world.grid = ShallotGrid.load("saved", logging_level=level)
                two.take()
                world.perform(op)
                own_messages(world.grid)
            shutil.rmtree("saved")
            a, b = one.take(), two.take()
            ctx.check(a == b, lambda: f"{name} after {history}, saved and "
                f"loaded with logging level {level}: {op} prints "
                f"{core.short(b)}, not {core.short(a)}")
            ctx.add(transitions=1)


def plain(result):
    return repr(result) if isinstance(result, core.Raised) else result
