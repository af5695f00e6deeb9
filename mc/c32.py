"""C32: a save that was cut short is never mistaken for a complete one.

The real save runs while every operation that changes the file system is a
crash point (see C14, whose probe is used): each state of the directory that
a kill can leave, with every length class of unfinished files, is loaded.
"""
import os
import shutil

from mc import c12, c14, core, objects, worlds
from mc.c14 import NOTES, Run, key_of, lay, tree

LEVEL = "fault_enumeration"
RULE = ("for every kind of object in every state of an alphabet: every "
    "file-system operation of saving it in a new place x every length class "
    "of each file being written is a crash; every distinct directory state "
    "is loaded: an error, or the object that was being saved. The same with "
    "each operation failing, and with an interrupt at each, after which the "
    "object must be unchanged and be saved elsewhere; real kills confirm "
    "the recorded states. With another component already saved in the "
    "directory, that one must load as before in every crash state. "
    "Evaluations are loads, all of distinct directory states")
ASSUMPTIONS = [*c14.ASSUMPTIONS, "a component is not saved over an earlier "
    "version of itself (a mixture of both could remain)"]
CASE_TIMEOUT = 600

TARGET = "target"
GRIDS = [[config, recipe, diagnostics] for config, recipe, diagnostics in (
    (worlds.SMALL, "fresh", False), (worlds.SMALL, "fresh", True),
    (worlds.SMALL, "hill", False), (worlds.SMALL, "measured", False),
    (worlds.OFFSET, "measured", True), (worlds.SMALL, "fitted", True),
    (worlds.OFFSET, "fitted", False), (worlds.SMALL, "refitted", True),
    (worlds.OFFSET, "refitted", False))]
MASKS = ["diagnostic_map", "fx_map", "fy_map", "inclination"]


def cases(tier):
    out = []
    for state in GRIDS:
        for mask in [None] if tier == "quick" and state[2] else [None,
                *MASKS]:
            out.append(dict(kind="grid", state=state, mask=mask))
    for group in c12.COMPONENTS:
        for name, (slot, _) in c12.COMPONENTS[group].items():
            out.append(dict(kind="component", group=group, name=name,
                slot=slot))
    for first in c12.COMPONENTS["properties"]:
        for second in c12.COMPONENTS["properties"]:
            if c12.COMPONENTS["properties"][first][0] != c12.COMPONENTS[
                    "properties"][second][0]:
                out.append(dict(kind="beside", first=first, second=second))
    return out


class Subject:
    """An object, how it is saved and loaded, and what it looks like."""

    def __init__(self, case):
        self.case = case
        if case["kind"] == "grid":
            self.object = objects.make_grid(case["state"])
            if case["mask"]:
                worlds.perform(self.object, ("mask", case["mask"], 5))
            self.label = f"grid {case['state']} {case['mask'] or ''}"
        else:
            self.slot, make = c12.COMPONENTS[case["group"]][case["name"]]
            self.object = make()
            self.label = case["name"]

    def save(self, path):
        if self.case["kind"] == "grid":
            self.object.save(path)
        else:
            c12.write(self.slot, self.object, path)

    def load(self, path):
        if self.case["kind"] == "grid":
            from Shallot import ShallotGrid
            return ShallotGrid.load(path, logging_level=50)
        return c12.read(self.slot, path)

    def view(self, it):
        if self.case["kind"] == "grid":
            return worlds.observe(it)
        return c12.view(self.slot, it)


class Judge:
    """Loads directory states; an error or the complete object."""

    def __init__(self, ctx, subject, expected):
        self.ctx, self.subject, self.expected = ctx, subject, expected
        self.memo = {}

    def __call__(self, state, label):
        key = key_of(state)
        if key not in self.memo:
            self.memo[key] = outcome, why = self.load(state)
            self.ctx.add(evaluations=1)
            self.ctx.distinct("distinct_nontrivial", (key,
                self.subject.label))
            self.ctx.outcome(outcome)
            if outcome == "wrong":
                self.ctx.fail(f"{self.subject.label}: {label}: {why}")
            if len(self.memo) % 50 == 0:
                core.drop_loggers()
        return self.memo[key][0]

    def load(self, state):
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(state, root)
        here = os.getcwd()
        os.chdir(root)
        try:
            found = core.attempt(self.subject.load, TARGET)
            left = tree(root)
        finally:
            os.chdir(here)
            shutil.rmtree(root)
        if left != state:
            return "wrong", "loading changed the directory"
        if isinstance(found, core.Raised):
            return "raised", repr(found)
        seen = self.subject.view(found)
        if not core.same(seen, self.expected):
            return "wrong", ("loads as another object than was saved: "
                + core.first_difference(self.expected, seen))
        return "complete", ""


def run(case, ctx):
    if case["kind"] == "beside":
        beside(case, ctx)
        return
    subject = Subject(case)
    subject.save(os.path.abspath("whole"))
    expected = subject.view(subject.load(os.path.abspath("whole")))
    before = subject.view(subject.object)
    start = {NOTES: b"mine"}
    judge = Judge(ctx, subject, expected)
    first = Run(start, lambda: subject.save(TARGET))
    ctx.add(crash_points=first.points)
    ctx.check(first.result is None, f"{subject.label}: saving fails: "
        f"{first.result}")
    for moment, states, _, _ in first.moments:
        for detail, state in states:
            judge(state, f"killed before {moment}{detail}")
    ctx.check(judge(first.final, "complete") == "complete",
        f"{subject.label}: the complete save does not load")
    for fault in ("disk full", "interrupt"):
        failing(ctx, subject, judge, first, start, before, fault)
    if case["kind"] == "component" or case["state"][1] == "measured":
        kills(ctx, subject, first, start)
    ctx.sample(case)


def failing(ctx, subject, judge, first, start, before, fault):
    for number in range(1, first.points + 1):
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(start, root)
        error = (OSError(28, "No space left on device") if fault ==
            "disk full" else KeyboardInterrupt())
        at = f"{fault} at {first.moments[number - 1][0]}"
        survived = True
        here = os.getcwd()
        os.chdir(root)
        try:
            with c14.Probe(root, None, number, error):
                try:
                    subject.save(TARGET)
                except (OSError, KeyboardInterrupt):
                    survived = False
            left = tree(root)
            ctx.check(core.same(subject.view(subject.object), before),
                f"{subject.label}: {at}: the failed save changed the object")
            subject.save("elsewhere")
            found = core.attempt(subject.load, "elsewhere")
            ctx.check(not isinstance(found, core.Raised) and core.same(
                subject.view(found), judge.expected), f"{subject.label}: "
                f"{at}: saved elsewhere afterwards it is {found!r}")
        finally:
            os.chdir(here)
            shutil.rmtree(root)
        outcome = judge(left, at)
        # nobody is told of a failure, so there must not have been one
        ctx.check(not survived or outcome == "complete", f"{subject.label}: "
            f"{at}: no error, but not saved")
        ctx.add(faults=1)
        core.drop_loggers()


def kills(ctx, subject, first, start):
    for number in range(1, first.points + 1):
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(start, root)
        child = os.fork()
        if child == 0:
            try:
                os.chdir(root)
                with c14.Probe(root, None, number):
                    subject.save(TARGET)
            finally:
                os._exit(1)
        _, status = os.waitpid(child, 0)
        left = tree(root)
        shutil.rmtree(root)
        moment = first.moments[number - 1]
        ctx.add(real_kills=1)
        ctx.check(os.waitstatus_to_exitcode(status) == 77,
            f"{subject.label}: saving again differs: no operation {number}")
        ctx.check(left == moment[1][0][1], f"{subject.label}: killed before "
            f"{moment[0]}: the directory differs from the recorded one")


def beside(case, ctx):
    """What was saved in the directory earlier stays what it is."""
    one = Subject(dict(kind="component", group="properties", name=case[
        "first"]))
    two = Subject(dict(kind="component", group="properties", name=case[
        "second"]))
    here = os.path.abspath("before")
    os.mkdir(here)
    one.save(os.path.join(here, TARGET))
    start = tree(here)
    expected = one.view(one.load(os.path.join(here, TARGET)))
    judge = Judge(ctx, one, expected)
    second = Run(start, lambda: two.save(TARGET))
    ctx.add(crash_points=second.points)
    ctx.check(second.result is None, f"{two.label}: saving fails: "
        f"{second.result}")
    for moment, states, _, _ in second.moments:
        for detail, state in states:
            at = (f"{two.label} beside it, killed before {moment}{detail}")
            ctx.check(judge(state, at) == "complete", f"{one.label}: {at}: "
                "does not load any more")
