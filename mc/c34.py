"""C34: an operation that is cut short leaves its object as before or after."""
import copy
import gc
import os
import sys
import types

import numpy as np

from mc import core, objects, worlds
from mc.core import first_difference, fingerprint, same

LEVEL = "model_checking"
RULE = ("every operation of a finite alphabet is run in every state of every "
    "class once per point at which it can be cut short: each call that "
    "leaves the code under test (numpy, the standard library, logging) fails "
    "in turn with MemoryError, and each of them and each turn of a loop is "
    "interrupted in turn with KeyboardInterrupt. Afterwards the object must "
    "be as before the operation (at most without the gradient fit, which "
    "every such operation discards) or as after it, the arguments as they "
    "were, doing it again must have the full effect, and new objects must "
    "come out the same. transitions = executions cut short, states = "
    "(class, state, operation)")
ASSUMPTIONS = ["nothing fails or interrupts between statements that call "
    "nothing, nor within a call that leaves the code under test",
    "what an operation cut short leaves on disk is the subject of C14 and "
    "C32"]

TRIVIAL = (len, isinstance, getattr, hasattr, type, callable, id, super,
    range, zip, enumerate, iter, next, property)


class Stop(KeyboardInterrupt):
    pass


class Fail(MemoryError):
    pass


# -------------------------------------------------------------- injection

def ours(function):
    """Whether a callable is part of the code under test."""
    function = getattr(function, "__func__", function)
    code = getattr(function, "__code__", None)
    if code is not None:
        return code.co_filename.startswith(core.REPO)
    if isinstance(function, type):
        module = sys.modules.get(function.__module__)
        name = getattr(module, "__file__", None) or ""
        return name.startswith(core.REPO)
    return False


class Injector:
    """Counts the points of an execution and cuts it short at one of them."""

    TOOL = 3

    def __init__(self):
        self.on = False
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "cut short")
        m.register_callback(self.TOOL, m.events.CALL, self.on_call)
        m.register_callback(self.TOOL, m.events.JUMP, self.on_jump)
        self.codes = []
        for thing in gc.get_objects():
            if isinstance(thing, types.FunctionType):
                self.watch(thing.__code__)

    def watch(self, code):
        if not isinstance(code, types.CodeType) or not \
                code.co_filename.startswith(core.REPO + os.sep):
            return
        self.codes.append(code)
        events = sys.monitoring.events
        sys.monitoring.set_local_events(self.TOOL, code, events.CALL
            | events.JUMP)
        for inner in code.co_consts:
            self.watch(inner)

    def close(self):
        m = sys.monitoring
        for code in self.codes:
            m.set_local_events(self.TOOL, code, 0)
        for event in (m.events.CALL, m.events.JUMP):
            m.register_callback(self.TOOL, event, None)
        m.free_tool_id(self.TOOL)

    def on_call(self, code, offset, function, argument):
        if not self.on or function in TRIVIAL or ours(function):
            return
        self.point(code, offset, "call")

    def on_jump(self, code, offset, target):
        if self.on and target < offset:
            self.point(code, offset, "loop")

    def point(self, code, offset, what):
        number = len(self.points)
        self.points.append((os.path.basename(code.co_filename), code.co_name,
            offset, what))
        if number == self.at:
            self.line = next((line for first, last, line in code.co_lines()
                if first <= offset < last), None)
            raise self.error()

    def run(self, perform, at=None, error=Stop):
        """Perform; returns (cut short?, what came out)."""
        self.at, self.error, self.points, self.line = at, error, [], None
        self.on = True
        try:
            return False, perform()
        except (Stop, Fail) as raised:
            return True, raised
        except Exception as raised:
            return False, core.attempt(reraise, raised)
        finally:
            self.on = False


def reraise(error):
    raise error


# ------------------------------------------------------------- operations

def f(*values):
    return np.array(values, float)


def i(*values):
    return np.array(values, dtype="int64")


def on_grid(*op):
    return " ".join(str(o) for o in op), lambda: [], \
        lambda grid: worlds.perform(grid, op)


def method(name, *args):
    shown = ", ".join(core.short(a, 30) for a in args)
    return f"{name}({shown})", lambda: list(copy.deepcopy(args)), \
        lambda obj, *given: getattr(obj, name)(*given)


def assign(name, value):
    return f"{name} = {value}", lambda: [], \
        lambda obj: setattr(obj, name, value)


def gradient_method(name, *args):
    return f"gradients[0].{name}{args}", lambda: list(copy.deepcopy(args)), \
        lambda grid, *given: getattr(grid.gradients[0], name)(*given)


def ring_method(name, index, inner, outer):
    def make():
        from Ring import Ring
        return [Ring(inner, outer, 0.4, 0, 0)]

    def perform(system, ring):
        position = len(system.rings) if index is None else index
        return getattr(system, name)(position, ring)
    return f"{name}({'end' if index is None else index}, {inner}-{outer})", \
        make, perform


def mask(prop):
    prop.set_mask(worlds.pattern(prop.data.shape, 5))


def drawn(prop):
    objects.figure(lambda ax: prop.plot_slice(2, 0, ax, True))


PROPERTY = [("set_mask", lambda: [], mask), method("set_contrast_parameters",
    0.2, 0.5, "magma", 4), method("set_contrast_parameters", None, 0.4, None,
    None), ("plot_slice", lambda: [], drawn), ("save", lambda: [], lambda p:
    objects.in_new_directory(p.save)), method("get_data", True)]

OPERATIONS = dict(
    grid=[on_grid("eclipse", 3.0, 4.0, 0.2),
        on_grid("eclipse", 1.0, 50.0, 0.9),
        method("add_gradients", f(-0.3, 0.2), f(0.5, 0.2), f(0.5, 2.0),
            f(0.5, 0.9)),
        method("add_gradients", f(0.1), f(0.02)), on_grid("remove", (0,)),
        on_grid("remove", (0, 1)), on_grid("scale", 9.0, 0.1, None),
        on_grid("scale", 9.0, None, None), on_grid("scale", None, 0.9, None),
        on_grid("scale", None, None, (0.9,)),
        on_grid("scale", 20.0, 0.4, (0.9, 0.95)),
        on_grid("scale", 20.0, None, (0.9, 0.95, 0.97)),
        on_grid("hill", 1.3), on_grid("hill", 0.0), on_grid("fit", False),
        on_grid("fit", True), on_grid("mask", "tilt", 4),
        on_grid("mask", "disk_radius", 4), ("tilt contrast", lambda: [],
            lambda g: g.tilt.set_contrast_parameters(0.1, 0.5, "plasma", 5)),
        gradient_method("determine_mask", 0.3, 1.2, 0.8, 0.1),
        gradient_method("set_contrast_parameters", 0.1, 0.5, "plasma", 5),
        method("extract_solutions"), on_grid("closest", 1.2, 30.0, 100.0,
            0.4), on_grid("point", 0, 0, 0),
        method("diagnose_fxfy_resolution"), ("text", lambda: [], str),
        ("get_gradients", lambda: [], lambda g: g.get_gradients(True, True)
            if g.gradients else None), method("get_combined_mask"),
        method("get_tilt", True), method("get_gradient_fit", True),
        ("save", lambda: [], lambda g: objects.in_new_directory(g.save))],
    parameters=[method("extend_grid"), ("save", lambda: [], lambda p:
        objects.in_new_directory(p.save)), method("get_vectors")],
    property=PROPERTY,
    gradient=PROPERTY + [method("determine_mask", 0.2, 1.1, 0.9, 0.2),
        method("determine_mask", 0.1, 0.6, None, None),
        method("determine_mask", 0, 1, 1, 0)],
    diagnostics=[method("save_diagnostic", 0, 0, f(1, 2), f(3, 4)),
        method("save_diagnostic", 0, 1, f(), f()), method("extend"),
        method("get_diagnostic", 0, 0), ("save", lambda: [], lambda d:
        objects.in_new_directory(d.save))],
    ring=[assign(name, value) for name, value in (("inner_radius", 0.4),
        ("outer_radius", 3.0), ("transmission", 0.7), ("inclination", 3),
        ("tilt", 5))] + [("get_patch", lambda: [], lambda r:
        r.get_patch(1, -2, "red").get_path().vertices)],
    system=[ring_method("add_ring", 0, 0.1, 0.5),
        ring_method("add_ring", 1, 2.2, 2.8),
        ring_method("add_ring", None, 11, 12),
        ring_method("replace_ring", 0, 0.1, 0.8),
        ring_method("replace_ring", 1, 2.2, 2.9), method("remove_ring", 0),
        method("remove_ring", 1), method("split_rings", 3),
        method("split_rings", i(2, 1, 3)), method("split_rings", i(1, 2)),
        method("merge_rings"), method("get_rings_data"),
        ("plot", lambda: [], lambda s: objects.figure(lambda ax: s.plot(ax,
            1, 2)) and None)],
)


def cases(tier):
    out = []
    for kind, states in objects.STATES.items():
        for state in states:
            for number in range(len(OPERATIONS[kind])):
                out.append(dict(kind=kind, state=state, operation=number))
            out.append(dict(kind=kind, state=state, operation=None))
    return out


# ------------------------------------------------------------- exploration

def prepare():
    import RingSystem, Shallot, matplotlib.pyplot  # noqa: E401, F401
    return Injector()


def run(case, ctx):
    injector = prepare()
    try:
        (build if case["operation"] is None else operate)(case, ctx, injector)
    finally:
        injector.close()
        core.drop_loggers()


def without_fit(kind, obj):
    if kind != "grid" or obj.gradient_fit is None:
        return None
    twin = copy.deepcopy(obj)
    twin.gradient_fit = None
    return objects.observe(kind, twin)


def cuts(points, tier, once=False):
    """(position, error) for every execution to be cut short."""
    seen = set()
    for number, point in enumerate(points):
        if once and point in seen:
            continue
        seen.add(point)
        yield number, Stop
        if point[3] == "call":
            yield number, Fail


def operate(case, ctx, injector):
    kind, state = case["kind"], case["state"]
    name, arguments, perform = OPERATIONS[kind][case["operation"]]
    original = objects.MAKE[kind](state)
    before = objects.observe(kind, original)
    marks = fingerprint(original)
    obj, given = copy.deepcopy(original), arguments()
    plain = fingerprint(given)
    _, result = injector.run(lambda: perform(obj, *given))
    result = copy.deepcopy(result)
    if isinstance(result, core.Raised):
        ctx.outcome(f"{kind} {name}: rejected")
        return
    points = injector.points
    after, end = objects.observe(kind, obj), fingerprint(obj)
    bare = without_fit(kind, original) if not same(before, after) else None
    again = set()
    ctx.add(states=1)
    for number, error in cuts(points, ctx.tier):
        obj, given = copy.deepcopy(original), arguments()
        cut, told = injector.run(lambda: perform(obj, *given), number, error)
        point = points[number]
        what = "failing" if error is Fail else "interrupted"
        label = (f"{kind} {state}: {name} {what} at {point[0]}:"
            f"{injector.line} ({point[1]})")
        ctx.add(transitions=1, traces_validated_against_impl=1)
        if not cut:
            ctx.check(same(told, result) and same(objects.observe(kind, obj),
                after), lambda: f"{label}: went on and came to something "
                f"else: {core.short(told, 80)}", history=[name, number])
            ctx.outcome(f"{kind} {name} {point} went on")
            continue
        left = fingerprint(obj)
        if left not in (marks, end):
            now = core.attempt(objects.observe, kind, obj)
            if not ctx.check(same(now, before) or same(now, after) or bare
                    is not None and same(now, bare), lambda: f"{label}: left"
                    " neither the state before nor the one after it: "
                    f"{first_difference(before, now)} and "
                    f"{first_difference(after, now)}", history=[name,
                    number]):
                continue
            finished = same(now, after) and not same(now, before)
        else:
            finished = left == end != marks
        ctx.check(fingerprint(given) == plain, f"{label}: changed its "
            "arguments", history=[name, number])
        ctx.outcome(f"{kind} {name} {point[:2]} {finished}")
        if finished or ctx.tier == "quick" and (point, error) in again:
            continue
        again.add((point, error))
        told = injector.run(lambda: perform(obj, *given))[1]
        ctx.check(same(told, result, 1e-12) and (fingerprint(obj) == end or
            same(objects.observe(kind, obj), after, 1e-12)), lambda:
            f"{label}: doing it again did not have the same effect",
            history=[name, number])
    new = objects.observe(kind, objects.MAKE[kind](state))
    ctx.check(same(new, before, 1e-12), lambda: f"{kind} {state}: a new one "
        f"is different after {name} was cut short: "
        + first_difference(before, new), history=[name])
    ctx.sample(dict(kind=kind, operation=name, points=len(points)))


def build(case, ctx, injector):
    """Making an object is cut short, and the next one is like any other."""
    kind, state = case["kind"], case["state"]
    first = objects.MAKE[kind](state)
    before = objects.observe(kind, first)
    injector.run(lambda: objects.MAKE[kind](state))
    points = injector.points
    ctx.add(states=1)
    seen = set()
    for number, error in cuts(points, ctx.tier, once=True):
        if kind == "grid" and ctx.tier == "quick" and error is Fail:
            continue
        injector.run(lambda: objects.MAKE[kind](state), number, error)
        line = injector.line
        ctx.add(transitions=1, traces_validated_against_impl=1)
        key = points[number][0], line
        if kind == "grid" and key in seen and ctx.tier == "quick":
            continue
        seen.add(key)
        told = objects.MAKE[kind](state)
        now = objects.observe(kind, told)
        ctx.check(same(now, before, 1e-12), lambda: f"{kind} {state}: a new "
            f"one is different after making one was cut short at "
            f"{points[number][0]}:{line}: {first_difference(before, now)}",
            history=[number])
        ctx.outcome(f"new {kind} {points[number][:2]}")
    seen = objects.observe(kind, first)
    ctx.check(same(seen, before), f"{kind} {state}: changed while "
        "others were made", history=[])
    ctx.sample(dict(kind=kind, operation="make", points=len(points)))
