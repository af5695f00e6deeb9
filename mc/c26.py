"""C26: descriptions and log messages tell the actual state."""
import copy
import io
import itertools
import os
import re
import shutil
import sys
import warnings

import numpy as np

from mc import c16, core, grids, objects, worlds
from mc.core import Violation, attempt

LEVEL = "model_checking"
RULE = ("breadth-first over histories of grids, properties, diagnostics and "
    "ring systems; in every state each number in the printed description, "
    "and each number the operation logged, is compared at its printed "
    "precision with a value computed from the data; products of contrast "
    "limits, masks, names and units for the single objects")
ASSUMPTIONS = ["wording and layout are free as long as the labels the test "
    "suite pins remain; a log line that is absent is not a violation"]

NUMBER = r"[-+]?(?:nan|inf|\d+(?:\.\d*)?(?:e[-+]?\d+)?)"


# ---------------------------------------------------------------- reading

def labelled(text):
    """[(label, rest)] of the lines "label: rest"."""
    out = []
    for line in text.split("\n"):
        if ":" in line:
            label, rest = line.split(":", 1)
            out.append((label.strip().lower(), rest.strip()))
    return out


def close(printed, value, what):
    """The printed number is the value rounded to the digits shown."""
    match = re.match(r"\s*(" + NUMBER + ")", printed)
    if match is None:
        raise Violation(f"{what}: no number in {printed!r}")
    token = match.group(1)
    told = float(token)
    digits = len(token.split(".")[1]) if "." in token else 0
    value = float(value)
    if np.isnan(value) or np.isinf(value):
        if not (told == value or (np.isnan(value) and np.isnan(told))):
            raise Violation(f"{what}: described as {told}, is {value}")
        return
    if not abs(told - value) <= 0.5 * 10.0**-digits * (1 + 1e-9) + 1e-9 * abs(
            value):
        raise Violation(f"{what}: described as {token}, is {value:.9g}")


def value_of(lines, label, what):
    found = [rest for name, rest in lines if name == label]
    if len(found) != 1:
        raise Violation(f"{what}: {len(found)} lines '{label}' instead of "
            "one")
    return found[0]


def judge_parameters(text, dx, dy, rf, shape, what):
    lines = labelled(text)
    for label, axis in (("dx", dx), ("dy", dy)):
        match = re.fullmatch(rf"({NUMBER})\s*->\s*({NUMBER})\s*\((\d+)\)",
            value_of(lines, label, what))
        if match is None:
            raise Violation(f"{what}: {label} is not described")
        close(match.group(1), axis[0], f"{what}: {label} begin")
        close(match.group(2), axis[-1], f"{what}: {label} end")
        close(match.group(3), len(axis), f"{what}: {label} count")
    match = re.fullmatch(rf"({NUMBER})\s*->\s*({NUMBER})\s*->\s*({NUMBER})"
        r"\s*\((\d+)\)", value_of(lines, "rf", what))
    if match is None:
        raise Violation(f"{what}: rf is not described")
    for token, true in zip(match.groups(), (max(rf), 1, max(rf), len(rf))):
        close(token, true, f"{what}: rf")
    told = [int(n) for n in re.findall(r"\d+", value_of(lines, "grid_shape",
        what))]
    if told != list(shape):
        raise Violation(f"{what}: shape described as {told}, is {shape}")


def judge_property(text, prop, what):
    """One block: title, extremes, mask; gradients carry more."""
    data = np.asarray(prop.get_data(False), float)
    title = next((line for line in text.split("\n") if line.strip()), "")
    for part in (prop.name.get_name(), f"[{prop.unit.get_unit()}]"):
        if part not in title:
            raise Violation(f"{what}: the title {title!r} misses {part}")
    lines = labelled(text)
    defined = data[~np.isnan(data)]
    truth = {"min value": min(defined, default=np.nan), "max value": max(
        defined, default=np.nan), "mean value": sum(defined) / len(defined)
        if len(defined) else np.nan, "median value": middle(defined)}
    for label, value in truth.items():
        close(value_of(lines, label, what), value, f"{what}: {label}")
    shown = [rest for name, rest in lines if name.startswith("mask")]
    if prop.mask is None:
        if shown:
            raise Violation(f"{what}: describes a mask that does not exist")
    else:
        if len(shown) != 1:
            raise Violation(f"{what}: the mask is not described")
        mask = np.asarray(prop.mask)
        close(shown[0], 100 * mask.sum() / mask.size, f"{what}: mask")
    if hasattr(prop, "position"):
        match = re.search(rf"pos\s*=\s*({NUMBER})", title)
        if match is None:
            raise Violation(f"{what}: the title {title!r} has no position")
        close(match.group(1), prop.position, f"{what}: position")
        rows = (("measured gradient", prop.measured_gradient),
            ("measured error", prop.measured_error), ("orbital scale",
            prop.orbital_scale), ("transmission change",
            prop.transmission_change))
        for label, value in rows:
            found = [rest for name, rest in lines if name == label]
            if prop.measured_gradient is None:
                if found:
                    raise Violation(f"{what}: describes a {label} that does "
                        "not exist")
            else:
                close(value_of(lines, label, what), value,
                    f"{what}: {label}")


def middle(values):
    values = sorted(values)
    n = len(values)
    if n == 0:
        return np.nan
    return (values[(n - 1) // 2] + values[n // 2]) / 2


def blocks(text):
    """Split at the lines of dashes; the line before is the title."""
    lines = text.split("\n")
    starts = [k - 1 for k, line in enumerate(lines) if k and re.fullmatch(
        r"-{5,}", line.strip())]
    return ["\n".join(lines[a:b]) for a, b in zip(starts, [*starts[1:],
        len(lines)])]


def judge_grid(text, grid, kept, what):
    parts = blocks(text)

    def part(title):
        found = [p for p in parts if p.strip().startswith(title)]
        return found

    axes = [np.ravel(np.asarray(v)) for v in grid.parameters.get_vectors()]
    found = part("Grid Parameters")
    if len(found) != 1:
        raise Violation(f"{what}: {len(found)} descriptions of the "
            "parameters")
    judge_parameters(found[0], axes[1], axes[0], axes[2], tuple(
        grid.disk_radius.get_data(False).shape), what)
    for name in ("disk_radius", "tilt", "inclination"):
        prop = getattr(grid, name)
        found = part(prop.name.get_name())
        if len(found) != 1:
            raise Violation(f"{what}: {len(found)} descriptions of {name}")
        judge_property(found[0], prop, f"{what}: {name}")
    found = [p for p in part("Gradient") if "pos" in p.split("\n")[0]]
    gradients = list(grid.gradients or [])
    if len(found) != len(gradients):
        raise Violation(f"{what}: {len(found)} gradients described, "
            f"{len(gradients)} exist")
    for k, (text_, gradient) in enumerate(zip(found, gradients)):
        judge_property(text_, gradient, f"{what}: gradient {k}")
    found = part("Grid Diagnostics")
    if (grid.diagnostics is None) != (not found):
        raise Violation(f"{what}: diagnostics described: {bool(found)}")
    if found:
        close(value_of(labelled(found[0]), "diagnostics saved", what), kept,
            f"{what}: diagnostics saved")
    found = part("Grid Information")
    if len(found) != 1:
        raise Violation(f"{what}: no grid information")
    lines = labelled(found[0])
    hidden = np.zeros(grid.disk_radius.get_data(False).shape, bool)
    for prop in (grid.disk_radius, grid.tilt, grid.inclination, *gradients):
        if prop.mask is not None:
            hidden |= np.asarray(prop.mask)
    close(value_of(lines, "percentage masked", what), 100 * hidden.sum()
        / hidden.size, f"{what}: percentage masked")
    close(value_of(lines, "worst interpolation fit", what), worst(grid),
        f"{what}: worst interpolation fit")


def worst(grid):
    radius = grid.disk_radius.get_data(False)
    rf = np.ravel(np.asarray(grid.parameters.get_vectors()[2]))
    smallest = radius[:, :, len(rf) // 2]
    deviation = np.abs(radius / smallest[:, :, None] - rf)
    return np.max(deviation[~np.isnan(deviation)])


# ------------------------------------------------------------------ grids

class Console:
    """Catches what the loggers of newly made objects write."""

    def __init__(self):
        self.stream = io.StringIO()
        self.real = sys.stderr
        sys.stderr = self.stream

    def take(self):
        text = self.stream.getvalue()
        self.stream.seek(0)
        self.stream.truncate()
        return text

    def close(self):
        sys.stderr = self.real


def numbers(pattern, text):
    return [m.groups() for m in re.finditer(pattern.replace("#",
        "(" + NUMBER + ")"), text)]


GRID_OPS = [
    ("eclipse", 1.0, 5.0, 0.3),
    ("eclipse", 2.0, 0.9, 0.0),
    ("add", (0.1,), (0.07,), None, None),
    ("add", (-0.2, 0.1, -0.4), (0.1, 0.06, 0.0), (0.5, 0.2, 0.0),
        (0.5, 1.0, 0.9)),
    ("remove", (0,)),
    ("remove", (0, 1)),
    ("scale", 3.5, None, None),
    ("scale", None, 1.0, None),
    ("hill", 0.9), ("hill", 1.6),
    ("fit", True), ("fit", False),
    ("mask", "inclination", 4), ("mask", "tilt", 3), ("mask", "fx_map", 2),
    ("contrast", "disk_radius", 0.7, 0.8), ("contrast", "tilt", -5, None),
    ("extract", 2), ("extract", 7, True), ("extract", 1000),
    ("closest", 1.05, 33.3, 120.0, 0.4), ("closest", 0.7, 80, 20, -0.4,
        False),
    ("diagnose",),
    ("reload",),
]


class GridWorld:
    def __init__(self, config, diagnostics, console):
        self.console = console
        console.take()
        *parameters, num = config
        from GridParameters import GridParameters
        from Shallot import ShallotGrid
        self.grid = ShallotGrid(GridParameters(*parameters), num,
            logging_level=10, keep_diagnostics=diagnostics)
        log = console.take()
        ny = parameters[5]
        told = [(float(a), float(b)) for a, b in numbers(
            "building y = #/#", log)]
        if told != [(k + 1, ny) for k in range(ny)]:
            raise Violation(f"building was logged as rows {told} of {ny}")
        self.deviation(log, 1)
        # a disk exists where the centre is beside the path or the eclipse
        # is centred
        x = np.linspace(parameters[0], parameters[1], parameters[2])
        y = np.linspace(parameters[3], parameters[4], parameters[5])
        self.kept = sum(1 for a, b in itertools.product(y, x) if a != 0 or
            b == 0)
        judge_grid(str(self.grid), self.grid, self.kept, "new grid")

    def deviation(self, log, count=None):
        told = numbers("maximum deviation is #", log)
        if count is not None and told and len(told) != count:
            raise Violation(f"the deviation was logged {len(told)} times")
        for token, in told:
            close(token, worst(self.grid), "logged deviation")

    def __deepcopy__(self, memo):
        twin = GridWorld.__new__(GridWorld)
        vars(twin).update(vars(self))
        twin.grid = copy.deepcopy(self.grid, memo)
        return twin


def grid_apply(world, op):
    op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
    grid, console = world.grid, world.console
    console.take()
    before = len(grid.gradients or [])
    kind = op[0]
    if kind == "contrast":
        result = attempt(getattr(grid, op[1]).set_contrast_parameters, op[2],
            op[3])
    elif kind == "reload":
        from Shallot import ShallotGrid
        name = f"kept-{os.getpid()}"
        shutil.rmtree(name, ignore_errors=True)
        grid.save(name)
        world.grid = grid = ShallotGrid.load(name, 10)
        result = None
    else:
        result = attempt(worlds.perform, grid, op)
    log = console.take()
    rejected = isinstance(result, core.Raised)
    judge_grid(str(grid), grid, world.kept, f"after {op}")
    if rejected:
        return
    after = len(grid.gradients or [])
    if kind == "add":
        for n, in numbers("adding # gradients", log):
            close(n, after - before, "logged number of gradients")
    if kind == "fit":
        for n, in numbers("determining # gradient", log):
            close(n, after, "logged number of gradients in the fit")
    if kind in ("diagnose", "reload"):
        world.deviation(log)
    if kind == "extract" and result is not None:
        radius = result[0]
        possible = int((~np.isnan(grid.get_gradient_fit())).sum())
        for some, all_ in numbers("extracting # out of # possible", log):
            close(some, len(radius), "logged number of solutions")
            close(all_, possible, "logged number of possible solutions")
    if kind == "closest" and isinstance(result, tuple):
        coordinates, indices, distance = result
        masked = op[5] if len(op) > 5 else True
        told = {name: (a, b) for name, a, b in numbers(
            r"(\w+): # --> #", log)}
        dy, dx, rf = [np.ravel(np.asarray(v)) for v in
            grid.parameters.get_vectors()]
        truth = dict(disk_radius=grid.get_disk_radius(False, False),
            inclination=grid.get_inclination(False, False),
            tilt=grid.get_tilt(False, False))
        cell = tuple(int(i) for i in indices)
        for number, (name, array) in enumerate(truth.items()):
            if name in told:
                close(told[name][0], op[1 + number], f"logged input {name}")
                close(told[name][1], array[cell], f"logged grid {name}")
        if "impact_parameter" in told:
            close(told["impact_parameter"][0], op[4], "logged input impact "
                "parameter")
            close(told["impact_parameter"][1], dy[cell[0]], "logged grid "
                "impact parameter")
        for n, in numbers("'fit': #", log):
            close(n, distance, "logged fit")


def grid_case(case, ctx):
    console = Console()
    try:
        core.explore(ctx, lambda: prepared(case, console), lambda w:
            GRID_OPS, grid_apply, lambda w: core.fingerprint([w.grid]),
            case["depth"], trace_every=7, label=lambda w: "grid with "
            f"{len(w.grid.gradients or [])} gradients")
    finally:
        console.close()


def prepared(case, console):
    world = GridWorld(tuple(case["config"]), case["diagnostics"], console)
    for op in case["prefix"]:
        grid_apply(world, op)
    return world


# ----------------------------------------------------------------- systems

def judge_system(text, system, what):
    lines = labelled(text)
    for label, value in (("planet radius", system.planet_radius),
            ("inclination", system.inclination), ("tilt", system.tilt)):
        close(value_of(lines, label, what), value, f"{what}: {label}")
    rows = table(text)
    rings = list(system.rings)
    if len(rows) != len(rings):
        raise Violation(f"{what}: {len(rows)} rings described, {len(rings)} "
            "exist")
    for k, (row, ring) in enumerate(zip(rows, rings)):
        for token, value, name in zip(row, (k + 1, ring.inner_radius,
                ring.outer_radius, ring.transmission), ("number",
                "inner radius", "outer radius", "transmission")):
            close(token, value, f"{what}: ring {k + 1}: {name}")


def table(text):
    out = []
    for line in text.split("\n"):
        words = line.split()
        if len(words) == 4 and all(re.fullmatch(NUMBER, w) for w in words):
            out.append(words)
    return out


class SystemWorld:
    def __init__(self, name, console):
        from Ring import Ring
        from RingSystem import RingSystem
        self.console = console
        planet, inner, outer, transmission, inclination, tilt = \
            c16.STARTS[name]
        self.system = RingSystem(planet, *[np.array(a, float) for a in (
            inner, outer, transmission)], inclination, tilt,
            logging_level=10)
        self.mine = {k: Ring(*v) for k, v in c16.POOL.items()}
        self.mine["precise"] = Ring(4.0123456, 5.98765, 0.123456, 12.3456,
            -7.6543)
        judge_system(str(self.system), self.system, "construction")

    def __deepcopy__(self, memo):
        twin = SystemWorld.__new__(SystemWorld)
        vars(twin).update(vars(self))
        twin.system = copy.deepcopy(self.system, memo)
        return twin


def system_operations(world):
    n = len(world.system.rings)
    out = [("add", i, name) for name in world.mine for i in range(n + 2)]
    out += [("replace", i, name) for name in world.mine for i in range(n)]
    out += [("remove", i) for i in range(n + 1)]
    if n <= 4:
        out += [("split", 2), ("split", tuple(range(1, n + 1)))]
    out += [("merge", 1e-3), ("merge", 0.5)]
    return out


def system_apply(world, op):
    op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
    system, console = world.system, world.console
    previous = [[r.inner_radius, r.outer_radius, r.transmission] for r in
        system.rings]
    console.take()
    result = attempt(c16.perform, world, op)
    log = console.take()
    judge_system(str(system), system, f"after {op}")
    present = [[r.inner_radius, r.outer_radius, r.transmission] for r in
        system.rings]
    if isinstance(result, core.Raised):
        if numbers("(added|removed|replaced) ring", log):
            raise Violation(f"rejected {op} was logged as performed")
        return
    kind = op[0]
    words = dict(add="added", remove="removed", replace="replaced")
    if kind in words:
        for verb, index in numbers(r"(added|removed|replaced) ring at index "
                "#", log):
            if verb != words[kind]:
                raise Violation(f"{op} was logged as {verb}")
            close(index, op[1], f"{op}: logged index")
    if kind in ("split", "merge"):
        for verb, a, b in numbers("(split|merged) rings from # to #", log):
            close(a, len(previous), f"{op}: logged number before")
            close(b, len(present), f"{op}: logged number after")
    if kind in ("add", "replace"):
        ring = world.mine[op[2]]
        for name, a, b in numbers("ring (inclination|tilt) overridden from "
                "# to #", log):
            close(a, getattr(ring, name), f"{op}: logged {name} of the ring")
            close(b, getattr(system, name), f"{op}: logged {name} of the "
                "system")
    # tables before and after the change
    if "Before" in log and "After" in log:
        first, second = log.split("After", 1)
        for label, text, truth in (("before", first, previous), ("after",
                second, present)):
            rows = table(text)
            if len(rows) != len(truth):
                raise Violation(f"{op}: {len(rows)} rings logged {label}, "
                    f"there were {len(truth)}")
            for row, values in zip(rows, truth):
                for token, value in zip(row[1:], values):
                    close(token, value, f"{op}: ring logged {label}")


def system_case(case, ctx):
    console = Console()
    try:
        core.explore(ctx, lambda: SystemWorld(case["start"], console),
            system_operations, system_apply, lambda w: core.fingerprint(
            [w.system]), case["depth"], trace_every=11, label=lambda w:
            f"{len(w.system.rings)} rings")
    finally:
        console.close()


# ------------------------------------------------------------ single objects

def parameters_case(case, ctx):
    from GridParameters import GridParameters
    for x, y, nx, ny, (rf, steps) in itertools.product(case["ranges"],
            case["ranges"], (1, 2, 7, 120), (1, 2, 9), ((2.0, 3), (1.0, 1),
            (12.3456, 5), (1.004, 2))):
        p = GridParameters(*x, nx, *y, ny, rf, steps)
        dx = [x[0] + (x[1] - x[0]) * k / max(1, nx - 1) for k in range(nx)]
        dy = [y[0] + (y[1] - y[0]) * k / max(1, ny - 1) for k in range(ny)]
        series = [1.0] * (2 * steps - 1)
        series[0] = series[-1] = p.get_vectors()[2].ravel()[0]
        for _ in range(2):
            what = f"parameters {x} {nx} {y} {ny} {rf} {steps}"
            for text in (str(p), repr(p)):
                told = attempt(judge_parameters, text, dx, dy, series,
                    (len(dy), len(dx), len(series)), what)
                ctx.check(told is None, lambda: f"{told!r}")
                ctx.add(states=1, transitions=1)
            if attempt(p.extend_grid) is not None:
                break
            dx = [-v for v in reversed(dx[1:])] + dx
            dy = [-v for v in reversed(dy[1:])] + dy
    ctx.outcome("parameters")


LIMITS = [None, (None, None), (0.2, 0.4), (-3.0, None), (None, 99.0),
    (0.123456, 0.1234561)]


def property_case(case, ctx):
    from GridProperty import GridGradient, GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    parameters = objects.make_parameters([objects.AXES, case["extend"]])
    shape = parameters.grid_shape
    fields = {"plain": objects.some_data(shape, 3), "large": 1e5 * objects.
        some_data(shape, 2) - 3e4, "tiny": 1e-5 * objects.some_data(shape,
        1), "constant": np.full(shape, 2.5)}
    fields["holes"] = np.where(worlds.pattern(shape, 3), np.nan,
        fields["plain"])
    fields["one"] = np.full(shape, np.nan)
    fields["one"].ravel()[-1] = 0.75
    fields["undefined"] = np.full(shape, np.nan)
    masks = [None, np.zeros(shape, bool), np.ones(shape, bool),
        worlds.pattern(shape, 7), worlds.pattern(shape, 2)]
    measurements = [None, (0.3, 1.2, 0.8, 0.1), (0.0, 4.5, 1.0, 0.0),
        (0.123456, 1.0, 0.98765, 12.3456)]
    kinds = [(n, u) for n in GridPropertyName for u in GridPropertyUnit]

    def judge(prop, what):
        def once():
            for text in (repr(prop), str(prop)):
                judge_property(text, prop, what)
            dy, dx, rf = [np.ravel(v) for v in parameters.get_vectors()]
            judge_parameters(str(prop), dx, dy, rf, shape, what)
        told = attempt(once)
        ctx.check(told is None, lambda: f"{told!r}")
        ctx.add(states=1, transitions=1)

    for (key, field), limits, (number, mask) in itertools.product(
            fields.items(), LIMITS, enumerate(masks)):
        for name, unit in kinds if limits is None and mask is None else \
                kinds[::5]:
            prop = GridProperty(name, unit, field.copy(), parameters)
            # both orders of setting contrast and mask
            for order in ("cm", "mc"):
                for step in order:
                    if step == "c" and limits is not None:
                        prop.set_contrast_parameters(*limits)
                    if step == "m" and mask is not None:
                        prop.set_mask(mask)
                judge(prop, f"{name} {key} data, limits {limits}, mask "
                    f"{number}")
        for measurement, position in itertools.product(measurements, (0.0,
                -0.123456, 17.5)):
            prop = GridGradient(field.copy(), parameters, position)
            if limits is not None:
                prop.set_contrast_parameters(*limits)
            if measurement is not None:
                prop.determine_mask(*measurement)
            if mask is not None:
                prop.set_mask(mask)
            judge(prop, f"gradient at {position}, {key} data, limits "
                f"{limits}, mask {number}, measurement {measurement}")
    ctx.outcome("property")


def ring_case(case, ctx):
    from Ring import Ring
    from RingSystem import RingSystem
    for inner, width, transmission, inclination, tilt in itertools.product(
            (0.5, 1.23456, 99.99999, 12345.678), (1e-4, 0.5, 1000.0),
            (0.0, 0.123456, 1.0), (0.0, 45.67891, 90.0), (-180.0, -0.00001,
            33.33333, 180.0)):
        ring = Ring(inner, inner + width, transmission, inclination, tilt)
        what = f"ring {inner} {width} {transmission} {inclination} {tilt}"

        def once(ring=ring):
            lines = labelled(str(ring))
            for name in ("inner_radius", "outer_radius", "transmission",
                    "inclination", "tilt"):
                close(value_of(lines, name.replace("_", " "), what),
                    getattr(ring, name), f"{what}: {name}")

        told = attempt(once)
        ctx.check(told is None, lambda: f"{told!r}")
        ring.inner_radius = inner / 2
        ring.tilt = -tilt / 2
        ring.transmission = 1 - transmission / 2
        told = attempt(once)
        ctx.check(told is None, lambda: f"changed {told!r}")
        system = RingSystem(inner, np.array([inner, inner + width]), np.array(
            [inner + width, inner + 3 * width]), np.array([transmission,
            1 - transmission]), inclination, tilt, logging_level=50)
        told = attempt(judge_system, str(system), system, f"system of {what}")
        ctx.check(told is None, lambda: f"{told!r}")
        ctx.add(states=3, transitions=3)
    core.drop_loggers()
    # long tables
    for count in (9, 10, 11, 99, 120):
        edges = np.arange(count + 1) * 1.5 + 0.25
        system = RingSystem(0.3, edges[:-1], edges[1:], np.arange(count)
            / count, 12.0, 34.0, logging_level=50)
        told = attempt(judge_system, str(system), system, f"{count} rings")
        ctx.check(told is None, lambda: f"{told!r}")
        ctx.add(states=1, transitions=1)
    ctx.outcome("ring")


class StoreWorld:
    def __init__(self):
        from GridDiagnostics import GridDiagnostics
        self.store = GridDiagnostics(objects.make_parameters(
            [objects.AXES, False]))
        self.cells = set()


def store_apply(world, op):
    from GridDiagnostics import GridDiagnostics
    op = tuple(op)
    if op[0] == "record":
        result = attempt(world.store.save_diagnostic, op[1], op[2], np.array(
            [1.0, op[3]]), np.array([2.0, 3.0]))
        if result is None:
            world.cells = world.cells | {op[1:3]}
    elif op[0] == "extend":
        world.store.extend()
    else:
        name = f"store-{os.getpid()}"
        world.store.save(name)
        world.store = GridDiagnostics.load(name)
    told = value_of(labelled(str(world.store)), "diagnostics saved",
        "diagnostics")
    close(told, len(world.cells), f"after {op}: diagnostics saved")


def store_case(case, ctx):
    ops = [("record", y, x, v) for y in range(3) for x in range(3) for v in
        (0.5, 0.7)] + [("extend",), ("reload",)]
    core.explore(ctx, StoreWorld, lambda w: ops, store_apply, lambda w:
        core.fingerprint([w.store, sorted(w.cells)]), case["depth"],
        trace_every=13, label=lambda w: f"{len(w.cells)} records")


def error_case(case, ctx):
    """Messages name the argument at fault, the bound, the directory."""
    import validate
    from GridDiagnostics import GridDiagnostics
    from GridParameters import GridParameters
    from GridProperty import GridGradient, GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit

    def judge(words, function, *args, **kwargs):
        try:
            function(*args, **kwargs)
        except Exception as error:
            message = str(error)
            for word in words:
                ctx.check(word in message, lambda: f"{function.__name__}"
                    f"{args}{kwargs}: the message {message!r} misses {word}")
            ctx.add(transitions=1)
        ctx.add(states=1)

    bounds = [(-np.inf, np.inf), (0.5, np.inf), (-np.inf, 0.25), (0.5, 7.75),
        (-2, -1)]
    for name, (low, high), value, exclusive in itertools.product(
            ("alpha", "some_name"), bounds, (-3, -1.5, 0, 0.25, 0.5, 1, 7.75,
            9, "text", None), (False, True)):
        judge([name], validate.number, value, name, lower_bound=low,
            upper_bound=high, exclusive=exclusive)
        judge([name], validate.number, value, name, True, low, high,
            exclusive)
        if isinstance(value, (int, float)):
            below = value < low or (exclusive and value == low)
            above = value > high or (exclusive and value == high)
            words = [f"{low:.4f}"] * below + [f"{high:.4f}"] * above
            words += ["greater"] * below + ["less"] * above
            judge([name, *words], validate.number, value, name, False, low,
                high, exclusive)
            judge([name, *words], validate.array, np.array([value, (max(low,
                -9) + min(high, 9)) / 2]), name, low, high, exclusive)
        judge([name], validate.array, value, name)
        judge([name], validate.boolean, value, name)
        judge([name], validate.string, value, name)
    for shape, count in itertools.product(((), (2,), (2, 3), (1, 2, 3)),
            range(4)):
        judge(["field", str(count), str(len(shape))], validate.array,
            np.ones(shape), "field", num_dimensions=count)
        judge(["field", "int64", "float64"], validate.array, np.ones(shape),
            "field", dtype="int64")
        for other in ((3,), (3, 2)):
            judge(["first", "second", str(shape), str(other)],
                validate.same_shape_arrays, [np.ones(shape), np.ones(other)],
                ["first", "second"])
    for directory in ("nowhere", "some/where"):
        judge([directory], GridParameters.load, directory)
        judge([directory], GridDiagnostics.load, directory)
        judge([directory], GridGradient.load, directory)
        judge([directory], GridProperty.load, directory,
            GridPropertyName.TILT, GridPropertyUnit.DEGREE)
    ctx.outcome("errors")


def viewer_case(case, ctx):
    """The description of a viewer is the title of what it shows."""
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent
    from GridProperty import GridPropertyViewer
    for kind, state in (("property", [[objects.AXES, True], "TILT",
            "masked"]), ("gradient", [[objects.PLAIN, False], "measured"])):
        prop = objects.MAKE[kind](state)
        for axis in range(3):
            fig, ax = plt.subplots()
            viewer = GridPropertyViewer(ax, axis, prop, True)
            seen = []
            for direction in ("none", *["up"] * 6, *["down"] * 9):
                if direction != "none":
                    event = MouseEvent("scroll_event", fig.canvas, 5, 5,
                        step=1 if direction == "up" else -1)
                    viewer.onscroll(event)
                title = ax.get_title()
                for text in (str(viewer), repr(viewer)):
                    ctx.check(title in text and title.strip(), f"the viewer "
                        f"is described as {text!r}, its title is {title!r}")
                seen.append(title)
                ctx.add(states=1, transitions=1)
            ctx.check(len(set(seen)) == min(prop.data.shape[axis], 99),
                f"{len(set(seen))} titles for {prop.data.shape[axis]} "
                "slices")
            plt.close("all")
    ctx.outcome("viewer")


PREFIXES = [[], [GRID_OPS[0], GRID_OPS[3], GRID_OPS[10]],
    [GRID_OPS[0], GRID_OPS[3], GRID_OPS[8], GRID_OPS[11], GRID_OPS[12]]]


def cases(tier):
    deep = tier == "thorough"
    out = [dict(kind="grid", config=config, diagnostics=diagnostics,
        prefix=prefix, depth=3 if deep else 2)
        for config, diagnostics in ((worlds.SMALL, True), (worlds.OFFSET,
            False), (worlds.OFFSET, True), (worlds.PLANE, True))
        for prefix in PREFIXES]
    out += [dict(kind="system", start=name, depth=3 if deep else 2) for name
        in c16.STARTS]
    ranges = [(0.0, 1.0), (-1.0, 1.0), (0.004, 0.006), (-123.456, -0.005),
        (0, 1234567.0)]
    out += [dict(kind="parameters", ranges=ranges), dict(kind="ring"),
        dict(kind="error"), dict(kind="viewer"),
        dict(kind="store", depth=4 if deep else 3)]
    out += [dict(kind="property", extend=extend) for extend in (False,
        True)]
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()[f"{case['kind']}_case"](case, ctx)
