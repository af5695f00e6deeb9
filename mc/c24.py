"""C24: objects do not influence one another, nor the rest of the process."""
import copy
import io
import itertools
import os
import pickle
import random
import re
import signal
import sys
import warnings

import matplotlib
import numpy as np

from mc import core, grids, objects, worlds
from mc.core import Violation, attempt, first_difference, same

LEVEL = "model_checking"
RULE = ("pairs of programs, each working on an object of its own with "
    "arguments shared between the two: every interleaving of their steps is "
    "executed on the real code; every result, log line and final state must "
    "be that of the program running alone, the shared arguments, results "
    "handed out earlier and process-wide settings must stay as they were. A "
    "state is a pair of program positions reached by one schedule")
ASSUMPTIONS = ["both programs run in one thread, interleaved step by step",
    "intermittent saving is left out: all such builds share one folder by "
    "design"]

WIDE = (0.0, 1.4, 2, 0.0, 0.7, 2, 3.0, 2, 30)       # shape of worlds.SMALL
FINE = (0.0, 1.0, 2, 0.0, 1.0, 2, 2.0, 2, 90)
# not mirrored, of one shape
ASIDE = (0.2, 1.0, 2, 0.3, 1.0, 2, 2.0, 2, 30)
FURTHER = (0.4, 1.4, 2, -0.7, 1.2, 2, 3.0, 2, 30)


# ---------------------------------------------------------------- programs

def grid_program(config, gradients, hill, level=50, diagnostics=False,
        twice=False):
    times, values, errors, changes = gradients

    def construct(env, shared):
        from Shallot import ShallotGrid
        env["grid"] = ShallotGrid(shared(("parameters", config[:-1])),
            config[-1], logging_level=level, keep_diagnostics=diagnostics)
        return text_of(env["grid"])

    def measure(env, shared):
        grid = env["grid"]
        grid.set_eclipse_parameters(1.0, 5.0, 0.3)
        grid.add_gradients(shared(("array", times)), shared(("array",
            values)), shared(("array", errors)), shared(("array", changes)))
        return grid.get_gradients(True)

    def limit(env, shared):
        grid = env["grid"]
        grid.generate_hill_radius_mask(hill)
        grid.determine_gradient_fit()
        return [grid.get_combined_mask(), grid.get_disk_radius(),
            grid.get_gradient_fit()]

    def rescale(env, shared):
        grid = env["grid"]
        grid.update_gradient_scaling(6.0, 0.1, shared(("array", changes)))
        grid.determine_gradient_fit(False)
        return [grid.extract_solutions(), grid.get_grid_point_data(0, 1, 1,
            False), grid.determine_closest_grid_point(1., 40., 60., 0.3,
            False)]

    def store(env, shared):
        env["grid"].save(f"saved-{env['tag']}")

    def restore(env, shared):
        from Shallot import ShallotGrid
        env["grid"] = ShallotGrid.load(f"saved-{env['tag']}", level)
        return text_of(env["grid"])

    def both(env, shared):
        from Shallot import ShallotGrid
        env["other"] = ShallotGrid.load(f"saved-{env['tag']}", level)
        env["grid"].remove_gradients(np.array([0]))
        env["grid"].generate_hill_radius_mask(hill / 2)
        return [worlds.observe(env["other"]), text_of(env["grid"])]

    steps = [construct, measure, limit, rescale, store, restore]
    if twice:
        # two objects restored from one folder
        steps = [construct, measure, store, restore, both]
    return steps, lambda env: worlds.observe(env["grid"])


def text_of(grid):
    return str(grid)


def property_program(config, name, seed, contrast):
    def construct(env, shared):
        from GridProperty import GridProperty
        from GridPropertyName import GridPropertyName
        from GridPropertyUnit import GridPropertyUnit
        env["it"] = GridProperty(GridPropertyName[name],
            GridPropertyUnit.NONE, shared(("data", config)),
            shared(("parameters", config)))
        return str(env["it"])

    def mask(env, shared):
        env["it"].set_mask(shared(("mask", config, seed)))
        return env["it"].get_data(True)

    def colour(env, shared):
        env["it"].set_contrast_parameters(*contrast)
        return [drawn(lambda ax: np.ma.filled(env["it"].plot_slice(2, 0, ax,
            True)[1].get_array().astype(float), np.nan)), str(env["it"])]

    def store(env, shared):
        env["it"].save(f"saved-{env['tag']}")

    def restore(env, shared):
        from GridProperty import GridProperty
        it = env["it"]
        env["it"] = GridProperty.load(f"saved-{env['tag']}", it.name,
            it.unit)
        return env["it"].get_data()

    return ([construct, mask, colour, store, restore],
        lambda env: objects.observe("property", env["it"]))


def gradient_program(config, position, measurement, seed):
    def construct(env, shared):
        from GridProperty import GridGradient
        env["it"] = GridGradient(shared(("data", config)),
            shared(("parameters", config)), position)
        return str(env["it"])

    def measure(env, shared):
        env["it"].determine_mask(*measurement)
        return [env["it"].get_data(), env["it"].get_scaled_gradient()]

    def again(env, shared):
        env["it"].determine_mask(measurement[0] / 2, *measurement[1:])
        return env["it"].get_data()

    def store(env, shared):
        os.mkdir(f"saved-{env['tag']}")
        env["it"].save_gradient(f"saved-{env['tag']}")

    def restore(env, shared):
        from GridProperty import GridGradient
        name, = [n for n in os.listdir(f"saved-{env['tag']}") if
            n.startswith("gradient_")]
        env["it"] = GridGradient.load(f"saved-{env['tag']}/{name}")
        return env["it"].get_data()

    return ([construct, measure, again, store, restore],
        lambda env: objects.observe("gradient", env["it"]))


def diagnostics_program(config, offset):
    def construct(env, shared):
        from GridDiagnostics import GridDiagnostics
        env["it"] = GridDiagnostics(shared(("parameters", config)))
        return str(env["it"])

    def record(number):
        def step(env, shared):
            env["it"].save_diagnostic(number % 2, number // 2,
                shared(("some", 4, number + offset)), shared(("some", 4,
                9 + number + offset)))
            return env["it"].get_diagnostic(number % 2, number // 2)
        return step

    def store(env, shared):
        env["it"].save(f"saved-{env['tag']}")

    def restore(env, shared):
        from GridDiagnostics import GridDiagnostics
        env["it"] = GridDiagnostics.load(f"saved-{env['tag']}")
        return str(env["it"])

    return ([construct, record(0), record(1), store, restore],
        lambda env: objects.observe("diagnostics", env["it"]))


def parameters_program(config):
    def construct(env, shared):
        from GridParameters import GridParameters
        env["it"] = GridParameters(*config)
        return [str(env["it"]), env["it"].get_vectors()]

    def mirror(env, shared):
        attempt(env["it"].extend_grid)
        return env["it"].get_vectors()

    def store(env, shared):
        env["it"].save(f"saved-{env['tag']}")

    def restore(env, shared):
        from GridParameters import GridParameters
        env["it"] = GridParameters.load(f"saved-{env['tag']}")
        return env["it"].get_vectors()

    return ([construct, mirror, store, restore],
        lambda env: objects.observe("parameters", env["it"]))


RADII = ((1.0, 2.0, 4.0), (2.0, 3.0, 5.0), (0.5, 0.5, 0.1))


TROUBLE = []


def drawn(draw):
    """Drawing on given axes leaves others, and which are current, alone."""
    import matplotlib.pyplot as plt
    fig, (ax, beside) = plt.subplots(1, 2)
    current = plt.gcf(), plt.gca(), beside.get_xlim(), beside.get_ylim()
    try:
        result = draw(ax)
        if (plt.gcf(), plt.gca(), beside.get_xlim(), beside.get_ylim()) != \
                current or beside.images or beside.lines or beside.patches:
            TROUBLE.append("drawing on given axes changes others, or which "
                "are the current ones")
        return result
    finally:
        plt.close(fig)


def system_program(inclination, tilt, divisions, level=50, radii=RADII):
    def construct(env, shared):
        from RingSystem import RingSystem
        env["it"] = RingSystem(0.4, *(shared(("array", r)) for r in radii),
            inclination, tilt, logging_level=level)
        return [str(env["it"]), env["it"].get_rings_data()]

    def insert(env, shared):
        env["it"].add_ring(env["it"].get_num_rings(), shared(("ring",)))
        return env["it"].get_rings_data()

    def change(env, shared):
        env["it"].replace_ring(0, shared(("small ring",)))
        env["it"].rings[0].transmission = inclination / 90
        return str(env["it"])

    def divide(env, shared):
        env["it"].split_rings(divisions)
        return env["it"].get_rings_data()

    def unite(env, shared):
        env["it"].merge_rings()
        return [str(env["it"]), drawn(lambda ax: [list(x) for x in
            (env["it"].plot(ax, 1, 2).get_xlim(), ax.get_ylim())])]

    return ([construct, insert, change, divide, unite],
        lambda env: objects.observe("system", env["it"]))


def ring_program(values, assignments):
    def construct(env, shared):
        from Ring import Ring
        env["it"] = Ring(*values)
        return str(env["it"])

    def assign(name, value):
        def step(env, shared):
            attempt(setattr, env["it"], name, value)
            return [str(env["it"]), env["it"].get_patch(1, 2).get_path()
                .vertices]
        return step

    return ([construct, *(assign(*a) for a in assignments)],
        lambda env: objects.observe("ring", env["it"]))


def viewer_program(config, axis, points, masked):
    def construct(env, shared):
        import matplotlib.pyplot as plt
        from GridProperty import GridPropertyViewer
        env["figure"], ax = plt.subplots()
        env["it"] = GridPropertyViewer(ax, axis, shared(("property",
            config)), masked, coordinates=[tuple(p) for p in points])
        return picture(env["it"])

    def scroll(button):
        def step(env, shared):
            event = type("Event", (), dict(button=button))()
            env["it"].onscroll(event)
            return picture(env["it"])
        return step

    return ([construct, scroll("up"), scroll("down"), scroll("down")],
        lambda env: picture(env["it"]))


def picture(viewer):
    ax = viewer.ax
    return [viewer.index, ax.get_title(), np.ma.filled(
        viewer.image.get_array().astype(float), np.nan), list(
        viewer.image.get_extent()), sorted([list(map(float, l.get_xdata())),
        list(map(float, l.get_ydata()))] for l in ax.lines),
        viewer.image.get_clim(), viewer.image.get_cmap().name]


G1 = ((-0.2, 0.1), (0.6, 0.4), (0.5, 0.2), (0.5, 1.0))
G2 = ((0.1, -0.2), (0.1, 0.2), (1.0, 0.5), (1.0, 0.8))
A = objects.AXES
P = objects.PLAIN

PROGRAMS = {
    "grid": lambda: grid_program(worlds.SMALL, G1, 1.2),
    "grid talking": lambda: grid_program(worlds.SMALL, G1, 1.2, 20),
    "grid other gradients": lambda: grid_program(worlds.SMALL, G2, 0.9, 10,
        True),
    "grid other ranges": lambda: grid_program(WIDE, G1, 1.5, 30),
    "grid other resolution": lambda: grid_program(FINE, G1, 1.2, 50, True),
    "grid other shape": lambda: grid_program(worlds.OFFSET, G1, 1.2),
    "grid aside": lambda: grid_program(ASIDE, G1, 1.2),
    "grid further": lambda: grid_program(FURTHER, G2, 1.4),
    "grid twice": lambda: grid_program(worlds.SMALL, G1, 1.2, twice=True),
    "grid twice other": lambda: grid_program(WIDE, G1, 1.2, twice=True),
    "property": lambda: property_program(A, "TILT", 3, (0.1, 0.6, "plasma",
        5)),
    "property other": lambda: property_program(A, "TILT", 4, (None, 0.9,
        "viridis", 7)),
    "property other name": lambda: property_program(A, "FX_MAP", 5, ()),
    "gradient": lambda: gradient_program(A, 0.1, (0.3, 1.2, 0.8, 0.1), 3),
    "gradient other": lambda: gradient_program(A, -0.3, (0.5, 0.7), 4),
    "diagnostics": lambda: diagnostics_program(A, 0),
    "diagnostics other": lambda: diagnostics_program(A, 3),
    "parameters": lambda: parameters_program(A),
    "parameters other": lambda: parameters_program(P),
    "system": lambda: system_program(60, -30, 2, 20),
    "system other": lambda: system_program(10, 120, 3, 10),
    "system other rings": lambda: system_program(10, 120, 3, 50, ((1.0,
        2.0), (2.0, 3.0), (0.1, 0.1))),
    "ring": lambda: ring_program((1, 2, 0.5), [("inner_radius", 1.5),
        ("tilt", 20), ("inclination", 95), ("transmission", 0.1)]),
    "ring other": lambda: ring_program((0, 1, 0.2, 30, 40), [
        ("outer_radius", 3.), ("tilt", -20), ("inclination", 90),
        ("transmission", 2)]),
    "viewer": lambda: viewer_program(A, 2, [(0.25, 0.0, 1.0)], True),
    "viewer other": lambda: viewer_program(A, 0, [(0.0, 0.5, 1.5)], False),
}

PAIRS = [("grid", "grid"), ("grid talking", "grid"),
    ("grid talking", "grid other gradients"), ("grid", "grid other ranges"),
    ("grid", "grid other resolution"), ("grid talking", "grid other shape"),
    ("grid aside", "grid further"), ("grid aside", "grid other shape"),
    ("grid twice", "grid twice other"),
    ("property", "property"), ("property", "property other"),
    ("property", "property other name"), ("gradient", "gradient"),
    ("gradient", "gradient other"), ("diagnostics", "diagnostics"),
    ("diagnostics", "diagnostics other"), ("parameters", "parameters"),
    ("parameters", "parameters other"), ("system", "system"),
    ("system", "system other"), ("system", "system other rings"),
    ("ring", "ring"), ("ring", "ring other"), ("viewer", "viewer"),
    ("viewer", "viewer other"), ("grid", "system other"),
    ("property", "gradient"), ("property", "viewer"), ("ring", "system"),
    ("diagnostics", "grid other gradients")]


def cases(tier):
    pairs = PAIRS
    if tier == "thorough":
        pairs = list(itertools.combinations_with_replacement(PROGRAMS, 2))
    prepare(pairs)
    out = []
    for first, second in pairs:
        m, n = len(PROGRAMS[first]()[0]), len(PROGRAMS[second]()[0])
        schedules = [[0 if k in chosen else 1 for k in range(m + n)]
            for chosen in map(set, itertools.combinations(range(m + n), m))]
        grid = "grid" in (first.split()[0], second.split()[0])
        if grid and tier == "quick":
            # at most three switches from one program to the other
            schedules = [s for s in schedules if switches(s) <= 3]
        for part in grids.chunks(schedules, 20 if grid else 60):
            out.append(dict(pair=[first, second], schedules=part))
    return out


def switches(schedule):
    return sum(a != b for a, b in zip(schedule, schedule[1:]))


# --------------------------------------------------------------- execution

class Shared:
    """Arguments handed to both programs; remembers what they looked like."""

    def __init__(self):
        self.values = {}
        self.before = {}

    def __call__(self, key):
        if key[-1] is None:
            return None
        if key not in self.values:
            self.values[key] = self.make(key)
            self.before[key] = self.look(key)
        return self.values[key]

    def make(self, key):
        kind, rest = key[0], key[1:]
        if kind == "parameters":
            from GridParameters import GridParameters
            return GridParameters(*rest[0])
        if kind == "array":
            return np.array(rest[0], float)
        if kind == "some":
            return objects.some_data((rest[0],), rest[1])
        shape = None if kind.endswith("ring") else self.shape(rest[0])
        if kind == "data":
            data = objects.some_data(shape, 3)
            data.ravel()[::5] = np.nan
            return data
        if kind == "mask":
            return worlds.pattern(shape, rest[1])
        if kind == "property":
            return objects.make_property([[rest[0], False], "TILT",
                "masked"])
        from Ring import Ring
        return Ring(6, 7, 0.3, 20, 20) if kind == "ring" else Ring(1, 1.5,
            0.3, 5, 5)

    def shape(self, config):
        from GridParameters import GridParameters
        return GridParameters(*config).grid_shape

    def look(self, key):
        kind = dict([("parameters", "parameters"), ("ring", "ring"),
            ("small ring", "ring"), ("property", "property")]).get(key[0])
        if kind:
            return objects.observe(kind, self.values[key])
        return np.copy(self.values[key])

    def changed(self):
        for key, before in self.before.items():
            if not same(self.look(key), before):
                return key
        return None


def environment():
    """Settings of the process a library has no business changing."""
    import logging
    return dict(numpy_random=np.random.get_state()[1:],
        python_random=hash(random.getstate()), errors=repr(np.geterr()),
        printing=repr(np.get_printoptions()), cwd=os.getcwd(),
        variables=hash(tuple(sorted(os.environ.items()))),
        root=[logging.root.level, len(logging.root.handlers)],
        streams=[id(sys.stdout)], figures=hash(repr([(k, v) for k, v in
            dict.items(matplotlib.rcParams) if not k.startswith(("backend",
            "interactive"))])),
        recursion=sys.getrecursionlimit(),
        warnings=hash(repr(warnings.filters)))


def ignore(kind, flag):
    """What numpy calls with its floating point errors."""


def run_schedule(schedule, pair, expected, directory):
    """Execute; returns everything observed, compares if expected."""
    import matplotlib.pyplot as plt
    os.mkdir(directory)
    os.chdir(directory)
    console = io.StringIO()
    real = sys.stderr
    sys.stderr = console
    # a user to whom numpy reports, so that changing that shows
    errors = np.seterr(all="call"), np.seterrcall(ignore)
    try:
        shared = Shared()
        programs = [PROGRAMS[name]() for name in pair]
        envs = [dict(tag=k) for k in range(len(pair))]
        position = [0] * len(pair)
        seen = [[] for _ in pair]
        live = [[] for _ in pair]
        for who in schedule:
            step = programs[who][0][position[who]]
            # as if the user seeded the generator for each computation
            np.random.seed(11)
            before = environment()
            files = listing()
            start = console.tell()
            result = attempt(step, envs[who], shared)
            text = console.getvalue()[start:]
            after = environment()
            while TROUBLE:
                raise Violation(f"{pair[who]}: {TROUBLE.pop()}")
            where = (f"{pair[who]} step {position[who]} "
                f"({step.__name__})")
            if not same(after, before):
                raise Violation(f"{where} changes process-wide state: "
                    + first_difference(after, before))
            now = listing()
            for name in files.keys() | now.keys():
                if not name.startswith(f"saved-{who}") and now.get(
                        name) != files.get(name):
                    raise Violation(f"{where} changes the file {name}")
            key = shared.changed()
            if key:
                raise Violation(f"{where} changes an argument it was given:"
                    f" {key}")
            seen[who].append([copy.deepcopy(result), lines(text)])
            live[who].append(result)
            if expected and not same(seen[who][-1], expected[who][0][
                    position[who]], 1e-12):
                raise Violation(f"{where} is not what it is when running "
                    "alone: " + first_difference(seen[who][-1],
                    expected[who][0][position[who]], 1e-12))
            position[who] += 1
        for who in set(schedule):
            for k, (result, kept) in enumerate(zip(live[who], seen[who])):
                if not same(result, kept[0]):
                    raise Violation(f"the result of {pair[who]} step {k} "
                        "changed after it was handed out: "
                        + first_difference(result, kept[0]))
        finals = [programs[who][1](envs[who]) if who in schedule else None
            for who in range(len(pair))]
        if expected:
            for who, final in enumerate(finals):
                if not same(final, expected[who][1], 1e-12):
                    raise Violation(f"the final state of {pair[who]} is not "
                        "that of running alone: " + first_difference(final,
                        expected[who][1], 1e-12))
        return seen, finals
    finally:
        sys.stderr = real
        np.seterr(**errors[0])
        np.seterrcall(errors[1])
        plt.close("all")
        os.chdir("..")
        core.drop_loggers()


def listing():
    out = {}
    for folder, _, names in os.walk("."):
        for name in names:
            path = os.path.relpath(os.path.join(folder, name), ".")
            with open(path, "rb") as file:
                out[path] = file.read()
    return out


def lines(text):
    """Log lines without their time stamps."""
    return [re.sub(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+", "", line)
        for line in text.splitlines()]


def place(name, who):
    return os.path.join(core.SCRATCH, f"alone-{name}-{who}".replace(" ",
        "_"))


def launch(name, who):
    """Run a program on its own in a process that did nothing else."""
    child = os.fork()
    if child:
        return child
    try:
        signal.alarm(120)
        core._initialise()
        folder = core.enter_case_dir()
        try:
            found = run_schedule([who] * len(PROGRAMS[name]()[0]), [name,
                name], None, "alone")
        except Exception as error:
            found = f"{name} running alone: {error!r}"
        core.leave_case_dir(folder)
        with open(place(name, who) + "-new", "wb") as file:
            pickle.dump(found, file)
        os.rename(place(name, who) + "-new", place(name, who))
    finally:
        os._exit(0)


def prepare(pairs):
    """Lonely runs, forked before this process does anything itself."""
    running = []
    for name, who in sorted({(name, who) for pair in pairs for who, name in
            enumerate(pair)}):
        if len(running) >= (os.cpu_count() or 1):
            os.waitpid(running.pop(0), 0)
        running.append(launch(name, who))
    for child in running:
        os.waitpid(child, 0)


def alone(name, who):
    if not os.path.exists(place(name, who)):
        return f"{name} running alone does not end"
    with open(place(name, who), "rb") as file:
        return pickle.load(file)


def run(case, ctx):
    pair = case["pair"]
    expected = []
    for who, name in enumerate(pair):
        found = alone(name, who)
        if isinstance(found, str):
            ctx.fail(found)
            return
        for k, (result, _) in enumerate(found[0][who]):
            ctx.check(not isinstance(result, core.Raised), f"{name} running "
                f"alone, step {k}: {result}")
        expected.append((found[0][who], found[1][who]))
    for number, schedule in enumerate(case["schedules"]):
        ctx.add(states=len(schedule) + 1, transitions=len(schedule),
            traces_validated_against_impl=1)
        try:
            run_schedule(schedule, pair, expected, f"run-{number}")
        except Violation as error:
            ctx.fail(f"{pair}: {error}", history=schedule)
        ctx.outcome(f"{pair} {switches(schedule)} switches")
    ctx.sample(dict(pair=pair, schedule=case["schedules"][-1]))


def replay(case, history, ctx):
    prepare([case["pair"]])
    run(dict(case, schedules=[history]), ctx)
