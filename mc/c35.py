"""C35: the settings of the process do not change what is computed."""
import copy
import io
import itertools
import os
import pickle
import subprocess
import sys

import matplotlib
import matplotlib.patches
import numpy as np

from mc import c08, c24, core, objects
from mc.core import first_difference, same

LEVEL = "model_checking"
RULE = ("every program of an alphabet (building, measuring, masking, "
    "fitting, querying, drawing, saving, loading, editing rings) is executed "
    "in a process of its own under every setting, and under every pair of "
    "settings from different groups: numpy's floating point error handling, "
    "warnings as errors, print options, random state, matplotlib styles and "
    "parameters, logging configuration, file mode mask, recursion limit, "
    "garbage collection, other threads, locale, time zone, hash seeds and "
    "interpreter options. Every result, the final state and every byte saved "
    "must be those of the program in a process with no settings; the "
    "settings must stay as they are. states = (program, settings), "
    "transitions = steps executed")
ASSUMPTIONS = ["deprecation notices of the installed libraries are not among "
    "the warnings turned into errors", "numpy may refuse a division by zero "
    "or an overflow of extreme arguments when asked to raise errors", "parameters of matplotlib are not "
    "set to what makes drawing itself fail (LaTeX)"]
CASE_TIMEOUT = 300


# --------------------------------------------------------------- settings

def numpy_errors(mode):
    def put():
        np.seterr(all=mode)
        if mode == "call":
            np.seterrcall(c24.ignore)
    return put


def strict():
    import warnings
    np.seterr(all="warn")
    for kind in (RuntimeWarning, UserWarning, np.ComplexWarning,
            np.VisibleDeprecationWarning, np.RankWarning):
        warnings.simplefilter("error", kind)


def printing(**options):
    return lambda: np.set_printoptions(**options)


def formatter():
    np.set_string_function(lambda array: "an array")


def seeded(seed):
    def put():
        import random
        np.random.seed(seed)
        random.seed(seed)
    return put


def style(name):
    return lambda: __import__("matplotlib.style").style.use(name)


def parameters(**values):
    return lambda: matplotlib.rcParams.update({k.replace("__", "."): v for
        k, v in values.items()})


def root_logging():
    import logging
    logging.basicConfig(level=logging.DEBUG, stream=io.StringIO(), force=True)


def no_logging():
    import logging
    logging.disable(logging.CRITICAL)


def own_loggers():
    import logging

    class Own(logging.Logger):
        pass
    logging.setLoggerClass(Own)
    logging.addLevelName(25, "NOTE")


def quiet_root():
    import logging
    logging.root.setLevel(logging.ERROR)
    logging.captureWarnings(True)


def mode_mask():
    os.umask(0o077)


def shallow():
    sys.setrecursionlimit(300)


def no_collection():
    import gc
    gc.disable()


def eager_collection():
    import gc
    gc.set_threshold(5, 2, 2)


def other_thread():
    import threading
    threading.Thread(target=threading.Event().wait, daemon=True).start()
    sys.setswitchinterval(1e-5)


def no_output():
    sys.stdout = None


def digits():
    import decimal
    decimal.getcontext().prec = 3


def figures():
    """A figure of the user's is open, and the current one."""
    import matplotlib.pyplot as plt
    _, axes = plt.subplots(2, 2)
    axes[0, 0].imshow(np.ones((2, 2)))
    plt.sca(axes[1, 0])
    plt.ion()


INNER = {
    "numpy": {f"numpy errors {m}": numpy_errors(m) for m in ("ignore",
        "raise", "call", "print")} | {"numeric warnings are errors": strict},
    "printing": {"short": printing(precision=1, threshold=2, edgeitems=1),
        "legacy": printing(legacy="1.13", suppress=True, sign="+"),
        "formatted": printing(formatter=dict(all=lambda v: "x")),
        "string function": formatter},
    "random": {"seed 0": seeded(0), "seed 5": seeded(5)},
    "matplotlib": {"dark": style("dark_background"), "classic":
        style("classic"), "fast": style("fast"), "other images": parameters(
        image__origin="upper", image__cmap="gray", image__aspect="auto",
        image__interpolation="bicubic", image__lut=7,
        image__composite_image=False), "other axes": parameters(
        axes__grid=True, axes__xmargin=0.4, axes__ymargin=0.3,
        axes__autolimit_mode="round_numbers", axes__axisbelow=True,
        axes__spines__top=False), "other marks": parameters(
        lines__marker="o", lines__linestyle="--", patch__facecolor="red",
        patch__force_edgecolor=True, patch__linewidth=4,
        text__parse_math=False, font__size=3), "a figure": figures},
    "logging": {"root": root_logging, "off": no_logging, "class":
        own_loggers, "quiet root": quiet_root},
    "process": {"mode mask": mode_mask, "recursion": shallow,
        "no collection": no_collection, "eager collection":
        eager_collection, "thread": other_thread, "no output": no_output,
        "decimals": digits},
}

# (interpreter options, environment variables)
OUTER = {
    "-O": (["-O"], {}), "-OO": (["-OO"], {}), "-bb": (["-bb"], {}),
    "-X dev": (["-X", "dev"], {}), "-X utf8=0": (["-X", "utf8=0"],
        dict(LC_ALL="C")),
    "hash seed 1": ([], dict(PYTHONHASHSEED="1")),
    "hash seed 2": ([], dict(PYTHONHASHSEED="2")),
    "locale": ([], dict(LC_ALL="C.UTF-8", LANG="C.UTF-8")),
    "zone": ([], dict(TZ="Pacific/Kiritimati")),
    "bare": ([], dict(HOME=None, USER=None, LOGNAME=None, LANG=None,
        COLUMNS="3")),
    "ASCII": ([], dict(PYTHONIOENCODING="ascii", LC_ALL="POSIX")),
}


def find(name):
    for group, settings in INNER.items():
        if name in settings:
            return group, settings[name]


# --------------------------------------------------------------- programs

def edge(patch):
    """The edges of the disk are those matplotlib is set to."""
    if isinstance(patch, matplotlib.patches.Circle):
        return None
    return list(patch.get_edgecolor()), patch.get_linewidth()


def editing():
    """Rings, drawn and read."""
    def construct(env, shared):
        from RingSystem import RingSystem
        env["it"] = RingSystem(0.4, *(shared(("array", r)) for r in
            c24.RADII), 60, -30, logging_level=50)
        return [str(env["it"]), repr(env["it"])]

    def draw(env, shared):
        def onto(ax):
            env["it"].plot(ax, 1, 2)
            return [[p.get_path().vertices, list(p.get_facecolor()),
                p.get_alpha(), edge(p)] for p in ax.patches], ax.get_xlim(), \
                ax.get_ylim(), ax.get_aspect(), ax.get_xlabel()
        return objects.figure(onto)

    def edit(env, shared):
        env["it"].split_rings(np.array([1, 2, 3]))
        env["it"].merge_rings()
        env["it"].remove_ring(0)
        return env["it"].get_rings_data()
    return ([construct, draw, edit], lambda env: objects.observe("system",
        env["it"]))


def pictured(config):
    """Slices of a quantity as they are put onto axes."""
    def construct(env, shared):
        env["it"] = copy.deepcopy(shared(("property", config)))
        return str(env["it"])

    def colour(number):
        def step(env, shared):
            env["it"].set_contrast_parameters(num_colors=number)
        return step

    def draw(axis, masked):
        def step(env, shared):
            def onto(ax):
                _, image = env["it"].plot_slice(axis, 0, ax, masked)
                return [np.ma.filled(image.get_array().astype(float),
                    np.nan), image.origin, list(image.get_extent()),
                    image.get_clim(), image.get_cmap().name,
                    image.get_cmap().N, ax.get_title(), ax.get_xlabel(),
                    ax.get_ylabel()]
            return objects.figure(onto)
        return step
    drawings = [draw(axis, masked) for axis in range(3) for masked in (True,
        False)]
    recoloured = [step for number in (2, 256, 300) for step in
        (colour(number), draw(0, True))]
    return ([construct] + drawings + recoloured, lambda env: objects.observe("property",
        env["it"]))


def verdict(told):
    return told.kind if isinstance(told, core.Raised) else "accepted"


def refusing(kind, number):
    """What is refused, with which kind of error."""
    def construct(env, shared):
        env["it"] = objects.MAKE[kind](objects.STATES[kind][number])

    def offer(env, shared):
        out = []
        for _, perform in c08.CALLS[kind](env["it"]):
            out.append(verdict(core.attempt(perform, copy.deepcopy(
                env["it"]))))
        return out
    return [construct, offer], lambda env: objects.observe(kind, env["it"])


def building():
    """What the constructors refuse."""
    def offer(env, shared):
        from GridParameters import GridParameters
        from Ring import Ring
        from RingSystem import RingSystem
        out = []
        for make, good in ((Ring, [1.0, 2.0, 0.5, 10.0, 20.0]),
                (GridParameters, [0.0, 1.0, 2, 0.0, 1.0, 2, 2.0, 2]),
                (RingSystem, [0.4, c08.f(1, 2), c08.f(2, 3), c08.f(0.5, 1),
                10.0, 20.0])):
            for position in range(len(good)):
                for bad in c08.BAD_NUMBERS + [0, 2, 0.5, c08.f(3, 1),
                        c08.f(1, 1.5), c08.f(1, 2, 3)]:
                    args = [*good[:position], bad, *good[position + 1:]]
                    out.append(verdict(core.attempt(make, *args)))
        return out
    return [offer], lambda env: None


def program(name):
    return PROGRAMS[name]()


PROGRAMS = {**c24.PROGRAMS, "rings": editing,
    "pictures": lambda: pictured(objects.AXES), "construction": building,
    **{f"refusals {kind}": (lambda kind=kind, number=number: refusing(kind,
        number)) for kind, number in dict(grid=3, parameters=1, property=1,
        gradient=1, diagnostics=0, ring=0, system=1).items()}}


def execute(name, settings):
    """In a process of its own: everything the program came to."""
    console = io.StringIO()
    real = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = console
    try:
        shared = c24.Shared()
        steps, final = program(name)
        env = dict(tag=0)
        seen = []
        for setting in settings:
            find(setting)[1]()
        before = situation()
        for step in steps:
            result = core.attempt(step, env, shared)
            now = situation()
            if not same(now, before):
                result = "changed the settings: " + first_difference(before,
                    now)
            seen.append([step.__name__, copy.deepcopy(result)])
        out = seen, core.attempt(final, env), shared.changed(), c24.listing()
    finally:
        sys.stderr, sys.stdout = real
    while c24.TROUBLE:
        out[0].append(["drawing", c24.TROUBLE.pop()])
    return out


def situation():
    import gc
    import logging
    here = c24.environment()
    for key in ("numpy_random", "python_random", "cwd"):
        here.pop(key)
    mask = os.umask(0)
    os.umask(mask)
    return dict(here, mask=mask, collecting=gc.isenabled(),
        threshold=gc.get_threshold(), disabled=logging.root.manager.disable,
        kind=logging.getLoggerClass().__name__)


def child(name, path):
    """Entry of a process started with other options."""
    folder = core.enter_case_dir()
    try:
        out = execute(name, [])
    except BaseException as error:
        out = f"ended by {error!r}"
    finally:
        core.leave_case_dir(folder)
    with open(path, "wb") as file:
        pickle.dump(out, file)


def forked(name, settings):
    receive, send = os.pipe()
    number = os.fork()
    if not number:
        try:
            os.close(receive)
            folder = core.enter_case_dir()
            try:
                out = execute(name, settings)
            except BaseException as error:
                out = f"ended by {error!r}"
            for setting in settings:
                if setting == "recursion":
                    sys.setrecursionlimit(1000)
            core.leave_case_dir(folder)
            with os.fdopen(send, "wb") as pipe:
                pickle.dump(out, pipe)
        finally:
            os._exit(0)
    os.close(send)
    with os.fdopen(receive, "rb") as pipe:
        text = pipe.read()
    os.waitpid(number, 0)
    return pickle.loads(text) if text else "ended early"


def launched(name, setting):
    options, variables = OUTER[setting]
    path = os.path.join(os.getcwd(), "result")
    env = dict(os.environ, **{k: v for k, v in variables.items() if v})
    for key, value in variables.items():
        if value is None:
            env.pop(key, None)
    subprocess.run([sys.executable, "-B", *options, "-c", "import sys\n"
        "from mc import core\ncore.bootstrap()\nfrom mc import c35\n"
        "c35.child(*sys.argv[1:])", name, path], env=env,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
    if not os.path.exists(path):
        return "ended early"
    with open(path, "rb") as file:
        text = file.read()
    os.remove(path)
    return pickle.loads(text)


# ------------------------------------------------------------- exploration

SMALL = [name for name in PROGRAMS if "grid" not in name]


def choices(name, tier):
    single = [s for group in INNER.values() for s in group]
    if name.split()[0] in ("refusals", "construction"):
        single = [s for s in single if s not in ("numpy errors raise",
            "numeric warnings are errors")]
    out = [(s,) for s in single]
    if tier == "thorough" or name in SMALL and "refusals" not in name:
        out += [(a, b) for a, b in itertools.permutations(single, 2) if
            find(a)[0] != find(b)[0] and (tier == "thorough" or
            list(INNER).index(find(a)[0]) < list(INNER).index(find(b)[0]))]
    return out


def cases(tier):
    out = []
    for name in PROGRAMS:
        grid = name not in SMALL
        parts = (4 if grid else 2) if tier == "quick" else 16
        for part in range(parts):
            out.append(dict(program=name, part=part, parts=parts))
        if grid and tier == "quick" and name not in ("grid talking",
                "grid other gradients", "refusals grid"):
            continue
        out.append(dict(program=name, outer=True))
    return out


def run(case, ctx, only=None):
    name = case["program"]
    plain = forked(name, [])
    if not ctx.check(not isinstance(plain, str), f"{name} without settings "
            f"{plain}"):
        return
    for step, result in plain[0]:
        ctx.check(not isinstance(result, core.Raised), f"{name} without "
            f"settings, {step}: {result}")
    if case.get("outer"):
        ways = [((s,), launched) for s in OUTER]
    else:
        ways = [(s, forked) for k, s in enumerate(choices(name, ctx.tier)) if
            k % case["parts"] == case["part"]]
    if only:
        ways = [(tuple(only), forked if find(only[0]) else launched)]
    for settings, how in ways:
        told = how(name, settings[0] if how is launched else settings)
        ctx.add(transitions=len(plain[0]), traces_validated_against_impl=1)
        ctx.distinct("states", (name, settings))
        ctx.outcome(f"{name} {settings}")
        problem = disagreement(plain, told)
        ctx.check(problem is None, lambda: f"{name} with {settings}: "
            f"{problem}", history=settings)
    ctx.sample(dict(program=name, settings=settings))


def disagreement(plain, told):
    if isinstance(told, str):
        return told
    for (step, wanted), (_, found) in zip(plain[0], told[0]):
        if not same(found, wanted, 1e-12):
            return f"{step}: {first_difference(wanted, found)}"
    if len(told[0]) != len(plain[0]):
        return f"{told[0][-1]}"
    if not same(told[1], plain[1], 1e-12):
        return f"at the end: {first_difference(plain[1], told[1])}"
    if told[2]:
        return f"an argument was changed: {told[2]}"
    if told[3] != plain[3]:
        names = sorted(n for n in {*told[3], *plain[3]} if told[3].get(n) !=
            plain[3].get(n))
        return f"saves other files: {names[:3]}"
    return None


def replay(case, history, ctx):
    run(case, ctx, only=history)
