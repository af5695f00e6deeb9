"""C14: killed intermittent builds resume to the uninterrupted result.

The real builder runs inside a directory of its own while every operation
that changes the file system is a crash point (an audit hook sees all of
them, whatever function issues them).  A killed process leaves exactly what
is in the file system at that moment; data written to a file that is not
closed yet is buffered and may reach it up to any length.  The state of the
whole directory is therefore recorded at each crash point, with every class
of lengths for each open file.  Real kills (fork and _exit) at the same
points confirm that the recorded states are the real ones.
"""
import builtins
import io
import itertools
import os
import shutil
import sys

from mc import core, grids, objects, worlds

LEVEL = "fault_enumeration"
RULE = ("every file-system operation of the build x every order of listing "
    "the folder (up to rotation and reversal) x every length class "
    "of each file being written at that moment is a crash; every distinct "
    "directory state is recovered with the real loader; crashes during the "
    "resumed build are enumerated the same way (quick: from every distinct "
    "state after a completed write, rename, creation or removal of the "
    "smallest grid; thorough: from every state); the same with failing "
    "operations and keyboard interrupts; from every crash state every "
    "unrelated build, load and save. Evaluations are recoveries, all of "
    "distinct directory states")
ASSUMPTIONS = ["the process is killed, the machine is not: operations that "
    "completed are in the file system in order",
    "a file that is being written is cut at no byte, one, the end of the "
    "header, the middle, one missing or none missing"]
CASE_TIMEOUT = 600

FOLDER = "./.temp_shallot"
NOTES = "notes.txt"

TINY = (0.0, 1.0, 1, 0.0, 1.0, 2, 2.0, 1, 20)
ROWS = (-0.4, 1.0, 2, 0.25, 1.0, 3, 2.0, 2, 20)
QUADRANT = (0.0, 1.0, 2, 0.0, 1.0, 3, 3.0, 2, 20)
SINGLE = (0.5, 1.0, 2, 0.5, 1.0, 1, 2.0, 1, 20)
OTHER = (-1.0, 1.0, 3, -0.5, 0.5, 4, 2.0, 2, 20)
CONFIGS = dict(tiny=TINY, rows=ROWS, quadrant=QUADRANT, single=SINGLE,
    other=OTHER)

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = {"os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link",
    "os.symlink", "os.truncate", "os.utime", "os.chmod", "shutil.move"}
ORDERS = (0, -1)
REAL_OPEN = builtins.open
PROBE = None
HOOKED = False


# ------------------------------------------------------------ crash points

class Buffered(io.BufferedIOBase):
    """A writer whose data only reaches the file when it is flushed."""

    def __init__(self, probe, file, path):
        self.probe, self.file, self.pending = probe, file, []
        self.path, self.name, self.mode = path, path, file.mode
        probe.files.append(self)

    def writable(self):
        return True

    def readable(self):
        return self.file.readable()

    def seekable(self):
        return True

    def write(self, data):
        data = bytes(memoryview(data).cast("B")) if not isinstance(data,
            bytes) else data
        self.pending.append(data)
        return len(data)

    def flush(self):
        if self.pending:
            data = b"".join(self.pending)
            self.probe.point(f"flush {self.path}")
            self.pending = []
            self.file.write(data)
        if not self.file.closed:
            self.file.flush()

    def read(self, *args):
        self.flush()
        return self.file.read(*args)

    def seek(self, *args):
        self.flush()
        return self.file.seek(*args)

    def tell(self):
        self.flush()
        return self.file.tell()

    def truncate(self, *args):
        self.flush()
        return self.file.truncate(*args)

    def fileno(self):
        self.flush()
        return self.file.fileno()

    def close(self):
        if not self.closed:
            self.flush()
            self.file.close()
            if self in self.probe.files:
                self.probe.files.remove(self)
            self.probe.point(f"closed {self.path}")
            super().close()


def lengths(size):
    return sorted({0, 1, 64, 128, size // 2, size - 1, size} & set(range(
        size + 1)))


def tree(root):
    found = {}
    for base, folders, names in os.walk(root):
        for name in names:
            path = os.path.join(base, name)
            with REAL_OPEN(path, "rb") as file:
                found[os.path.relpath(path, root)] = file.read()
        for name in folders:
            found[os.path.relpath(os.path.join(base, name), root)] = None
    return found


def key_of(state):
    return core.hashlib.blake2b(repr(sorted(state.items())).encode(),
        digest_size=16).digest()


def lay(state, root):
    os.makedirs(root)
    for name in sorted(state):
        path = os.path.join(root, name)
        if state[name] is None:
            os.makedirs(path, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with REAL_OPEN(path, "wb") as file:
                file.write(state[name])


def arranged(items, order, key=str):
    """File systems list folders in any order; this makes it a choice."""
    items = sorted(items, key=key)
    if order < 0:
        items.reverse()
    if items:
        shift = abs(order) % len(items)
        items = items[shift:] + items[:shift]
    return items


class Listing:
    """os.scandir in the chosen order."""

    def __init__(self, probe, *path):
        with probe.scandir(*path) as found:
            self.items = iter(arranged(found, probe.order, key=lambda e:
                e.name))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


class Probe:
    """Observes one run; optionally kills it or fails its k-th operation."""

    def __init__(self, root, observe=None, stop_at=None, fault=None,
            order=0):
        self.root, self.order = root, order
        self.observe, self.stop_at, self.fault = observe, stop_at, fault
        self.files = []
        self.number = 0
        self.saves = 0
        self.paused = False

    def __enter__(self):
        global PROBE, HOOKED
        if not HOOKED:
            sys.addaudithook(audit)
            HOOKED = True
        import Shallot
        self.save = Shallot.ShallotGrid.save
        probe = self

        def save(grid, *args, **kwargs):
            result = probe.save(grid, *args, **kwargs)
            probe.saves += 1
            return result

        Shallot.ShallotGrid.save = save
        builtins.open = io.open = self.open
        self.scandir, self.listdir = os.scandir, os.listdir
        os.scandir = lambda *path: Listing(probe, *path)
        os.listdir = lambda *path: arranged(self.listdir(*path), self.order)
        PROBE = self
        return self

    def __exit__(self, *_):
        global PROBE
        import Shallot
        PROBE = None
        builtins.open = io.open = REAL_OPEN
        os.scandir, os.listdir = self.scandir, self.listdir
        Shallot.ShallotGrid.save = self.save

    def inside(self, path):
        path = os.path.abspath(os.fsdecode(path))
        return path == self.root or path.startswith(self.root + os.sep)

    def open(self, path, mode="r", buffering=-1, encoding=None, *args,
            **kwargs):
        if (not set(mode) & set("wax+") or isinstance(path, int)
                or not self.inside(path)):
            return REAL_OPEN(path, mode, buffering, encoding, *args,
                **kwargs)
        binary = mode.replace("t", "")
        if "b" not in binary:
            binary += "b"
        file = Buffered(self, REAL_OPEN(path, binary, *args, **kwargs),
            os.path.abspath(os.fsdecode(path)))
        if "b" in mode:
            return file
        return io.TextIOWrapper(file, encoding)

    def point(self, label):
        """The process may be killed right before this operation."""
        if self.paused:
            return
        self.number += 1
        if self.number == self.stop_at:
            if self.fault is None:
                os._exit(77)
            raise self.fault
        if self.observe:
            self.paused = True
            try:
                self.observe(self, label)
            finally:
                self.paused = False

    def states(self):
        """Every directory state a kill at this moment can leave."""
        now = tree(self.root)
        yield "", now
        for file in list(self.files):
            data = b"".join(file.pending)
            name = os.path.relpath(file.path, self.root)
            if data and name in now:
                for length in lengths(len(data)):
                    if length:
                        yield (f" {name} cut at {length} of {len(data)}",
                            {**now, name: now[name] + data[:length]})


def audit(event, args):
    probe = PROBE
    if probe is None or probe.paused:
        return
    if event == "open":
        path, mode, flags = args
        if (isinstance(path, (str, bytes)) and flags & WRITE
                and probe.inside(path)):
            probe.point(f"open {path}")
    elif event in EVENTS:
        path = args[0]
        # paths relative to an open folder come from removing a tree
        if not isinstance(path, (str, bytes, os.PathLike)) or (not
                os.path.isabs(path)) or probe.inside(path):
            probe.point(f"{event} {path}")


# ------------------------------------------------------------------- oracle

def build(config, diagnostics, intermittent=True):
    return grids.build(CONFIGS[config], keep_diagnostics=diagnostics,
        intermittent_saving=intermittent)


def load(path=FOLDER):
    from Shallot import ShallotGrid
    return ShallotGrid.load(path, logging_level=50)


def progress():
    """How many cells the grid that is being built has by now."""
    import numpy as np
    from Shallot import ShallotGrid
    frame, found = sys._getframe(1), None
    while frame is not None:
        grid = frame.f_locals.get("self")
        if isinstance(grid, ShallotGrid):
            found = grid
        frame = frame.f_back
    data = getattr(getattr(found, "disk_radius", None), "data", None)
    return None if data is None else int(np.sum(np.isfinite(data)))


class Run:
    """All crash states of one run of a build or of a resumed build."""

    def __init__(self, start, action, order=0, observe=True):
        self.root = os.path.abspath(objects.temporary())
        shutil.rmtree(self.root)
        lay(start, self.root)
        self.moments = []       # (label, states, saves so far, progress)
        self.seen = {}
        here = os.getcwd()
        os.chdir(self.root)
        try:
            with Probe(self.root, self.observe if observe else None,
                    order=order) as probe:
                self.result = core.attempt(action)
                probe.paused = True
                self.saves = probe.saves
                self.points = probe.number
        finally:
            os.chdir(here)
        self.final = tree(self.root)
        shutil.rmtree(self.root)
        self.moments.append(("end", [("", self.final)], self.saves, None))

    def observe(self, probe, label):
        cells = progress()
        self.moments.append((label.replace(self.root, "."), list(
            probe.states()), probe.saves, cells))


class Recovery:
    """Loads directory states, remembering those already loaded."""

    def __init__(self, ctx, expected, older=None):
        self.ctx, self.expected, self.older = ctx, expected, older
        self.memo = {}

    def __call__(self, state, path=FOLDER):
        key = key_of(state), path
        if key not in self.memo:
            self.memo[key] = self.judge(state, path)
            self.ctx.add(evaluations=1)
            self.ctx.distinct("distinct_nontrivial", key)
            self.ctx.outcome(self.memo[key][0])
            if len(self.memo) % 50 == 0:
                core.drop_loggers()
        return self.memo[key]

    def judge(self, state, path):
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(state, root)
        here = os.getcwd()
        os.chdir(root)
        try:
            grid = core.attempt(load, path)
            left = tree(root)
        finally:
            os.chdir(here)
            shutil.rmtree(root)
        folder = os.path.normpath(FOLDER)
        touched = {n for n in {*state, *left} if not n.startswith(folder)
            and state.get(n, 0) != left.get(n, 0)}
        if touched:
            return "wrong", f"loading changed {sorted(touched)}"
        if isinstance(grid, core.Raised):
            if {n: c for n, c in state.items() if c is not None} != {
                    n: c for n, c in left.items() if c is not None}:
                return "wrong", f"failed to load ({grid}) and changed it"
            return "raised", repr(grid)
        if folder in left and left != state:
            return "wrong", "the completed build left its checkpoint behind"
        seen = worlds.observe(grid)
        for name, expected in (("same", self.expected), ("older",
                self.older)):
            if expected is not None and core.same(expected, seen):
                return name, ""
        return "wrong", "another grid than the uninterrupted build: " + (
            core.first_difference(self.expected, seen))


def reference(config, diagnostics):
    return worlds.observe(build(config, diagnostics, False))


def check_run(ctx, run, recover, label, resumed=False):
    """Judge every crash state of a run; returns the recoverable ones."""
    ctx.check(not isinstance(run.result, core.Raised), f"{label}: the "
        f"build fails: {run.result}")
    folder = os.path.normpath(FOLDER)
    ctx.check(folder not in run.final, f"{label}: the completed build left "
        "its checkpoint behind")
    full = max([m[3] for m in run.moments if m[3] is not None] or [0])
    reached = resumed
    unsafe = None
    good = []
    for moment, states, saves, cells in run.moments[:-1]:
        for detail, state in states:
            outcome, why = recover(state)
            at = f"{label}: killed before {moment}{detail}"
            if outcome == "wrong":
                ctx.fail(f"{at}: {why}")
            elif outcome == "older":
                ctx.check(not reached, f"{at}: the older checkpoint is back")
                ctx.check(saves == 0, f"{at}: still the older checkpoint "
                    "after the first row was saved")
            elif outcome == "raised":
                if reached or saves:
                    ctx.check(cells is None or cells >= full, f"{at}: the "
                        f"checkpoint is lost before the build is complete: "
                        f"{why}")
                    unsafe = unsafe or (at, why)
            else:
                reached = True
                ctx.check(unsafe is None, lambda: f"{unsafe[0]}: the "
                    f"checkpoint can not be loaded ({unsafe[1]}), later it "
                    "can")
                good.append((moment + detail, state))
            if outcome == "raised":
                good.append((None, state))
    ctx.check(reached, f"{label}: no moment of the build leaves a "
        "checkpoint that can be resumed")
    return good


# -------------------------------------------------------------------- cases

def cases(tier):
    out = []
    for name in ("tiny", "rows", "quadrant", "single"):
        for diagnostics in (False, True):
            for before in ("nothing", "checkpoint", "leftover",
                    "half removed"):
                if tier == "quick" and before != "nothing" and name in (
                        "single", "rows"):
                    continue
                out.append(dict(kind="once", config=name, diagnostics=
                    diagnostics, before=before))
    parts = 4 if tier == "quick" else 16
    twice = [("tiny", True)] if tier == "quick" else [("tiny", True),
        ("tiny", False), ("rows", True), ("quadrant", False)]
    for name, diagnostics in twice:
        for part in range(parts):
            out.append(dict(kind="twice", config=name, diagnostics=
                diagnostics, part=part, parts=parts))
    for name, diagnostics in (("tiny", True), ("quadrant", False))[:1 if
            tier == "quick" else 2]:
        for part in range(4):
            out.append(dict(kind="kill", config=name, diagnostics=
                diagnostics, part=part, parts=4))
            for fault in ("disk full", "interrupt"):
                out.append(dict(kind="fault", config=name, diagnostics=
                    diagnostics, part=part, parts=4, fault=fault))
    for diagnostics in (False, True):
        out.append(dict(kind="others", config="rows", diagnostics=
            diagnostics))
    for name, before in itertools.product(("tiny", "quadrant"), ("nothing",
            "checkpoint")):
        for diagnostics in (False, True):
            out.append(dict(kind="again", config=name, diagnostics=
                diagnostics, before=before))
    return out


def earlier(before):
    """What is in the directory before the build starts."""
    state = {NOTES: b"mine"}
    if before == "nothing":
        return state, None
    run = Run(state, lambda: build("other", True))
    if before == "half removed":
        # killed while the checkpoint of a completed build was removed
        moments = [m for m in run.moments[:-1] if os.path.normpath(FOLDER)
            not in m[1][0][1] and m[2]]
        return dict(moments[len(moments) // 2][1][0][1]), None
    # the checkpoint of two rows of another, bigger grid with diagnostics
    moments = [m for m in run.moments if m[2] == 2]
    state = dict(moments[0][1][0][1])
    if before == "leftover":
        # an older checkpoint that was already damaged by other means
        folder = os.path.normpath(FOLDER)
        for name in list(state):
            if name.startswith(folder) and "DISK" in name:
                del state[name]
        return state, None
    return state, reference("other", True)


def run(case, ctx):
    globals()[case["kind"]](case, ctx)
    ctx.sample(case)


def once(case, ctx):
    expected = reference(case["config"], case["diagnostics"])
    start, older = earlier(case["before"])
    label = f"{case['config']} after {case['before']}"
    recover = Recovery(ctx, expected, older)
    # the order in which an earlier checkpoint's files are listed
    orders = {"nothing": ORDERS, "half removed": range(-2, 3)}.get(
        case["before"], range(-16, 16) if ctx.tier ==
        "thorough" or case["config"] == "tiny" else range(-5, 5))
    for order in orders:
        first = Run(start, lambda: build(case["config"],
            case["diagnostics"]), order)
        ctx.add(crash_points=first.points)
        if not isinstance(first.result, core.Raised):
            ctx.check(core.same(expected, worlds.observe(first.result)),
                f"{label}: intermittent saving changes the grid")
        good = check_run(ctx, first, recover, label)
    # other ways to name the folder
    sample = [state for moment, state in good if moment]
    for path in (".temp_shallot", "./.temp_shallot/"):
        for state in sample[::max(1, len(sample) // 3)]:
            outcome, why = recover(state, path)
            ctx.check(outcome == "same", f"{label}: loading {path}: "
                f"{outcome} {why}")


def distinct(good, every):
    out = {}
    for moment, state in good:
        if moment and (every or (" cut at" not in moment and not
                moment.startswith(("flush", "open")))):
            out.setdefault(key_of(state), (moment, state))
    return list(out.values())


def twice(case, ctx):
    expected = reference(case["config"], case["diagnostics"])
    first = Run({NOTES: b"mine"}, lambda: build(case["config"],
        case["diagnostics"]))
    quiet = core.Context(ctx.tier)
    recover = Recovery(quiet, expected)
    starts = distinct(check_run(quiet, first, recover, "first"), ctx.tier ==
        "thorough")
    if quiet.failures:
        ctx.fail(quiet.failures[0]["message"])
        return
    recover.ctx = ctx
    for number, (moment, state) in enumerate(starts):
        if number % case["parts"] != case["part"]:
            continue
        second = Run(state, load)
        ctx.add(crash_points=second.points)
        check_run(ctx, second, recover, f"{case['config']} killed before "
            f"{moment}, resumed", resumed=True)
        core.drop_loggers()


def kill(case, ctx):
    """Real kills leave exactly the recorded states."""
    start = {NOTES: b"mine"}
    first = Run(start, lambda: build(case["config"],
        case["diagnostics"]))
    for number in range(1, first.points + 1):
        if number % case["parts"] != case["part"]:
            continue
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(start, root)
        child = os.fork()
        if child == 0:
            try:
                os.chdir(root)
                with Probe(root, None, number):
                    build(case["config"], case["diagnostics"])
            finally:
                os._exit(1)
        _, status = os.waitpid(child, 0)
        left = tree(root)
        shutil.rmtree(root)
        ctx.add(evaluations=1, real_kills=1)
        moment = first.moments[number - 1]
        ctx.check(os.waitstatus_to_exitcode(status) == 77, "the second run "
            f"of the same build differs: no operation {number}")
        ctx.check(left == moment[1][0][1], f"killed before {moment[0]}: the "
            "directory differs from the recorded one (the build depends on "
            "something else than its arguments)")


def fault(case, ctx):
    """A failing operation or an interrupt is no worse than a kill."""
    expected = reference(case["config"], case["diagnostics"])
    start = {NOTES: b"mine"}
    recover = Recovery(ctx, expected)
    first = Run(start, lambda: build(case["config"],
        case["diagnostics"]))
    full = max(m[3] or 0 for m in first.moments[:-1])
    for number in range(1, first.points + 1):
        if number % case["parts"] != case["part"]:
            continue
        root = os.path.abspath(objects.temporary())
        shutil.rmtree(root)
        lay(start, root)
        error = (OSError(28, "No space left on device") if case["fault"] ==
            "disk full" else KeyboardInterrupt())
        here = os.getcwd()
        os.chdir(root)
        survived = True
        try:
            with Probe(root, None, number, error):
                try:
                    build(case["config"], case["diagnostics"])
                except (OSError, KeyboardInterrupt):
                    survived = False
        finally:
            os.chdir(here)
        left = tree(root)
        shutil.rmtree(root)
        label, _, saves, cells = first.moments[number - 1]
        at = f"{case['fault']} at {label}"
        if survived:
            continue
        outcome, why = recover(left)
        ctx.check(outcome != "wrong", f"{at}: {why}")
        if outcome == "raised":
            ctx.check(saves == 0 or (cells or 0) >= full, f"{at}: the "
                f"checkpoint is lost: {why}")
            later = [m for m in first.moments[number:-1] if m[2] > saves]
            ctx.check(saves == 0 or not later, f"{at}: the checkpoint is "
                f"lost: {why}")


def again(case, ctx):
    """Whatever a kill left behind, the next build is not affected."""
    start, _ = earlier(case["before"])
    first = Run(start, lambda: build(case["config"],
        case["diagnostics"]))
    states = {}
    for moment, found, _, _ in first.moments:
        for detail, state in found:
            states.setdefault(key_of(state), (moment + detail, state))
    for name, diagnostics in (("single", True), ("rows", False)):
        expected = reference(name, diagnostics)
        for moment, state in states.values():
            run = Run(state, lambda: build(name, diagnostics), observe=False)
            ctx.add(evaluations=1, distinct_nontrivial=1)
            at = f"a new build after one killed before {moment}"
            if not ctx.check(not isinstance(run.result, core.Raised),
                    f"{at} fails: {run.result}"):
                continue
            ctx.check(core.same(expected, worlds.observe(run.result)),
                f"{at} is another grid")
            ctx.check(run.final == {NOTES: b"mine"}, f"{at} leaves "
                f"{sorted(run.final)[:4]}")
        core.drop_loggers()


def others(case, ctx):
    """Unrelated work never touches a checkpoint."""
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    first = Run({NOTES: b"mine"}, lambda: build(case["config"],
        case["diagnostics"]))
    parameters = GridParameters(*TINY[:-1])
    saved = {}
    for name, state in (("plain", [TINY, "fresh", False]), ("rich",
            [worlds.SMALL, "fitted", True])):
        root = os.path.abspath(f"made-{name}")
        objects.make_grid(state).save(root)
        saved.update({f"{name}/{k}": v for k, v in tree(root).items()})
        saved[name] = None
    broken = {"broken": None, **{f"broken/{k[6:]}": v for k, v in
        saved.items() if k.startswith("plain/") and "TILT" not in k}}
    grid = objects.make_grid([worlds.SMALL, "measured", False])

    def shifted(axis):
        return ShallotGrid(parameters, 20, logging_level=50, **axis)

    work = {
        "a build": lambda: build("tiny", False, False),
        "a build with diagnostics": lambda: build("tiny", True, False),
        "loading a grid": lambda: load("plain"),
        "loading a grid with history": lambda: load("rich"),
        "failing to load a damaged grid": lambda: load("broken"),
        "failing to load a missing grid": lambda: load("missing"),
        "failing to load a file": lambda: load(NOTES),
        "saving a grid": lambda: grid.save("new"),
        "failing to save a grid": lambda: grid.save("plain"),
        "a rejected resolution": lambda: ShallotGrid(parameters, 0, 50,
            False, True),
        "rejected parameters": lambda: ShallotGrid("x", 20, 50, False,
            True),
        "a rejected logging level": lambda: ShallotGrid(parameters, 20, 5,
            False, True),
        "a rejected diagnostics flag": lambda: shifted(dict(
            keep_diagnostics="yes", intermittent_saving=True)),
        "a rejected saving flag": lambda: shifted(dict(intermittent_saving=
            "yes")),
    }
    states = {}
    for moment, found, _, _ in first.moments[:-1]:
        folder = os.path.normpath(FOLDER)
        if folder in found[0][1] and not moment.startswith(("flush",
                "open")):
            states.setdefault(key_of(found[0][1]), (moment, found[0][1]))
    for number, (moment, state) in enumerate(states.values()):
        if ctx.tier == "quick" and number % 3:
            continue
        for name, action in work.items():
            root = os.path.abspath(objects.temporary())
            shutil.rmtree(root)
            lay({**state, **saved, **broken}, root)
            before = tree(root)
            here = os.getcwd()
            os.chdir(root)
            try:
                core.attempt(action)
            finally:
                os.chdir(here)
            after = tree(root)
            shutil.rmtree(root)
            ctx.add(evaluations=1)
            changed = {n for n in {*before, *after} if n != "new" and not
                n.startswith("new/") and before.get(n, 0) != after.get(n,
                0)}
            ctx.check(not changed, f"{name} changed {sorted(changed)[:4]} "
                f"(checkpoint killed before {moment})")
        core.drop_loggers()
