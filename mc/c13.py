"""C13: damaged or missing saved data is refused."""
import os
import shutil

import numpy as np

from mc import c12, core, objects, worlds

LEVEL = "fault_enumeration"
RULE = ("for every kind of saved object in several states: every file x "
    "truncation to every length (quick tier, grids only: the first 10, around "
    "the header end, the last 9, and every 16th length), every file "
    "that all saves of its kind write removed; the real loader must raise "
    "and leave the directory as it was; and every way of a directory "
    "existing already x saving a grid. Each fault is distinct; all are "
    "non-trivial")
ASSUMPTIONS = ["one damaged file at a time",
    "optional files (masks, measurements, fit, eclipse parameters) carry no "
    "trace of having existed, so only their truncation is enumerated"]

GRIDS = [[worlds.SMALL, "fresh", True], [worlds.SMALL, "fitted", False],
    [worlds.OFFSET, "refitted", True], [worlds.SMALL, "measured", False]]


def component_names():
    out = []
    for group in c12.COMPONENTS:
        for name, (slot, _) in c12.COMPONENTS[group].items():
            out.append((group, name, slot))
    return out


def cases(tier):
    out = [dict(kind="component", group=g, name=n, slot=s) for g, n, s in
        component_names()]
    parts = 4 if tier == "quick" else 40
    for state in GRIDS:
        for part in range(parts):
            out.append(dict(kind="grid", state=state, part=part,
                parts=parts))
    out.append(dict(kind="existing", state=GRIDS[1]))
    return out


def files(root):
    found = []
    for base, _, names in os.walk(root):
        found += [os.path.relpath(os.path.join(base, n), root) for n in
            names]
    return sorted(found)


def lengths(size, every):
    if every:
        return list(range(size))
    wanted = {*range(min(10, size)), *range(max(0, size - 9), size),
        *range(0, size, 16), *range(126, 131)}
    return sorted(n for n in wanted if n < size)


def enumerate_faults(ctx, root, load, required, label, every, part=0,
        parts=1):
    intact = c12.contents(root)
    names = files(root)
    result = core.attempt(load)
    if not ctx.check(not isinstance(result, core.Raised),
            f"{label}: intact data does not load: {result}"):
        return
    ctx.check(c12.contents(root) == intact, f"{label}: loading changed "
        "the directory")
    for number, name in enumerate(names):
        if number % parts != part:
            continue
        path = os.path.join(root, name)
        whole = open(path, "rb").read()
        for length in lengths(len(whole), every):
            with open(path, "wb") as file:
                file.write(whole[:length])
            refused(ctx, root, load, f"{label}: {name} truncated to "
                f"{length} of {len(whole)} bytes")
        if name in required:
            os.remove(path)
            refused(ctx, root, load, f"{label}: {name} missing")
        for how, other in reshaped(path, whole):
            with open(path, "wb") as file:
                np.save(file, other)
            refused(ctx, root, load, f"{label}: {name} {how}")
        with open(path, "wb") as file:
            file.write(whole)
        core.drop_loggers()
    ctx.check(not isinstance(core.attempt(load), core.Raised),
        f"{label}: restored data does not load")


def reshaped(path, whole):
    """What an array with a value for every cell may not be replaced by."""
    if os.path.basename(path) in ("dx.npy", "dy.npy"):
        return
    with open(path, "wb") as file:
        file.write(whole)
    array = np.load(path, allow_pickle=True)
    if array.ndim != 3:
        return
    for axis, size in enumerate(array.shape):
        yield f"longer along {axis}", np.concatenate([array, array.take([
            0], axis)], axis)
        yield f"twice along {axis}", np.concatenate([array, array], axis)
        yield f"shorter along {axis}", array.take(range(size - 1), axis)
        if size > 1:
            yield f"reduced along {axis}", array.take([0], axis)
        yield f"without dimension {axis}", array.take(0, axis)
    for order in ((0, 2, 1), (1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
        if array.transpose(order).shape != array.shape:
            yield f"transposed to {order}", array.transpose(order).copy()
    yield "flattened", array.ravel()
    yield "with a fourth dimension", array[None]
    yield "with one value", array.ravel()[0]
    yield "without values", array[:0, :0, :0]


def refused(ctx, root, load, label):
    before = c12.contents(root)
    ctx.add(evaluations=1)
    # what is on the disk is what makes a case
    ctx.distinct("distinct_nontrivial", before)
    result = core.attempt(load)
    ctx.check(isinstance(result, core.Raised), f"{label}: silently accepted")
    ctx.check(c12.contents(root) == before, f"{label}: loading changed the "
        "directory")
    if isinstance(result, core.Raised):
        ctx.outcome(result.kind)


def run(case, ctx):
    if case["kind"] == "component":
        component(case, ctx)
    elif case["kind"] == "existing":
        existing(case, ctx)
    else:
        whole_grid(case, ctx)
    ctx.sample(case)


def required_of(group, slot):
    """Names of the files that every save of this kind of component writes."""
    if slot.startswith("g"):
        slots = [s for s in c12.slots(group) if s.startswith("g")]
    else:
        slots = [slot]
    common = None
    for number, (name, (other, make)) in enumerate(
            c12.COMPONENTS[group].items()):
        if other not in slots:
            continue
        root = os.path.join(objects.temporary(), "sample")
        c12.write(other, make(), root)
        found = {n if len(slots) == 1 else os.path.basename(n) for n in
            files(root) if len(slots) == 1 or "/" in n}
        common = found if common is None else common & found
    return common


def component(case, ctx):
    group, slot = case["group"], case["slot"]
    required = required_of(group, slot)
    root = os.path.abspath("target")
    c12.write(slot, c12.COMPONENTS[group][case["name"]][1](), root)
    if slot.startswith("g"):
        # a gradient is read from its own folder only
        for name in files(root):
            if "/" not in name:
                os.remove(os.path.join(root, name))
        required = {n for n in files(root) if os.path.basename(n) in
            required}
    ctx.add(evaluations=1)
    if not ctx.check(required, "saving wrote no file"):
        return
    enumerate_faults(ctx, root, lambda: c12.read(slot, root), required,
        case["name"], True)


def whole_grid(case, ctx):
    from Shallot import ShallotGrid
    grid = objects.make_grid(case["state"])
    root = os.path.abspath("target")
    grid.save(root)
    # what every grid, every gradient and every diagnostics store writes
    required = set()
    for number, state in enumerate([[worlds.SMALL, "fresh", False],
            *GRIDS]):
        sample = os.path.join(objects.temporary(), "sample")
        objects.make_grid(state).save(sample)
        kinds = {n for n in files(sample) if "/" not in n}
        required = kinds if number == 0 else required & kinds
    if case["state"][2]:
        objects.make_diagnostics([c12.AXES, False]).save("store")
        required |= set(files("store"))
    inner = required_of("properties", "g0.1")
    required |= {n for n in files(root) if "/" in n and os.path.basename(n)
        in inner}
    enumerate_faults(ctx, root, lambda: ShallotGrid.load(root,
        logging_level=50), required, f"grid {case['state']}",
        ctx.tier == "thorough", case["part"], case["parts"])


def existing(case, ctx):
    grid = objects.make_grid(case["state"])
    other = worlds.grids.build(worlds.OFFSET)

    def folder(path):
        os.mkdir(path)

    def filled(path):
        os.mkdir(path)
        open(f"{path}/notes", "w").write("mine")
        open(f"{path}/dx.npy", "w").write("mine")

    def file(path):
        open(path, "w").write("mine")

    for number, (name, make) in enumerate([("empty folder", folder),
            ("foreign files", filled), ("a file", file),
            ("a saved grid", other.save), ("the same grid", grid.save)]):
        path = os.path.abspath(f"there{number}/x")
        os.mkdir(os.path.dirname(path))
        make(path)
        for way in (path, os.path.relpath(path)):
            before = c12.contents(os.path.dirname(path))
            result = core.attempt(grid.save, way)
            ctx.add(evaluations=1)
            ctx.distinct("distinct_nontrivial", before)
            ctx.check(isinstance(result, core.Raised), f"saving over {name} "
                "was not refused")
            ctx.check(c12.contents(os.path.dirname(path)) == before,
                f"refusing to save over {name} changed it")
    shutil.rmtree(os.path.abspath("there0"))
