"""C12: component save and load reproduce the latest saved state."""
import copy
import hashlib
import os
import shutil

from mc import core, objects
from mc.core import Violation

LEVEL = "model_checking"
RULE = ("breadth-first over histories of saving component variants (and of "
    "loading from one directory and saving into another) over two "
    "directories; after every step every component is loaded from every "
    "directory and compared with the one last saved there, and with a load "
    "error where none was saved; states are directory contents; histories "
    "replayed in fresh directories")
ASSUMPTIONS = ["components saved to one directory share their grid "
    "parameters, as the components of one grid do"]

AXES = [(0.0, 1.0, 2, 0.0, 0.5, 2, 2.0, 2), False]
SAME_SHAPE = [(0.0, 2.0, 2, -1.0, 0.5, 2, 3.0, 2), False]
BIG = [(0.0, 1.0, 3, 0.0, 0.5, 2, 2.0, 1), False]
MIRRORED = [(0.0, 1.0, 3, 0.0, 0.5, 2, 2.0, 1), True]


def varied(kind, position, factor):
    gradient = objects.make_gradient([AXES, kind])
    import numpy as np
    from GridProperty import GridGradient
    other = GridGradient(np.copy(gradient.get_data(False)) * factor,
        gradient.grid_parameters, position)
    if kind == "measured":
        other.determine_mask(0.3, 1.2, 0.8, 0.1)
    if kind == "both":
        other.determine_mask(0.2, 1.1, 0.7, 0.3)
        other.set_mask(objects.worlds.pattern(other.get_data().shape, 4))
    if kind == "cleared":
        other.set_mask(np.zeros(other.get_data().shape, bool))
    if kind == "masked":
        other.set_mask(objects.worlds.pattern(other.get_data().shape, 3))
    return other


def prop(name, variant):
    p = objects.make_property([AXES, name, variant if variant not in
        ("other", "cleared", "hidden") else "plain"])
    if variant in ("cleared", "hidden"):
        import numpy as np
        p.set_mask(np.full(p.get_data().shape, variant == "hidden"))
    if variant == "other":
        from GridProperty import GridProperty
        p = GridProperty(p.name, p.unit, p.get_data(False) * 2 + 1,
            p.grid_parameters)
    return p


COMPONENTS = {
    "properties": {
        **{f"{name}/{variant}": (name, lambda n=name, v=variant: prop(n, v))
            for name, variants in (("DISK_RADIUS", ("plain", "masked",
                "other", "cleared")), ("TILT", ("plain", "masked", "hidden"))
                ) for variant in
            variants},
        **{f"g{position}/{kind}{factor}": (f"g{position}",
            lambda k=kind, p=position, f=factor: varied(k, p, f))
            for position, kind, factor in ((0.1, "plain", 1), (0.1,
                "measured", 1), (0.1, "masked", 1), (0.1, "both", 0.5), (0.1, "cleared", 1),
                (0.1, "plain", 0.5), (-0.2, "measured", 0.25))},
    },
    "parameters": {f"parameters/{number}": ("parameters", lambda s=state:
        objects.make_parameters(s)) for number, state in enumerate((AXES,
            SAME_SHAPE, BIG, MIRRORED))},
    "diagnostics": {f"diagnostics/{name}": ("diagnostics", make) for name,
        make in (("empty", lambda: __import__("GridDiagnostics")
            .GridDiagnostics(objects.make_parameters(AXES))),
            ("recorded", lambda: objects.make_diagnostics([AXES, False])),
            ("extended", lambda: objects.make_diagnostics([AXES, True])),
            ("big", lambda: objects.make_diagnostics([BIG, False])))},
}
DIRECTORIES = ("d1", "d2")


def slots(group):
    return sorted({slot for slot, _ in COMPONENTS[group].values()})


def view(slot, obj):
    if slot == "parameters":
        return objects.view_parameters(obj)
    if slot == "diagnostics":
        return objects.view_diagnostics(obj)
    if slot.startswith("g"):
        return objects.view_gradient(obj)
    out = objects.view_property(obj)
    out.pop("contrast")
    return out


def write(slot, obj, directory):
    if slot.startswith("g"):
        os.makedirs(directory, exist_ok=True)
        obj.save_gradient(directory)
    else:
        obj.save(directory)


def read(slot, directory):
    from GridDiagnostics import GridDiagnostics
    from GridParameters import GridParameters
    from GridProperty import GridGradient, GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    if slot == "parameters":
        return GridParameters.load(directory)
    if slot == "diagnostics":
        return GridDiagnostics.load(directory)
    if slot.startswith("g"):
        return GridGradient.load(
            f"{directory}/gradient_{float(slot[1:]):.4f}")
    return GridProperty.load(directory, GridPropertyName[slot],
        GridPropertyUnit.NONE)


class World:
    """Two directories under a root, and what was last saved where."""

    number = 0

    def __init__(self, group):
        self.group = group
        self.last = {}
        self.root = self.fresh()

    @classmethod
    def fresh(cls):
        cls.number += 1
        path = os.path.abspath(f"world{cls.number}")
        os.mkdir(path)
        return path

    def __deepcopy__(self, memo):
        twin = World.__new__(World)
        twin.group, twin.last = self.group, dict(self.last)
        twin.root = self.fresh()
        shutil.copytree(self.root, twin.root, dirs_exist_ok=True)
        return twin

    def __del__(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, directory):
        return os.path.join(self.root, directory)


def contents(root):
    h = hashlib.sha1()
    for base, dirs, files in sorted(os.walk(root)):
        for name in sorted(files):
            path = os.path.join(base, name)
            h.update(os.path.relpath(path, root).encode())
            h.update(open(path, "rb").read())
        for name in sorted(dirs):
            h.update(name.encode())
    return h.hexdigest()


def canon(world):
    return (tuple(sorted(world.last.items())), contents(world.root))


def operations(world):
    out = [("save", name, d) for name in COMPONENTS[world.group] for d in
        DIRECTORIES]
    for (directory, slot) in sorted(world.last):
        for other in DIRECTORIES:
            if other != directory:
                out.append(("copy", slot, directory, other))
    return out


def apply(world, op):
    if op[0] == "save":
        slot, make = COMPONENTS[world.group][op[1]]
        component = make()
        before = view(slot, copy.deepcopy(component))
        write(slot, component, world.path(op[2]))
        if not core.same(before, view(slot, component)):
            raise Violation(f"saving changed the component {op[1]}")
        world.last[(op[2], slot)] = op[1]
    else:
        _, slot, source, target = op
        write(slot, read(slot, world.path(source)), world.path(target))
        world.last[(target, slot)] = world.last[(source, slot)]
    before = contents(world.root)
    for directory in DIRECTORIES:
        for slot in slots(world.group):
            told = core.attempt(read, slot, world.path(directory))
            name = world.last.get((directory, slot))
            if name is None:
                if not isinstance(told, core.Raised):
                    raise Violation(f"after {op}: {slot} loads from "
                        f"{directory} though it was never saved there")
                continue
            if isinstance(told, core.Raised):
                raise Violation(f"after {op}: loading {slot} from "
                    f"{directory}: {told}")
            expected = view(slot, COMPONENTS[world.group][name][1]())
            seen = view(slot, told)
            if not core.same(expected, seen):
                raise Violation(f"after {op}: {slot} in {directory} is not "
                    f"the last saved {name}: "
                    + core.first_difference(expected, seen))
    if contents(world.root) != before:
        raise Violation("loading changed the directory")


def cases(tier):
    out = []
    for group in COMPONENTS:
        for name in COMPONENTS[group]:
            depth = dict(properties=2, parameters=4, diagnostics=4)[group]
            if group == "properties":
                for second in COMPONENTS[group]:
                    out.append(dict(group=group, prefix=[("save", name,
                        "d1"), ("save", second, "d1")],
                        depth=(0 if tier == "quick" else 1) + 1))
            else:
                out.append(dict(group=group, prefix=[("save", name, "d1")],
                    depth=2 if tier == "quick" else 4))
    return out


def starter(case):
    def start():
        world = World(case["group"])
        for op in case["prefix"]:
            apply(world, tuple(op))
        return world
    return start


def run(case, ctx):
    core.explore(ctx, starter(case), operations, apply, canon,
        case["depth"], trace_every=2, label=lambda w: repr(sorted(
        w.last.items())))


def replay(case, history, ctx):
    core.replay_history(ctx, starter(case), apply, history or [])
