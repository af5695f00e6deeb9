"""Every kind of object in several states: factories, readers, observations."""
import copy
import itertools
import os
import tempfile

import numpy as np

from mc import grids, worlds
from mc.core import attempt

# ------------------------------------------------------------------ states

RECIPES = {
    "fresh": [],
    "hill": [("hill", 1.1)],
    "measured": [("eclipse", 1.0, 5.0, 0.3),
        ("add", (-0.2, 0.1, 0.1), (1.0, 0.6, 0.3), (0.5, 0.2, 1.0),
            (0.5, 1.0, 1.0))],
    "fitted": [("eclipse", 2.0, 5.0, 0.3), ("mask", "inclination", 5),
        ("mask", "fx_map", 3), ("hill", 1.6),
        ("add", (-0.6, 0.3), (0.4, 0.3), None, None), ("fit", False)],
    "refitted": [("eclipse", 1.0, 8.0, 1.0),
        ("add", (0.3, -0.1), (0.4, 0.3), (0.1, 0.2), None), ("fit", True),
        ("remove", (0,)), ("fit", True), ("scale", 9.0, None, (0.9,)),
        ("mask", "disk_radius", 4), ("mask", "tilt", 7), ("fit", True)],
}


def make_grid(state):
    config, recipe, diagnostics = state
    grid = grids.build(tuple(config), keep_diagnostics=diagnostics)
    for op in RECIPES[recipe]:
        worlds.perform(grid, op)
    return grid


def make_parameters(state):
    from GridParameters import GridParameters
    parameters = GridParameters(*state[0])
    if state[1]:
        parameters.extend_grid()
    return parameters


def some_data(shape, seed):
    data = np.sin(np.arange(np.prod(shape)) * (seed + 1.3)).reshape(shape)
    return np.abs(data)


def make_property(state):
    from GridProperty import GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    parameters = make_parameters(state[0])
    data = some_data(parameters.grid_shape, 3)
    data.ravel()[::5] = np.nan
    if state[2] == "undefined":
        data[:] = np.nan
    prop = GridProperty(GridPropertyName[state[1]], GridPropertyUnit.NONE,
        data, parameters)
    if state[2] == "masked":
        prop.set_mask(worlds.pattern(data.shape, 4))
    if state[2] == "contrast":
        prop.set_contrast_parameters(0.1, 0.6, "plasma", 5)
    return prop


def make_gradient(state):
    from GridProperty import GridGradient
    parameters = make_parameters(state[0])
    data = some_data(parameters.grid_shape, 5)
    data.ravel()[::5] = np.nan
    gradient = GridGradient(data, parameters, 0.1)
    if state[1] == "measured":
        gradient.determine_mask(0.3, 1.2, 0.8, 0.1)
    if state[1] == "masked":
        gradient.set_mask(worlds.pattern(data.shape, 4))
    return gradient


def make_diagnostics(state):
    from GridDiagnostics import GridDiagnostics
    parameters = make_parameters(state[0])
    store = GridDiagnostics(parameters)
    ny, nx = parameters.slice_shape
    for number, (y, x) in enumerate(itertools.product(range(ny),
            range(nx))):
        if number != 1:
            store.save_diagnostic(y, x, some_data((4 + number,), number),
                some_data((4 + number,), number + 7))
    if state[1]:
        store.extend()
    return store


def make_ring(state):
    from Ring import Ring
    return Ring(*state)


def make_system(state):
    from RingSystem import RingSystem
    planet, inner, outer, transmission, inclination, tilt = state
    return RingSystem(planet, np.array(inner, float), np.array(outer, float),
        np.array(transmission, float), inclination, tilt, logging_level=50)


AXES = (0.0, 1.0, 3, 0.0, 0.5, 2, 2.0, 2)
PLAIN = (-0.5, 1.0, 2, 0.25, 0.5, 3, 3.0, 2)

STATES = {
    "grid": [[worlds.SMALL, name, number % 2 == 1] for number, name in
        enumerate(RECIPES)] + [[worlds.OFFSET, "fitted", True]],
    "parameters": [[AXES, False], [AXES, True], [PLAIN, False]],
    "property": [[[AXES, False], "TILT", kind] for kind in
        ("plain", "masked", "contrast", "undefined")],
    "gradient": [[[PLAIN, False], kind] for kind in
        ("plain", "measured", "masked")],
    "diagnostics": [[[AXES, False], False], [[AXES, False], True]],
    "ring": [[0.5, 1.5, 0.3, 40, -20], [0, 1, 1, 90, 180]],
    "system": [[0.4, [], [], [], 0, 0],
        [0.4, [1, 2, 4], [2, 3, 5], [0.5, 0.5, 0.1], 60, -30],
        [9.0, [0, 1], [1, 1.5], [0, 1], 90, 180]],
}
MAKE = dict(grid=make_grid, parameters=make_parameters,
    property=make_property, gradient=make_gradient,
    diagnostics=make_diagnostics, ring=make_ring, system=make_system)

# ------------------------------------------------------------ observations


def view_parameters(p):
    return dict(dx=np.copy(p.dx), dy=np.copy(p.dy), rf=np.copy(p.rf),
        rf_array=np.copy(p.rf_array), grid_shape=tuple(p.grid_shape),
        slice_shape=tuple(p.slice_shape), extendable=bool(p.extendable),
        vectors=[np.copy(v) for v in p.get_vectors()], text=str(p))


def view_property(p):
    return dict(true=np.copy(p.get_data(False)),
        masked=np.copy(p.get_data(True)), mask=copy.deepcopy(p.mask),
        contrast=[p.vmin, p.vmax, p.color_map, p.num_colors],
        names=[p.name.name, p.unit.name],
        parameters=view_parameters(p.grid_parameters),
        text=str(p), representation=repr(p))


def view_gradient(g):
    return dict(view_property(g), position=float(g.position),
        measured=g.measured_gradient, error=g.measured_error,
        scale=g.orbital_scale, change=g.transmission_change,
        scaled=g.get_scaled_gradient())


def view_diagnostics(d, size=(7, 7)):
    out = {}
    for y, x in itertools.product(range(size[0]), range(size[1])):
        told = attempt(d.get_diagnostic, y, x)
        out[f"{y},{x}"] = ([np.copy(t) for t in told]
            if isinstance(told, tuple) else told)
    out["text"] = str(d)
    return out


def view_ring(r):
    return dict(inner=float(r.inner_radius), outer=float(r.outer_radius),
        transmission=float(r.transmission), inclination=float(r.inclination),
        tilt=float(r.tilt), text=str(r))


def view_system(s):
    return dict(planet=s.planet_radius, inclination=s.inclination,
        tilt=s.tilt, inner=s.get_inner_radii(), outer=s.get_outer_radii(),
        transmission=s.get_transmissions(), data=list(s.get_rings_data()),
        number=s.get_num_rings(), rings=[view_ring(r) for r in s.rings],
        text=str(s))


VIEW = dict(grid=worlds.observe, parameters=view_parameters,
    property=view_property, gradient=view_gradient,
    diagnostics=view_diagnostics, ring=view_ring, system=view_system)


def observe(kind, obj):
    """Look at a copy, so that looking can not hide anything."""
    return VIEW[kind](copy.deepcopy(obj))


# ----------------------------------------------------------------- readers

def temporary():
    return tempfile.mkdtemp(prefix="read-", dir=os.getcwd())


def in_new_directory(save):
    import shutil
    parent = temporary()
    try:
        save(os.path.join(parent, "new"))
    finally:
        shutil.rmtree(parent)


def figure(draw):
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    try:
        return draw(ax)
    finally:
        plt.close("all")


def plain(value):
    """Detach a reader's result from the object it came from."""
    return copy.deepcopy(value)


def slice_of(prop, axis, index, masked):
    def draw(ax):
        _, image = prop.plot_slice(axis, index, ax, masked)
        return np.ma.filled(image.get_array().astype(float), np.nan)
    return figure(draw)


def cube_of(prop, axis, masked, coordinates):
    def draw(ax):
        prop.plot_cube(axis, coordinates, masked)
    return figure(draw)


def property_readers():
    out = [("data masked", lambda p: p.get_data(True)),
        ("data", lambda p: p.get_data(False)),
        ("text", str), ("representation", repr),
        ("save", lambda p: in_new_directory(p.save)),
        ("cube", lambda p: cube_of(p, 2, True, [(0.25, 0.0, 1.0)]))]
    for axis in range(3):
        for masked in (True, False):
            out.append((f"slice {axis} {masked}", lambda p, a=axis,
                m=masked: slice_of(p, a, 0, m)))
    return out


def grid_readers():
    out = []
    for name in worlds.PROPERTIES + ["gradient_fit", "gradients"]:
        for a, b in itertools.product((True, False), repeat=2):
            out.append((f"{name} {a} {b}", lambda g, n=name, a=a, b=b:
                attempt(getattr(g, f"get_{n}"), a, b)))
    for name in ("disk_radius", "tilt", "diagnostic_map"):
        out.append((f"{name} object", lambda g, n=name:
            getattr(g, n).get_data(True)))
    out.append(("gradient objects", lambda g: [x.get_data(True) for x in
        g.gradients or []]))
    out += [("combined", lambda g: g.get_combined_mask()),
        ("text", str),
        ("all solutions", lambda g: attempt(g.extract_solutions)),
        ("two solutions", lambda g: attempt(g.extract_solutions, 2)),
        ("closest", lambda g: attempt(g.determine_closest_grid_point, 1.2,
            30, 100, 0.4)),
        ("closest unmasked", lambda g: attempt(
            g.determine_closest_grid_point, 0.7, 80, 20, -0.4, False)),
        ("point", lambda g: g.get_grid_point_data(0, 0, 0)),
        ("point unmasked", lambda g: g.get_grid_point_data(1, 1, 2, False)),
        ("save", lambda g: in_new_directory(g.save)),
        ("slice", lambda g: slice_of(g.disk_radius, 2, 0, True)),
        ("fit slice", lambda g: attempt(lambda: slice_of(g.gradient_fit, 1,
            0, True)))]
    return out


READERS = dict(
    grid=grid_readers(),
    property=property_readers(),
    gradient=property_readers() + [
        ("scaled", lambda g: g.get_scaled_gradient()),
        ("save gradient", lambda g: in_new_directory(lambda d: (os.mkdir(d),
            g.save_gradient(d)))),
        ("order", lambda g: g < g)],
    parameters=[("vectors", lambda p: p.get_vectors()), ("text", str),
        ("representation", repr), ("save", lambda p: in_new_directory(
            p.save))],
    diagnostics=[(f"get {y} {x}", lambda d, y=y, x=x: attempt(
        d.get_diagnostic, y, x)) for y in range(3) for x in range(4)] + [
        ("text", str), ("save", lambda d: in_new_directory(d.save))],
    ring=[("inner", lambda r: r.inner_radius), ("outer", lambda r:
        r.outer_radius), ("transmission", lambda r: r.transmission),
        ("inclination", lambda r: r.inclination), ("tilt", lambda r: r.tilt),
        ("text", str), ("patch", lambda r: r.get_patch(1, -2, "red")
            .get_path().vertices)],
    system=[("inner", lambda s: s.get_inner_radii()), ("outer", lambda s:
        s.get_outer_radii()), ("transmission", lambda s:
        s.get_transmissions()), ("data", lambda s: s.get_rings_data()),
        ("number", lambda s: s.get_num_rings()), ("text", str),
        ("plot", lambda s: figure(lambda ax: [list(x) for x in (s.plot(ax,
            1, 2).get_xlim(), ax.get_ylim())])),
        ("ring patch", lambda s: [r.get_patch().get_path().vertices for r in
            s.rings])],
)
