"""C27: arguments outside an operation's domain are refused, others work."""
import copy
import itertools
import os

import numpy as np

from mc import core, objects, worlds

LEVEL = "exploration"
RULE = ("every public operation with a declared domain for each argument x "
    "all pairs of arguments x every pair of domain values, where each domain "
    "lists values inside (bounds included) and outside (other types, not a "
    "number, just and far beyond each bound, other dtypes, dimensions and "
    "lengths, every single element wrong); non-trivial: combinations with an "
    "argument outside its domain")
ASSUMPTIONS = ["the domains are those of the documentation: types, bounds, "
    "numbers of dimensions, matching lengths"]

nan, inf = float("nan"), float("inf")
TYPE, VALUE = "TypeError", "ValueError"
SHAPE, DIMENSIONS = "InvalidShapeError", "InvalidDimensionsError"
ANY = (TYPE, VALUE, SHAPE, DIMENSIONS)
# kinds that are as good as one another
EITHER = {SHAPE: (SHAPE, DIMENSIONS), DIMENSIONS: (SHAPE, DIMENSIONS)}


class Domain:
    def __init__(self, good, bad):
        self.good = good
        self.bad = bad


def number(*good, lo=None, hi=None, exclusive=False, integer=False,
        optional=False, finite=False):
    """Numbers: the first is the usual value, bounds are added."""
    good = list(good)
    bad = [(v, TYPE) for v in ("1", [good[0]], (1,), np.array([1.0]), {},
        1j, object())]
    if optional:
        good.append(None)
    else:
        bad.append((None, TYPE))
    if integer:
        bad += [(float(good[0]), TYPE), (nan, TYPE), (good[0] + 0.5, TYPE)]
        good += [np.int64(good[0]), np.int32(good[0])]
        step = 1
    else:
        good += [np.float64(good[0]), np.float32(good[0])]
        step = 1e-6
    for bound, sign in ((lo, -1), (hi, 1)):
        if bound is None:
            continue
        far = [bound + sign * step * 1000, sign * 10**9]
        bad += [(v, VALUE) for v in (bound + sign * step, *far)]
        if exclusive:
            bad.append((bound, VALUE))
            good.append(bound - sign * step)
        else:
            good.append(bound)
        if not integer:
            bad.append((sign * inf, VALUE))
    if not integer and (lo is not None or hi is not None or finite):
        bad += [(nan, VALUE), (np.float64(nan), VALUE)]
    if finite:
        bad += [(inf, VALUE), (-inf, VALUE)]
    return Domain(good, bad)


def array(*values, dtype="float64", lo=None, hi=None, optional=False,
        fixed=True, finite=False):
    """One-dimensional arrays of the length of the values."""
    base = np.array(values, dtype=dtype)
    good = [base]
    bad = [(list(values), TYPE), (tuple(values), TYPE), ("x", TYPE),
        (1.0, TYPE), (base.astype("int32" if dtype != "int32" else "int64"),
        TYPE), (base.astype("float32"), TYPE), (base[None],
        DIMENSIONS), (base[:, None], DIMENSIONS), (np.array(base[0]),
        DIMENSIONS)]
    if optional:
        good.append(None)
    else:
        bad.append((None, TYPE))
    if fixed:
        bad += [(np.append(base, base[-1]), SHAPE), (base[:-1], SHAPE)]
    for k, value in itertools.product(range(len(values)), [v for v in (lo,
            hi) if v is not None]):
        good.append(replaced(base, k, value))
        step = -1e-6 if value == lo else 1e-6
        if dtype == "int64":
            step = -1 if value == lo else 1
        bad.append((replaced(base, k, value + step), VALUE))
        if dtype == "float64":
            bad.append((replaced(base, k, inf * step), VALUE))
            bad.append((replaced(base, k, nan), VALUE))
    return Domain(good, bad)


def levels():
    domain = number(50, 40, integer=True, lo=10, hi=50)
    domain.good = [v for v in domain.good if type(v) is int]
    return domain


def replaced(base, k, value):
    out = base.copy()
    out[k] = value
    return out


def boolean(first=True):
    return Domain([first, not first], [(v, TYPE) for v in (0, 1, None,
        "True", [], np.ones(1, bool), 1.0)])


def string(*good, optional=False):
    return Domain(list(good) + [None] * optional, [(v, TYPE) for v in (3,
        b"text", ["text"], ("text",), 1.0, True)] + [(None, TYPE)] *
        (not optional))


def instance(*good, optional=False):
    return Domain(list(good) + [None] * optional, [(v, TYPE) for v in (3,
        "text", [], type(good[0]), np.ones(2))] + [(None, TYPE)] *
        (not optional))


# -------------------------------------------------------------- operations

def method(kind, state, name, **domains):
    def prepare():
        return objects.MAKE[kind](state)

    def perform(obj, arguments):
        return getattr(obj, name)(**arguments)

    def positional(obj, arguments):
        return getattr(obj, name)(*arguments.values())

    return dict(prepare=prepare, perform=perform, positional=positional,
        domains=domains, look=lambda obj: objects.observe(kind, obj))


def maker(kind, build, **domains):
    """Constructors; what they return is what is observed."""
    def perform(_, arguments):
        return objects.observe(kind, build()(**arguments))

    def positional(_, arguments):
        return objects.observe(kind, build()(*arguments.values()))

    return dict(prepare=lambda: None, perform=perform, positional=positional,
        domains=domains, look=lambda obj: None)


def drawn(kind, state, name, **domains):
    """Methods that draw; the picture is what is observed."""
    def prepare():
        return objects.MAKE[kind](state)

    def call(obj, args, kwargs):
        import matplotlib.pyplot as plt
        try:
            getattr(obj, name)(*args, **kwargs)
            return [picture(ax) for n in plt.get_fignums() for ax in
                plt.figure(n).axes if ax.get_title() or name == "plot"]
        finally:
            plt.close("all")

    return dict(prepare=prepare, perform=lambda o, a: call(o, (), a),
        positional=lambda o, a: call(o, a.values(), {}), domains=domains,
        look=lambda obj: objects.observe(kind, obj))


def picture(ax):
    return [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), list(
        ax.get_xlim()), list(ax.get_ylim()), [np.ma.filled(i.get_array()
        .astype(float), nan) for i in ax.images], [p.get_path().vertices for
        p in ax.patches], [[*map(float, p.get_facecolor())] for p in
        ax.patches], [[*map(float, l.get_xdata())] for l in ax.lines]]


def ring_class():
    from Ring import Ring
    return Ring


def system_class():
    from RingSystem import RingSystem
    return RingSystem


def parameters_class():
    from GridParameters import GridParameters
    return GridParameters


def property_class():
    from GridProperty import GridProperty
    return GridProperty


def gradient_class():
    from GridProperty import GridGradient
    return GridGradient


def diagnostics_class():
    from GridDiagnostics import GridDiagnostics
    return GridDiagnostics


def grid_class():
    from Shallot import ShallotGrid
    return ShallotGrid


def patch_of(ring):
    return dict(ring, look=lambda obj: objects.observe("ring", obj),
        perform=lambda o, a: patch(o.get_patch(**a)), positional=lambda o, a:
        patch(o.get_patch(*a.values())))


def patch(p):
    return [p.get_path().vertices, list(p.get_facecolor()), p.get_alpha()]


def loader(kind, cls, make, **more):
    """Loading what was saved under the name 'kept'."""
    def prepare():
        make()

    return dict(prepare=prepare, look=lambda obj: None, domains=dict(
        directory=string("kept"), **more), perform=lambda _, a:
        objects.observe(kind, cls().load(**a)), positional=lambda _, a:
        objects.observe(kind, cls().load(*a.values())))


def data_domain(shape):
    good = objects.some_data(shape, 3)
    holed = good.copy()
    holed.ravel()[::3] = nan
    return Domain([good, holed], [(good.tolist(), TYPE), (None, TYPE), (1.0,
        TYPE), (good.astype(int), TYPE), (good.astype("float32"), TYPE),
        (good[:-1], SHAPE), (good[..., 0], SHAPE), (good.ravel(), SHAPE),
        (np.swapaxes(good, 0, 1), SHAPE), (np.ones((1, 1, 1)), SHAPE),
        (good[None], SHAPE)])


def mask_domain(shape):
    good = worlds.pattern(shape, 3)
    return Domain([good, ~good, good & False], [(good.tolist(), TYPE),
        (None, TYPE), (True, TYPE), (good.astype(int), TYPE), (good.astype(
        float), TYPE), (good[:-1], SHAPE), (good[..., 0], SHAPE),
        (good.ravel(), SHAPE), (np.ones((1, 1, 1), bool), SHAPE)])


def contrast():
    return dict(
        vmin=Domain([0.1, None, 0, -1.5], [("0", TYPE), ([0], TYPE)]),
        vmax=Domain([0.9, None, 2], [("0", TYPE), ([0], TYPE)]),
        color_map=Domain(["plasma", None], [(3, TYPE), (["plasma"], TYPE),
            (True, TYPE)]),
        num_colors=number(4, lo=2, integer=True, optional=True))


def system_state():
    return [0.4, [1, 2, 4], [2, 3, 5], [0.5, 0.5, 0.1], 60, -30]


def operations():
    Ring = ring_class()
    from GridPropertyName import GridPropertyName as Name
    from GridPropertyUnit import GridPropertyUnit as Unit
    P = objects.PLAIN
    A = objects.AXES
    shape = parameters_class()(*P).grid_shape
    wide = parameters_class()(*A).grid_shape
    measured = [worlds.SMALL, "measured", False]
    fitted = [worlds.SMALL, "fitted", True]
    parameters = parameters_class()(*P)
    masks = dict(masked=boolean(), property_masked=boolean())
    shift = dict(x_shift=number(0, 2.5, -1), y_shift=number(0, 0.5),
        face_color=Domain(["black", "red"], [(3, TYPE), (None, TYPE),
        (["red"], TYPE)]))
    out = {}
    out["Ring"] = maker("ring", ring_class, inner_radius=Domain([1.0, 1,
        0.5], [("1", TYPE), (None, TYPE), ([1], TYPE), (nan, VALUE), (-0.1,
        VALUE), (-inf, VALUE), (inf, VALUE), (5.0, VALUE)]),
        outer_radius=Domain([2.0, 2, 1.5], [("1", TYPE), (None, TYPE), ([1],
        TYPE), (nan, VALUE), (0, VALUE), (-1, VALUE), (0.4, VALUE)]),
        transmission=number(0.5, lo=0, hi=1),
        inclination=number(30.0, lo=0, hi=90),
        tilt=number(10, lo=-180, hi=180))
    out["Ring.get_patch"] = patch_of(method("ring", objects.STATES["ring"][
        0], "get_patch", **shift))
    for name, domain in dict(inner_radius=Domain([0.4], [("1", TYPE), (None,
            TYPE), ([1], TYPE), (nan, VALUE), (-0.1, VALUE), (1.5, VALUE),
            (2.0, VALUE), (inf, VALUE)]), outer_radius=Domain([2.5], [("1",
            TYPE), (None, TYPE), ([1], TYPE), (nan, VALUE), (0.5, VALUE),
            (0.1, VALUE), (-1, VALUE)]), transmission=number(0.2, lo=0,
            hi=1), inclination=number(3, lo=0, hi=90), tilt=number(5,
            lo=-180, hi=180)).items():
        op = method("ring", objects.STATES["ring"][0], "", value=domain)
        op["perform"] = op["positional"] = (lambda o, a, n=name: setattr(o,
            n, a["value"]))
        out[f"Ring.{name} ="] = op
    out["RingSystem"] = maker("system", system_class,
        planet_radius=number(0.4, lo=0),
        inner_radii=Domain([np.array([1., 2.]), np.array([0., 2.])],
            radii(1., 2.) + [(np.array([1., 2.7]), VALUE)]),
        outer_radii=Domain([np.array([2., 2.5])], radii(2., 2.5) + [
            (np.array([2.2, 2.5]), VALUE), (np.array([0.5, 2.5]), VALUE),
            (np.array([2., 1.9]), VALUE)]),
        transmissions=array(0.5, 0.1, lo=0, hi=1),
        inclination=number(60, lo=0, hi=90),
        tilt=number(-30.5, lo=-180, hi=180),
        logging_level=levels())
    for name, indices in dict(add_ring=(3, 3), remove_ring=(2, 2),
            replace_ring=(2, 2)).items():
        domains = dict(index=number(indices[0], lo=0, hi=indices[1],
            integer=True), ring=instance(Ring(6, 7, 0.5), Ring(8, 9, 0.1,
            20, 20)))
        # where the ring fits is the matter of C16
        domains["index"].good = [v for v in domains["index"].good if v != 0]
        if name == "remove_ring":
            del domains["ring"]
        out[f"RingSystem.{name}"] = method("system", system_state(), name,
            **domains)
    out["RingSystem.split_rings"] = method("system", system_state(),
        "split_rings", num_divisions=Domain([2, 3, np.array([1, 2, 3]),
        np.array([1, 1, 1])], [("2", TYPE), (None, TYPE), (2.0, TYPE), ([1,
        2, 3], TYPE), (1, VALUE), (0, VALUE), (-2, VALUE), (np.array([1.,
        2., 3.]), TYPE), (np.array([[1, 2, 3]]), DIMENSIONS), (np.array(2),
        DIMENSIONS), (np.array([1, 2]), SHAPE), (np.array([1, 2, 3, 4]),
        SHAPE), (np.array([], dtype="int64"), SHAPE), *[(replaced(np.array([
        2, 2, 2]), k, v), VALUE) for k in range(3) for v in (0, -1)]]))
    out["RingSystem.merge_rings"] = method("system", system_state(),
        "merge_rings", tolerance=number(1e-6, lo=0))
    # gaps of every order of magnitude around the default
    gaps = np.cumsum([0.3] + [1 + 3 * 10.0**e for e in range(-10, 0)])
    out["RingSystem.merge_rings (apart)"] = method("system", [0.1,
        gaps.tolist(), (gaps + 1).tolist(), [0.5] * 11, 60, -30],
        "merge_rings", tolerance=number(1e-6, lo=0))
    out["RingSystem.plot"] = drawn("system", system_state(), "plot",
        ax=Domain([None], [(3, TYPE), ("ax", TYPE), ([], TYPE)]), **shift)
    counts = dict(lo=1, integer=True)
    out["GridParameters"] = maker("parameters", parameters_class,
        min_x=with_bad(number(0.0, -1, finite=True), 1.5, 2.0),
        max_x=with_bad(number(1.5, 2, finite=True), 0.0, -1, -3.0),
        num_x=number(3, **counts),
        min_y=with_bad(number(0.0, -1, finite=True), 1.5, 2.0),
        max_y=with_bad(number(1.5, 2, finite=True), 0.0, -1, -3.0),
        num_y=number(2, **counts), max_rf=number(2.0, lo=1, finite=True),
        num_rf=number(2, **counts))
    # the bad values depend on the base value of the partner
    out["GridParameters"]["only_base"] = {"min_x": "max_x", "max_x":
        "min_x", "min_y": "max_y", "max_y": "min_y"}
    out["Ring"]["only_base"] = {"inner_radius": "outer_radius",
        "outer_radius": "inner_radius"}
    out["RingSystem"]["only_base"] = {"inner_radii": "outer_radii",
        "outer_radii": "inner_radii"}
    out["GridProperty"] = maker("property", property_class,
        name=instance(Name.TILT, Name.FX_MAP), unit=instance(Unit.NONE,
        Unit.DEGREE), data=data_domain(shape),
        grid_parameters=instance(parameters))
    state = [[P, False], "TILT", "plain"]
    out["GridProperty.set_mask"] = method("property", state, "set_mask",
        mask=mask_domain(shape))
    out["GridProperty.get_data"] = method("property", [[P, False], "TILT",
        "masked"], "get_data", masked=boolean())
    out["GridProperty.set_contrast_parameters"] = method("property", state,
        "set_contrast_parameters", **contrast())
    coordinates = Domain([None, [], [(0.25, 0.0, 1.0)], [[0.25, 0.0, 1.0],
        (0.5, 0.5, 2.0)]], [(((0.25, 0.0, 1.0),), TYPE), ("abc", TYPE), (3,
        TYPE), ([(1, 2)], VALUE), ([(1, 2, 3), (1, 2, 3, 4)], VALUE)])
    out["GridProperty.plot_cube"] = drawn("property", [[A, False], "TILT",
        "masked"], "plot_cube", axis=number(2, lo=0, hi=2, integer=True),
        coordinates=coordinates, masked=boolean())
    out["GridProperty.plot_slice"] = drawn("property", [[A, False], "TILT",
        "masked"], "plot_slice", axis=number(2, lo=0, hi=2, integer=True),
        index=with_bad(number(1, 0, integer=True,
        optional=True), -1, 3, -2, 99),
        ax=Domain([None], [(3, TYPE), ("ax", TYPE)]), masked=boolean())
    out["GridProperty.save"] = method("property", state, "save",
        directory=string("."))
    out["GridProperty.load"] = loader("property", property_class, lambda:
        (os.makedirs("kept", exist_ok=True), objects.make_property([[P,
        False], "TILT", "masked"]).save("kept"), parameters.save("kept")),
        name=Domain([Name.TILT], [(3, TYPE), ("TILT", TYPE), (None, TYPE)]),
        unit=Domain([Unit.NONE], [(3, TYPE), ("NONE", TYPE), (None, TYPE)]))
    out["GridGradient"] = maker("gradient", gradient_class,
        data=data_domain(shape), grid_parameters=instance(parameters),
        position=number(0.1, -0.4))
    plain = [[P, False], "plain"]
    out["GridGradient.determine_mask"] = method("gradient", plain,
        "determine_mask", measured_gradient=Domain([0.3, 0, 0.1], bounded(
        lo=0)), orbital_scale=with_bad(number(1.2, 2.0, lo=0), drop=0),
        transmission_change=with_bad(number(0.8, lo=0, hi=1, optional=True),
        drop=0), measured_error=number(0.1, lo=0, optional=True))
    out["GridGradient.save_gradient"] = method("gradient", plain,
        "save_gradient", directory=string("."), label=string("0001", "x",
        optional=True))
    out["GridGradient.load"] = loader("gradient", gradient_class, lambda:
        (not os.path.exists("kept") and (os.mkdir("there"),
        objects.make_gradient(plain).save_gradient("there"), os.rename(
        "there/gradient_0.1000", "kept"))))
    store = objects.STATES["diagnostics"][0]
    cells = dict(y=number(0, lo=0, hi=1, integer=True), x=number(0, lo=0,
        hi=2, integer=True))
    # one cell has no record
    out["GridDiagnostics"] = maker("diagnostics", diagnostics_class,
        grid_parameters=instance(parameters))
    out["GridDiagnostics.get_diagnostic"] = method("diagnostics", store,
        "get_diagnostic", **cells)
    out["GridDiagnostics.save_diagnostic"] = method("diagnostics", store,
        "save_diagnostic", **cells, fy=array(1, 2, 3), disk_radius=array(4,
        5, 6))
    for kind, cls, make in (("parameters", parameters_class, lambda:
            objects.make_parameters([P, False])), ("diagnostics",
            diagnostics_class, lambda: objects.make_diagnostics(store)),
            ("grid", grid_class, lambda: objects.make_grid(measured))):
        def keep(make=make):
            if not os.path.exists("kept"):
                if kind != "grid":
                    os.mkdir("kept")
                make().save("kept")
        more = {}
        if kind == "grid":
            more = dict(logging_level=levels())
        out[f"{cls().__name__}.load"] = loader(kind, cls, keep, **more)
    out["GridParameters.save"] = method("parameters", [P, False], "save",
        directory=string("."))
    out["GridDiagnostics.save"] = method("diagnostics", store, "save",
        directory=string("."))
    out["ShallotGrid.save"] = method("grid", measured, "save",
        directory=string("new"), y_value=number(1, lo=0, hi=3, integer=True,
        optional=True))
    out["ShallotGrid.save"]["fresh_directory"] = True
    out["ShallotGrid"] = maker("grid", grid_class,
        parameters=instance(parameters_class()(*worlds.OFFSET[:-1])),
        num_fxfy=number(10, 11, lo=1, integer=True),
        logging_level=levels(),
        keep_diagnostics=boolean(False), intermittent_saving=boolean(False))
    # sampling with a single value is a matter of C01
    out["ShallotGrid"]["domains"]["num_fxfy"].good.remove(1)
    for name in worlds.PROPERTIES:
        out[f"ShallotGrid.get_{name}"] = method("grid", fitted,
            f"get_{name}", **masks)
    out["ShallotGrid.get_gradient_fit"] = method("grid", fitted,
        "get_gradient_fit", **masks)
    out["ShallotGrid.get_gradients"] = method("grid", fitted,
        "get_gradients", masked=boolean(False), property_masked=boolean())
    out["ShallotGrid.add_gradients"] = method("grid", measured,
        "add_gradients", times=array(0.1, -0.3), light_curve_gradients=
        array(0.2, 0.3, lo=0), light_curve_gradient_errors=array(1, 2, lo=0,
        optional=True), transmission_changes=array(0.5, 0.8, hi=1,
        optional=True))
    out["ShallotGrid.remove_gradients"] = method("grid", measured,
        "remove_gradients", indices=array(0, 1, dtype="int64", lo=0, hi=2,
        fixed=False))
    out["ShallotGrid.set_eclipse_parameters"] = method("grid",
        [worlds.SMALL, "fresh", False], "set_eclipse_parameters",
        eclipse_duration=with_bad(number(1.0, 2.0, lo=0), drop=0),
        transverse_velocity=with_bad(number(6.0, lo=0), drop=0),
        limb_darkening=number(0.5, lo=0, hi=1))
    out["ShallotGrid.update_gradient_scaling"] = method("grid", measured,
        "update_gradient_scaling", transverse_velocity=with_bad(number(6.0,
        lo=0, optional=True), drop=0), limb_darkening=number(0.5, lo=0,
        hi=1, optional=True), transmission_changes=array(0.5, 1.0, 0.9,
        hi=1, optional=True))
    out["ShallotGrid.determine_gradient_fit"] = method("grid", measured,
        "determine_gradient_fit", weighted=Domain([True, False], []))
    out["ShallotGrid.extract_solutions"] = method("grid", fitted,
        "extract_solutions", num_solutions=Domain([0, 1, 2, None], [("1",
        TYPE), (1.0, TYPE), ([1], TYPE), (-1, VALUE), (10**6, VALUE)]))
    out["ShallotGrid.generate_hill_radius_mask"] = method("grid", measured,
        "generate_hill_radius_mask", hill_radius=number(1.1, lo=0))
    out["ShallotGrid.determine_closest_grid_point"] = method("grid",
        measured, "determine_closest_grid_point", disk_radius=number(1.2,
        lo=0), inclination=number(30., lo=0, hi=90), tilt=number(10, lo=-180,
        hi=180), impact_parameter=number(0.4, -0.4), masked=boolean(False))
    out["ShallotGrid.get_grid_point_data"] = method("grid", measured,
        "get_grid_point_data", y_index=number(0, lo=0, hi=2, integer=True),
        x_index=number(0, lo=0, hi=2, integer=True), rf_index=number(0,
        lo=0, hi=2, integer=True), masked=boolean())
    return out


def radii(*values):
    base = np.array(values)
    return [(list(values), TYPE), (None, TYPE), (1.0, TYPE), (base.astype(
        int), TYPE), (base[None], DIMENSIONS), (base[:1], SHAPE), (np.append(
        base, 9.), SHAPE)] + [(replaced(base, k, v), VALUE) for k in
        range(2) for v in (nan, -0.1, -inf)]


def with_bad(domain, *bad, drop=None):
    """Add values outside; values next to a bound that other rules cover."""
    domain.bad += [(v, VALUE) for v in bad]
    if drop is not None:
        domain.good = [v for v in domain.good if v is None or v != drop]
    return domain


def bounded(lo):
    return number(0.3, lo=lo).bad


DEFAULTS = {
    "Ring": dict(inclination=0, tilt=0),
    "Ring.get_patch": dict(x_shift=0, y_shift=0, face_color="black"),
    "RingSystem": dict(logging_level=20),
    "RingSystem.merge_rings": dict(tolerance=1e-6),
    "RingSystem.merge_rings (apart)": dict(tolerance=1e-6),
    "RingSystem.plot": dict(ax=None, x_shift=0, y_shift=0,
        face_color="black"),
    "GridProperty.get_data": dict(masked=True),
    "GridProperty.set_contrast_parameters": dict(vmin=None, vmax=None,
        color_map="viridis", num_colors=11),
    "GridProperty.plot_cube": dict(axis=2, coordinates=None, masked=True),
    "GridProperty.plot_slice": dict(ax=None, masked=True),
    "GridGradient.determine_mask": dict(transmission_change=1.0,
        measured_error=1.0),
    "GridGradient.save_gradient": dict(label=None),
    "ShallotGrid": dict(logging_level=20, keep_diagnostics=False,
        intermittent_saving=False),
    "ShallotGrid.save": dict(y_value=None),
    "ShallotGrid.load": dict(logging_level=20),
    "ShallotGrid.get_gradients": dict(masked=False, property_masked=True),
    "ShallotGrid.add_gradients": dict(light_curve_gradient_errors=np.ones(2),
        transmission_changes=np.ones(2)),
    "ShallotGrid.update_gradient_scaling": dict(transverse_velocity=None,
        limb_darkening=None, transmission_changes=None),
    "ShallotGrid.determine_gradient_fit": dict(weighted=True),
    "ShallotGrid.extract_solutions": dict(num_solutions=None),
    "ShallotGrid.determine_closest_grid_point": dict(masked=True),
    "ShallotGrid.get_grid_point_data": dict(masked=True),
    **{f"ShallotGrid.get_{name}": dict(masked=True, property_masked=True)
        for name in worlds.PROPERTIES + ["gradient_fit"]},
}


# --------------------------------------------------------------- execution

def cases(tier):
    out = []
    for name in operations():
        out.append(dict(operation=name, part=None))
    return out


def combinations(op, tier):
    """All pairs of arguments with all pairs of values, others at base."""
    domains = op["domains"]
    base = {n: d.good[0] for n, d in domains.items()}
    only_base = op.get("only_base", {})
    choices = {n: [(v, None) for v in d.good] + d.bad for n, d in
        domains.items()}
    yield base, []
    for name in domains:
        for value, kind in choices[name][1:]:
            yield {**base, name: value}, [kind]
    for first, second in itertools.combinations(domains, 2):
        for a, b in itertools.product(choices[first][1:], choices[second][
                1:]):
            if only_base.get(first) == second and not (a[1] and b[1]):
                continue
            if only_base.get(first) == second and (a[1], b[1]) == (VALUE,
                    VALUE):
                continue
            # may agree with one another again
            if a[1] in EITHER and b[1] in EITHER:
                continue
            yield {**base, first: a[0], second: b[0]}, [a[1], b[1]]
    if tier != "thorough":
        return
    few = {}
    for name, values in choices.items():
        kinds = {}
        for value, kind in values[1:]:
            kinds.setdefault(kind, (value, kind))
        few[name] = list(kinds.values())
    for names in itertools.combinations(domains, 3):
        if any(only_base.get(a) == b for a, b in itertools.permutations(
                names, 2)):
            continue
        for values in itertools.product(*[few[n] for n in names]):
            kinds = [kind for _, kind in values]
            if sum(k in EITHER for k in kinds) < 2:
                yield {**base, **{n: v for n, (v, _) in zip(names,
                    values)}}, kinds


def look(op, obj):
    return [op["look"](obj), files()]


def files():
    return sorted(os.walk("."))


def run(case, ctx):
    name = case["operation"]
    op = operations()[name]
    original = op["prepare"]()
    before = look(op, original)
    number = 0
    for arguments, kinds in combinations(op, ctx.tier):
        wrong = sorted({k for k in kinds if k})
        number += 1
        obj = fresh(op, original)
        before[1] = files()
        told = core.attempt(op["perform"], obj, copy_of(arguments))
        shown = ", ".join(f"{k}={core.short(v, 40)}" for k, v in
            arguments.items())
        ctx.add(evaluations=1, distinct_nontrivial=int(bool(wrong)))
        ctx.outcome(f"{name} {told.kind if isinstance(told, core.Raised) else 'done'}")
        if not wrong:
            ctx.check(not isinstance(told, core.Raised), f"{name}({shown}) "
                f"is valid but {told!r}")
            clean(op)
            continue
        allowed = ANY
        if name.endswith(".load"):
            allowed = (*ANY, "LoadError")
        elif len(kinds) == 1:
            allowed = EITHER.get(wrong[0], wrong)
        ctx.check(isinstance(told, core.Raised) and told.kind in allowed,
            lambda: f"{name}({shown}) should be refused with "
            f"{' or '.join(allowed)} but gives {core.short(told)}")
        after = look(op, obj)
        ctx.check(core.same(after, before), lambda: f"{name}({shown}) was "
            "refused but changed " + core.first_difference(after, before))
    ways(name, op, original, ctx)
    ctx.sample(dict(operation=name, combinations=number))


def fresh(op, original):
    return copy.deepcopy(original)


def copy_of(arguments):
    import enum
    return {k: v if isinstance(v, (type, enum.Enum)) or type(v) is object
        else copy.deepcopy(v) for k, v in arguments.items()}


def clean(op):
    import shutil
    if op.get("fresh_directory"):
        shutil.rmtree("new", ignore_errors=True)


def ways(name, op, original, ctx):
    """Keywords, positions and defaults are ways of saying the same."""
    base = {n: d.good[0] for n, d in op["domains"].items()}
    defaults = DEFAULTS.get(name, {})

    def outcome(how, arguments):
        obj = fresh(op, original)
        told = core.attempt(op[how], obj, copy_of(arguments))
        out = [told if isinstance(told, core.Raised) else worlds_plain(told),
            op["look"](obj)]
        clean(op)
        return out

    if "=" not in name:
        a, b = outcome("perform", base), outcome("positional", base)
        ctx.add(evaluations=1)
        ctx.check(core.same(a, b), lambda: f"{name}: naming the arguments "
            "makes a difference: " + core.first_difference(a, b))
    for size in range(1, len(defaults) + 1):
        for left in itertools.combinations(defaults, size):
            for values in itertools.product(*[[v for v in op["domains"][n]
                    .good[:2]] for n in op["domains"] if n not in left]):
                others = dict(zip([n for n in op["domains"] if n not in
                    left], values))
                if op.get("only_base") and any(values[k] is not
                        op["domains"][n].good[0] for k, n in enumerate(
                        others)):
                    continue
                full = {n: others.get(n, defaults.get(n)) if n not in left
                    else defaults[n] for n in op["domains"]}
                a, b = outcome("perform", others), outcome("perform", full)
                ctx.add(evaluations=1)
                ctx.check(core.same(a, b), lambda: f"{name}: leaving out "
                    f"{left} is not the same as passing the documented "
                    f"default: " + core.first_difference(a, b))


def worlds_plain(value):
    try:
        return copy.deepcopy(value)
    except Exception:
        return repr(value)
