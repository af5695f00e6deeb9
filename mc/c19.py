"""C19: the cube viewer shows the slice it says it shows."""
import copy
import itertools

import numpy as np

from mc import core, objects, worlds

LEVEL = "model_checking"
RULE = ("every property kind, grid shape, axis, masking option, set of "
    "coordinates, initial slice and way of opening the viewer x every "
    "history of up and down scroll events to a depth that passes both ends; "
    "after every event the image, title, markers and limits are compared "
    "with the data; pictures are rendered for some and compared. A state is "
    "a (viewer, history), a transition one event")
ASSUMPTIONS = ["coordinates lie on a slice exactly or at least half a step "
    "away from it", "drawing is suppressed while scrolling except in the "
    "rendering cases",
    "limits along an axis with a single value are not compared"]

SHAPES = {"quadrant": [(0.0, 1.0, 3, 0.0, 0.5, 2, 2.0, 2), False],
    "mirrored": [(0.0, 1.0, 2, 0.0, 0.5, 2, 3.0, 2), True],
    "offset": [(-0.5, 1.0, 4, 0.25, 0.5, 2, 3.0, 3), False],
    "single": [(0.25, 1.0, 1, 0.5, 1.0, 1, 2.0, 2), False]}
KINDS = ["plain", "masked", "contrast"]


def coordinate_sets(parameters):
    dy, dx, rf = [np.asarray(v) for v in parameters.get_vectors()]
    first = (dy[0], dx[-1], rf[0])
    middle = (dy[-1], dx[0], 1.0)
    half = (dy[0] + (dy[1] - dy[0]) / 2 if len(dy) > 1 else dy[0] + 1,
        dx[-1], rf[0])
    between = (dy[0], dx[-1] - (dx[1] - dx[0]) / 2 if len(dx) > 1 else
        dx[0] + 1, 1.0)
    every = [(y, x, r) for y in dy for x in dx for r in rf[:len(rf) // 2 +
        1]]
    fraction = (dy[-1], dx[-1], 1 + (rf[0] - 1) * 0.375)
    return {"none": None, "empty": [], "one": [first], "same": [first,
        middle, first], "between": [half, between, middle, fraction],
        "all": every}


def expected_markers(parameters, axis, index, coordinates):
    vectors = [np.asarray(v) for v in parameters.get_vectors()]
    out = []
    for point in coordinates or []:
        here = vectors[axis][index]
        if abs(here - point[axis]) > 1e-9:
            continue
        y, x = [point[k] for k in range(3) if k != axis]
        if axis == 2:
            out.append((x, y))
        else:
            # rf runs from its maximum down to one and back up
            reach = vectors[2][0] - 1
            out += {(reach - (x - 1), y), (reach + (x - 1), y)}
    return sorted((round(float(a), 9) + 0.0, round(float(b), 9) + 0.0)
        for a, b in out)


def ready(parameters, axis, coordinates):
    """Whether every coordinate is clearly on or off every slice."""
    values = np.asarray(parameters.get_vectors()[axis])
    step = abs(values[1] - values[0]) if len(values) > 1 else 1.0
    return all(min(abs(values - c[axis])) < 1e-9 or min(abs(values -
        c[axis])) > 0.35 * step for c in coordinates or [])


def drawn_markers(ax):
    out = []
    for line in ax.lines:
        if line.get_visible() and line.get_marker() not in ("None", "", None,
                " "):
            out += [tuple(p) for p in line.get_xydata()]
    for points in ax.collections:
        if points.get_visible():
            out += [tuple(p) for p in np.asarray(points.get_offsets())]
    return sorted((round(float(a), 9) + 0.0, round(float(b), 9) + 0.0)
        for a, b in out)


def event(fig, button):
    """The event a turn of the scroll wheel over the figure gives."""
    from matplotlib.backend_bases import MouseEvent
    return MouseEvent("scroll_event", fig.canvas, 100, 100, step=1 if button
        == "up" else -1)


def make(kind, shape):
    if kind == "gradient":
        return objects.make_gradient([SHAPES[shape], "measured"])
    return objects.make_property([SHAPES[shape], "TILT", kind])


class Viewed:
    """What is on the axes."""

    def __init__(self, ax):
        self.image = np.ma.filled(ax.images[0].get_array().astype(float),
            np.nan)
        self.number = len(ax.images)
        image = list(ax.images[0].get_extent())
        self.title = ax.get_title()
        self.markers = drawn_markers(ax)
        # a single row or column has no width to show
        self.limits = [a for a, b in ((ax.get_xlim(), image[:2]), (ax.
            get_ylim(), image[2:])) if b[0] != b[1]]
        self.colors = ax.images[0].get_clim()
        self.extent = image
        self.labels = (ax.get_xlabel(), ax.get_ylabel())

    def same(self, other):
        return (core.same(self.image, other.image) and vars(self).keys() ==
            vars(other).keys() and all(core.same(v, getattr(other, k)) for
            k, v in vars(self).items() if k != "limits") and np.allclose(
            self.limits, other.limits))


class Oracle:
    def __init__(self, prop, axis, masked, coordinates):
        self.prop, self.axis, self.masked = prop, axis, masked
        self.coordinates = coordinates
        self.data = np.copy(prop.get_data(masked))
        self.values = [np.asarray(v) for v in prop.grid_parameters.
            get_vectors()][axis]
        self.length = len(self.values)

    def judge(self, ctx, ax, index, label):
        seen = Viewed(ax)
        ctx.check(seen.number == 1, f"{label}: {seen.number} images")
        ctx.check(core.same(seen.image, np.take(self.data, index,
            self.axis)), f"{label}: the image is not slice {index}")
        value = f"{self.values[index]:.4f}"
        if self.values[index] != 0:
            ctx.check(value in seen.title, f"{label}: title {seen.title!r} "
                f"for the slice at {value}")
        for other in self.values:
            text = f"{other:.4f}"
            if text not in value and value not in text:
                ctx.check(f" {text}" not in seen.title, f"{label}: title "
                    f"{seen.title!r} for the slice at {value}")
        middle = self.length // 2
        family = {-1: "horizontal", 0: "", 1: "vertical"}[int(np.sign(index
            - middle))] if self.axis == 2 else ""
        for word in ("horizontal", "vertical"):
            ctx.check((word in seen.title) == (word == family), f"{label}: "
                f"title {seen.title!r} for index {index}")
        ctx.check(self.prop.name.get_name() in seen.title and
            self.prop.unit.get_unit() in seen.title, f"{label}: title "
            f"{seen.title!r}")
        wanted = expected_markers(self.prop.grid_parameters, self.axis,
            index, self.coordinates)
        ctx.check(sorted(set(seen.markers)) == sorted(set(wanted)),
            lambda: f"{label}: markers {seen.markers} instead of {wanted}")
        return seen


def cases(tier):
    out = []
    for kind, shape, axis in itertools.product(KINDS + ["gradient"],
            SHAPES, range(3)):
        if tier == "quick" and kind in ("contrast", "gradient") and shape \
                != "quadrant":
            continue
        out.append(dict(kind=kind, shape=shape, axis=axis))
    for axis in range(3):
        out.append(dict(kind="render", shape="quadrant", axis=axis))
        out.append(dict(kind="slices", shape="quadrant", axis=axis))
        out.append(dict(kind="colors", shape="quadrant", axis=axis))
    out.append(dict(kind="grid", shape="", axis=2))
    return out


def run(case, ctx):
    import matplotlib.pyplot as plt
    import GridProperty as module
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    if case["kind"] == "render":
        render(case, ctx)
        return
    if case["kind"] == "slices":
        slices(case, ctx)
        return
    draw = FigureCanvasAgg.draw
    FigureCanvasAgg.draw = lambda self, *a, **k: None
    try:
        if case["kind"] == "grid":
            whole_grid(case, ctx)
        elif case["kind"] == "colors":
            colors(case, ctx)
        else:
            prop = make(case["kind"], case["shape"])
            for (name, coordinates), masked in itertools.product(
                    coordinate_sets(prop.grid_parameters).items(), (True,
                    False)):
                if not ready(prop.grid_parameters, case["axis"],
                        coordinates):
                    coordinates = [c for c in coordinates if ready(
                        prop.grid_parameters, case["axis"], [c])]
                explore(ctx, prop, case["axis"], masked, coordinates,
                    f"{case['kind']} {case['shape']} axis {case['axis']} "
                    f"masked {masked} coordinates {name}")
    finally:
        FigureCanvasAgg.draw = draw
        plt.close("all")
    ctx.sample(case)


def explore(ctx, prop, axis, masked, coordinates, label):
    oracle = Oracle(prop, axis, masked, coordinates)
    deepest = 7 if ctx.tier == "thorough" else 4 if prop.mask is not None \
        else 2
    depth = min(oracle.length + 1, deepest)
    ways = ["cube"]
    ways += [("viewer", index) for index in (None, *range(oracle.length))]
    ways += [("frozen", index) for index in (0, oracle.length - 1)]
    for way in ways:
        # every history of full length passes through all shorter ones
        length = depth if way == "cube" or ctx.tier == "thorough" else 2
        for history in itertools.product(("up", "down"), repeat=length):
            walk(ctx, oracle, way, history, f"{label} {way} {history}")


def walk(ctx, oracle, way, history, label):
    import matplotlib.pyplot as plt
    from GridProperty import GridPropertyViewer
    given = None if oracle.coordinates is None else list(oracle.coordinates)
    if way == "cube":
        shown = []

        def show(*args, **kwargs):
            # as a window would: events arrive while it is shown
            fig = plt.gcf()
            ax = [a for a in fig.axes if a.images][0]
            scroll = lambda button: fig.canvas.callbacks.process(
                "scroll_event", event(fig, button))
            follow(ctx, oracle, ax, scroll, oracle.length // 2, history,
                False, label, None)
            shown.append(1)

        real, plt.show = plt.show, show
        try:
            oracle.prop.plot_cube(oracle.axis, given, oracle.masked)
        finally:
            plt.show = real
        ctx.check(shown, f"{label}: nothing was shown")
    else:
        frozen, index = way[0] == "frozen", way[1]
        fig, ax = plt.subplots()
        viewer = GridPropertyViewer(ax, oracle.axis, oracle.prop,
            oracle.masked, index=index, frozen=frozen, coordinates=given)
        follow(ctx, oracle, ax, lambda button: viewer.onscroll(event(
            fig, button)), oracle.length // 2 if index is None else index,
            history, frozen, label, viewer)
    ctx.check(given == oracle.coordinates, f"{label}: the coordinates were "
        "changed")
    ctx.check(core.same(oracle.data, oracle.prop.get_data(oracle.masked)),
        f"{label}: the data was changed")
    ctx.add(traces_validated_against_impl=1)
    plt.close("all")


def follow(ctx, oracle, ax, scroll, index, history, frozen, label, viewer):
    pictures = [oracle.judge(ctx, ax, index, f"{label} initially")]
    indices = [index]
    first = pictures[0]
    for number, button in enumerate(history):
        scroll(button)
        if not frozen:
            index = min(max(index + (1 if button == "up" else -1), 0),
                oracle.length - 1)
        at = f"{label} after {number + 1} events"
        seen = oracle.judge(ctx, ax, index, at)
        if viewer is not None:
            ctx.check(viewer.index == index and 0 <= viewer.index <
                oracle.length, f"{at}: index {viewer.index} instead of "
                f"{index}")
        ctx.check(seen.colors == first.colors and seen.extent ==
            first.extent and seen.labels == first.labels, f"{at}: colours, "
            "extent or labels changed")
        for earlier, old in zip(pictures, indices):
            if old == index:
                ctx.check(earlier.same(seen), f"{at}: another picture than "
                    "before at the same slice")
        pictures.append(seen)
        indices.append(index)
        ctx.add(transitions=1)
        ctx.distinct("states", (label.split("(")[0], oracle.data.shape,
            oracle.axis, oracle.masked, oracle.coordinates, index, frozen, seen.markers))
        ctx.outcome(f"{oracle.axis} {index} {frozen} {len(seen.markers)}")


def render(case, ctx):
    """Real drawings: one up and one down give the same picture."""
    import matplotlib.pyplot as plt
    from GridProperty import GridPropertyViewer
    prop = make("masked", case["shape"])
    for name, coordinates in coordinate_sets(prop.grid_parameters).items():
        if not ready(prop.grid_parameters, case["axis"], coordinates):
            continue
        oracle = Oracle(prop, case["axis"], True, coordinates)
        for index in range(oracle.length):
            fig, ax = plt.subplots(figsize=(3, 3))
            viewer = GridPropertyViewer(ax, case["axis"], prop, True,
                index=index, coordinates=coordinates)

            def picture():
                return np.copy(np.asarray(fig.canvas.buffer_rgba()))

            seen = {index: picture()}
            now = index
            for button in ("up", "down", "up", "up", "down", "down",
                    "down", "up"):
                viewer.onscroll(event(fig, button))
                now = min(max(now + (1 if button == "up" else -1), 0),
                    oracle.length - 1)
                image = picture()
                oracle.judge(ctx, ax, now, f"rendered {name} {index}")
                if now in seen:
                    ctx.check(np.array_equal(seen[now], image), f"rendered "
                        f"{name} from {index}: the picture of slice {now} "
                        "changed")
                seen[now] = image
                ctx.add(transitions=1)
                ctx.distinct("states", (case, name, now))
            plt.close("all")
    ctx.sample(case)


def slices(case, ctx):
    """Single slices, their axes and tick labels."""
    import matplotlib.pyplot as plt
    axis = case["axis"]
    for kind, shape, masked in itertools.product(KINDS + ["gradient",
            "undefined"], SHAPES, (True, False)):
        prop = make(kind, shape)
        oracle = Oracle(prop, axis, masked, None)
        dy, dx, rf = [np.asarray(v) for v in prop.grid_parameters.
            get_vectors()]
        for index in range(oracle.length):
            fig, ax = plt.subplots()
            if index % 2:
                told, image = prop.plot_slice(axis, index, masked=masked)
            else:
                told, image = prop.plot_slice(axis, index, ax, masked)
            label = f"slice {kind} {shape} {axis} {index}"
            ctx.check(told is ax and image is ax.images[0], f"{label}: "
                "other axes")
            seen = oracle.judge(ctx, ax, index, label)
            reach = 2 * (rf[0] - 1)
            horizontal = (dx[0], dx[-1]) if axis == 2 else (0, reach)
            vertical = (dx[0], dx[-1]) if axis == 0 else (dy[0], dy[-1])
            ctx.check(np.allclose(seen.extent, [*horizontal, *vertical]),
                f"{label}: extent {seen.extent}")
            ctx.check(ax.images[0].origin == "lower", f"{label}: flipped")
            if kind == "contrast":
                ctx.check(seen.colors == (0.1, 0.6), f"{label}: colours "
                    f"{seen.colors}")
            if axis != 2:
                for tick in ax.get_xticklabels():
                    if tick.get_text():
                        x = tick.get_position()[0]
                        ctx.check(abs(float(tick.get_text()) - (1 + abs(x -
                            reach / 2))) < 0.006, f"{label}: tick "
                            f"{tick.get_text()} at {x}")
            ctx.add(transitions=1, traces_validated_against_impl=1)
            ctx.distinct("states", label)
            plt.close("all")
        for index in (-1, oracle.length, 0.5, "x"):
            fig, ax = plt.subplots()
            ctx.check(isinstance(core.attempt(prop.plot_slice, axis, index,
                ax), core.Raised), f"slice {index} of {oracle.length} was "
                "accepted")
            plt.close("all")
    ctx.sample(case)


def colors(case, ctx):
    """Every combination of contrast parameters, before and after events."""
    import matplotlib
    import matplotlib.pyplot as plt
    from GridProperty import GridPropertyViewer
    axis = case["axis"]
    base = make("plain", case["shape"])
    for (low, high), gradient in itertools.product(((0.0, 1.0), (-2.0, 0.0),
            (-0.5, 0.5), (1.0, 3.0), (0.0, 0.0)), (False, True)):
        prop = copy.deepcopy(make("gradient", case["shape"]) if gradient
            else base)
        data = prop.data
        prop.data = low + (high - low) * (data - np.nanmin(data)) / (
            np.nanmax(data) - np.nanmin(data))
        fig, ax = plt.subplots()
        extremes = float(np.nanmin(prop.data)), float(np.nanmax(prop.data))
        for vmin, vmax, color_map, number in itertools.product((None, 0,
                0.0, -1.5, 0.25, np.float64(-1)), (None, 0, 0.25, 4), (None,
                "plasma", "twilight"), (None, 2, 7)):
            wanted = (extremes[0] if vmin is None else vmin, extremes[1] if
                vmax is None else vmax)
            if wanted[0] > wanted[1]:
                continue
            prop.set_contrast_parameters(vmin, vmax, color_map, number)
            ax.clear()
            viewer = GridPropertyViewer(ax, axis, prop, False, index=0)
            label = (f"colours {(vmin, vmax, color_map, number)} of data in "
                f"{extremes}, axis {axis}")
            shades = matplotlib.colormaps[color_map or "viridis"].resampled(
                number or 11)
            for button in (None, "up", "down"):
                if button:
                    viewer.onscroll(event(fig, button))
                image = ax.images[0]
                ctx.check(np.allclose(image.get_clim(), wanted, atol=0),
                    f"{label}: limits {image.get_clim()} after {button}")
                levels = np.linspace(0, 1, 23)
                ctx.check(np.allclose(image.get_cmap()(levels),
                    shades(levels)), f"{label}: other colours")
                ctx.add(transitions=1)
            ctx.add(traces_validated_against_impl=1)
            ctx.distinct("states", label)
        plt.close("all")
    ctx.sample(case)


def whole_grid(case, ctx):
    """The properties of an analysed grid, mirrored after the build."""
    grid = objects.make_grid([worlds.SMALL, "fitted", False])
    chosen = [grid.disk_radius, grid.inclination, grid.gradients[0],
        grid.gradient_fit]
    dy, dx, rf = [np.asarray(v) for v in grid.parameters.get_vectors()]
    coordinates = [(dy[0], dx[-1], rf[0]), (dy[1], dx[1], 1.0)]
    for prop, axis, masked in itertools.product(chosen, range(3), (True,
            False)):
        oracle = Oracle(prop, axis, masked, coordinates)
        for history in itertools.product(("up", "down"), repeat=3):
            walk(ctx, oracle, "cube", history, f"grid {prop.name.name} "
                f"{axis} {masked} {history}")
