"""C18: ring drawings cover exactly the projected ring."""
import itertools

import numpy as np

from mc import core, objects

LEVEL = "exploration"
RULE = ("every combination of radii, transmission, inclination, tilt and "
    "shift; for each the filled region of the patch (winding number of its "
    "curves, computed independently) against the de-projected radius at a "
    "fixed polar lattice of probes on both sides of both edges; every "
    "combination of ring systems and shifts drawn on fresh and used axes, "
    "their patches and limits judged by the same oracle. An evaluation is "
    "one drawing; all are distinct and non-trivial")
ASSUMPTIONS = ["circles are drawn with Bezier curves: probes stay 0.5% of "
    "a radius away from the edges", "the fill rule is non-zero winding, "
    "that of matplotlib's renderers; confirmed by rendering some drawings"]

RADII = [(0.0, 1.0), (0.5, 1.0), (0.9, 1.0), (2.0, 7.5), (0.01, 40.0)]
TRANSMISSIONS = [0.0, 0.3, 1.0]
INCLINATIONS = [0, 30.0, 60, 85.0, 90]
TILTS = [-180, -135.0, -90, -30.0, 0, 17.0, 90, 120.0, 180]
SHIFTS = [(0, 0), (3.0, -1.5), (-20.0, 0.25), (0, 7)]
COLORS = ["black", "red"]


def cases(tier):
    shifts = SHIFTS if tier == "quick" else SHIFTS + [(1e3, 0.0), (-0.5,
        -0.5), (0.0, 1e-3)]
    inclinations = INCLINATIONS if tier == "quick" else sorted({*range(0,
        91, 10), *INCLINATIONS, 5, 89})
    tilts = TILTS if tier == "quick" else sorted({*range(-180, 181, 15),
        *TILTS})
    out = []
    for radii, shift in itertools.product(RADII, shifts):
        out.append(dict(kind="patch", radii=radii, shift=shift,
            inclinations=inclinations, tilts=tilts))
    for shift in shifts:
        out.append(dict(kind="plot", shift=shift, inclinations=
            inclinations[::2] if tier == "thorough" else [0, 60, 85.0],
            tilts=tilts))
    out.append(dict(kind="render"))
    return out


# ---------------------------------------------------------------- geometry

def outline(path, transform=None, steps=48):
    """Closed polygons of a path with its curves evaluated finely."""
    if transform is not None:
        path = path.transformed(transform)
    polygons, current = [], []
    codes = path.codes
    if codes is None:
        codes = [1] + [2] * (len(path.vertices) - 1)
    k = 0
    t = np.linspace(0, 1, steps + 1)[1:, None]
    while k < len(codes):
        code, v = codes[k], path.vertices
        if code == 1:
            if len(current):
                polygons.append(np.vstack(current))
            current = [v[k:k + 1]]
            k += 1
        elif code == 2:
            current.append(v[k:k + 1])
            k += 1
        elif code == 3:
            a, b, c = current[-1][-1], v[k], v[k + 1]
            current.append((1 - t)**2 * a + 2 * t * (1 - t) * b + t**2 * c)
            k += 2
        elif code == 4:
            a, b, c, d = current[-1][-1], v[k], v[k + 1], v[k + 2]
            current.append((1 - t)**3 * a + 3 * t * (1 - t)**2 * b + 3 *
                t**2 * (1 - t) * c + t**3 * d)
            k += 3
        else:
            k += 1
    if len(current):
        polygons.append(np.vstack(current))
    return polygons


def filled(polygons, points):
    """Non-zero winding number of every point."""
    winding = np.zeros(len(points), int)
    x, y = points[:, 0][:, None], points[:, 1][:, None]
    for polygon in polygons:
        following = np.roll(polygon, -1, axis=0)
        x0, y0 = polygon[:, 0], polygon[:, 1]
        x1, y1 = following[:, 0], following[:, 1]
        side = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
        up = (y0 <= y) & (y1 > y)
        down = (y0 > y) & (y1 <= y)
        winding += (up & (side > 0)).sum(1) - (down & (side < 0)).sum(1)
    return winding != 0


ANGLES = np.deg2rad(np.arange(0, 360, 11.25) + 1.0)


def probes(inner, outer, inclination, tilt, shift):
    """Points (de-projected radius known) and whether they are covered."""
    radii = [outer * f for f in (1.005, 1.05, 1.5, 3)]
    radii += [outer * 0.995, (inner + outer) / 2]
    if inner > 1e-3 * outer:
        radii += [inner * f for f in (1.005, 0.995, 0.5, 0.05)]
    radii = [r for r in radii if abs(r - inner) > 0.004 * inner and abs(r -
        outer) > 0.004 * outer]
    r = np.repeat(radii, len(ANGLES))
    angle = np.tile(ANGLES, len(radii))
    cosine = np.cos(np.deg2rad(inclination))
    # when seen edge-on nothing is covered, whatever the height
    u, v = r * np.cos(angle), r * np.sin(angle) * cosine
    inside = (r > inner) & (r < outer)
    if inclination == 90:
        v = r * np.sin(angle) * 0.05 + 0.01 * outer * np.sign(np.sin(angle))
        inside[:] = False
    t = np.deg2rad(tilt)
    x = u * np.cos(t) - v * np.sin(t) + shift[0]
    y = u * np.sin(t) + v * np.cos(t) + shift[1]
    return np.stack([x, y], 1), inside


def judge(ctx, label, patch, inner, outer, inclination, tilt, shift):
    points, expected = probes(inner, outer, inclination, tilt, shift)
    polygons = outline(patch.get_path(), patch.get_patch_transform())
    got = filled(polygons, points)
    wrong = np.nonzero(got != expected)[0]
    ctx.check(not len(wrong), lambda: f"{label}: the point "
        f"{points[wrong[0]]} is {'covered' if got[wrong[0]] else 'empty'}")
    # a lattice that does not follow the projection catches stray pieces
    span = np.linspace(-1.7, 1.7, 15) * outer
    x, y = [a.ravel() for a in np.meshgrid(span, span)]
    t, cosine = np.deg2rad(tilt), max(np.cos(np.deg2rad(inclination)), 1e-9)
    u, v = x * np.cos(t) + y * np.sin(t), y * np.cos(t) - x * np.sin(t)
    radius = np.hypot(u, v / cosine)
    clear = (abs(radius - inner) > 0.005 * outer) & (abs(radius - outer) >
        0.005 * outer) & ((cosine > 1e-3) | (abs(v) > 1e-3 * outer))
    points = np.stack([x + shift[0], y + shift[1]], 1)
    got = filled(polygons, points)
    expected = (radius > inner) & (radius < outer)
    wrong = np.nonzero((got != expected) & clear)[0]
    ctx.check(not len(wrong), lambda: f"{label}: the lattice point "
        f"{points[wrong[0]]} is {'covered' if got[wrong[0]] else 'empty'}")


def opacity(patch):
    return patch.get_alpha() if patch.get_alpha() is not None else \
        patch.get_facecolor()[3]


# -------------------------------------------------------------------- cases

def run(case, ctx):
    globals()[case["kind"]](case, ctx)
    ctx.sample({k: case[k] for k in case if k in ("kind", "radii",
        "shift")})


def patch(case, ctx):
    from Ring import Ring
    from matplotlib.colors import to_rgb
    inner, outer = case["radii"]
    shift = case["shift"]
    for transmission, inclination, tilt in itertools.product(TRANSMISSIONS,
            case["inclinations"], case["tilts"]):
        ring = Ring(inner, outer, transmission, inclination, tilt)
        for color in COLORS[:1 if inclination % 60 else 2]:
            drawn = ring.get_patch(*shift, color)
            label = f"ring {inner}-{outer}, {inclination}, {tilt}, {shift}"
            ctx.add(evaluations=1)
            ctx.distinct("distinct_nontrivial", (label, transmission))
            judge(ctx, label, drawn, inner, outer, inclination, tilt, shift)
            ctx.check(abs(opacity(drawn) - (1 - transmission)) < 1e-12,
                f"{label}: opacity {opacity(drawn)} for transmission "
                f"{transmission}")
            ctx.check(tuple(drawn.get_facecolor()[:3]) == to_rgb(color)
                and drawn.get_fill(), f"{label}: not filled in {color}")
        ctx.outcome(f"{inner}-{outer} {transmission} {inclination} {tilt}")
    if shift == (0, 0):
        default = Ring(inner, outer, 0.3, 30.0, 17.0).get_patch()
        judge(ctx, "default shift", default, inner, outer, 30.0, 17.0,
            (0, 0))


SYSTEMS = [(0.4, [], [], []), (0.0, [], [], []), (9.0, [], [], []),
    (0.5, [0.6], [2.0], [0.3]), (9.0, [0.5, 3.0], [2.0, 4.0], [0.3, 0.3]),
    (0.5, [0.6, 2.0, 5.0], [1.0, 5.0, 30.0], [0.0, 0.5, 1.0]),
    (12.0, [0.0, 1.0, 13.0], [1.0, 12.5, 14.0], [0.2, 0.9, 0.5])]


def plot(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb
    from RingSystem import RingSystem
    shift = case["shift"]
    for number, (planet, inner, outer, transmission) in enumerate(SYSTEMS):
        for inclination, tilt in itertools.product(case["inclinations"],
                case["tilts"]):
            system = RingSystem(planet, np.array(inner, float), np.array(
                outer, float), np.array(transmission, float), inclination,
                tilt, logging_level=50)
            label = f"system {number}, {inclination}, {tilt}, {shift}"
            fig, ax = plt.subplots()
            color = COLORS[number % 2]
            if number % 3 == 2:
                # axes that already show something else
                ax.plot([50, 60], [50, 60])
                ax.set_xlim(50, 60)
                RingSystem(1.0, *[np.array([])] * 3, 0, 0,
                    logging_level=50).plot(ax, 55, 55)
            old = len(ax.patches)
            if number % 3 == 1:
                plt.sca(ax)
                told = system.plot(x_shift=shift[0], y_shift=shift[1],
                    face_color=color)
            else:
                told = system.plot(ax, *shift, color)
            ctx.add(evaluations=1)
            ctx.distinct("distinct_nontrivial", label)
            ctx.check(told is ax, f"{label}: drawn on other axes")
            added = list(ax.patches)[old:]
            if ctx.check(len(added) == 1 + len(inner), f"{label}: "
                    f"{len(added)} patches for a planet and {len(inner)} "
                    "rings"):
                match(ctx, label, added, system, shift, color)
            xlim, ylim = ax.get_xlim(), ax.get_ylim()
            reach = max([planet] + outer)
            t, cosine = np.deg2rad(tilt), np.cos(np.deg2rad(inclination))
            extent = [max([planet] + [np.hypot(o * a, o * cosine * b) for o
                in outer]) for a, b in ((np.cos(t), np.sin(t)), (np.sin(t),
                np.cos(t)))]
            for name, limits, centre, half in (("x", xlim, shift[0],
                    extent[0]), ("y", ylim, shift[1], extent[1])):
                ctx.check(min(limits) <= centre - half and max(limits) >=
                    centre + half, f"{label}: {name} limits {limits} do not "
                    f"contain {centre} +- {half}")
                ctx.check(limits[0] < limits[1], f"{label}: {name} axis is "
                    "inverted")
            ctx.check(ax.get_aspect() in ("equal", 1, 1.0), f"{label}: "
                "distorted axes")
            ctx.outcome(f"{number} {inclination} {tilt} {reach}")
            plt.close("all")
        core.drop_loggers()


def match(ctx, label, added, system, shift, color):
    from matplotlib.colors import to_rgb
    wanted = [("planet", 0.0, system.planet_radius, 0.0, 0, 0)] + [("ring",
        r.inner_radius, r.outer_radius, r.transmission, system.inclination,
        system.tilt) for r in system.rings]
    for patch, (name, inner, outer, transmission, inclination, tilt) in zip(
            added, wanted):
        if outer > 0:
            judge(ctx, f"{label}: {name} {outer}", patch, inner, outer,
                inclination, tilt, shift)
        ctx.check(abs(opacity(patch) - (1 - transmission)) < 1e-12,
            f"{label}: {name} has opacity {opacity(patch)}")
        ctx.check(tuple(patch.get_facecolor()[:3]) == to_rgb(color),
            f"{label}: {name} has another colour")
        ctx.check(patch.get_visible(), f"{label}: {name} is not visible")


def render(case, ctx):
    """The oracle's fill rule is the one of the renderer."""
    import matplotlib.pyplot as plt
    from RingSystem import RingSystem
    for inclination, tilt, shift in itertools.product((0, 40.0, 70), (-45,
            0, 60.0), SHIFTS[:2]):
        fig = plt.figure(figsize=(4, 4), dpi=100)
        ax = fig.add_axes([0, 0, 1, 1])
        RingSystem(0.5, np.array([2.0]), np.array([4.0]), np.array([0.0]),
            inclination, tilt, logging_level=50).plot(ax, *shift)
        ax.set_axis_off()
        fig.canvas.draw()
        image = np.asarray(fig.canvas.buffer_rgba())[::-1, :, 0]
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
        for inner, outer, inc in ((2.0, 4.0, inclination), (0.0, 0.5, 0)):
            points, expected = probes(inner, outer, inc, tilt, shift)
            for (x, y), inside in zip(points, expected):
                u, v = x - shift[0], y - shift[1]
                t = np.deg2rad(tilt)
                a, b = u * np.cos(t) + v * np.sin(t), (v * np.cos(t) - u *
                    np.sin(t))
                cosine = np.cos(np.deg2rad(inclination))
                radius, planet = np.hypot(a, b / cosine), np.hypot(u, v)
                # stay away from the edges, which are drawn with a width
                if (min(abs(radius - 2), abs(radius - 4)) * cosine < 0.15
                        or abs(planet - 0.5) < 0.15):
                    continue
                dark = 2 < radius < 4 or planet < 0.5
                column = int((x - x0) / (x1 - x0) * 400)
                row = int((y - y0) / (y1 - y0) * 400)
                if 0 <= column < 400 and 0 <= row < 400:
                    ctx.check((image[row, column] < 128) == dark,
                        f"rendered {inclination} {tilt} {shift}: pixel at "
                        f"{x}, {y}")
        ctx.add(evaluations=1)
        ctx.distinct("distinct_nontrivial", ("rendered", inclination, tilt,
            shift))
        plt.close("all")
