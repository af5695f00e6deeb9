"""C17: splitting and merging do not change what a ring system looks like."""
import copy
import itertools

import numpy as np

from mc import core
from mc.core import Violation, attempt

LEVEL = "model_checking"
RULE = ("every ring system of up to three (thorough: four) rings with every "
    "pattern of gaps, widths and transmissions, and from each all histories "
    "of splits (uniform and every per-ring pattern) and merges (several "
    "tolerances, gaps exactly at a tolerance included), compared after "
    "every step with the transmission profile and with the ringlets or "
    "merged rings the definition gives; histories replayed")
ASSUMPTIONS = ["edges are compared with 1e-12 of the radius, profiles "
    "outside 1e-9 around every edge",
    "gaps that equal the tolerance only up to rounding are left out"]

WIDTHS = [0.5, 1 / 3, 2.0**-12]
GAPS = [0.0, 2.0**-24, 0.25]
TRANSMISSIONS = [0.25, 0.7]
STARTS = [0.0, 0.3]
TOLERANCES = [1e-6, 0.0, 2.0**-24, 0.25, 0.2]


def lattice(tier):
    """(inner, outer, transmission) lists."""
    out = [[]]
    for count in range(1, 4 if tier == "quick" else 5):
        widths = WIDTHS if count < 3 else WIDTHS[:2]
        if count == 4:
            widths = WIDTHS[1:2]
        for first in STARTS if count < 3 else STARTS[1:]:
            for w, g, t in itertools.product(itertools.product(widths,
                    repeat=count), itertools.product(GAPS,
                    repeat=count - 1), itertools.product(TRANSMISSIONS,
                    repeat=count)):
                rings, edge = [], first
                for k in range(count):
                    rings.append((edge, edge + w[k], t[k]))
                    edge += w[k] + (g[k] if k < count - 1 else 0)
                out.append(rings)
    # many, far and large rings
    out.append([(k / 7, (k + 1) / 7, 0.3) for k in range(12)])
    out.append([(1000 + k / 3, 1000 + (k + 1) / 3, 0.3 + 0.4 * (k % 2))
        for k in range(6)])
    out.append([(0.1 * k, 0.1 * (k + 1), 0.5) for k in range(1, 9)])
    # transmissions that differ by as little as possible
    for near in (np.nextafter(0.5, 1), 0.5 + 1e-12, 0.5 + 1e-9, 0.500001):
        out.append([(1.0, 2.0, 0.5), (2.0, 3.0, float(near)), (3.0, 4.0,
            0.5), (4.0, 5.0, 0.5)])
    out.append([(0.0, 1.0, 0.0), (1.0, 2.0, 1e-300), (2.0, 3.0, -0.0), (3.0,
        4.0, 1.0), (4.0, 5.0, float(np.nextafter(1, 0)))])
    return out


# inclination and tilt (edge-on and face-on, at and near the bounds)
ORIENTATIONS = [(50.0, 20.0), (90.0, -30.0), (0.0, 0.0), (89.75, -180.0),
    (12.3456789, 180.0), (90.0, 0.25), (1e-9, 179.123456)]


class World:
    def __init__(self, rings, orientation):
        from RingSystem import RingSystem
        columns = [np.array([r[k] for r in rings], float) for k in range(3)]
        self.system = RingSystem(0.5, *columns, *orientation,
            logging_level=50)
        self.frame = (0.5, *orientation)
        self.rings = data(self.system)


def data(system):
    return [(float(r.inner_radius), float(r.outer_radius), float(
        r.transmission)) for r in system.rings]


def canon(world):
    return tuple(world.rings), core.fingerprint(world.system)


def profile(rings, radii):
    out = []
    for radius in radii:
        found = [t for inner, outer, t in rings if inner <= radius <= outer]
        out.append(tuple(found))
    return out


def probes(*systems):
    edges = np.unique([e for rings in systems for r in rings for e in r[:2]])
    if not len(edges):
        return np.array([1.0])
    middle = (edges[1:] + edges[:-1]) / 2
    radii = np.concatenate([middle, [edges[-1] + 1, edges[0] / 2]])
    near = np.abs(radii[:, None] - edges[None, :]).min(1)
    return radii[near > 1e-9]


def operations(world, limit=6):
    count = len(world.rings)
    out = [("merge", t) for t in TOLERANCES if all((b[0] - a[1] <= t) ==
        (b[0] <= a[1] + t) for a, b in zip(world.rings, world.rings[1:]))]
    if count <= limit:
        out += [("split", 2), ("split", 3)]
        if count <= 3:
            out += [("split", c) for c in itertools.product((1, 2, 3),
                repeat=count) if count and max(c) > 1]
            out += [("split", 7)]
        else:
            out += [("split", tuple(1 + (k == which) * 2 for k in range(
                count))) for which in range(count)]
    return out


def apply(world, op):
    kind, argument = op
    before = world.rings
    # the arguments as a user would pass them
    if isinstance(argument, (tuple, list)):
        argument = tuple(argument)
        world.system.split_rings(np.array(argument, dtype="int64"))
    elif kind == "split":
        world.system.split_rings(argument)
    else:
        world.system.merge_rings(argument)
    after = world.rings = data(world.system)
    for a, b in zip(after, after[1:]):
        if not a[1] <= b[0]:
            raise Violation(f"{op}: overlapping rings {a} {b}")
    if any(not r[0] < r[1] for r in after):
        raise Violation(f"{op}: empty ring in {after}")
    system = world.system
    if (system.planet_radius, system.inclination, system.tilt) != \
            world.frame:
        raise Violation(f"{op}: the planet or orientation changes")
    for ring in system.rings:
        if (ring.inclination, ring.tilt) != world.frame[1:]:
            raise Violation(f"{op}: the orientation of a ring is lost")
    if kind == "split":
        judge_split(op, argument, before, after)
    else:
        judge_merge(op, argument, before, after)
        again = copy.deepcopy(world.system)
        again.merge_rings(argument)
        if data(again) != after:
            raise Violation(f"{op}: merging again changes {after} to "
                f"{data(again)}")


def judge_split(op, counts, before, after):
    if isinstance(counts, int):
        counts = (counts,) * len(before)
    if len(after) != sum(counts):
        raise Violation(f"{op}: {len(after)} ringlets")
    position = 0
    for (inner, outer, transmission), count in zip(before, counts):
        ringlets = after[position:position + count]
        position += count
        scale = 1e-12 * max(1.0, outer)
        if (abs(ringlets[0][0] - inner) > scale or abs(ringlets[-1][1] -
                outer) > scale):
            raise Violation(f"{op}: ringlets {ringlets} do not cover "
                f"{inner} to {outer}")
        width = (outer - inner) / count
        for k, (a, b, t) in enumerate(ringlets):
            if t != transmission:
                raise Violation(f"{op}: transmission {t} instead of "
                    f"{transmission}")
            if (abs(a - inner - k * width) > scale or abs(b - inner - (k +
                    1) * width) > scale):
                raise Violation(f"{op}: ringlet {k} of {inner} to {outer} "
                    f"goes from {a} to {b}")
    radii = probes(before, after)
    if profile(before, radii) != profile(after, radii):
        raise Violation(f"{op}: the transmission changes")


def judge_merge(op, tolerance, before, after):
    expected = []
    for ring in before:
        if (expected and abs(ring[0] - expected[-1][1]) <= tolerance
                and ring[2] == expected[-1][2]):
            expected[-1] = (expected[-1][0], *ring[1:])
        else:
            expected.append(ring)
    if expected != after:
        raise Violation(f"{op} on {before}: {after} instead of {expected}")
    for a, b in zip(after, after[1:]):
        if abs(b[0] - a[1]) <= tolerance and a[2] == b[2]:
            raise Violation(f"{op}: {a} and {b} still touch")
    radii = probes(before, after)
    for radius, old, new in zip(radii, profile(before, radii), profile(
            after, radii)):
        if old == new:
            continue
        # only gaps within the tolerance may be closed
        gap = [(a[1], b[0]) for a, b in zip(before, before[1:]) if a[1] <=
            radius <= b[0]]
        if old or not gap or gap[0][1] - gap[0][0] > tolerance:
            raise Violation(f"{op}: transmission {new} instead of {old} at "
                f"{radius}")


def cases(tier):
    systems = lattice(tier)
    size = 40 if tier == "quick" else 20
    return [dict(systems=systems[k:k + size]) for k in range(0,
        len(systems), size)]


def depth(rings, tier):
    if tier == "quick":
        return 2 if len(rings) <= 2 else 1
    return 3 if len(rings) <= 1 else 2


def run(case, ctx):
    for number, rings in enumerate(case["systems"]):
        ctx.outcome(repr(rings))
        orientation = ORIENTATIONS[number % len(ORIENTATIONS)]
        core.explore(ctx, lambda: World(rings, orientation), operations, apply, canon,
            depth(rings, ctx.tier), trace_every=7)
        if ctx.failures:
            ctx.failures[-1]["message"] += f" (from {rings} seen at {orientation})"
