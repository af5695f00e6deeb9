"""Building and observing shallot grids through their public interface."""
import itertools

import numpy as np

from GridParameters import GridParameters
from GridProperty import GridGradient, GridProperty
from Shallot import ShallotGrid

LEVEL = 50


def build(config, **kwargs):
    """config: (min_x, max_x, nx, min_y, max_y, ny, max_rf, n_rf, num)."""
    *parameters, num_fxfy = config
    return ShallotGrid(GridParameters(*parameters), num_fxfy,
        logging_level=LEVEL, **kwargs)


def data(grid):
    return dict(radius=grid.disk_radius.data, inclination=
        grid.inclination.data, tilt=grid.tilt.data, fx=grid.fx_map.data,
        fy=grid.fy_map.data)


def axes(grid):
    dy, dx, rf = grid.parameters.get_vectors()
    return (np.asarray(dy)[:, None, None], np.asarray(dx)[None, :, None],
        np.asarray(rf)[None, None, :])


def lattice(tier):
    """The grid configurations all geometric checks share."""
    quadrant = [(0.0, 1.0), (0.0, 0.4), (0.0, 2.5)]
    other = [(-1.0, 1.0), (0.25, 1.5), (-1.25, -0.5), (-0.5, 1.5)]
    shapes = [(2, 3), (3, 2)]
    rfs = [(2.0, 2), (3.0, 3)]
    nums = [40, 150]
    if tier == "thorough":
        quadrant += [(0.0, 0.1), (0.0, 1.3), (0.0, 5.0)]
        other += [(-2.0, 0.0), (0.01, 0.02), (3.0, 4.0), (-0.3, 0.1)]
        shapes += [(1, 2), (2, 1), (4, 4), (5, 3)]
        rfs += [(1.2, 2), (30.0, 2), (6.0, 4), (2.5, 1), (1.0, 2)]
        nums += [10, 400]
    configs = []
    ranges = quadrant + other
    for (x, y) in itertools.product(ranges, ranges):
        for number, (shape, rf, num) in enumerate(itertools.product(shapes,
                rfs, nums)):
            configs.append((x[0], x[1], shape[0], y[0], y[1], shape[1],
                rf[0], rf[1], num))
    if tier == "quick":
        # every pair of ranges with every shape/rf/resolution value
        extra = [(0.0, 1.0, 1, 0.0, 1.0, 2, 3.0, 3, 100),
            (0.0, 1.0, 2, 0.0, 1.0, 1, 3.0, 3, 100),
            (0.0, 1.0, 1, 0.0, 1.0, 1, 3.0, 3, 100),
            (0.0, 1.0, 4, 0.0, 1.0, 5, 4.0, 4, 100),
            (0.0, 1.0, 3, 0.0, 1.0, 3, 2.0, 1, 100),
            (0.0, 1.0, 3, 0.0, 1.0, 3, 1.0, 2, 100),
            (-1.0, 1.0, 5, -1.0, 1.0, 5, 2.0, 3, 100),
            (-1.0, 1.0, 4, -1.0, 1.0, 4, 2.0, 3, 100),
            (0.0, 2.0, 3, 0.0, 0.2, 3, 6.0, 4, 60),
            # large disks: many extensions of the sampled fx and fy
            (0.2, 0.8, 3, 0.3, 0.9, 3, 30.0, 4, 200),
            (-0.6, 0.6, 2, 0.0, 0.5, 3, 25.0, 3, 100),
            (0.0, 2.5, 3, 0.0, 1.0, 3, 40.0, 2, 100),
            # next to the centre of the eclipse and to its path
            (0.015, 1.0, 3, 0.0, 1.0, 3, 2.0, 2, 60),
            (1e-6, 1e-3, 2, 0.0, 1.0, 2, 2.0, 2, 60),
            (0.0, 0.03, 3, 0.0, 0.03, 3, 2.0, 2, 60),
            (0.0, 1e-5, 3, 0.0, 1e-4, 2, 2.0, 3, 60),
            (-1e-3, 0.5, 3, -2e-3, 0.5, 3, 2.0, 2, 60),
            (0.0, 1.0, 3, 1e-4, 1.0, 3, 2.0, 2, 60),
            (0.3, 0.6, 3, 1e-3, 1e-2, 3, 3.0, 2, 60),
            (0.0, 1.0, 3, 5.0, 30.0, 3, 2.0, 2, 60),
            (20.0, 30.0, 2, 0.5, 2.0, 3, 2.0, 2, 60),
            # coarse sampling
            (0.0, 1.0, 2, 0.0, 1.0, 3, 2.0, 2, 2),
            (0.2, 1.0, 2, -1.0, 0.5, 3, 2.0, 3, 3),
            (0.0, 2.5, 3, 0.0, 1.5, 3, 3.0, 3, 5)]
        configs += extra
    return configs


def chunks(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]
