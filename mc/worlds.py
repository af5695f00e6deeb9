"""Grids under analysis: operations, observations and the reference ledger."""
import copy

import numpy as np

from mc import grids
from mc.core import Violation, attempt, first_difference, same

SMALL = (0.0, 1.0, 2, 0.0, 1.0, 2, 2.0, 2, 30)
OFFSET = (-0.4, 1.0, 3, 0.25, 1.0, 2, 3.0, 3, 30)
PLANE = (-1.0, 1.0, 3, -0.5, 0.5, 3, 2.0, 2, 30)

PROPERTIES = ["disk_radius", "inclination", "tilt", "fx_map", "fy_map",
    "diagnostic_map"]


def pattern(shape, seed):
    """A fixed boolean mask (every seed-th cell of the flattened grid)."""
    mask = np.zeros(int(np.prod(shape)), bool)
    mask[seed % 3::seed] = True
    return mask.reshape(shape)


def perform(grid, op):
    """Run one operation on the real grid."""
    kind = op[0]
    if kind == "eclipse":
        return grid.set_eclipse_parameters(*op[1:])
    if kind == "add":
        times, values, errors, changes = op[1:]
        return grid.add_gradients(np.array(times, float),
            np.array(values, float),
            None if errors is None else np.array(errors, float),
            None if changes is None else np.array(changes, float))
    if kind == "remove":
        return grid.remove_gradients(np.array(op[1], dtype="int64"))
    if kind == "scale":
        return grid.update_gradient_scaling(op[1], op[2],
            None if op[3] is None else np.array(op[3], float))
    if kind == "hill":
        return grid.generate_hill_radius_mask(op[1])
    if kind == "fit":
        return grid.determine_gradient_fit(op[1])
    if kind == "mask":
        prop = getattr(grid, op[1])
        return prop.set_mask(pattern(prop.data.shape, op[2]))
    if kind == "point":
        return grid.get_grid_point_data(*op[1:])
    if kind == "closest":
        return grid.determine_closest_grid_point(*op[1:])
    if kind == "extract":
        return grid.extract_solutions(*op[1:])
    if kind == "save":
        return grid.save(*op[1:])
    if kind == "diagnose":
        return grid.diagnose_fxfy_resolution()
    raise AssertionError(op)


def observe(grid, probe=True, text=True):
    """Everything a user can see of a grid (made on a copy of it)."""
    grid = copy.deepcopy(grid)
    p = grid.parameters
    out = dict(dx=p.dx, dy=p.dy, rf=p.rf, rf_array=p.rf_array,
        grid_shape=tuple(p.grid_shape), slice_shape=tuple(p.slice_shape),
        extendable=bool(p.extendable), num_fxfy=int(grid.num_fxfy))
    for name in PROPERTIES:
        prop = getattr(grid, name)
        getter = getattr(grid, f"get_{name}")
        out[name] = dict(data=np.copy(prop.get_data(False)),
            mask=prop.mask,
            views=[np.copy(getter(a, b)) for a in (False, True)
                for b in (False, True)],
            contrast=[prop.vmin, prop.vmax, prop.color_map,
                prop.num_colors],
            names=[prop.name.name, prop.unit.name],
            shape=tuple(prop.grid_parameters.grid_shape))
    out["combined"] = grid.get_combined_mask()
    out["gradients"] = [gradient_view(g) for g in grid.gradients or []]
    if out["gradients"]:
        out["gradient views"] = [[np.copy(x) for x in
            grid.get_gradients(a, b)] for a in (False, True)
            for b in (False, True)]
    out["fit"] = [grid.get_gradient_fit(a, b) for a in (False, True)
        for b in (False, True)]
    out["fit"] = [None if x is None else np.copy(x) for x in out["fit"]]
    if grid.gradient_fit is not None:
        fit = grid.gradient_fit
        out["fit contrast"] = [fit.vmin, fit.vmax, fit.color_map,
            fit.num_colors]
    ny, nx = p.slice_shape
    if grid.diagnostics is not None:
        out["diagnostics"] = [attempt(grid.diagnostics.get_diagnostic, y, x)
            for y in range(ny) for x in range(nx)]
    else:
        out["diagnostics"] = None
    if text:
        out["text"] = str(grid)
    if probe:
        out["probe"] = probed(grid)
    return out


def gradient_view(g):
    return dict(position=float(g.position), data=np.copy(g.get_data(False)),
        masked=np.copy(g.get_data(True)), mask=g.mask,
        measured=g.measured_gradient, error=g.measured_error,
        scale=g.orbital_scale, change=g.transmission_change,
        scaled=g.get_scaled_gradient(),
        contrast=[g.vmin, g.vmax, g.color_map, g.num_colors])


def probed(grid):
    """Which eclipse parameters are in force, seen through behaviour."""
    grid = copy.deepcopy(grid)
    before = len(grid.gradients or [])
    result = attempt(perform, grid, ("add", (0.37,), (1e-3,), None, None))
    if result is not None:
        return repr(result)
    after = (grid.gradients or [])[before:]
    return [(float(g.position), float(g.get_scaled_gradient()))
        for g in after]


# ------------------------------------------------------------------ ledger

def orbital_scale(velocity, darkening):
    u = darkening
    return (6 - 2 * u) / (12 - 12 * u + 3 * np.pi * u) * np.pi / velocity


class Reject(Exception):
    pass


class Ledger:
    """What the history of operations implies, kept as plain values."""

    def __init__(self):
        self.eclipse = None
        self.entries = []
        self.hill = None
        self.masks = {}
        self.fit = None

    def perform(self, op):
        {"eclipse": self.eclipse_op, "add": self.add, "remove": self.remove,
            "scale": self.scale, "hill": self.hill_op, "fit": self.fit_op,
            "mask": self.mask}[op[0]](*op[1:])

    def eclipse_op(self, *args):
        d, v, u = args
        if not (d >= 0 and v >= 0 and 0 <= u <= 1):
            raise Reject()
        self.eclipse, self.entries, self.fit = (d, v, u), [], None

    def add(self, times, values, errors, changes):
        if self.eclipse is None:
            return
        n = len(times)
        errors = [1.0] * n if errors is None else errors
        changes = [1.0] * n if changes is None else changes
        if not len(values) == len(errors) == len(changes) == n:
            raise Reject()
        if min((*values, *errors, *changes), default=0) < 0 or max(changes,
                default=0) > 1:
            raise Reject()
        d, v, u = self.eclipse
        scale = orbital_scale(v, u)
        new = [dict(position=-t / d, value=g, error=e, change=c, scale=scale)
            for t, g, e, c in zip(times, values, errors, changes)]
        self.verify(new)
        self.entries = self.entries + new
        self.fit = None

    @staticmethod
    def verify(entries):
        for e in entries:
            if e["change"] == 0 or scaled(e) > 1:
                raise Reject()

    def remove(self, indices):
        if not self.entries:
            return
        if any(not 0 <= i < len(self.entries) for i in indices):
            raise Reject()
        self.entries = [e for i, e in enumerate(self.entries)
            if i not in indices]
        self.fit = None

    def scale(self, velocity, darkening, changes):
        orbital = velocity is not None or darkening is not None
        if orbital and ((velocity is not None and velocity < 0) or (darkening
                is not None and not 0 <= darkening <= 1)):
            raise Reject()
        if orbital and self.eclipse is None:
            return
        if changes is not None and (len(changes) != len(self.entries)
                or not self.entries or min(changes) < 0 or max(changes) > 1):
            raise Reject()
        if not orbital and changes is None:
            return
        d, v, u = self.eclipse
        v = v if velocity is None else velocity
        u = u if darkening is None else darkening
        new = [dict(e) for e in self.entries]
        for k, e in enumerate(new):
            if orbital:
                e["scale"] = orbital_scale(v, u)
            if changes is not None:
                e["change"] = changes[k]
        self.verify(new)
        self.eclipse, self.entries, self.fit = (d, v, u), new, None

    def hill_op(self, radius):
        if radius < 0:
            raise Reject()
        self.hill = radius
        self.masks.pop("disk_radius", None)

    def fit_op(self, weighted):
        if self.entries:
            self.fit = weighted

    def mask(self, name, seed):
        self.masks[name] = seed
        if name == "disk_radius":
            self.hill = None


def scaled(entry):
    return entry["value"] * entry["scale"] / entry["change"]


class GridWorld:
    """A real grid and its ledger."""

    def __init__(self, config, reference, **kwargs):
        self.grid = grids.build(config, **kwargs)
        self.ledger = Ledger()
        self.reference = reference

    def __deepcopy__(self, memo):
        twin = GridWorld.__new__(GridWorld)
        twin.grid = copy.deepcopy(self.grid, memo)
        twin.ledger = copy.deepcopy(self.ledger, memo)
        twin.reference = self.reference
        return twin

    def apply(self, op, compare=True):
        """Execute on both; they must agree on acceptance and on state."""
        expected = copy.deepcopy(self.ledger)
        try:
            expected.perform(op)
            rejected = False
        except Reject:
            rejected = True
            expected = self.ledger
        result = attempt(perform, self.grid, op)
        if rejected and result is None:
            raise Violation(f"{op} must be rejected but was accepted")
        if not rejected and result is not None:
            raise Violation(f"{op} must be accepted but {result}")
        self.ledger = expected
        if compare:
            self.compare(op)

    def compare(self, op=None):
        problem = self.reference.disagreement(self.grid, self.ledger)
        if problem:
            raise Violation(f"after {op}: {problem}")


class Reference:
    """Expected observations, from plain arrays of a pristine grid."""

    def __init__(self, config, **kwargs):
        self.config = config
        self.kwargs = kwargs
        grid = grids.build(config)
        self.data = {k: np.copy(getattr(grid, k).get_data(False)) for k in
            PROPERTIES}
        self.shape = tuple(grid.parameters.grid_shape)
        self.vectors = [np.copy(v) for v in grid.parameters.get_vectors()]
        self.disk_gradients = {}

    def disk_gradient(self, position):
        """Data of a gradient that is alone on a fresh grid."""
        key = float(position)
        if key not in self.disk_gradients:
            grid = grids.build(self.config)
            grid.set_eclipse_parameters(1.0, 10.0, 0.0)
            grid.add_gradients(np.array([-key]), np.array([0.0]))
            if abs(grid.gradients[0].position - key) > 1e-12:
                raise Violation(f"gradient at time {-key} has position "
                    f"{grid.gradients[0].position}")
            self.disk_gradients[key] = np.copy(
                grid.gradients[0].get_data(False))
        return self.disk_gradients[key]

    def gradient_mask(self, entry):
        data = self.disk_gradient(entry["position"])
        with np.errstate(invalid="ignore"):
            return np.isnan(data) | (data < scaled(entry))

    def expected_masks(self, ledger):
        masks = {name: pattern(self.shape, seed) for name, seed in
            ledger.masks.items()}
        if ledger.hill is not None:
            radius = self.data["disk_radius"]
            with np.errstate(invalid="ignore"):
                masks["disk_radius"] = np.isnan(radius) | (radius >
                    ledger.hill)
        return masks

    def combined(self, ledger):
        masks = self.expected_masks(ledger)
        out = np.zeros(self.shape, bool)
        for name in ("disk_radius", "inclination", "tilt"):
            if name in masks:
                out |= masks[name]
        for entry in ledger.entries:
            out |= self.gradient_mask(entry)
        return out

    def fit(self, ledger):
        if ledger.fit is None:
            return None
        total = np.zeros(self.shape)
        for entry in ledger.entries:
            weight = entry["error"]**2 if ledger.fit else 1.0
            total = total + (self.disk_gradient(entry["position"])
                - scaled(entry))**2 / weight
        return total

    def disagreement(self, grid, ledger):
        """First difference between the real grid and the ledger, if any."""
        real = list(grid.gradients or [])
        if len(real) != len(ledger.entries):
            return (f"{len(real)} gradients stored, history implies "
                f"{len(ledger.entries)}")
        for k, (g, e) in enumerate(zip(real, ledger.entries)):
            told = dict(position=float(g.position),
                scaled=float(g.get_scaled_gradient()),
                measured=float(g.measured_gradient),
                error=float(g.measured_error),
                change=float(g.transmission_change))
            true = dict(position=e["position"], scaled=scaled(e),
                measured=e["value"], error=e["error"], change=e["change"])
            if not same(told, true, 1e-12):
                return f"gradient {k}: " + first_difference(told, true, 1e-12)
            data = self.disk_gradient(e["position"])
            if not same(g.get_data(False), data, 1e-12):
                return f"gradient {k}: data of another position"
        combined = self.combined(ledger)
        ties = self.ties(ledger)
        differ = (grid.get_combined_mask() != combined) & ~ties
        if differ.any():
            cell = tuple(int(i) for i in np.argwhere(differ)[0])
            return (f"combined mask wrong at {int(differ.sum())} cells, e.g."
                f" {cell}: expected masked={bool(combined[cell])}")
        if real:
            positions, scaled_values, errors, data = grid.get_gradients(
                False, False)
            for name, told, true in (
                    ("positions", positions, [e["position"] for e in
                        ledger.entries]),
                    ("scaled gradients", scaled_values, [scaled(e) for e in
                        ledger.entries]),
                    ("errors", errors, [e["error"] for e in
                        ledger.entries]),
                    ("disk gradients", data, [self.disk_gradient(
                        e["position"]) for e in ledger.entries])):
                if not same(told, np.array(true), 1e-12):
                    return f"get_gradients reports other {name}"
        told = grid.get_gradient_fit(False, False)
        true = self.fit(ledger)
        if (told is None) != (true is None):
            return (f"gradient fit is {'missing' if told is None else 'stale'}"
                f" (history implies {ledger.fit})")
        if told is not None and not same(told, true, 1e-9):
            return "gradient fit is not that of the present gradients"
        if told is not None:
            masked = grid.get_gradient_fit(True, True)
            gone = np.isnan(masked)
            should = combined | np.isnan(true)
            if ((gone != should) & ~ties).any():
                return "masked gradient fit hides the wrong cells"
        for name, values in self.data.items():
            if not same(getattr(grid, name).get_data(False), values, 1e-12):
                return f"{name} data changed"
        return None

    def ties(self, ledger):
        """Cells whose comparison hangs on the last bit of the scaling."""
        out = np.zeros(self.shape, bool)
        for e in ledger.entries:
            with np.errstate(invalid="ignore"):
                out |= np.abs(self.disk_gradient(e["position"])
                    - scaled(e)) < 1e-12
        return out


def canon(world):
    from mc.core import fingerprint
    return fingerprint([world.grid, vars(world.ledger)])
