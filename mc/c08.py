"""C08: a rejected operation leaves the object unchanged."""
import copy
import itertools

import numpy as np

from mc import c06, core, objects, worlds

LEVEL = "model_checking"
RULE = ("every call of a finite alphabet of (mostly invalid) calls is made "
    "in every state: hand-picked states of every class, all states of a "
    "breadth-first exploration of grid-analysis histories, and all pairs of "
    "consecutive calls; whenever the call raises, every observation must be "
    "as before it. transitions = calls made, distinct_outcomes = distinct "
    "(class, call, error) combinations")
ASSUMPTIONS = ["disks full of memory or failing storage are not among the "
    "reasons for a rejection considered here"]

nan, inf = float("nan"), float("inf")
BAD_NUMBERS = ["1", None, True, nan, -1, -0.5, 1e9, inf, [1], np.ones(1)]


def f(*values):
    return np.array(values, float)


def i(*values):
    return np.array(values, dtype="int64")


def call(name, *args, **kwargs):
    shown = ", ".join([core.short(a, 40) for a in args] + [f"{k}={v!r}" for
        k, v in kwargs.items()])
    return (f"{name}({shown})", lambda o: getattr(o, name)(*args, **kwargs))


def grid_calls(grid):
    out = []
    for bad in BAD_NUMBERS:
        for position in range(3):
            args = [1.0, 6.0, 0.5]
            args[position] = bad
            out.append(call("set_eclipse_parameters", *args))
        out.append(call("update_gradient_scaling", bad, 0.5))
        out.append(call("update_gradient_scaling", 9.0, bad))
        out.append(call("generate_hill_radius_mask", bad))
        out.append(call("determine_gradient_fit", bad))
        out.append(call("extract_solutions", bad))
        out.append(call("get_disk_radius", bad))
        out.append(call("get_gradients", bad, bad))
        for position in range(4):
            args = [1.0, 30.0, 10.0, 0.2]
            args[position] = bad
            out.append(call("determine_closest_grid_point", *args))
        for position in range(3):
            args = [0, 0, 0]
            args[position] = bad
            out.append(call("get_grid_point_data", *args))
        out.append(call("save", bad))
    good = dict(times=f(0.1, -0.3), light_curve_gradients=f(0.2, 0.3),
        light_curve_gradient_errors=f(1, 2), transmission_changes=f(0.5, 1))
    bads = [f(0.1), f(), f(0.1, nan), f(0.1, -1), f(0.1, 1e9), f(0.1, 0),
        f(0.1, inf), np.ones((2, 1)), i(0, 1), [0.1, 0.2], None, "x"]
    for name in good:
        for bad in bads:
            out.append(call("add_gradients", **{**good, name: bad}))
    for bad in bads + [f(0.01, 0.01, 0.01), f(0.9, 0.9, 1e-9), f(1e-9),
            f(2.0), f(0)]:
        out.append(call("update_gradient_scaling", 9.0, 0.3, bad))
        out.append(call("update_gradient_scaling", None, None, bad))
    for velocity in (1e-3, 0.2, 1.0, 0):
        out.append(call("update_gradient_scaling", velocity))
        out.append(call("update_gradient_scaling", velocity, 0.9))
    for bad in [i(-1), i(0, 9), i(9), f(0), i(), [0], 0, None,
            np.array([[0]]), i(1, 1, 7)]:
        out.append(call("remove_gradients", bad))
    for bad in (np.ones((2, 2, 2), bool), np.ones(grid.parameters.grid_shape),
            None, [True]):
        for name in ("disk_radius", "tilt", "diagnostic_map"):
            out.append((f"{name}.set_mask({core.short(bad, 30)})",
                lambda g, b=bad, n=name: getattr(g, n).set_mask(b)))
    out.append(("extend the parameters again",
        lambda g: g.parameters.extend_grid()))
    out.append(("save into an existing directory", save_existing))
    for k in (0, 1):
        for args in ((50.0, 1.0), (0.1, nan), (0.1, 1.0, 2.0), (0.1, 1.0,
                0.5, nan), ("a", 1.0), (0.1, 1.0, 0.0), (0.1, 1.0, None,
                -1.0)):
            out.append((f"gradients[{k}].determine_mask{args}",
                lambda g, a=args, k=k: (g.gradients or [])[k]
                .determine_mask(*a)))
    return out


def save_existing(grid):
    import os
    os.makedirs("existing", exist_ok=True)
    grid.save("existing")


def property_calls(prop):
    out = []
    shape = prop.data.shape
    for bad in (np.ones(shape), np.ones((1, 2, 3), bool), None, "m",
            np.ones(shape, bool)[0], np.ones(int(np.prod(shape)), bool)):
        out.append(call("set_mask", bad))
    good = [0.1, 0.9, "plasma", 4]
    for position, bads in enumerate([["a", [1], True], ["a", [1], True],
            [3, True, [1]], ["4", 1, 0, 2.5, True, nan]]):
        for bad in bads:
            args = list(good)
            args[position] = bad
            out.append(call("set_contrast_parameters", *args))
    out += [call("get_data", 1), call("get_data", None)]
    for args in ((3, 0), (-1, 0), (0, 99), (0, -1), (0.5, 0), (2, "a")):
        out.append((f"plot_slice{args}", lambda p, a=args: objects.figure(
            lambda ax: p.plot_slice(*a, ax))))
    out.append(("plot with bad coordinates", lambda p: objects.figure(
        lambda ax: p.plot_cube(2, [(1, 2)]))))
    out.append(("save nowhere", lambda p: p.save("no/such/place")))
    out.append(("save to 3", lambda p: p.save(3)))
    return out


def gradient_calls(gradient):
    out = property_calls(gradient)
    good = [0.3, 1.2, 0.8, 0.1]
    for position in range(4):
        for bad in BAD_NUMBERS + [0]:
            args = list(good)
            args[position] = bad
            out.append(call("determine_mask", *args))
    out.append(("save gradient nowhere", lambda g: g.save_gradient("no/no")))
    return out


def parameters_calls(parameters):
    return [call("extend_grid"), call("save", 3), call("save", None),
        call("save", "no/such/place")]


def diagnostics_calls(store):
    good = [0, 0, f(1, 2), f(3, 4)]
    out = [call("save", 3), call("save", "no/such/place")]
    for position in range(2):
        for bad in (-1, 99, 0.5, "0", None, nan):
            args = list(good)
            args[position] = bad
            out.append(call("save_diagnostic", *args))
            out.append(call("get_diagnostic", *args[:2]))
    for position in (2, 3):
        for bad in (f(1), i(1, 2), np.ones((2, 1)), None, [1., 2.]):
            args = list(good)
            args[position] = bad
            out.append(call("save_diagnostic", *args))
    return out


def ring_calls(ring):
    out = []
    for name in ("inner_radius", "outer_radius", "transmission",
            "inclination", "tilt"):
        for bad in BAD_NUMBERS + [181, -181, 91, 1.01, -0.01, 2, 0.1, 0]:
            out.append((f"{name} = {bad!r}", lambda r, n=name, b=bad:
                setattr(r, n, b)))
    out += [call("get_patch", "a"), call("get_patch", 0, None),
        call("get_patch", 0, 0, 3)]
    return out


def system_calls(system):
    from Ring import Ring
    out = []
    rings = [Ring(a, b, 0.5, 10, 5) for a, b in ((0.2, 0.6), (0.5, 1.5),
        (2.5, 3.5), (3, 4), (3.2, 3.9), (2, 3), (0.1, 9), (6, 7), (5, 6))]
    for index in (-1, 0, 1, 2, 3, 4, 0.5, "0", None, nan):
        for ring in rings + ["ring", None]:
            if isinstance(ring, Ring):
                shown = f"{ring.inner_radius}-{ring.outer_radius}"
            else:
                shown = repr(ring)
            for name in ("add_ring", "replace_ring"):
                out.append((f"{name}({index!r}, {shown})", lambda s, n=name,
                    k=index, r=ring: getattr(s, n)(k, copy.copy(r))))
        out.append(call("remove_ring", index))
    for bad in (0, 1, -1, 2.5, "2", None, True, nan, i(1), i(1, 2, 0),
            i(1, 1, 1, 1), f(1, 2, 3), np.ones((3, 1), dtype="int64"), i()):
        out.append(call("split_rings", bad))
    for bad in BAD_NUMBERS:
        out.append(call("merge_rings", bad))
        out.append(("plot", lambda s, b=bad: objects.figure(lambda ax:
            s.plot(ax, b, 0))))
    return out


CALLS = dict(grid=grid_calls, parameters=parameters_calls,
    property=property_calls, gradient=gradient_calls,
    diagnostics=diagnostics_calls, ring=ring_calls, system=system_calls)


def cases(tier):
    out = []
    for kind, states in objects.STATES.items():
        for state in states:
            for part in range(8 if kind == "grid" else 4 if kind == "system"
                    else 1):
                out.append(dict(kind=kind, state=state, part=part,
                    parts=8 if kind == "grid" else 4 if kind == "system"
                    else 1, pairs=kind in ("parameters", "diagnostics",
                    "ring", "gradient", "property") or tier == "thorough"
                    and kind == "system"))
    configs = [worlds.SMALL, worlds.OFFSET]
    depth = 1 if tier == "quick" else 2
    for config in configs:
        for prefix in c06.PREFIXES:
            for part in range(1 if tier == "quick" else 8):
                out.append(dict(kind="grid histories", config=config,
                    prefix=prefix, depth=depth, part=part,
                    parts=1 if tier == "quick" else 8))
    return out


def try_call(ctx, kind, label, obj, before, name, perform, history):
    error = core.attempt(perform, obj)
    ctx.add(transitions=1, traces_validated_against_impl=1)
    if not isinstance(error, core.Raised):
        return False
    ctx.outcome(f"{kind} {name} {error.kind}")
    after = objects.observe(kind, obj)
    ctx.check(core.same(before, after), lambda: f"{label}: {name} was "
        f"rejected ({error}) but changed "
        + core.first_difference(before, after), history=history)
    return True


def run(case, ctx):
    if case["kind"] == "grid histories":
        return histories(case, ctx)
    kind = case["kind"]
    original = objects.MAKE[kind](case["state"])
    before = objects.observe(kind, original)
    calls = CALLS[kind](original)
    ctx.add(states=1)
    label = f"{kind} {case['state']}"
    for number, (name, perform) in enumerate(calls):
        if number % case["parts"] != case["part"]:
            continue
        obj = copy.deepcopy(original)
        rejected = try_call(ctx, kind, label, obj, before, name, perform,
            [name])
        if not case["pairs"]:
            continue
        # also after a call that went through, and after a rejected one
        base = before if rejected else objects.observe(kind, obj)
        for second, again in calls:
            twin = copy.deepcopy(obj)
            try_call(ctx, kind, label, twin, base, second, again,
                [name, second])
    ctx.sample(dict(calls=[name for name, _ in calls[:6]],
        total=len(calls)))


def histories(case, ctx):
    """All grid states reachable in a few steps x all calls."""
    reference = worlds.Reference(tuple(case["config"]))
    start = c06.starter(case, reference)
    states = {}
    frontier = [((), start())]
    states[worlds.canon(frontier[0][1])] = frontier[0]
    for _ in range(case["depth"]):
        following = []
        for history, world in frontier:
            for op in c06.ALPHABET:
                twin = copy.deepcopy(world)
                if isinstance(core.attempt(worlds.perform, twin.grid, op),
                        core.Raised):
                    continue
                key = worlds.canon(twin)
                if key not in states:
                    states[key] = ((*history, op), twin)
                    following.append(states[key])
        frontier = following
    for number, (history, world) in enumerate(states.values()):
        if number % case["parts"] != case["part"]:
            continue
        ctx.add(states=1)
        before = worlds.observe(world.grid)
        twin = copy.deepcopy(world.grid)
        for name, perform in grid_calls(world.grid):
            error = core.attempt(perform, twin)
            ctx.add(transitions=1)
            if isinstance(error, core.Raised):
                after = worlds.observe(twin)
                ctx.outcome(f"grid {name} {error.kind}")
                if ctx.check(core.same(before, after), lambda: f"grid "
                        f"{case['config']}: {name} was rejected ({error}) "
                        "but changed "
                        + core.first_difference(before, after), history=[
                        *case["prefix"], *history, name]):
                    continue
            twin = copy.deepcopy(world.grid)
    ctx.add(traces_validated_against_impl=len(states))
    ctx.sample(dict(prefix=case["prefix"], states=len(states)))
