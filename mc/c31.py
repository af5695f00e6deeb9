"""C31: operations on separate objects may overlap."""
import copy
import io
import os
import pickle
import sys
import threading

import numpy as np

from mc import c24, core, objects, worlds
from mc.core import Violation, attempt, first_difference, same

LEVEL = "model_checking"
RULE = ("pairs of programs in two threads under a scheduler that lets one "
    "run at a time and switches at lines of the code under test: every line "
    "executed by one program as the point at which all of the other runs "
    "(one preemption), and pairs of such points, the second within the "
    "other program (two preemptions). Every result, log line, file and final "
    "state must be that of the program running alone in a process of its "
    "own, shared arguments and results handed out must stay as they were. A "
    "state is a distinct pair of positions at which a switch was made")
ASSUMPTIONS = ["a thread is only preempted between source lines of the code "
    "under test", "drawing (matplotlib is not made for threads) and "
    "intermittent saving (one folder for all by design) are left out"]


def merging(env, shared):
    env["it"].merge_rings()
    return [str(env["it"]), env["it"].get_rings_data(), [ring.get_patch(0.1,
        0.2).get_path().vertices for ring in env["it"].rings]]


def masking(env, shared):
    env["it"].set_contrast_parameters(0.1, 0.6, "plasma", 5)
    return [env["it"].vmin, env["it"].vmax, env["it"].color_map,
        env["it"].num_colors, str(env["it"])]


INSTEAD = dict(unite=merging, colour=masking)


def program(name):
    steps, final = c24.PROGRAMS[name]()
    return [INSTEAD.get(step.__name__, step) for step in steps], final


PAIRS = [("grid", "grid"), ("grid", "grid other ranges"),
    ("grid talking", "grid other gradients"), ("grid aside",
    "grid further"), ("grid twice other", "grid other gradients"), ("grid other shape", "grid twice"),
    ("grid twice", "grid twice other"), ("grid other resolution",
    "grid twice other"),
    ("property", "property"), ("property", "property other"),
    ("property", "property other name"), ("gradient", "gradient"),
    ("gradient", "gradient other"), ("diagnostics", "diagnostics"),
    ("diagnostics", "diagnostics other"), ("parameters", "parameters"),
    ("parameters", "parameters other"), ("system", "system"),
    ("system", "system other"), ("system", "system other rings"),
    ("ring", "ring"), ("ring", "ring other"), ("ring", "system"),
    ("property", "gradient"), ("parameters", "gradient other"),
    ("diagnostics", "parameters")]
QUICK = [("grid", "grid other ranges"), ("grid twice other",
    "grid other gradients")]


# --------------------------------------------------------------- scheduler

class Router(io.StringIO):
    """What each thread prints, kept apart."""

    def __init__(self):
        super().__init__()
        self.texts = {}

    def write(self, text):
        self.texts.setdefault(threading.get_ident(), []).append(text)
        return len(text)

    def flush(self):
        pass

    def take(self):
        found = self.texts.pop(threading.get_ident(), [])
        return "".join(found)


class Scheduler:
    """One thread at a time; segments say up to where each may run.

    A place is a line of the code under test and how often that program has
    been about to run it before. Lines are watched by `sys.monitoring`, which
    forgets about those of no interest after their first event.
    """

    TOOL = 4

    def __init__(self, segments, recording=False):
        self.segments = [(who, place and tuple(place)) for who, place in
            segments]
        self.at = 0
        self.counts = {}
        self.reached = 0
        self.places = []
        self.recording = recording
        self.watched = {(who, place[:2]) for who, place in self.segments if
            place}
        self.lines = {place for _, place in self.watched}
        self.done = [False, False]
        self.turn = [threading.Event(), threading.Event()]
        self.who = {}
        self.free = False

    def on_line(self, code, line):
        name = code.co_filename
        if not name.startswith(core.REPO):
            return sys.monitoring.DISABLE
        place = os.path.basename(name), line
        if not self.recording and place not in self.lines:
            return sys.monitoring.DISABLE
        who = self.who.get(threading.get_ident())
        if who is None:
            return
        nth = self.counts[who, place] = self.counts.get((who, place), -1) + 1
        if self.recording:
            self.places.append((*place, nth))
        elif not self.free and self.at < len(self.segments) and \
                self.segments[self.at] == (who, (*place, nth)):
            self.reached += 1
            self.advance()
            self.wait(who)

    def advance(self):
        """The next segment of a thread that still has something to do."""
        self.at += 1
        while self.at < len(self.segments) and self.done[self.segments[
                self.at][0]]:
            self.at += 1
        if self.at < len(self.segments):
            who = self.segments[self.at][0]
            self.turn[1 - who].clear()
            self.turn[who].set()

    def __enter__(self):
        monitoring = sys.monitoring
        monitoring.use_tool_id(self.TOOL, "overlap")
        monitoring.register_callback(self.TOOL, monitoring.events.LINE,
            self.on_line)
        monitoring.set_events(self.TOOL, monitoring.events.LINE)
        monitoring.restart_events()
        return self

    def __exit__(self, *_):
        monitoring = sys.monitoring
        monitoring.set_events(self.TOOL, 0)
        monitoring.register_callback(self.TOOL, monitoring.events.LINE, None)
        monitoring.free_tool_id(self.TOOL)

    def begin(self):
        self.turn[self.segments[0][0]].set()

    def wait(self, who):
        seen, still = None, 0
        while not self.turn[who].wait(0.05):
            # the other one may wait for what this one holds: let both run
            if self.free:
                return
            frames = sys._current_frames()
            now = [(id(frames[t]), frames[t].f_lasti) for t, w in
                self.who.items() if w == 1 - who and t in frames]
            still = still + 1 if now == seen and now else 0
            seen = now
            if still >= 8 and not self.done[1 - who] and \
                    self.at < len(self.segments) and self.segments[self.at][
                    0] == 1 - who:
                self.free = True
                return

    def finish(self, who):
        self.done[who] = True
        self.advance()


def overlap(pair, segments, directory, keys=(), recording=False):
    """Run; returns the scheduler, what each program saw, the arguments."""
    os.mkdir(directory)
    os.chdir(directory)
    console = Router()
    real = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = console
    try:
        shared = c24.Shared()
        scheduler = Scheduler(segments, recording)
        taking = {who for who, _ in segments}
        parts = [program(name) for name in pair]
        envs = [dict(tag=k) for k in range(2)]
        seen, live, finals = [[], []], [[], []], [None, None]

        ready = [threading.Event(), threading.Event()]

        def work(who):
            scheduler.who[threading.get_ident()] = who
            ready[who].set()
            scheduler.turn[who].wait()
            try:
                for step in parts[who][0]:
                    result = attempt(step, envs[who], shared)
                    # copied before the other thread gets its turn again
                    seen[who].append([copy.deepcopy(result), c24.lines(
                        console.take())])
                    live[who].append(result)
            finally:
                scheduler.finish(who)

        # arguments exist before anybody works with them
        for key in keys:
            shared(key)
        threads = [threading.Thread(target=work, args=(who,), daemon=True)
            for who in sorted(taking)]
        with scheduler:
            for who, thread in zip(sorted(taking), threads):
                thread.start()
                ready[who].wait()
            scheduler.begin()
            for thread in threads:
                thread.join()
        key = shared.changed()
        if key:
            raise Violation(f"an argument was changed: {key}")
        for who in taking:
            for k, (result, kept) in enumerate(zip(live[who], seen[who])):
                if not same(result, kept[0]):
                    raise Violation(f"the result of {pair[who]} step {k} "
                        "changed after it was handed out: "
                        + first_difference(result, kept[0]))
            finals[who] = attempt(parts[who][1], envs[who])
        files = c24.listing()
        found = [[seen[who], finals[who], {n.replace(f"saved-{who}", "x"):
            data for n, data in files.items() if n.startswith(
            f"saved-{who}")}] for who in range(2)]
        strays = sorted(n for n in files if not n.startswith("saved-"))
        if strays:
            raise Violation(f"files left behind: {strays}")
        return scheduler, found, list(shared.values)
    finally:
        sys.stderr, sys.stdout = real
        os.chdir("..")
        core.drop_loggers()


def compare(pair, found, expected):
    for who in range(2):
        for k, (got, wanted) in enumerate(zip(found[who][0], expected[who][
                0])):
            if not same(got, wanted, 1e-12):
                raise Violation(f"{pair[who]} step {k} is not what it is "
                    "when running alone: " + first_difference(got, wanted,
                    1e-12))
        if len(found[who][0]) != len(expected[who][0]):
            raise Violation(f"{pair[who]} did not finish")
        if not same(found[who][1], expected[who][1], 1e-12):
            raise Violation(f"the final state of {pair[who]} is not that of "
                "running alone: " + first_difference(found[who][1], expected[
                who][1], 1e-12))
        if found[who][2] != expected[who][2]:
            names = sorted(n for n in {*found[who][2], *expected[who][2]} if
                found[who][2].get(n) != expected[who][2].get(n))
            raise Violation(f"{pair[who]} saves other files than when "
                f"running alone: {names[:3]}")


# ------------------------------------------------------------- exploration

def alone(pair):
    """Each program in a process that did nothing else."""
    out = []
    for who in range(2):
        receive, send = os.pipe()
        child = os.fork()
        if not child:
            try:
                os.close(receive)
                scheduler, found, keys = overlap(pair, [(who, None)],
                    f"alone-{who}", recording=True)
                told = found[who], scheduler.places, keys
            except Exception as error:
                told = repr(error)
            with os.fdopen(send, "wb") as pipe:
                pickle.dump(told, pipe)
            os._exit(0)
        os.close(send)
        with os.fdopen(receive, "rb") as pipe:
            text = pipe.read()
        os.waitpid(child, 0)
        out.append(pickle.loads(text) if text else "ended early")
    return out


def points(places, often):
    """Where to switch: at each line of the code the first `often` times it
    is about to be run, and the last."""
    when = {}
    for place in places:
        when.setdefault(place[:2], []).append(place)
    chosen = set()
    for found in when.values():
        chosen.update(found if often is None else [*found[:often],
            found[-1]])
    return [place for place in places if place in chosen]


def is_grid(pair):
    return any(name.split()[0] == "grid" for name in pair)


def cases(tier):
    pairs = [pair for pair in PAIRS if not is_grid(pair) or pair in QUICK]
    if tier == "thorough":
        names = [name for name in c24.PROGRAMS if "viewer" not in name]
        pairs = [(a, b) for k, a in enumerate(names) for b in names[k:]]
    out = []
    for pair in pairs:
        parts = 16 if is_grid(pair) else 2
        if tier == "thorough":
            parts *= 4
        one = pair[0] == pair[1] or is_grid(pair) and tier == "quick"
        for first in (0,) if one else (0, 1):
            for part in range(parts):
                out.append(dict(pair=pair, first=first, part=part,
                    parts=parts))
    return out


def schedules(case, tier, places):
    a, b = case["first"], 1 - case["first"]
    grid = is_grid(case["pair"])
    often = 1 if tier == "quick" else (3 if grid else None)
    outer = points(places[a], often)
    for number, k in enumerate(outer):
        if number % case["parts"] == case["part"]:
            yield [(a, k), (b, None), (a, None)]
    # two preemptions: at a coarser selection of lines
    inner = points(places[b], 1)
    outer = points(places[a], 1)
    many = (12 if grid else 40) if tier == "quick" else (40 if grid else 200)
    outer, inner = outer[::-(-len(outer) // many)], inner[::-(-len(inner) //
        many)]
    for number, (k, m) in enumerate((k, m) for k in outer for m in inner):
        if number % case["parts"] == case["part"]:
            yield [(a, k), (b, m), (a, None), (b, None)]


def run(case, ctx, only=None):
    pair = case["pair"]
    told = alone(pair)
    for name, one in zip(pair, told):
        if isinstance(one, str):
            ctx.fail(f"{name} running alone: {one}")
            return
        for k, (result, _) in enumerate(one[0][0]):
            ctx.check(not isinstance(result, core.Raised), f"{name} running "
                f"alone, step {k}: {result}")
    expected = [one[0] for one in told]
    places = [one[1] for one in told]
    keys = list(dict.fromkeys([*told[0][2], *told[1][2]]))
    ways = [only] if only else schedules(case, ctx.tier, places)
    for number, segments in enumerate(ways):
        segments = [tuple(s) for s in segments]
        where = [f"{pair[who]} before " + "{}:{} (time {})".format(*place)
            for who, place in segments if place]
        try:
            scheduler, found, _ = overlap(pair, segments, f"run-{number}",
                keys)
            compare(pair, found, expected)
        except Violation as error:
            ctx.fail(f"switching at {', '.join(where)}: {error}",
                history=segments)
            continue
        ctx.add(transitions=len(segments), traces_validated_against_impl=1)
        ctx.distinct("states", (pair, [s for s in segments]))
        ctx.add(switches=scheduler.reached)
        ctx.outcome(f"{pair} {len(segments)} {segments[0][1][:2]}")
    ctx.sample(dict(pair=pair, schedule=segments))


def replay(case, history, ctx):
    run(case, ctx, only=history)
