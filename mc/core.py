"""Shared machinery: isolation, exhaustive drivers, reporting.

Everything a check executes is the code in REPO's working tree, imported
directly (nothing is built or cached).  Each check enumerates a finite,
explicitly listed space of cases; each case is executed in a worker process
that works inside a scratch directory of its own.
"""
import atexit
import collections
import concurrent.futures
import copy
import hashlib
import importlib
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FINDINGS_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
# development runs against a scratch copy keep their evidence out of the way
OUT = VERIF if REPO == "/repo" else os.environ.get("VERIF_OUT", "/tmp/bvf-dev")


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """The property is broken (raised by oracles and reference models)."""


# --------------------------------------------------------------- isolation

SCRATCH = None


def bootstrap():
    """Make the code under test importable in a scratch working directory."""
    global SCRATCH
    for key, value in dict(MPLBACKEND="Agg", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", TQDM_DISABLE="1",
            PYTHONDONTWRITEBYTECODE="1").items():
        os.environ[key] = value
    sys.dont_write_bytecode = True
    SCRATCH = tempfile.mkdtemp(prefix="bvf-", dir=fast_directory())
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(SCRATCH, ignore_errors=True)

    atexit.register(clean)
    mpl = os.path.join(SCRATCH, "mpl")
    if os.path.isdir("/opt/vp/mplconfig"):
        shutil.copytree("/opt/vp/mplconfig", mpl)
    else:
        os.mkdir(mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    os.chdir(SCRATCH)
    sys.path.insert(0, REPO)
    sys.path[:] = [p for p in sys.path if p not in ("",)]
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    logging.raiseExceptions = False
    # loggers are handles, not state
    logging.Logger.__deepcopy__ = lambda self, memo: self


def fast_directory():
    """Files in memory if there is enough of it, else the usual place."""
    path = "/dev/shm"
    try:
        free = os.statvfs(path)
        if free.f_bavail * free.f_frsize >= 2**31 and os.access(path, os.W_OK
                | os.X_OK):
            return path
    except OSError:
        pass
    return None


def enter_case_dir():
    """A fresh, empty current directory for one case."""
    path = tempfile.mkdtemp(prefix="case-", dir=SCRATCH)
    os.chdir(path)
    return path


def leave_case_dir(path):
    os.chdir(SCRATCH)
    shutil.rmtree(path, ignore_errors=True)


def drop_loggers():
    """The code under test registers one logger per object; forget them."""
    table = logging.root.manager.loggerDict
    for name, logger in list(table.items()):
        if not getattr(logger, "propagate", True) and logger.handlers:
            del table[name]
    logging._handlerList[:] = [r for r in logging._handlerList
        if r() is not None]


# ------------------------------------------------------------ fingerprints

def fingerprint(obj):
    """Hash of everything reachable from obj (private state included).

    Only used to merge states during exploration: objects with equal
    fingerprints have equal futures because every attribute is included.
    """
    h = hashlib.blake2b(digest_size=12)
    _walk(obj, h.update, set())
    return h.hexdigest()


_SKIP = ("logging", "matplotlib", "_thread", "threading", "weakref")


def _walk(obj, put, active):
    import numpy as np
    if obj is None or isinstance(obj, (bool, int, str, bytes)):
        put(repr(obj).encode())
    elif isinstance(obj, (float, np.floating)):
        put(b"f" + np.float64(obj).tobytes())
    elif isinstance(obj, np.integer):
        put(repr(int(obj)).encode())
    elif isinstance(obj, np.bool_):
        put(repr(bool(obj)).encode())
    elif isinstance(obj, np.ndarray) and obj.dtype != object:
        put(str((obj.shape, str(obj.dtype))).encode())
        # normalise the sign and payload of undefined values
        if obj.dtype.kind == "f":
            obj = np.where(np.isnan(obj), np.nan, obj)
        put(np.ascontiguousarray(obj).tobytes())
    elif type(obj).__module__.split(".")[0] in _SKIP:
        put(b"skip")
    elif id(obj) in active:
        put(b"cycle")
    else:
        active.add(id(obj))
        if isinstance(obj, dict):
            put(b"{")
            for key in sorted(obj, key=repr):
                put(repr(key).encode())
                _walk(obj[key], put, active)
            put(b"}")
        elif isinstance(obj, (list, tuple)):
            put(b"[")
            for item in obj:
                _walk(item, put, active)
                put(b",")
            put(b"]")
        elif isinstance(obj, np.ndarray):
            put(b"O" + str(obj.shape).encode())
            for item in obj.ravel():
                _walk(item, put, active)
        elif isinstance(obj, (set, frozenset)):
            put(repr(sorted(map(repr, obj))).encode())
        elif hasattr(obj, "__dict__"):
            put(type(obj).__name__.encode())
            _walk(vars(obj), put, active)
        else:
            put(type(obj).__name__.encode())
        active.discard(id(obj))


# -------------------------------------------------------------- comparison

def same(a, b, tol=0.0):
    """Equality of observations; undefined values equal each other."""
    import numpy as np
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return (isinstance(b, dict) and a.keys() == b.keys()
            and all(same(a[k], b[k], tol) for k in a))
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
            and all(same(x, y, tol) for x, y in zip(a, b)))
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        if tol:
            return bool(np.allclose(a.astype(float), b.astype(float),
                rtol=tol, atol=tol, equal_nan=True))
        return bool(np.array_equal(a.astype(float), b.astype(float),
            equal_nan=True))
    return bool(np.array_equal(a, b))


class Raised:
    """Observation of a call that raised."""

    def __init__(self, error):
        self.kind = type(error).__name__
        self.text = str(error)

    def __repr__(self):
        return f"raised {self.kind}({self.text!r})"


def attempt(function, *args, **kwargs):
    try:
        return function(*args, **kwargs)
    except CaseTimeout:
        raise
    except Exception as error:
        return Raised(error)


def first_difference(a, b, tol=0.0, path=""):
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not same(a[k], b[k], tol):
                return first_difference(a[k], b[k], tol, f"{path}/{k}")
    if (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
            and len(a) == len(b)):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, tol):
                return first_difference(x, y, tol, f"{path}[{k}]")
    return f"{path or 'value'}: {short(a)} != {short(b)}"


def short(value, limit=160):
    text = " ".join(repr(value).split())
    return text if len(text) <= limit else text[:limit] + "..."


# ------------------------------------------------------------ case context

class Context:
    """Collects what one case covered and what it found."""

    MAX_FAILURES = 3

    def __init__(self, tier):
        self.tier = tier
        self.counts = collections.Counter()
        self.failures = []
        self.knowns = []
        self.samples = []
        self.outcomes = set()
        self.keys = collections.defaultdict(set)

    def distinct(self, into, key):
        """Count a case under `into` once, however often it is executed."""
        self.keys[into].add(hashlib.blake2b(repr(key).encode(),
            digest_size=8).digest())

    def add(self, **counts):
        self.counts.update(counts)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def outcome(self, key):
        """Distinct behaviours seen; shows the space was not vacuous."""
        self.outcomes.add(key if isinstance(key, str) else short(key, 300))

    def fail(self, message, history=None):
        if len(self.failures) < self.MAX_FAILURES:
            self.failures.append(dict(message=message, history=history))
        if len(self.failures) >= self.MAX_FAILURES:
            raise _Enough()

    def check(self, condition, message, history=None):
        if not condition:
            self.fail(message() if callable(message) else message, history)
        return bool(condition)

    def known(self, ident, message):
        self.knowns.append((ident, message))

    def summary(self):
        return dict(counts=dict(self.counts), failures=self.failures,
            knowns=self.knowns[:5], samples=self.samples,
            outcomes=sorted(self.outcomes), keys=dict(self.keys))


class _Enough(Exception):
    pass


# ------------------------------------------------------------------ search

def explore(ctx, start, operations, apply, canon, depth, clone=None,
        max_states=200000, trace_every=1, label=None):
    """Breadth-first search over operation histories of the real code.

    start()            -> a fresh world (real objects plus reference model)
    operations(world)  -> the JSON-able operations enabled in that world
    apply(world, op)   -> executes op on the real code and the model and
                          compares them (raises Violation on disagreement)
    canon(world)       -> hashable state identity (see fingerprint)

    Every reachable state up to `depth` operations is expanded.  Afterwards
    the history of every state found is replayed from a fresh world, without
    any copying, and must lead to the same state (traces validated).
    """
    clone = clone or copy.deepcopy
    world = start()
    seen = {canon(world): ()}
    frontier = [((), world)]
    transitions = 0
    for level in range(depth):
        following = []
        for history, world in frontier:
            for op in operations(world):
                nxt = clone(world)
                transitions += 1
                try:
                    apply(nxt, op)
                except Violation as error:
                    ctx.fail(str(error), history=[*history, op])
                    continue
                except (_Enough, CaseTimeout):
                    raise
                except Exception as error:
                    ctx.fail(f"unexpected {type(error).__name__}: {error} "
                        f"[{where(error)}]", history=[*history, op])
                    continue
                key = canon(nxt)
                if key not in seen:
                    seen[key] = (*history, op)
                    if label:
                        ctx.outcome(label(nxt))
                    if len(seen) > max_states:
                        raise RuntimeError("state cap exceeded")
                    following.append(((*history, op), nxt))
        frontier = following
        drop_loggers()
        if not frontier:
            break
    traces = 0
    if not ctx.failures:
        for number, (key, history) in enumerate(seen.items()):
            if number % trace_every:
                continue
            world = start()
            for op in history:
                try:
                    apply(world, op)
                except Violation as error:
                    ctx.fail(f"only without copying: {error}",
                        history=list(history))
                    break
            else:
                ctx.check(canon(world) == key, "replaying the same "
                    "operations on a fresh object gives another state "
                    "(the outcome depends on something else than the "
                    "history)", history=list(history))
            traces += 1
            if traces % 50 == 0:
                drop_loggers()
    ctx.add(states=len(seen), transitions=transitions,
        traces_validated_against_impl=traces)
    last = list(seen.values())[-1]
    ctx.sample(dict(longest_history=[repr(op) for op in last],
        states=len(seen), closed=not frontier))
    return seen


def replay_history(ctx, start, apply, history):
    world = start()
    for op in history:
        op = tuple(_tuples(op)) if isinstance(op, list) else op
        try:
            apply(world, op)
        except Violation as error:
            ctx.fail(str(error), history=history)
            return


def _tuples(value):
    if isinstance(value, list):
        return tuple(_tuples(v) for v in value)
    return value


def where(error):
    """Innermost frame of an exception, for messages."""
    frames = traceback.extract_tb(error.__traceback__)
    for frame in reversed(frames):
        if frame.filename.startswith(REPO):
            return f"{os.path.basename(frame.filename)} in {frame.name}"
    return f"{os.path.basename(frames[-1].filename)}:{frames[-1].lineno}" \
        if frames else "?"


# ------------------------------------------------------------------ runner

def _execute(module_name, case, tier, timeout):
    module = sys.modules.get(module_name) or importlib.import_module(
        module_name)
    ctx = Context(tier)
    directory = enter_case_dir()

    def expired(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, expired)
    signal.alarm(timeout)
    begin = time.time()
    try:
        module.run(case, ctx)
    except _Enough:
        pass
    except CaseTimeout:
        ctx.failures.append(dict(message=f"no result within {timeout} s "
            "(the operation under test does not come back)", history=None))
    except Exception as error:
        text = traceback.format_exc().strip().splitlines()
        ctx.failures.append(dict(message=f"unexpected "
            f"{type(error).__name__}: {error} [{where(error)}] "
            + " | ".join(l.strip() for l in text[-6:]), history=None))
    finally:
        signal.alarm(0)
        leave_case_dir(directory)
        drop_loggers()
    result = ctx.summary()
    result["seconds"] = time.time() - begin
    return result


def _initialise():
    # discard whatever the code under test prints
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 1)
        os.dup2(null, 2)
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))


def known_identifiers(prop):
    found = {}
    if os.path.exists(KNOWN_FINDINGS_FILE):
        for line in open(KNOWN_FINDINGS_FILE):
            parts = line.split(None, 3)
            if (len(parts) == 4 and parts[0] == "known:"
                    and parts[1] == f"property={prop}"):
                found[parts[2].split("=", 1)[1]] = parts[3].strip()
    return found


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    begin = time.time()
    bootstrap()
    module_name = f"mc.{prop.lower()}"
    try:
        module = importlib.import_module(module_name)
        cases = module.cases(tier)
    except Exception:
        sys.stderr.write(traceback.format_exc())
        report = [(dict(stage="import"), dict(message="the code under test "
            "can not be imported: " + traceback.format_exc()[-400:],
            history=None))]
        return finish(prop, module=None, tier=tier, seed=seed, begin=begin,
            cases=[], results=[], violations=report, knowns=[], complete=False)
    timeout = getattr(module, "CASE_TIMEOUT", 360 if tier == "quick" else 600)
    deadline = begin + (780 if tier == "quick" else 6 * 3600)
    workers = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))

    results, violations, knowns, complete = [], [], [], True
    listed = known_identifiers(prop)
    pool = concurrent.futures.ProcessPoolExecutor(workers,
        mp_context=__import__("multiprocessing").get_context("fork"),
        initializer=_initialise)
    try:
        futures = {}
        for number, case in enumerate(cases):
            futures[pool.submit(_execute, module_name, case, tier,
                timeout)] = (number, case)
        pending = set(futures)
        bad_cases = 0
        while pending:
            done, pending = concurrent.futures.wait(pending,
                timeout=max(1, deadline - time.time()),
                return_when=concurrent.futures.FIRST_COMPLETED)
            for future in done:
                number, case = futures[future]
                try:
                    result = future.result()
                except concurrent.futures.process.BrokenProcessPool:
                    result = dict(counts={}, failures=[dict(message="the "
                        "process executing this or a concurrent case died",
                        history=None)], knowns=[], samples=[], outcomes=[],
                        seconds=0)
                    pending = set()
                    complete = False
                results.append((number, case, result))
                for failure in result["failures"]:
                    violations.append((case, failure))
                for ident, message in result["knowns"]:
                    if ident in listed:
                        knowns.append((ident, message))
                    else:
                        violations.append((case, dict(message=message,
                            history=None)))
                        bad_cases += 1
                bad_cases += bool(result["failures"])
            if bad_cases >= 4 or time.time() > deadline:
                if pending:
                    complete = False
                    for future in pending:
                        future.cancel()
                if bad_cases == 0 and time.time() > deadline:
                    violations.append((dict(stage="deadline"), dict(
                        message="exploration did not finish in time",
                        history=None)))
                pending = set()
    finally:
        for process in list((pool._processes or {}).values()):
            if violations:
                process.terminate()
        pool.shutdown(wait=not violations, cancel_futures=True)
    results.sort(key=lambda r: r[0])
    return finish(prop, module, tier, seed, begin, cases, results,
        violations, knowns, complete)


def finish(prop, module, tier, seed, begin, cases, results, violations,
        knowns, complete):
    counts = collections.Counter()
    outcomes = set()
    samples = []
    keys = collections.defaultdict(set)
    for _, case, result in results:
        counts.update(result["counts"])
        for into, found in result.get("keys", {}).items():
            keys[into] |= found
        outcomes.update(result["outcomes"])
        if len(samples) < 4 and result["samples"]:
            samples.append(dict(case=case, observed=result["samples"]))
    if not samples:
        samples = [dict(case=case) for _, case, _ in results[:3]]
    level = getattr(module, "LEVEL", "other")
    for into, found in keys.items():
        counts[into] += len(found)
    coverage = dict(counts)
    coverage["cases"] = len(results)
    coverage["distinct_outcomes"] = len(outcomes)
    coverage["samples"] = samples or ["none"]
    coverage["rule"] = getattr(module, "RULE", "")
    coverage["exhaustive"] = bool(complete and len(results) == len(cases)
        and cases)
    if level in ("exploration", "fault_enumeration"):
        coverage.setdefault("evaluations", 0)
        coverage.setdefault("distinct_nontrivial", 0)
    if level == "model_checking":
        for key in ("states", "transitions", "traces_validated_against_impl"):
            coverage.setdefault(key, 0)
    evidence = dict(property=prop, tier=tier, seed=seed, level=level,
        coverage=coverage, assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - begin, 2), violations=len(violations))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as file:
        json.dump(evidence, file, indent=1, default=repr)

    for ident, message in sorted({(i, listed_text(prop, i)) for i, _ in
            knowns}):
        print(f"KNOWN-FINDING: property={prop} {ident}: {message}")
    shown = 0
    if violations:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    for case, failure in violations:
        text = json.dumps(dict(property=prop, tier=tier, case=case,
            **failure), indent=1, default=repr)
        name = hashlib.sha1(text.encode()).hexdigest()[:10]
        path = os.path.join(OUT, "replays", f"{prop}-{name}.json")
        with open(path, "w") as file:
            file.write(text)
        print(f"  case {short(case, 300)}")
        if failure.get("history") is not None:
            print(f"  history {short(failure['history'], 600)}")
        print(f"  {failure['message'][:800]}")
        print(f"VIOLATION property={prop} replay={path}")
        shown += 1
        if shown == 5:
            break
    numbers = {k: v for k, v in coverage.items() if isinstance(v, int)}
    print(f"{prop} {tier}: {len(results)}/{len(cases)} cases, {numbers}, "
        f"{len(violations)} violations, {evidence['wall_s']} s")
    sys.stdout.flush()
    return 1 if violations else 0


def listed_text(prop, ident):
    return known_identifiers(prop).get(ident, "")


def replay(path):
    """Run the recorded case (and history) again, in this process."""
    record = json.load(open(path))
    bootstrap()
    module = importlib.import_module(f"mc.{record['property'].lower()}")
    ctx = Context(record.get("tier", "quick"))
    directory = enter_case_dir()
    try:
        if record.get("history") and hasattr(module, "replay"):
            module.replay(record["case"], record["history"], ctx)
        else:
            module.run(record["case"], ctx)
    except _Enough:
        pass
    finally:
        leave_case_dir(directory)
    for failure in ctx.failures:
        print(failure["message"], failure["history"] or "")
    print("reproduced" if ctx.failures else "not reproduced")
    return 1 if ctx.failures else 0
