"""C33: saved data do not care where they are or what the place is called."""
import itertools
import os
import shutil

from mc import c12, core, objects, worlds

LEVEL = "exploration"
RULE = ("product of kinds of objects x names of the directory (words of the "
    "library's own file names, blanks, dots, brackets, unicode, very long) x "
    "spellings of the path when saving x spellings when loading, from another "
    "working directory as well, after moving, copying, linking and next to "
    "and inside other saves and unrelated files. Non-trivial: every case "
    "loads from a name and spelling of its own")
ASSUMPTIONS = ["the directory above exists and can be written to",
    "unrelated files in the directory of a save do not carry the names of "
    "its files"]

NAMES = ["plain", "with space", " blanks ", "\u00fcn\u00efcode-\u03b2", "dots.in.name",
    ".hidden", "..two", "gradient_0000", "gradient_0.1000", "gradient_x",
    "TILT_DEGREE", "TILT_NONE.npy", "x.npy", "dx", "y_value", "num_fxfy",
    "temp_shallot", ".temp_shallot", "x.temp_shallot", "{braces}", "%s %d",
    "a*b?[c]", "~", "$HOME", "-dash", "new\nline", "n" * 200, "quote'\"",
    "back\\slash", "#hash", "1", "0.5", "None", "nan", "a.tmp", "_mask",
    "fx_map", "gradient_", "CON", "a;b&c|d", "100%"]
KINDS = ["grid", "plain grid", "parameters/0", "TILT/masked",
    "DISK_RADIUS/plain", "g0.1/measured1", "g-0.2/measured0.25",
    "diagnostics/recorded"]


def make(kind):
    if kind == "grid":
        return objects.make_grid([worlds.SMALL, "refitted", True])
    if kind == "plain grid":
        return objects.make_grid([worlds.OFFSET, "fresh", False])
    return entry(kind)[1]()


def entry(kind):
    return next(c12.COMPONENTS[g][kind] for g in c12.COMPONENTS if kind in
        c12.COMPONENTS[g])


def save(kind, it, path):
    if "grid" in kind:
        it.save(path)
    else:
        c12.write(entry(kind)[0], it, path)


def load(kind, path):
    if "grid" in kind:
        from Shallot import ShallotGrid
        return ShallotGrid.load(path, logging_level=50)
    return c12.read(entry(kind)[0], path)


def view(kind, it):
    return worlds.observe(it) if "grid" in kind else c12.view(entry(kind)[0],
        it)


def spellings(name):
    """Ways to write the path of `name` inside the current directory."""
    here = os.getcwd()
    out = dict(relative=name, dotted=f"./{name}", absolute=f"{here}/{name}",
        slash=f"{name}/", slashes=f".//{name}//", detour=f"side/../{name}",
        link=f"link/{name}", parent=f"../{os.path.basename(here)}/{name}",
        # up from where a link leads, not from where it is
        uplink=f"up/../{name}")
    return out


def files(root):
    return {os.path.relpath(os.path.join(base, n), root): open(os.path.join(
        base, n), "rb").read() for base, _, names in os.walk(root) for n in
        names}


def cases(tier):
    out = []
    for kind in KINDS:
        for part in range(4):
            out.append(dict(kind=kind, part=part, parts=4))
        out.append(dict(kind=kind, place="history"))
        out.append(dict(kind=kind, place="neighbours"))
    return out


def run(case, ctx):
    kind = case["kind"]
    it = make(kind)
    save(kind, it, "reference")
    expected = view(kind, load(kind, "reference"))
    written = files("reference")
    os.mkdir("room")
    os.chdir("room")
    os.makedirs("side/deep")
    os.symlink("side/deep", "up")
    os.symlink(os.getcwd(), "link")
    try:
        {"history": history, "neighbours": neighbours}.get(case.get("place"),
            spelled)(case, ctx, it, expected, written)
    finally:
        os.chdir("..")
    ctx.sample(case)


def judged(ctx, kind, path, expected, label):
    found = core.attempt(load, kind, path)
    ctx.add(evaluations=1)
    ctx.distinct("distinct_nontrivial", (kind, label))
    if ctx.check(not isinstance(found, core.Raised), f"{kind}: {label}: does "
            f"not load: {found}"):
        seen = view(kind, found)
        ctx.check(core.same(seen, expected), lambda: f"{kind}: {label}: "
            "loads as another object: " + core.first_difference(expected,
            seen))
        ctx.outcome(kind)


def spelled(case, ctx, it, expected, written):
    kind = case["kind"]
    for number, name in enumerate(NAMES):
        if number % case["parts"] != case["part"]:
            continue
        for way, path in spellings(name).items():
            label = f"saved as {path!r}"
            before = files(".")
            result = core.attempt(save, kind, it, path)
            if not ctx.check(not isinstance(result, core.Raised),
                    f"{kind}: {label}: {result}"):
                continue
            now = files(".")
            home = os.path.relpath(os.path.realpath(path)) + "/"
            inside = {n[len(home):]: data for n, data in now.items() if
                n.startswith(home)}
            ctx.check(inside == written, f"{kind}: {label}: other files than "
                "elsewhere")
            rest = {n: data for n, data in now.items() if not n.startswith(
                home)}
            ctx.check(rest == before, f"{kind}: {label}: files outside it "
                "changed")
            ways = spellings(name)
            if ctx.tier == "quick" and way != "relative":
                # all spellings for one, the same one for the others
                ways = {way: path}
            for other, again in ways.items():
                if os.path.realpath(again) != os.path.realpath(path):
                    continue
                judged(ctx, kind, again, expected, f"{label}, loaded as "
                    f"{again!r}")
            ctx.check(files(".") == now, f"{kind}: {label}: loading changed "
                "files")
            shutil.rmtree(os.path.realpath(path))
            core.drop_loggers()


def history(case, ctx, it, expected, written):
    """Every order of moving, copying, linking and changing directory."""
    kind = case["kind"]
    steps = ["rename", "copy", "into", "chdir", "link"]
    longest = 3 if ctx.tier == "quick" else 5
    top = os.getcwd()
    for size in range(longest + 1):
        for number, order in enumerate(itertools.permutations(steps, size)):
            os.mkdir(f"{top}/work")
            os.chdir(f"{top}/work")
            path = os.path.abspath("first")
            save(kind, it, "first")
            gone = []
            for k, step in enumerate(order):
                new = f"{top}/work/place {k}"
                if step == "rename":
                    os.rename(path, new)
                    gone.append(path)
                    path = new
                elif step == "copy":
                    shutil.copytree(path, new)
                    shutil.rmtree(os.path.realpath(path)) if not \
                        os.path.islink(path) else os.remove(path)
                    gone.append(path)
                    path = new
                elif step == "into":
                    os.mkdir(new)
                    os.rename(path, f"{new}/gradient_0003")
                    gone.append(path)
                    path = f"{new}/gradient_0003"
                elif step == "link":
                    os.symlink(path, new)
                    path = new
                else:
                    os.makedirs(f"{top}/work/deep/er {k}")
                    os.chdir(f"{top}/work/deep/er {k}")
                label = f"after {order[:k + 1]}"
                judged(ctx, kind, os.path.relpath(path), expected, label)
                judged(ctx, kind, path, expected, label + " absolute")
            for old in gone:
                if not os.path.exists(old):
                    ctx.check(isinstance(core.attempt(load, kind, old),
                        core.Raised), f"{kind}: after {order}: still loads "
                        "from where it is no more")
            os.chdir(top)
            shutil.rmtree(f"{top}/work")
            core.drop_loggers()


OTHER = {"grid": "plain grid", "plain grid": "grid"}


def neighbours(case, ctx, it, expected, written):
    """Beside and inside other saves, and with unrelated files."""
    kind = case["kind"]
    other_kind = OTHER.get(kind, kind)
    other = make(other_kind)
    save(other_kind, other, "../other")
    other_expected = view(other_kind, load(other_kind, "../other"))
    names = NAMES if ctx.tier == "thorough" else NAMES[::3]
    for first, second in itertools.permutations(names, 2):
        save(kind, it, first)
        save(other_kind, other, second)
        judged(ctx, kind, first, expected, f"{first!r} beside {second!r}")
        judged(ctx, other_kind, second, other_expected, f"{second!r} saved "
            f"after {first!r}")
        for name in (first, second):
            shutil.rmtree(os.path.abspath(name))
        core.drop_loggers()
    # unrelated files, and another save, inside
    save(kind, it, "home")
    for name in ("notes.txt", "gradient_overview.png", ".DS_Store", "old.npy",
            "DISK_RADIUS.png", "TILT_DEGREE.txt", "y_value.txt", "tmp"):
        with open(f"home/{name}", "w") as file:
            file.write("mine")
        judged(ctx, kind, "home", expected, f"with a file {name}")
    os.mkdir("home/plots")
    judged(ctx, kind, "home", expected, "with a folder plots")
    save(other_kind, other, "home/inner")
    judged(ctx, kind, "home", expected, "with another save inside")
    judged(ctx, other_kind, "home/inner", other_expected, "inside another "
        "save")
    ctx.check(open("home/notes.txt").read() == "mine", "notes changed")
