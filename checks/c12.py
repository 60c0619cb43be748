"""Histories of loads and file changes, against a model of the loader."""

import os
import shutil
import sys
import tempfile
import time

from tklib import env, gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C12"
ASSUMPTIONS = [
    "the clock is a stand-in that only the history advances; the check interval of the loader is 0.25 s",
    "a change that leaves the modification time as it was is not expected to be noticed while the template is cached",
]

NAMES = ["a.tk", "b.tk", "parent.tk", "sub/c.tk", "lib.tk"]
INTERVAL = 0.25


class Clock:
    """Replaces the clocks of the time module"""

    def __init__(self):
        self.now = 100000.0
        self.saved = []

    def __call__(self):
        return self.now

    def __enter__(self):
        loader = sys.modules["tonnikala.loader"]
        for name in ("time", "monotonic", "perf_counter"):
            original = getattr(time, name)
            self.saved.append((time, name, original))
            for key, value in list(vars(loader).items()):
                if value is original:
                    self.saved.append((loader, key, original))
        for where, name, _ in self.saved:
            setattr(where, name, self)
        return self

    def __exit__(self, *a):
        for where, name, original in reversed(self.saved):
            setattr(where, name, original)


KINDS = ["plain", "plain", "child", "import", "broken", "undefined", "lines"]


def make(kind, version):
    """The tree and the source of a template file"""
    v = "v%d" % version
    if kind == "child":
        root = ["ctl", "extends", "parent.tk", [["ctl", "block", "body", [["text", "child " + v, 0]], {}]], {}]
    elif kind == "import":
        root = ["el", "div", [], [
            ["ctl", "import", ["lib.tk", "lib"], [], {}], ["text", "importer " + v, 0], ["expr", "lib.func()", 0]], {}]
    elif kind == "lines":
        # the ends of lines stay as they are in the file
        root = ["el", "pre", [], [["text", "a\r\nb\n%s\r\n\tc" % v, 0]], {}]
    elif kind == "undefined":
        root = ["el", "div", [], [["text", v, 0], ["expr", "undefined_name", 0]], {}]
    else:
        root = ["el", "html", [], [
            ["text", "plain " + v, 0],
            ["ctl", "def", ["func", None], [["text", "func " + v, 0]], {}],
            ["ctl", "block", "body", [["text", "body " + v, 0]], {}]], {}]
    doc = {"root": root}
    if kind == "broken":
        return None, "<html>${broken %s</html>" % v
    return doc, model.emit_doc(doc)


class Broken(Exception):
    pass


class ModelLoader:
    """What the loader is documented to do

    The parent of a template is loaded along with it, and stays its parent;
    what it imports is looked up whenever it is rendered.
    """

    def __init__(self, clock, paths, fs):
        self.clock = clock
        self.paths = list(paths)
        self.fs = fs  # {path: (kind, version, mtime)}
        self.reload = False
        self.cache = {}
        self.gone = set()
        self.docs = {}
        self.checked = clock.now

    make = staticmethod(lambda kind, version: make(kind, version))

    def resolve(self, name):
        if os.path.isabs(name):
            if name in self.fs:
                return name
        for p in self.paths:
            path = os.path.normpath(os.path.join(p, name))
            if path in self.fs:
                return path
        return None

    def purge(self):
        changed = any(path in self.fs for path in self.gone)
        for name, (path, mtime, _) in list(self.cache.items()):
            if path not in self.fs:
                del self.cache[name]
                self.gone.add(path)
            elif self.fs[path][2] != mtime:
                changed = True
        if changed:
            self.cache.clear()
            self.gone.clear()

    def load(self, name):
        """The key of the loaded document"""
        if self.reload and self.clock.now > self.checked + INTERVAL:
            self.checked = self.clock.now
            self.purge()
        if name in self.cache:
            return self.cache[name][2]
        path = self.resolve(name)
        if path is None:
            raise FileNotFoundError(name)
        kind, version, mtime = self.fs[path]
        doc, _ = self.make(kind, version)
        if doc is None:
            raise Broken
        if doc["root"][1] == "extends":
            root = list(doc["root"])
            root[2] = self.load(root[2])
            doc = {"root": root}
        key = "\0%d" % len(self.docs)
        self.docs[key] = doc
        self.cache[name] = (path, mtime, key)
        return key

    # the interpreter asks for the documents by name

    def __getitem__(self, name):
        return self.docs[name if name in self.docs else self.load(name)]


def put(path, source, mtime, how):
    """Write a file; the path of a link is made to point at another file"""
    temp = path + ".new"
    target = temp if how == "file" else "%s.%s" % (path, how)
    with open(target, "w", newline="") as f:
        f.write(source)
    os.utime(target, (mtime, mtime))
    if how != "file":
        os.symlink(os.path.basename(target), temp)
    os.replace(temp, path)


class EditedLoader(real.FileLoader):
    """A loader whose files change while a template is compiled"""

    edit = None
    depth = 0

    def load_string(self, *args, **kw):
        self.depth += 1
        try:
            return super().load_string(*args, **kw)
        finally:
            self.depth -= 1
            if not self.depth:
                self.do_edit()

    def do_edit(self):
        edit, self.edit = self.edit, None
        if edit:
            edit()


def render_model(loader, key):
    return model.Interp(loader).render(key, {})


def same(got, want):
    if got[0] != want[0]:
        return False
    if got[0] == "ok":
        return got[1] == want[1]
    names = {"Broken": "TemplateSyntaxError", "UnboundLocalError": "NameError"}
    return got[1] == names.get(want[1], want[1])


def op(g):
    k = g.n(15)
    if k == 4 and g.n(1):
        name = g.pick(NAMES)
        how = g.pick(["newer", "newer", "older", "just newer"])
        return ["render", name, [g.n(2), name if g.n(2) else g.pick(NAMES), g.pick(KINDS), how, bool(g.n(1))]]
    if k <= 4:
        return ["render", g.pick(NAMES + ["missing.tk", "./a.tk", "@0/a.tk", "@1/b.tk"])]
    if k <= 7:
        return [
            "write", g.n(2), g.pick(NAMES), g.pick(KINDS),
            g.pick(["newer", "newer", "older", "equal", "older2", "just newer", "just older"]), bool(g.n(1)),
        ]
    if k == 8:
        return ["delete", g.n(2), g.pick(NAMES)]
    if k <= 11:
        return ["advance", g.pick([0.3, 0.1, 1.0, 100.0])]
    if k == 12:
        return ["held", g.n(3)]
    if k == 13:
        return ["add_path", g.n(2)]
    if k == 14:
        return ["reload", g.n(3) > 0]
    return ["resolve", g.pick(NAMES + ["missing.tk", "@2/a.tk"])]


def build(draw):
    g = gen.Gen(draw)
    files = [[g.n(2), n, g.pick(KINDS)] for n in NAMES if g.n(3)]
    ops = []
    for _ in range(2 + g.n(22)):
        ops.append(op(g))
        if ops[-1][0] in ("write", "delete") and g.n(1) or len(ops[-1]) == 3 and ops[-1][0] == "render":
            # most changes are followed by a look at them
            ops.append(["advance", 0.3])
            ops.append(["render", ops[-2][2] if g.n(1) and ops[-2][0] != "render" else ops[-2][1] if ops[-2][0] == "render" else g.pick(NAMES)])
    # two loaders in part of the cases
    who = [g.n(1) for _ in range(5)] if g.n(1) else [0]
    return {
        "files": files, "paths": g.n(3), "reload": bool(g.n(3)), "ops": ops, "who": who,
        "given as": g.pick(["list", "tuple", "iterator", "shared", "shared"]),
    }


def check(case):
    top = tempfile.mkdtemp(dir=env.scratch())
    try:
        return run(case, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(case, top):
    dirs = [os.path.join(top, "d%d" % i) for i in range(3)]
    for d in dirs:
        os.makedirs(os.path.join(d, "sub"))
    fs = {}
    counter = [0]
    labels = set()

    def write(d, name, kind, how, link=False):
        path = os.path.join(dirs[d], name)
        counter[0] += 1
        if name in ("parent.tk", "lib.tk") and kind in ("child", "import"):
            # not a parent of itself
            kind = "plain"
        old = fs.get(path)
        base = old[2] if old else 1000000
        mtime = {
            "newer": base + 10, "older": base - 7, "older2": base - 100000, "equal": base, "just newer": base + 0.25, "just older": base - 0.25,
        }[how] if old else base + (counter[0] if how == "newer" else 0)
        _, source = make(kind, counter[0])
        put(path, source, mtime, "v%d" % counter[0] if link else "file")
        fs[path] = (kind, counter[0], mtime)

    def real_name(name):
        if name.startswith("@"):
            return os.path.join(dirs[int(name[1])], name[3:])
        return name

    for d, name, kind in case["files"]:
        write(d, name, kind, "newer")

    with Clock() as clock:
        loaders = []
        given = case.get("given as", "list")
        shared = dirs[: case["paths"]]
        for paths in (shared, shared if given == "shared" else dirs[::-1][: case["paths"]]):
            # the list stays the caller's
            loader = EditedLoader(paths={"tuple": tuple, "iterator": iter}.get(given, lambda x: x)(paths))
            loader.set_reload(case["reload"])
            ref = ModelLoader(clock, paths, fs)
            ref.reload = case["reload"]
            loaders.append((loader, ref))
        who = case.get("who", [0])
        held = []
        changed = 0
        for i, (kind, *args) in enumerate(case["ops"]):
            got = want = None
            loader, ref = loaders[who[i % len(who)]]
            if any(who):
                labels.add("two loaders")
            if kind == "write":
                write(*args)
                changed += 1
            elif kind == "delete":
                path = os.path.join(dirs[args[0]], args[1])
                if path in fs:
                    os.unlink(path)
                    del fs[path]
                    changed += 1
            elif kind == "advance":
                clock.now += args[0]
            elif kind == "add_path":
                loader.add_path(dirs[args[0]])
                ref.paths.append(dirs[args[0]])
            elif kind == "reload":
                loader.set_reload(args[0])
                ref.reload = args[0]
            elif kind == "resolve":
                name = real_name(args[0])
                got = real.outcome(lambda: loader.resolve(name))
                want = real.outcome(lambda: ref.resolve(name))
            elif kind == "held" and held:
                template, doc, ref = held[args[0] % len(held)]
                got = real.outcome(lambda: template.render({}))
                want = real.outcome(lambda: render_model(ref, doc))
            elif kind == "render":
                name = real_name(args[0])
                if len(args) > 1:
                    # written while it is loaded, or after that if it is in the cache
                    labels.add("edited")
                    want = real.outcome(lambda: ref.load(name))
                    loader.edit = lambda: write(*args[1])
                    changed += 1
                got = real.outcome(lambda: loader.load(name))
                loader.do_edit()
                if len(args) == 1:
                    want = real.outcome(lambda: ref.load(name))
                if shared != dirs[: case["paths"]]:
                    raise Violation("the loader changed the list of paths given to it", history=case["ops"][: i + 1])
                if got[0] == "ok" and want[0] == "ok":
                    template, doc = got[1], want[1]
                    if len(args) == 1 and real.outcome(lambda: loader.load(name))[1] is not template:
                        raise Violation("loading %s twice gives different templates" % name, history=case["ops"][: i + 1])
                    held.append((template, doc, ref))
                    got = real.outcome(lambda: template.render({}))
                    want = real.outcome(lambda: render_model(ref, doc))
                if changed:
                    labels.add("after-change")
            if got is not None:
                labels.add("%s-%s" % (kind, want[0] if want[0] == "ok" else want[1]))
                if not same(got, want):
                    raise Violation(
                        "step %d, %s %s: got %r, expected %r" % (i, kind, args, got, want),
                        files=case["files"], history=case["ops"][: i + 1], reload=case["reload"],
                    )
    labels.add("reload" if case["reload"] else "no-reload")
    return Info("after-change" in labels, labels)


# ------------------------------------- the loaded state equals a fresh loader


def build_fresh(draw):
    case = build(draw)
    case["reload"] = True
    case["ops"] = [o for o in case["ops"] if o[0] in ("render", "write", "delete", "advance")]
    return case


def check_fresh(case):
    """With reload, after the interval, a load is as good as one of a new loader"""
    top = tempfile.mkdtemp(dir=env.scratch())
    try:
        dirs = [os.path.join(top, "d%d" % i) for i in range(3)]
        for d in dirs:
            os.makedirs(os.path.join(d, "sub"))
        serial = [1000000]

        def write(d, name, kind, how="newer", link=False):
            path = os.path.join(dirs[d], name)
            serial[0] += 1
            if name in ("parent.tk", "lib.tk") and kind in ("child", "import"):
                kind = "plain"
            # every version has a time of its own, not always a later one
            mtime = {"newer": serial[0], "just newer": 1000000 + serial[0] % 1000 / 1024}.get(how, 2000000 - serial[0])
            put(path, make(kind, serial[0])[1], mtime, "v%d" % serial[0] if link else "file")

        for d, name, kind in case["files"]:
            write(0, name, kind)
        seen = 0
        with Clock() as clock:
            loader = EditedLoader(paths=dirs[:1])
            loader.set_reload(True)
            for i, (kind, *args) in enumerate(case["ops"]):
                if kind == "write":
                    write(0, *args[1:])
                elif kind == "delete":
                    path = os.path.join(dirs[0], args[1])
                    if os.path.exists(path):
                        os.unlink(path)
                elif kind == "advance":
                    clock.now += args[0]
                else:
                    name = args[0] if not args[0].startswith("@") else args[0][3:]
                    if len(args) > 1:
                        loader.edit = lambda: write(0, *args[1][1:])
                        real.outcome(lambda: loader.load(name).render({}))
                        loader.do_edit()
                    elif i % 3:
                        clock.now += 0.3
                        fresh = real.FileLoader(paths=dirs[:1])
                        want = real.outcome(lambda: fresh.load(name).render({}))
                        got = real.outcome(lambda: loader.load(name).render({}))
                        seen += 1
                        if want[0] != "ok" and want[1] == "FileNotFoundError":
                            if os.path.exists(os.path.join(dirs[0], name)):
                                # the parent is missing: the last one may stay
                                continue
                        if got[:2] != want[:2]:
                            raise Violation(
                                "step %d: %s is %r, with a new loader it is %r" % (i, name, got, want),
                                files=case["files"], history=case["ops"][: i + 1],
                            )
                    else:
                        real.outcome(lambda: loader.load(name).render({}))
        return Info(seen >= 2, ["compared%d" % min(seen, 5)])
    finally:
        shutil.rmtree(top, ignore_errors=True)


FAMILIES = [
    Family(
        "histories",
        lambda: gen.case_strategy(build),
        check,
        quick=10000,
        thorough=250000,
        rule="histories of writing (newer, older and equal times), deleting, loading, rendering, holding "
        "templates, advancing the clock, adding paths and setting reload over three directories, with one loader "
        "or two that have different search paths, or were given the same list; files are also replaced by links, and written while they are loaded; every result is compared with a model of the loader; non-trivial: a load after a change",
    ),
    Family(
        "fresh",
        lambda: gen.case_strategy(build_fresh),
        check_fresh,
        quick=6000,
        thorough=150000,
        rule="the same histories in one directory with reload: after the interval every rendering must equal "
        "that of a new loader; non-trivial: at least two comparisons",
    ),
]
