"""Rendering through Pyramid, against models of the loader and of the settings."""

import os
import shutil
import sys
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import pkg_resources  # noqa: F401
    import pyramid.config
    import pyramid.events
    import pyramid.renderers
    import pyramid.request
    import pyramid.response
    import pyramid.testing

from tklib import env, gen, model, real
from tklib.harness import Family, Info, Violation

from . import c12

ID = "C20"
ASSUMPTIONS = [
    "the installed Pyramid calls the renderers as documented",
    "the clock is a stand-in that only the history advances; the check interval of the loader is 0.25 s",
]

# directories, and names relative to a package
LOCATIONS = ["d0", "d1", "tkvpkga:templates", "tkvpkgb.deep:t", "tkvpkga:templates/inner", "tkvpkga:templates/a:b", "tkvpkga:templates/c d", "e f"]
NAMES = ["t.tk", "u.html", "sub/v.tk", "p.tk", "lib.tk", "w.txt.tk", "x.pt"]
TRUE = ["true", "True", "1", "yes", "on", "t", True, 1]
FALSE = ["false", "0", "no", "off", "False", "other", False, 0]
EXTENSIONS = [".tk", "tk", ".html", "html", ".pt", "pt"]
_areas = {}


def area():
    """The directories of this process; the packages can be imported"""
    pid = os.getpid()
    if pid not in _areas:
        top = os.path.join(env.scratch(), "c20-%d" % pid)
        for d in ("d0", "d1", "e f", "tkvpkga/templates/inner", "tkvpkga/templates/a:b", "tkvpkga/templates/c d", "tkvpkgb/deep/t"):
            os.makedirs(os.path.join(top, d, "sub"))
        for d in ("tkvpkga", "tkvpkgb", "tkvpkgb/deep"):
            open(os.path.join(top, d, "__init__.py"), "w").close()
        for name in [n for n in sys.modules if n.startswith("tkvpkg")]:
            del sys.modules[name]
        sys.path.insert(0, top)
        _areas[pid] = top
    return _areas[pid]


def directory(location):
    package, colon, path = location.partition(":")
    return os.path.join(area(), *package.split("."), *path.split("/")) if colon else os.path.join(area(), package)


# ------------------------------------------------------------------- templates

SYSTEM = ["context", "request", "req", "view", "renderer_name"]


def make(kind, version):
    """The tree and the source of a template file"""
    kind, ref, names = kind
    v = "v%d" % version
    shown = []
    for name in names:
        shown.append(["text", " %s=" % name, 0])
        shown.append(["expr", "getattr(%s, 'marker', %s)" % (name, name), 0])
    if kind == "child":
        body = [["text", "child " + v, 0]] + shown
        root = ["ctl", "extends", ref, [["ctl", "block", "body", body, {}]], {}]
    elif kind == "import":
        root = ["el", "div", [], [
            ["ctl", "import", [ref, "lib"], [], {}], ["text", "importer " + v, 0], ["expr", "lib.func()", 0]] + shown, {}]
    elif kind == "broken":
        return None, "<html>${broken %s</html>" % v
    else:
        root = ["el", "html", [], [
            ["el", "p", [["title", [["text", "Title", 0]], 0]], [["text", "plain " + v, 0]], {}],
            ["ctl", "def", ["func", None], [["text", "func " + v, 0]] + shown, {}],
            ["ctl", "block", "body", [["text", "body " + v, 0]] + shown, {}]], {}]
    doc = {"root": model.merge_texts([root])[0]}
    return doc, model.emit_doc(doc)


def template_kind(g, name):
    kind = g.pick(["plain", "plain", "plain", "child", "child", "import", "import", "broken"])
    if name in ("p.tk", "lib.tk") and kind != "broken":
        kind = "plain"
    target = "p.tk" if kind == "child" else "lib.tk"
    if g.n(2) == 0:
        target = g.pick([x for x in LOCATIONS if ":" in x]) + "/" + target
    return [kind, target, [n for n in SYSTEM + ["a", "b"] if g.n(2) == 0]]


# ---------------------------------------------------------------------- models


class PyramidModel(c12.ModelLoader):
    make = staticmethod(make)

    def resolve(self, name):
        if ":" in name:
            package, _, path = name.partition(":")
            if package in ("tkvpkga", "tkvpkgb", "tkvpkgb.deep"):
                path = os.path.join(directory(package + ":"), path)
                if path in self.fs:
                    return path
        return super().resolve(name)


class TranslatingInterp(model.TranslatingInterp):
    def __init__(self, files):
        model.Interp.__init__(self, files)


def flag(value):
    return value in TRUE


class Settings:
    """What the configuration means"""

    def __init__(self, case):
        self.extensions = set()
        self.paths = []
        conf = case["config"]
        for source in ("settings", "directives"):
            self.extensions |= {"." + e.lstrip(".") for e in conf[source].get("extensions") or ()}
            self.paths += [directory(p) for p in conf[source].get("search_paths") or ()]
        set_to = [conf[s].get("reload") for s in ("directives", "settings") if conf[s].get("reload") is not None]
        if set_to:
            self.reload = flag(set_to[0])
        else:
            self.reload = flag(conf.get("pyramid.reload_templates"))
        set_to = [conf[s].get("l10n") for s in ("directives", "settings") if conf[s].get("l10n") is not None]
        self.l10n = flag(set_to[0]) if set_to else False


def setting(values, how):
    """As written in an ini file, or as a list"""
    if how == "list":
        return list(values)
    if how == "tuple":
        return tuple(values)
    return {"spaces": " ", "lines": "\n", "indented": "\n    ", "end": " \n"}[how].join(["", *values, ""])


def configure(case):
    conf = case["config"]
    settings = {}
    for name, value in conf["settings"].items():
        if value is None:
            continue
        if isinstance(value, list):
            value = [v if ":" in v else directory(v) for v in value] if name == "search_paths" else value
            # a text is divided at its spaces
            value = setting(value, "list" if " " in "".join(value) and conf["form"] != "tuple" else conf["form"])
        settings["tonnikala." + name] = value
    if conf.get("pyramid.reload_templates") is not None:
        settings[conf["reload_name"]] = conf["pyramid.reload_templates"]
    if conf["include"] == "setting":
        settings["pyramid.includes"] = "tonnikala.pyramid"
    config = pyramid.config.Configurator(settings=settings, root_factory=lambda request: model.Obj(marker="root"))
    if conf["include"] != "setting":
        config.include("tonnikala.pyramid")
    if conf["include"] == "committed":
        config.commit()
    d = conf["directives"]
    if d.get("extensions") is not None:
        config.add_tonnikala_extensions(*d["extensions"])
    paths = [p if ":" in p else directory(p) for p in d.get("search_paths") or []]
    if conf["split"]:
        for p in paths:
            config.add_tonnikala_search_paths(p)
    elif paths:
        config.add_tonnikala_search_paths(*paths)
    if d.get("reload") is not None:
        config.set_tonnikala_reload(d["reload"])
    if d.get("l10n") is not None:
        config.set_tonnikala_l10n(d["l10n"])
    if conf["again"]:
        config.include("tonnikala.pyramid")
    return config


# --------------------------------------------------------------------- cases


def build_config(g):
    def source(settings):
        rv = {}
        if g.n(4):
            some = [g.pick(EXTENSIONS) for _ in range(1 + g.n(1))]
            # Pyramid does not accept the same one twice
            rv["extensions"] = [e for i, e in enumerate(some) if e.lstrip(".") not in [x.lstrip(".") for x in some[:i]]]
        if g.n(3):
            rv["search_paths"] = [g.pick(LOCATIONS) for _ in range(1 + g.n(2))]
        for name in ("reload", "l10n"):
            if g.n(2) == 0:
                value = g.pick(g.pick([TRUE, FALSE]))
                rv[name] = value if settings else flag(value)
        return rv

    conf = {"settings": source(True), "directives": source(False)}
    if g.n(5) and not any("tk" in "".join(conf[s].get("extensions", ())) for s in ("settings", "directives")):
        conf[g.pick(["settings", "directives"])].setdefault("extensions", []).insert(0, g.pick([".tk", "tk"]))
    conf["form"] = g.pick(["list", "tuple", "spaces", "lines", "indented", "end"])
    conf["include"] = g.pick(["call", "committed", "setting"])
    conf["split"] = bool(g.n(1))
    conf["again"] = not g.n(4)
    if g.n(2):
        conf["pyramid.reload_templates"] = g.pick(g.pick([TRUE, FALSE]))
        conf["reload_name"] = g.pick(["pyramid.reload_templates", "reload_templates"])
    return conf


def value(g):
    k = g.n(23)
    if k == 0:
        return {"$": "bad", "v": g.pick([[1], "abc", 5, None, 2.5, True])}
    rv = {}
    for name in ["a", "b"] + SYSTEM:
        if g.n(2) == 0:
            rv[name] = g.pick(["<x>", "value & 1", 5, {"$": "markup", "v": "<b>m</b>"}, {"$": "html", "v": "<i>h</i>"}])
    return rv if k != 1 else {"$": "dictsub", "v": rv}


def build(draw):
    g = gen.Gen(draw)
    files = []
    conf = build_config(g)
    searched = (conf["settings"].get("search_paths") or []) + (conf["directives"].get("search_paths") or [])
    for _ in range(3 + g.n(6)):
        name = g.pick(NAMES)
        files.append([g.pick((searched if g.n(2) else None) or LOCATIONS), name, template_kind(g, name)])
    for name in ("p.tk", "lib.tk"):
        if searched and g.n(5):
            files.append([g.pick(searched), name, template_kind(g, name)])

    def name():
        rv = g.pick(NAMES[:3] + NAMES)
        k = g.n(14)
        if k == 0:
            return g.pick([x for x in LOCATIONS if ":" in x]) + "/" + rv
        if k == 1:
            return "@" + g.pick(LOCATIONS) + "/" + rv
        if k == 2:
            return g.pick(["missing.tk", "tkvpkga:missing.tk", "nosuchpackage:templates/t.tk", "templates/t.tk"])
        if k <= 12 and files:
            loc, rv, _ = g.pick(files)
            return loc + "/" + rv if ":" in loc and g.n(1) else rv
        return rv

    ops = []
    for _ in range(2 + g.n(9)):
        k = g.n(11)
        if k >= 10 and files:
            # render, change, render again
            loc, n, _ = g.pick(files)
            spec = loc + "/" + n if ":" in loc and g.n(1) else n
            how = g.pick(["render", "response", "fragment"])
            ops.append(["render", how, spec, {}])
            ops.append(["write", loc, n, template_kind(g, n), g.pick(["newer", "older"])])
            ops.append(["advance", g.pick([0.3, 1.0, 0.1])])
            ops.append(["render", how, spec, {}])
            continue
        if k <= 4:
            ops.append(["render", g.pick(["render", "response", "app", "fragment"]), name(), value(g)])
        elif k <= 6:
            n = g.pick(NAMES)
            ops.append(["write", g.pick(LOCATIONS), n, template_kind(g, n), g.pick(["newer", "older"])])
            if g.n(1):
                ops.append(["advance", 0.3])
        elif k == 7:
            ops.append(["delete", g.pick(LOCATIONS), g.pick(NAMES)])
        else:
            ops.append(["advance", g.pick([0.3, 0.1, 1.0])])
    ops.append(["render", g.pick(["render", "response", "app", "fragment"]), name(), value(g)])
    return {
        "config": conf, "files": files, "ops": ops,
        "globals": {n: g.pick(["<global>", 7]) for n in ("a", "b", "context") if g.n(3) == 0},
        "gettext": bool(g.n(3)),
    }


def translate(text):
    return "{%s<>}" % text


def check(case):
    top = area()
    for d in ("d0", "d1", "e f", "tkvpkgb/deep/t", "tkvpkga/templates"):
        for at, dirs, names in os.walk(os.path.join(top, d)):
            for n in names:
                os.unlink(os.path.join(at, n))
    os.makedirs(os.path.join(top, "tkvpkga/templates/sub"), exist_ok=True)
    try:
        return run(case)
    finally:
        pyramid.testing.tearDown()


def run(case):
    fs = {}
    counter = [0]
    labels = set()

    def write(location, name, kind, how="newer"):
        path = os.path.join(directory(location), name)
        counter[0] += 1
        mtime = 2000000 + counter[0] * 10 if how == "newer" else 2000000 - counter[0] * 10
        with open(path + ".new", "w") as f:
            f.write(make(kind, counter[0])[1])
        os.utime(path + ".new", (mtime, mtime))
        os.replace(path + ".new", path)
        fs[path] = (kind, counter[0], mtime)

    for args in case["files"]:
        write(*args)

    def real_name(name):
        if name.startswith("@"):
            location, _, rest = name[1:].partition("/")
            for loc in sorted(LOCATIONS, key=len, reverse=True):
                if name[1:].startswith(loc + "/"):
                    return os.path.join(directory(loc), name[len(loc) + 2 :])
        return name

    want_conf = Settings(case)
    with c12.Clock() as clock:
        config = configure(case)

        def add_globals(event):
            event.update(case["globals"])
            if case["gettext"]:
                event["gettext"] = translate

        config.add_subscriber(add_globals, pyramid.events.BeforeRender)
        config.add_request_method(lambda request: "requested", "marker", property=True)
        views = {}
        values = {}
        for i, op in enumerate(case["ops"]):
            if op[0] == "render":
                # cannot be told from what it is not, when it is a dictionary
                bad = isinstance(op[3], dict) and op[3].get("$") == "bad"
                values[i] = op[3]["v"] if bad else None
                if bad:
                    values[i] = op[3]["v"]
                elif op[3].get("$") == "dictsub":
                    values[i] = model.DictSub((k, model.decode_value(v)) for k, v in op[3]["v"].items())
                else:
                    values[i] = model.decode_ctx(op[3])
                extension = os.path.splitext(op[2])[1]
                if op[1] == "app" and extension in want_conf.extensions:

                    def view(context, request, i=i):
                        return values[i]

                    view.marker = "view %d" % i
                    views[i] = view
                    config.add_view(view, name="v%d" % i, renderer=real_name(op[2]))
        config.commit()
        app = config.make_wsgi_app()
        ref = PyramidModel(clock, want_conf.paths, fs)
        ref.reload = want_conf.reload
        changed = False

        def expected(name, value, system):
            key = ref.load(name)
            if not hasattr(value, "keys"):
                raise ValueError("not a dictionary")
            interp = (TranslatingInterp if want_conf.l10n else model.Interp)(ref)
            return interp.render(key, {**system, **value})

        for i, (kind, *args) in enumerate(case["ops"]):
            if kind == "write":
                write(*args)
                changed = True
            elif kind == "delete":
                path = os.path.join(directory(args[0]), args[1])
                if path in fs:
                    os.unlink(path)
                    del fs[path]
                    changed = True
            elif kind == "advance":
                clock.now += args[0]
            else:
                how, name, _ = args
                name = real_name(name)
                value = values[i]
                before = dict(value) if hasattr(value, "keys") else value
                request = pyramid.testing.DummyRequest(marker="requested")
                request.registry = config.registry
                system = {"view": None, "context": None, "request": request, "req": request, "renderer_name": name}
                system.update(case["globals"])
                if case["gettext"]:
                    system["gettext"] = translate
                registered = os.path.splitext(name)[1] in want_conf.extensions
                if how == "app" and i in views:
                    system["view"] = views[i]
                    if "context" not in case["globals"]:
                        system["context"] = model.Obj(marker="root")

                    def do():
                        r = pyramid.request.Request.blank("/v%d" % i)
                        response = r.get_response(app)
                        if response.status_code != 200:
                            raise Violation("the view gave %s" % response.status)
                        return response.text

                elif how == "response":

                    def do():
                        return pyramid.renderers.render_to_response(name, value, request=request).text

                elif how == "fragment" and registered and hasattr(value, "keys"):
                    system = {"marker": 1, "request": request}
                    # another name may be there, of the renderer of the view
                    given = dict(system) if i % 2 else dict(system, renderer_name="unused.tk")

                    def do():
                        renderer = pyramid.renderers.RendererHelper("unused.tk", registry=config.registry)
                        renderer.type = os.path.splitext(name)[1]
                        rv = renderer.renderer.fragment(name, value, given)
                        return str(rv)

                    system["renderer_name"] = name
                else:

                    def do():
                        rv = pyramid.renderers.render(name, value, request=request)
                        if type(rv) is not str:
                            raise Violation("the rendering is a %s" % type(rv))
                        return rv

                got = real.outcome(do)
                if registered:
                    want = real.outcome(lambda: expected(name, value, system))
                else:
                    want = ("error", "ValueError", "no renderer for the extension")
                where = dict(history=case["ops"][: i + 1], config=case["config"], files=case["files"])
                if not c12.same(got, want):
                    raise Violation("step %d, %s %s: got %r, expected %r" % (i, how, name, got, want), **where)
                if hasattr(value, "keys") and dict(value) != before:
                    raise Violation("step %d: the value of the view is now %r, was %r" % (i, value, before), **where)
                labels.add("%s-%s" % (how, want[0] if want[0] == "ok" else want[1]))
                if want[0] == "ok":
                    labels.add("asset" if ":" in name else "path")
                    labels.add("l10n" if want_conf.l10n else "no-l10n")
                    if changed:
                        labels.add("changed-reload" if want_conf.reload else "changed-no-reload")
    return Info(any(x.endswith("-ok") for x in labels), labels)


FAMILIES = [
    Family(
        "applications",
        lambda: gen.case_strategy(build),
        check,
        quick=12000,
        thorough=100000,
        rule="applications configured with any mix of settings and directives (extensions, search paths in "
        "directories and packages, reload, l10n, pyramid.reload_templates), and histories of writing and "
        "deleting templates, and rendering them with renderers, responses, views and fragments, by name, asset "
        "specification and path; compared with models of the settings, the loader and the templates; "
        "non-trivial: at least one template is rendered",
    ),
]
