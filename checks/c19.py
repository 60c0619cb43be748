"""Templates compiled to JavaScript, run in Node, against the same in Python."""

import re

from tklib import gen, js, model, real
from tklib.harness import Family, Info, Violation

ID = "C19"


def build(draw, counters=True):
    g = js.JsGen(draw, size=20)
    g.counters = counters
    doc = g.document()
    names = odd_names(g, ["s1", "s2", "s3", "n1", "l1", "o1", "d1"]) if g.chance(4) else {}
    if names:
        doc = rename(doc, *names_pattern(names))
    if g.n(5) == 0:
        doc["doctype"] = "<!DOCTYPE html>"
    ctxs = [{names.get(k, k): v for k, v in g.context().items()} for _ in range(1 + g.n(1))]
    return {"files": {"main": doc}, "main": "main", "ctxs": ctxs, "times": 1 + g.n(1)}


# ------------------------------------------------------------ inheritance

RANK = ["body", "menu", "head", "item", "b3", "foot", "f4"]
BLOCKS = ["body", "head", "b3", "foot"]
PARAMS = {"menu": [], "item": ["x"], "f4": ["x", "y"]}


# names of functions and blocks that objects of JavaScript or Python may have themselves
ODD = [
    "constructor", "toString", "valueOf", "hasOwnProperty", "isPrototypeOf", "length", "name", "call", "apply", "prototype",
    "render", "output", "context", "ctx", "keys", "template", "toLocaleString", "Buffer", "self", "bind", "join", "escape",
    "__x", "_y", "__z__", "__proto", "_", "__0", "\u00e9lan", "na\u00efve", "\u03bc1",
]


def odd_names(g, names):
    rv = {}
    for old in names:
        if g.n(1):
            new = g.pick(ODD)
            if new not in rv.values():
                rv[old] = new
    return rv


def names_pattern(names):
    return re.compile(r"(?<![\w.])(%s)\b" % "|".join(names)), names


def rename(node, pattern, names):
    """The tree with other names of functions, blocks and variables; they occur nowhere else"""
    if isinstance(node, list):
        return [rename(n, pattern, names) for n in node]
    if isinstance(node, dict):
        return {k: rename(n, pattern, names) for k, n in node.items()}
    if isinstance(node, str):
        return pattern.sub(lambda m: names[m.group()], node)
    return node


class TreeGen(js.JsGen):
    def contents(self, rank, names, variables, depth, place):
        rv = []
        names = [n for n in names if RANK.index(n) > rank]
        for _ in range(1 + self.n(3)):
            k = self.n(9)
            if k <= 1:
                rv.append(["text", self.pick(["t ", "<", "x\n", "--"]), 0])
            elif k == 2:
                rv.append(["expr", self.pick(variables), 1])
            elif k <= 5 and names:
                n = self.pick(names)
                rv.append(["expr", "%s(%s)" % (n, ", ".join(self.pick(variables) for _ in PARAMS.get(n, []))), self.n(1)])
            elif k == 6 and depth:
                rv.append(["el", "p", [["id", [["expr", self.pick(variables), 1]], 0]],
                           self.contents(rank, names, variables, depth - 1, place), {}])
            elif k == 7 and depth:
                i = self.name("i")
                rv.append(["ctl", "for", [i, "l1"], self.contents(rank, names, variables + [i], depth - 1, place), {}])
            elif k == 8 and depth:
                rv.append(["ctl", "if", self.pick(variables), self.contents(rank, names, variables, depth - 1, place), {}])
            elif k == 9 and depth and place is not None:
                free = [n for n in BLOCKS if n not in place and RANK.index(n) > rank]
                if free:
                    name = self.pick(free)
                    place.append(name)
                    rv.append(self.definition(name, names, depth - 1, place))
            else:
                rv.append(["text", "%d." % self.n(9), 0])
        return rv

    def definition(self, name, names, depth, place):
        variables = ["s1", "s2"] + PARAMS.get(name, [])
        body = self.contents(RANK.index(name), names, variables, depth, place if name in BLOCKS else None)
        if name in BLOCKS:
            kind, value = "block", name
        else:
            kind, value = "def", [name, ", ".join(PARAMS[name])]
        if self.n(2) == 0:
            return ["el", "div", [], body, {"ctl": {kind: value}}]
        return ["ctl", kind, value, body, {}]


def build_tree(draw):
    g = TreeGen(draw)
    files = {}
    known = set()
    parent = None
    for i in range(2 + g.n(2)):
        defined = []
        nodes = []
        wanted = [n for n in RANK if g.n(1)]
        visible = sorted(known | set(wanted), key=RANK.index)
        for n in wanted:
            if n not in defined:
                defined.append(n)
                nodes.append(g.definition(n, visible, 1, defined))
        known |= set(defined)
        name = "t%d" % i
        if parent is None:
            root = nodes + g.contents(-1, sorted(known, key=RANK.index), ["s1", "s2"], 2, None)
            files[name] = {"root": ["el", "html", [], root, {}]}
        else:
            body = []
            for n in nodes:
                body.append(n)
                body.append(["text", g.pick(["", "\n "]), 0])
            files[name] = {"root": ["ctl", "extends", parent, body, {}]}
        parent = name
    names = odd_names(g, RANK + ["s1", "s2"]) if g.chance(3) else {}
    if names:
        # names of templates are not renamed
        files = {k: rename(d, *names_pattern(names)) for k, d in files.items()}
    ctx = lambda: {
        names.get("s1", "s1"): g.string(), names.get("s2", "s2"): g.pick(["", "x", "<"]),
        "l1": [g.string(top=1) for _ in range(g.n(2))],
    }
    return {"files": files, "main": g.pick(sorted(files)[1:] + [parent]), "ctxs": [ctx() for _ in range(1 + g.n(1))], "bare": g.chance(4)}


def expected(docs, main, context, case):
    interp = model.Interp(docs)
    if "many" in case:
        interp.budget = 10**8
    return interp.render(main, context)


def check(case):
    docs = {lang: {k: js.project(d, lang) for k, d in case["files"].items()} for lang in ("py", "js")}
    sources = {k: model.emit_doc(d, "js:") for k, d in docs["js"].items()}
    main = case["main"]
    times = case.get("times", 1)
    # the contexts are used again, which the counters in them notice
    ctxs = [ctx for ctx in map(model.decode_ctx, case["ctxs"]) for _ in range(times)]
    wants = [real.outcome(lambda: expected(docs["py"], main, c, case)) for c in ctxs]
    if any(w[0] != "ok" for w in wants):
        return Info(False, ["python " + next(w[1] for w in wants if w[0] != "ok")])

    # the oracle is the Python target, and the reference interpreter where they differ
    python_sources = {k: model.emit_doc(d) for k, d in docs["py"].items()}
    with real.TemplateDir(python_sources) as d:
        loader = real.FileLoader(paths=[d.path])
        ctxs = [ctx for ctx in map(model.decode_ctx, case["ctxs"]) for _ in range(times)]
        for i, (c, want) in enumerate(zip(ctxs, wants)):
            got = real.outcome(lambda: loader.load(main).render(c))
            real.compare(got, want, sources=python_sources, context=case["ctxs"][i // times], language="Python")

    codes = {k: js.compile_js(s, k) for k, s in sources.items()}
    outcome = js.evaluate(codes, main, case["ctxs"], bare=case.get("bare"), times=times)
    if outcome[0] == "error":
        raise Violation("JavaScript fails: %s" % outcome[1], sources=sources, python=python_sources, contexts=case["ctxs"])
    for i, (want, got) in enumerate(zip(wants, outcome[1])):
        if got != want[1]:
            raise Violation(
                "JavaScript: %r, Python: %r" % (got, want[1]), sources=sources, python=python_sources,
                context=case["ctxs"][i // times], rendering=i % times,
            )
    kinds = set()
    for doc in docs["py"].values():
        collect([doc["root"]], kinds)
    return Info(len(kinds) > 1, sorted(kinds))


def collect(nodes, kinds):
    for n in nodes:
        if n[0] in ("el", "ctl"):
            kinds.update("@" + k for k in n[4].get("ctl", {}))
            if n[0] == "ctl":
                kinds.add(n[1])
            collect(n[3], kinds)


# ------------------------------------------------------------------ sizes


def build_sizes(draw):
    """Many pieces of output, wherever it is collected"""
    g = js.JsGen(draw)
    many = js.pair("'x' * n1", "(new Array(n1 + 1)).join('x').split('')")

    def pieces(name):
        rv = [["expr", name, 1]]
        for _ in range(g.n(2)):
            rv.insert(g.n(len(rv)), g.pick([
                ["text", "<a>", 0], ["expr", "s1", 1], ["el", "b", [["class", [["expr", "s1", 0]], 0]], [["expr", name, 0]], {}],
            ]))
        return rv

    def loop(depth=1):
        i = g.name("i")
        k = g.n(3)
        if k == 0 and depth:
            j = g.name("j")
            return ["ctl", "for", [i, "l1"], [["ctl", "for", [j, many], pieces(j), {}]], {}]
        if k == 1:
            return ["el", "li", [], pieces(i), {"ctl": {"for": [i, many]}}]
        return ["ctl", "for", [i, many], pieces(i), {}]

    body = []
    calls = []
    for k in [g.n(4) for _ in range(1 + g.n(1))]:
        name = g.name("f")
        if k == 0:
            body.append(loop())
        elif k == 1:
            body.append(["ctl", "block", name, [["text", "b", 0], loop()], {}])
        elif k == 2:
            body.append(["ctl", "def", [name, ""], [["text", "f", 0], loop()], {}])
            calls.append(["expr", "%s()" % name, 0])
        elif k == 3:
            # a small function that is called often
            i = g.name("i")
            body.append(["ctl", "def", [name, "x"], pieces("x"), {}])
            fewer = js.pair("'x' * n2", "(new Array(n2 + 1)).join('x').split('')")
            calls.append(["ctl", "for", [i, fewer], [["expr", "%s(%s)" % (name, i), 0]], {}])
        else:
            # functions within functions
            inner = g.name("f")
            body.append(["ctl", "def", [inner, ""], [loop()], {}])
            body.append(["ctl", "def", [name, ""], [["expr", inner + "()", 0], ["text", ",", 0], ["expr", inner + "()", 0]], {}])
            calls.append(["expr", "%s()" % name, 0])
    doc = {"root": ["el", "div", [], body + calls, {}]}
    n = g.pick([0, 1, 100, 5000, 50000, 70000, 130000, 150000, 200000])
    # appending the output of a function takes as long as there is output
    ctx = {"n1": 10 if any("n2" in str(c) for c in calls) else n, "n2": min(n, 4000), "s1": g.pick(["", "<", "x"]), "l1": ["a", "b"][: g.n(2)]}
    return {"files": {"main": doc}, "main": "main", "ctxs": [ctx], "many": n, "reached": ctx["n1"]}


def check_sizes(case):
    info = check(case)
    return Info(case["reached"] >= 50000, ["%d" % case["reached"]] + list(info.labels))


FAMILIES = [
    Family(
        "sizes", lambda: gen.case_strategy(build_sizes), check_sizes, quick=200, thorough=4000,
        rule="loops of up to 200000 turns in elements, blocks and functions, and small functions called up to 4000 times; in both languages; "
        "non-trivial: 50000 turns or more",
    ),
    Family(
        "templates", lambda: gen.case_strategy(build), check, quick=4800, thorough=60000,
        rule="templates of all constructs, written in both languages, rendered with one or two contexts in Python and in Node; "
        "non-trivial: two kinds of control structures or more",
    ),
    Family(
        "trees", lambda: gen.case_strategy(build_tree), check, quick=1050, thorough=20000,
        rule="two to four templates that extend each other, with blocks and functions, in both languages; non-trivial as above",
    ),
]
