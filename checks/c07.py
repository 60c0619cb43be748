"""Inheritance: trees of templates rendered in any order with one loader, against the reference interpreter."""

from tklib import gen, model, names, real
from tklib.harness import Family, Info, Violation

ID = "C07"

# callable names have ranks, to have no recursion: what is defined as one name
# calls the names of higher ranks only
BLOCKS = ["body", "head", "b3", "len", "foot", "b6"]
FUNCS = ["menu", "item", "max", "f4"]
RANK = ["body", "menu", "head", "item", "b3", "len", "max", "foot", "f4", "b6"]
PARAMS = {"menu": [], "item": ["x"], "max": ["x", "y"], "f4": []}
SIGS = {
    "menu": [None, ""],
    "item": ["x", "x='d'", "x, *more", "x, b3=1"],
    "max": ["x, y", "x, y=s1", "x, y, z='<z>'", "x, y, **kw"],
    "f4": ["", "a='q'", "*a", "s1='own'"],
}


class TreeGen(gen.Gen):
    def call(self, name, visible_vars):
        arg = lambda: self.pick(visible_vars + ["'lit<'"])
        if name in BLOCKS:
            return "%s()" % name
        return "%s(%s)" % (name, ", ".join(arg() for _ in PARAMS[name]))

    def contents(self, rank, names, variables, depth, place):
        """Nodes for the body of a definition of a rank"""
        rv = []
        callable_ = [n for n in names if RANK.index(n) > rank]
        for _ in range(1 + self.n(3)):
            k = self.n(10)
            if k <= 1:
                rv.append(["text", self.pick(["t ", "<", "x\n", "--"]) , 0])
            elif k == 2:
                rv.append(["expr", self.pick(variables), 1])
            elif k <= 5 and callable_:
                rv.append(["expr", self.call(self.pick(callable_), variables), self.n(1)])
            elif k == 6 and depth:
                rv.append(["el", "p", [["id", [["expr", self.pick(variables), 1]], 0]],
                           self.contents(rank, names, variables, depth - 1, place), {}])
            elif k == 7 and depth:
                rv.append(["ctl", "for", ["i", "l1"], self.contents(rank, names, variables + ["i"], depth - 1, place), {}])
            elif k == 8 and depth:
                rv.append(["ctl", "if", self.pick(variables), self.contents(rank, names, variables, depth - 1, place), {}])
            elif k == 9 and depth and place is not None:
                # a nested block, new in this file
                free = [n for n in BLOCKS if n not in place and RANK.index(n) > rank]
                if free:
                    name = self.pick(free)
                    place.append(name)
                    rv.append(self.block(name, names, depth - 1, place))
            else:
                rv.append(["text", "%d." % self.n(9), 0])
        return rv

    def block(self, name, names, depth, place):
        body = self.contents(RANK.index(name), names, ["s1", "s2"], depth, place)
        if self.n(2) == 0:
            return ["el", "div", [], body, {"ctl": {"block": name}}]
        return ["ctl", "block", name, body, {}]

    def function(self, name, names, depth):
        sig = self.pick(SIGS[name])
        bound = {"item": ["x"], "max": ["x", "y"]}.get(name, [])
        body = self.contents(RANK.index(name), names, ["s1", "s2"] + bound, depth, None)
        if self.n(2) == 0:
            return ["el", "b", [], body, {"ctl": {"def": [name, sig]}}]
        return ["ctl", "def", [name, sig], body, {}]

    def definitions(self, known, depth):
        """Overrides and new definitions of one file; known: the names of the ancestors"""
        names = [n for n in RANK if self.n(2) == 0]
        visible = sorted(set(known) | set(names), key=RANK.index)
        if self.chance(15):
            visible = RANK
        nodes = []
        defined = []
        for n in names:
            if n in defined:
                continue
            defined.append(n)
            if n in BLOCKS:
                nodes.append(self.block(n, visible, depth, defined))
            else:
                nodes.append(self.function(n, visible, depth))
        return nodes, defined


def build(draw, odd_names=True):
    g = TreeGen(draw)
    files = {}
    known = {}
    # the base document
    nodes, defined = g.definitions([], 2)
    known_names = sorted(defined, key=RANK.index)
    root = []
    for node in nodes:
        root.append(["text", g.pick(["", " ", "base "]), 0])
        for _ in range(g.pick([0, 0, 0, 1, 1, 2])):
            # still on the top level
            node = g.pick([
                ["ctl", "if", "1", [node], {}], ["ctl", "if", "not 0", [node], {}], ["ctl", "unless", "''", [node], {}],
                ["el", "div", [], [node], {}], ["el", "b", [], [["text", "in", 0], node], {"ctl": {"if": "'x'"}}],
            ])
        root.append(node)
    if g.chance(8):
        # called by the ancestor, defined by a descendant only
        known_names = RANK
    root += g.contents(-1, known_names, ["s1", "s2"], 2, None)
    if g.n(2) == 0:
        root.append(["ctl", "for", ["i", "l1"], [["expr", g.call(n, ["i"]), 0] for n in known_names[:2]], {}])
    files["base.tk"] = {"root": ["el", "html", [], root, {}]}
    if g.n(1):
        files["base.tk"]["doctype"] = files["base.tk"]["doctype_out"] = "<!DOCTYPE html>"
    known["base.tk"] = set(defined)
    order = ["base.tk"]
    for i in range(1 + g.n(4)):
        parent = order[g.n(len(order) - 1)] if g.n(2) == 0 else order[-1]
        name = g.pick(["t%d.tk", "sub/t%d.tk"]) % i
        nodes, defined = g.definitions(known[parent], 1)
        body = []
        for node in nodes:
            body.append(["text", g.pick(["", "\n", " "]), 0])
            if g.chance(5):
                body.append(["comment", g.pick([" c ", " c\n d ", "$s1\n\n", " ${s2} ", "<b>", "a\n-\n"]), 0])
            body.append(node)
        files[name] = {"root": ["ctl", "extends", parent, body, {}]}
        known[name] = known[parent] | set(defined)
        order.append(name)
    ctxs = [
        {"s1": g.string(), "s2": g.string(), "l1": [g.string(top=1) for _ in range(g.n(2))]}
        for _ in range(1 + g.n(1))
    ]
    steps = [[g.pick(order), g.n(len(ctxs) - 1)] for _ in range(1 + g.n(5))]
    case = {"files": files, "ctxs": ctxs, "steps": steps, "reload": bool(g.n(1)), "debug": 0}
    if odd_names and g.chance(6):
        case["files"], case["ctxs"], case["written"], _ = names.odd_files(
            g, files, ctxs, ["body", "menu", "head", "item", "b3", "foot", "s1", "l1"])
    return case


def check(case):
    sources = {k: model.emit_doc(d) for k, d in case.get("written", case["files"]).items()}
    labels = {"steps%d" % len(case["steps"])}
    depth = 0
    with real.TemplateDir(sources) as d:
        loader = real.FileLoader(paths=[d.path])
        loader.set_reload(case["reload"])
        for i, (name, c) in enumerate(case["steps"]):
            ctx = case["ctxs"][c]
            got = real.outcome(lambda: loader.load(name).render(model.decode_ctx(ctx)))
            want = real.outcome(lambda: model.Interp(case["files"]).render(name, model.decode_ctx(ctx)))
            if real.name_error(got)[:2] != real.name_error(want)[:2]:
                raise Violation(
                    "step %d, %s: got %r, expected %r" % (i, name, got, want), sources=sources, context=ctx
                )
            labels.add(got[0] + (got[1] if got[0] != "ok" else ""))
            level = 0
            root = case["files"][name]["root"]
            while root[1] == "extends":
                level += 1
                root = case["files"][root[2]]["root"]
            labels.add("level%d" % level)
            depth = max(depth, level)
    return Info(depth >= 1, labels)


FAMILIES = [
    Family(
        "trees",
        lambda: gen.case_strategy(build),
        check,
        quick=16000,
        thorough=400000,
        rule="two to six templates that extend each other with random definitions and uses of blocks and "
        "functions, rendered in random order with one loader, some with names of letters beyond ASCII that are "
        "spelled in several ways; every output is compared with the reference "
        "interpreter; non-trivial: a derived template is rendered",
    )
]
