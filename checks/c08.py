"""Imports: graphs of templates that import and extend each other, against the reference interpreter."""

from tklib import gen, model, names, real
from tklib.harness import Family, Info

ID = "C08"

NAMES = ["foo", "bar", "max", "blk", "s1", "util"]
ALIASES = ["lib", "foo", "u", "len", "other"]
RESERVED = {"s1", "s2", "l1"}


class GraphGen(gen.Gen):
    def args(self, variables):
        return self.pick(variables + ["'lit'"])

    def given(self, arity, variables):
        """The arguments of a call: none, one, or one that has a default value"""
        return self.args(variables) if arity == 1 or arity == 2 and self.n(1) else ""

    def use(self, imports, own, variables):
        """An expression that uses a function of this or of another file"""
        k = self.n(6)
        choices = [(a, f) for a, fs in imports.items() for f in fs]
        if k <= 3 and choices:
            alias, f = self.pick(choices)
            return "%s.%s(%s)" % (alias, f[0], self.given(f[1], variables))
        if k == 4 and own:
            f = self.pick(own)
            return "%s(%s)" % (f[0], self.given(f[1], variables))
        if k == 5 and imports and self.chance(4):
            # may not be there
            return "%s.%s" % (self.pick(sorted(imports)), self.pick(["foo()", "nothing", "s1(1)", "blk()", "l1", "other.foo()", "len()"]))
        if k == 6 and self.chance(2):
            # of another file, or of the context
            return "%s(%s)" % (self.pick(NAMES[: self.rank] or ["nothing"]), self.pick(["", "", "'v'"]))
        return self.args(variables)

    def contents(self, imports, own, variables, depth):
        rv = []
        if self.order and self.chance(8 if depth else 30):
            # anywhere but at the top
            href = self.pick(self.order)
            alias = self.name("nested")
            imports = {**imports, alias: self.exports[href]}
            rv.append(["ctl", "import", [href, alias], [], {}])
            if self.exports[href]:
                f = self.pick(self.exports[href])
                rv.append(["expr", "%s.%s(%s)" % (alias, f[0], self.given(f[1], variables)), 0])
        for _ in range(1 + self.n(2)):
            k = self.n(6)
            if k == 0:
                rv.append(["text", self.pick(["<", "x", " "]), 0])
            elif k <= 3 or not depth:
                rv.append(["expr", self.use(imports, own, variables), 0])
            elif k == 4:
                rv.append(["el", "p", [["id", [["expr", self.use(imports, own, variables), 0]], 0]],
                           self.contents(imports, own, variables, depth - 1), {}])
            elif k == 5:
                rv.append(["ctl", "for", ["i", "l1"], self.contents(imports, own, variables + ["i"], depth - 1), {}])
            else:
                rv.append(["ctl", "if", self.pick(["s1", "l1", "not s1"]),
                           self.contents(imports, own, variables, depth - 1), {}])
        return rv

    def file(self, i, order, exports, main=False):
        imports = {}
        nodes = []
        self.order, self.exports = order, exports
        if order:
            for _ in range(self.n(2)):
                href = self.pick(order)
                alias = self.pick(ALIASES)
                if alias in imports:
                    continue
                imports[alias] = exports[href]
                nodes.append(["ctl", "import", [href, alias], [], {}])
        own = []
        # the names of this file
        for self.rank, n in enumerate(NAMES):
            # calls the names before it only
            if self.n(2) or n in imports:
                continue
            if n in RESERVED and not main and self.n(1):
                continue
            if n == "blk":
                nodes.append(["ctl", "block", n, self.contents(imports, own, ["l1", "s2"], 1), {}])
                own.append((n, 0))
            elif n == "s1":
                # defined as a function in a library, but a value of the context
                if main:
                    continue
                nodes.append(["ctl", "def", [n, "x"], [["text", "s1:", 0], ["expr", "x", 1]], {}])
                own.append((n, 1))
            else:
                arity = self.n(1)
                variables = ["l1", "s2"] + (["x"] if arity else [])
                sig = "x" if arity else None
                if arity and self.n(1) and imports:
                    # the default value calls another function
                    callees = [(a + "." + f[0], f[1]) for a, fs in imports.items() for f in fs]
                    if callees:
                        arity = 2
                        f = self.pick(callees)
                        sig = "x=%s(%s)" % (f[0], self.given(f[1], ["'d'"]))
                nodes.append(["ctl", "def", [n, sig],
                              self.contents(imports, own, variables, 1), {}])
                own.append((n, arity))
        extends = None
        self.rank = len(NAMES)
        if order and self.n(2) == 0 and not main:
            extends = self.pick(order)
            exported = dict(exports[extends])
            exported.update(own)
            root = ["ctl", "extends", extends, nodes, {}]
        else:
            exported = dict(own)
            nodes = nodes + self.contents(imports, own, ["s1", "s2"] if main else ["l1", "s2"], 2)
            root = ["el", "div", [], nodes, {}]
        return {"root": root}, sorted(exported.items())


def build(draw):
    g = GraphGen(draw)
    files, exports, order = {}, {}, []
    for i in range(1 + g.n(3)):
        name = "f%d.tk" % i
        files[name], exports[name] = g.file(i, order, exports)
        order.append(name)
    files["main"], _ = g.file(9, order, exports, True)
    if g.n(3) == 0:
        # the importing template is itself extended, or imported
        kind = g.n(1)
        inner = files["main"]
        files["base.tk"] = inner
        defs = [["ctl", "def", [n, None], [["text", "child " + n, 0]], {}] for n in NAMES[:3] if g.n(1)]
        if kind:
            files["main"] = {"root": ["ctl", "extends", "base.tk", defs, {}]}
        else:
            files["main"] = {"root": ["el", "html", [], [["ctl", "import", ["base.tk", "whole"], [], {}]] + defs
                                      + [["expr", "whole.%s()" % g.pick(["__main__", "foo", "bar", "blk"]), 0]], {}]}
    ctx = {"s1": g.string(), "s2": g.string(), "l1": [g.string(top=1) for _ in range(g.n(2))]}
    if g.chance(6):
        ctx[g.pick(["foo", "bar", "util"])] = g.string()
    if g.chance(4):
        ctx[g.pick(["foo", "bar", "util", "max"])] = {"$": "func", "v": g.string()}
    if g.chance(6):
        # compares equal to whatever it is compared with
        ctx[g.pick(["foo", "bar", "util", "blk", "max"])] = {"$": "equal", "v": g.string(top=1)}
    case = {"files": files, "ctx": ctx}
    if g.chance(6):
        case["files"], (case["ctx"],), case["written"], _ = names.odd_files(
            g, files, [ctx], ["foo", "bar", "blk", "util", "lib", "u", "other", "s1", "l1"])
    return case


def check(case):
    sources = {k: model.emit_doc(d) for k, d in case.get("written", case["files"]).items()}
    got = real.outcome(lambda: real.render_files(sources, "main", model.decode_ctx(case["ctx"])))
    want = real.outcome(lambda: model.Interp(case["files"]).render("main", model.decode_ctx(case["ctx"])))
    real.compare(got, want, sources=sources, context=case["ctx"])
    uses = sum(s.count("py:import") for s in sources.values())
    return Info(
        uses >= 1 and any("." in p for p in sources["main"].split("${")[1:]) or uses >= 2,
        ["imports%d" % min(uses, 5), got[0] + (got[1] if got[0] != "ok" else "")],
    )


FAMILIES = [
    Family(
        "graphs",
        lambda: gen.case_strategy(build),
        check,
        quick=20000,
        thorough=500000,
        rule="two to six templates that import and extend each other, with functions of the same names, "
        "some of letters beyond ASCII that are spelled in several ways; "
        "compared with the reference interpreter; non-trivial: an imported function may be used",
    )
]
