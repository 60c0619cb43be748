"""Equivalent spellings of a template render alike; large templates render like their parts."""

import copy

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C10"


def binds(node):
    """Does the node define names for what follows it?"""
    if node[0] == "ctl":
        return node[1] in ("def", "block", "import", "for") or any(k in ("def", "block") for k in node[4].get("ctl", {})) or any(
            binds(c) for c in node[3])
    if node[0] == "el":
        return any(k in ("def", "block") for k in node[4].get("ctl", {})) or any(binds(c) for c in node[3])
    return node[0] == "pi"


class Rewriter:
    def __init__(self, g):
        self.g = g
        self.count = 0
        self.kinds = set()

    def nodes(self, nodes, raw=False):
        out = []
        for n in nodes:
            out.extend(self.node(n, raw))
            if not raw and self.g.chance(12):
                self.did("dead")
                out.append(
                    self.g.pick(
                        [
                            ["comment", "! dropped <b> $x ${ ", 1],
                            ["ctl", "if", "0", [["text", "never", 0], ["expr", "undefined.x", 1]], {}],
                            ["ctl", "unless", "'x'", [["text", "never", 0]], {}],
                            ["ctl", "if", "no", [["text", "never", 0]], {}],
                            ["expr", "''", 0],
                            ["expr", "literal('')", 0],
                            ["ctl", "for", ["_d", "[]"], [["text", "never", 0]], {}],
                            ["ctl", "if", "1", [], {}],
                        ]
                    )
                )
        return out

    def did(self, kind):
        self.count += 1
        self.kinds.add(kind)

    def node(self, n, raw):
        g = self.g
        kind = n[0]
        if kind == "text":
            return self.text(n, raw)
        if kind == "expr":
            return [["expr", self.expr(n[1]), g.n(1)]]
        n = copy.copy(n)
        if kind == "el":
            tag_raw = n[1] in model.RAW_TAGS
            n[2] = self.attrs(n[2])
            n[3] = self.nodes(n[3], tag_raw)
        elif kind == "ctl" and n[3]:
            n[3] = self.nodes(n[3], raw)
        if kind == "comment" or raw:
            return [n]
        k = g.n(9)
        if k == 0:
            self.did("static")
            return [["ctl", "if", g.pick(["1", "True", "'x'", "not 0", "not None"]), [n], {}]]
        if k == 1:
            self.did("static")
            return [["ctl", "unless", g.pick(["0", "False", "''", "None"]), [n], {}]]
        if k == 2 and not binds(n):
            self.did("dynamic")
            return [["ctl", g.pick(["if", "if"]), g.pick(["yes", "no or 1", "[0]"]), [n], {}]]
        if k == 3 and not binds(n):
            self.did("scope")
            return [["ctl", "with", [["_w", "1"]], [n], {}]]
        if k == 4 and not binds(n):
            self.did("strip")
            return [["el", "i", [], [n], {"ctl": {"strip": g.pick(["", "1", "yes"])}}]]
        if k == 5 and not binds(n):
            self.did("loop")
            return [["ctl", "for", ["_l%d" % self.count, "[0]"], [n], {}]]
        return [n]

    def text(self, n, raw):
        g = self.g
        s = n[1]
        out = []
        while s and g.n(1):
            at = g.n(len(s))
            head, s = s[:at], s[at:]
            if head:
                out.append(["text", head, n[2]])
            if raw:
                if g.n(1) and s[:1].isalnum():
                    self.did("constant")
                    out.append(["expr", repr(s[:1]), 0])
                    s = s[1:]
                continue
            k = g.n(4)
            if k == 0:
                self.did("split")
                out.append(["comment", "! x ", 1])
            elif k == 1:
                self.did("constant")
                out.append(["expr", repr(s[:2]), 0])
                s = s[2:]
            elif k == 2:
                self.did("literal")
                out.append(["expr", "literal(%r)" % model.esc_text(s[:2]), 0])
                s = s[2:]
            elif k == 3:
                self.did("split")
                out.append(["ctl", "if", "True", [["text", s[:3], n[2]]], {}])
                s = s[3:]
            else:
                self.did("literal")
                out.append(["expr", "lit(%r)" % model.esc_text(s[:2]), 0])
                s = s[2:]
        if s:
            out.append(["text", s, n[2]])
        return out

    def expr(self, e):
        g = self.g
        k = g.n(9)
        if k == 0:
            self.did("expr")
            return "(%s)" % e
        if k == 1:
            self.did("expr")
            return "[%s][0]" % e
        if k == 2:
            self.did("expr")
            return "(%s) if yes else 0" % e
        if k == 3:
            self.did("expr")
            return "(%s) if 1 else 0" % e
        if k == 4 and e.startswith("literal("):
            self.did("literal")
            return g.pick(
                ["(literal(%s))", "[literal][0](%s)", "lit(%s)", "literal(literal(%s))", "literal(*[%s])", "(literal)(%s)"]
            ) % e[8:-1]
        if k == 5:
            self.did("expr")
            return "(lambda: %s)()" % e
        return e

    def attrs(self, attrs):
        # constant attributes are output first
        return [self.attr(a, len(attrs) == 1) for a in attrs]

    def attr(self, a, alone):
        name, parts, style = a
        if not parts:
            return a
        if all(p[0] == "text" for p in parts):
            # several parts, hence not a single expression
            s = "".join(p[1] for p in parts)
            if not alone:
                return a
            if len(s) >= 2 and self.g.n(2) == 0:
                at = 1 + self.g.n(len(s) - 2)
                self.did("attr")
                return [name, [["text", s[:at], 0], ["expr", repr(s[at:]), 0]], style]
            if s and self.g.n(2) == 0:
                self.did("attr")
                return [name, [["expr", repr(s), 0]], style]
            return a
        if len(parts) == 1:
            e = parts[0]
            return [name, [["expr", self.expr(e[1]), e[2]]], style]
        out = []
        for p in parts:
            if p[0] == "expr":
                out.append(["expr", self.expr(p[1]), p[2]])
            else:
                out.append(p)
        return [name, out, style]


def build(draw):
    g = gen.Gen(draw, size=16)
    doc = g.document()
    ctx = g.context()
    r = Rewriter(g)
    variant = copy.deepcopy(doc)
    root = variant["root"]
    root[2] = r.attrs(root[2])
    root[3] = r.nodes(root[3])
    return {"doc": doc, "variant": variant, "ctx": ctx, "kinds": sorted(r.kinds), "count": r.count}


def context(case):
    import markupsafe

    ctx = model.decode_ctx(case["ctx"])
    ctx["lit"] = lambda x: markupsafe.Markup(str(x))
    ctx["yes"] = True
    ctx["no"] = False
    return ctx


def check(case):
    source = model.emit_doc(case["doc"])
    variant = model.emit_doc(case["variant"])
    first = real.outcome(lambda: real.render(source, context(case)))
    second = real.outcome(lambda: real.render(variant, context(case)))
    if real.name_error(first)[:2] != real.name_error(second)[:2]:
        raise Violation(
            "the rewritten template renders as %r, the original as %r" % (second, first),
            source=source, rewritten=variant, context=case["ctx"],
        )
    want = real.outcome(lambda: model.Interp({"main": case["doc"]}).render("main", context(case)))
    real.compare(first, want, source=source, context=case["ctx"])
    return Info(case["count"] >= 2, case["kinds"] + [first[0]])


# ------------------------------------------------------------------- sizes


def build_large(draw):
    g = gen.Gen(draw, size=8)
    g.control_kinds = ("if", "unless", "for", "with", "replace")
    g.attr_kinds = ("if", "for", "with", "strip", "content", "attrs")
    scope = g.start()
    unit = g.children(scope, 3, level=5)
    n = g.pick([1, 2, 3, 7, 50, 99, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1000])
    if len(str(unit)) * n > 300000:
        n = max(1, 300000 // len(str(unit)))
    return {"unit": unit, "n": n, "ctx": g.context(), "wrap": g.n(3)}


def check_large(case):
    nodes = case["unit"] * case["n"]
    if case["wrap"] == 1:
        nodes = [["el", "p", [], nodes, {}]]
    elif case["wrap"] == 2:
        nodes = [["ctl", "def", ["big", ""], nodes, {}], ["expr", "big()", 0], ["expr", "big()", 0]]
    elif case["wrap"] == 3:
        nodes = [["ctl", "for", ["_x", "'ab'"], [["ctl", "if", "1", nodes, {}]], {}]]
    doc = {"root": ["el", "div", [], nodes, {}]}
    source = model.emit_doc(doc)
    got = real.outcome(lambda: real.render(source, context(case)))
    interp = model.Interp({"main": doc})
    interp.budget = 10**9
    want = real.outcome(lambda: interp.render("main", context(case)))
    if real.name_error(got)[:2] != real.name_error(want)[:2]:
        a, b = str(got), str(want)
        at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation(
            "%d repetitions: differs at %d: got ...%r, expected ...%r"
            % (case["n"], at, a[max(0, at - 40): at + 60], b[max(0, at - 40): at + 60]),
            unit=model.emit_children(case["unit"]),
        )
    return Info(len(nodes) > 0 and case["n"] > 50 and bool(case["unit"]), ["n%d" % case["n"] if case["n"] in (1, 1000) else "n", got[0]])


FAMILIES = [
    Family(
        "rewritings",
        lambda: gen.case_strategy(build),
        check,
        quick=14000,
        thorough=350000,
        rule="a generated template and a rewriting of it that means the same (text split, text as constants or "
        "literals, constant and variable conditions, scopes, dead parts, indirect literal) must render "
        "alike; non-trivial: at least two rewritings were applied",
    ),
    Family(
        "sizes",
        lambda: gen.case_strategy(build_large),
        check_large,
        quick=750,
        thorough=20000,
        rule="a unit of a few nodes repeated up to 1000 times, in a function, loop or element, compared with the "
        "reference interpreter; non-trivial: more than 50 repetitions",
    ),
]
