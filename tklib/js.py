"""Templates in JavaScript: evaluation in Node, and templates of both languages."""

import contextlib
import io
import json
import os
import subprocess

from . import env, gen, model
from .env import HarnessError

_process = None


def node():
    """The evaluator of this process"""
    global _process
    if _process is None or _process[0] != os.getpid():
        proc = subprocess.Popen(
            ["node", os.path.join(env.VERIF, "tklib", "jsworker.js"),
             os.path.join(env.REPO, "tonnikala", "runtime", "javascript.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8", errors="surrogatepass",
        )
        _process = (os.getpid(), proc)
    return _process[1]


def evaluate(codes, main, ctxs, bare=False, **kw):
    """
    Renders main with each of the contexts: ("ok", [text..]) or ("error",
    text). The contexts are without a prototype if bare. With times=n, every
    bound template is rendered n times.
    """
    sources = [js_object(c) for c in ctxs]
    if bare:
        sources = ["Object.assign(Object.create(null), %s)" % c for c in sources]
    return ask(dict(kw, templates=codes, main=main, ctxs=sources))


def values(names, exprs, ctx):
    """The values of the expressions, one after another, as strings"""
    return ask({"names": names, "exprs": exprs, "ctxSrc": js_object(ctx)})


def parse_es5(codes):
    return ask({"parse": codes})


def ask(request):
    proc = node()
    try:
        proc.stdin.write(json.dumps(request) + "\n")
        proc.stdin.flush()
        line = proc.stdout.readline()
        reply = json.loads(line)
    except (OSError, ValueError) as e:
        raise HarnessError("node failed: %r" % e)
    if "error" in reply:
        return ("error", reply["error"])
    return ("ok", reply["ok"])


def compile_js(source, filename="<string>", **kw):
    from tonnikala.loader import JSLoader

    # slimit and the parser it is made with print
    with contextlib.redirect_stdout(io.StringIO()):
        return JSLoader(**kw).load_string(source, filename)


def js_value(v):
    if isinstance(v, list):
        return "[%s]" % ", ".join(js_value(i) for i in v)
    if isinstance(v, dict):
        if "$" in v:
            kind, arg = v["$"], v["v"]
            if kind == "markup":
                return "{html: function () { return this; }, toString: function () { return %s; }}" % json.dumps(arg)
            if kind == "undefined":
                return "undefined"
            if kind == "counter":
                return "(function () { var n = 0; return function () { return ++n; }; }())"
            if kind == "pairs":
                return js_value(arg)
            if kind == "obj":
                return js_value(arg)
            raise ValueError(kind)
        return "{%s}" % ", ".join("%s: %s" % (json.dumps(k), js_value(i)) for k, i in v.items())
    return json.dumps(v)


def js_object(ctx):
    return js_value(dict(ctx))


# ------------------------------------------------------------ both languages


def project(node, language):
    """The tree of one language: pairs are {"py": source, "js": source}"""
    if isinstance(node, list):
        return [project(n, language) for n in node]
    if isinstance(node, dict):
        if set(node) == {"py", "js"}:
            return node[language]
        return {k: project(n, language) for k, n in node.items()}
    return node


def pair(py, js, *args):
    """Fill expressions in"""
    return {
        "py": py % tuple(a if isinstance(a, str) else a["py"] for a in args),
        "js": js % tuple(a if isinstance(a, str) else a["js"] for a in args),
    }


def same(fmt, *args):
    return pair(fmt, fmt, *args)


VARS = {
    "s1": "str", "s2": "str", "s3": "str", "n1": "int", "n2": "int", "l1": "list", "l2": "list", "d1": "dict",
    "o1": "obj", "b1": "bool", "b2": "bool", "m1": "markup", "a1": "attr", "a2": "attr", "at": "attrs", "k1": "counter",
}


class JsGen(gen.Gen):
    """Generates expressions that mean the same in both languages"""

    STRIP = ["0", "1", "''", pair("None", "null"), pair("False", "false"), pair("True", "true")]

    def start(self, variables=None):
        return super().start(VARS if variables is None else variables)

    def attr_value(self):
        k = self.n(9)
        if k <= 4:
            return [None, True, False, "", 0][k]
        if k == 9:
            return {"$": "undefined", "v": None}
        return self.string() if k <= 7 else self.n(9) - 4

    def context(self):
        pairs = [["%s-%d" % (self.pick(gen.ATTRS[:8]), i), self.attr_value()] for i in range(self.n(2))]
        return {
            "s1": self.string(), "s2": self.string(), "s3": self.pick(["", "x"]), "n1": self.n(4), "n2": self.n(9) - 4,
            "l1": [self.string(top=2) for _ in range(self.n(3))],
            "l2": [self.string(top=2) for _ in range(self.n(2))],
            "d1": {"k": self.string(), "j": self.string()},
            "o1": {"$": "obj", "v": {
                "name": self.string(), "kids": [self.string(top=1) for _ in range(self.n(2))],
                "sub": {"$": "obj", "v": {"name": self.string()}}}},
            "b1": self.pick([True, False, None]), "b2": self.pick([False, True]),
            "k1": {"$": "counter", "v": 0},
            "m1": {"$": "markup", "v": self.string()}, "a1": self.attr_value(), "a2": self.attr_value(),
            "at": self.pick([None, {"$": "undefined", "v": None}, dict(map(tuple, pairs)), {"$": "pairs", "v": pairs}]),
        }

    def literal(self, pieces=gen.VALUE_PIECES):
        s = json.dumps(self.string(pieces, 2), ensure_ascii=False)
        if self.n(1):
            s = "'" + s[1:-1].replace("\\\"", '"').replace("'", "\\'") + "'"
        return {"py": s, "js": s}

    def expr_str(self, scope, depth):
        k = self.n(13 if depth > 0 else 2)
        d = depth - 1
        e = lambda: self.expr_str(scope, d)
        v = lambda t: self.var(scope, t)
        if k <= 1:
            return v("str") or self.literal()
        if k == 2:
            return self.literal()
        if k == 3:
            return same("(%s + %s)", e(), e())
        if k == 4:
            return pair("(%s).upper()", "(%s).toUpperCase()", e())
        if k == 5:
            return pair("str(%s)", "String(%s)", self.expr_int(scope, d))
        if k == 6:
            return pair("(%s if %s else %s)", "(%s ? %s : %s)", *self.ternary(scope, d))
        if k == 7:
            name = v("dict")
            return pair("%s['k']", self.pick(["%s['k']", "%s.k", '%s["k"]']), name) if name else "''"
        if k == 8:
            name = v("obj")
            return same(self.pick(["%s.name", "%s.sub.name"]), name) if name else "''"
        if k == 9:
            return pair("'-'.join(%s)", "(%s).join('-')", self.expr_list(scope, d))
        if k == 10:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return pair(
                "(lambda " + q + ": %s)(%s)", "(function (" + q + ") { return %s; })(%s)",
                self.expr_str(inner, d), e(),
            )
        if k == 11:
            return same("{'a': %s, 'b}': %s}['b}']", e(), e())
        if k == 12:
            return same("[%s, %s][%s]", e(), e(), str(self.n(1)))
        return pair("(%s or %s)", "(%s || %s)", e(), e())

    def ternary(self, scope, depth):
        # the languages have a different order of the parts
        c, a, b = self.expr_bool(scope, depth), self.expr_str(scope, depth), self.expr_str(scope, depth)
        swap = lambda x, lang: x if isinstance(x, str) else x[lang]
        return (
            {"py": swap(a, "py"), "js": swap(c, "js")},
            {"py": swap(c, "py"), "js": swap(a, "js")},
            b,
        )

    def expr_int(self, scope, depth):
        k = self.n(6 if depth > 0 else 1)
        d = depth - 1
        e = lambda: self.expr_int(scope, d)
        if k == 0:
            return str(self.n(4))
        if k == 1:
            return self.var(scope, "int") or "2"
        if k == 2:
            return pair("len(%s)", "(%s).length", self.expr_list(scope, d))
        if k <= 4:
            return same("(%s " + self.pick("+-*") + " %s)", e(), e())
        if k == 5:
            return same("-(%s)", e())
        return pair("(%s if %s else 7)", "(%s ? %s : 7)", *self.ternary_int(scope, d))

    def ternary_int(self, scope, depth):
        c, a = self.expr_bool(scope, depth), self.expr_int(scope, depth)
        part = lambda x, lang: x if isinstance(x, str) else x[lang]
        return {"py": part(a, "py"), "js": part(c, "js")}, {"py": part(c, "py"), "js": part(a, "js")}

    def expr_bool(self, scope, depth):
        k = self.n(9 if depth > 0 else 2)
        d = depth - 1
        e = lambda: self.expr_bool(scope, d)
        if k == 0:
            return self.var(scope, "bool") or "n1"
        if k <= 2:
            return self.var(scope, "int", "str") or "''"
        if k == 3:
            return pair("(not %s)", "!%s", e())
        if k == 4:
            return pair("(%s and %s)", "(%s && %s)", e(), e())
        if k == 5:
            return pair("(%s or %s)", "(%s || %s)", e(), e())
        if k == 6:
            return same("(%s " + self.pick(["<", ">", "<=", ">=", "==", "!="]) + " %s)", self.expr_int(scope, d), self.expr_int(scope, d))
        if k == 7:
            return pair("(%s == %s)", "(%s === %s)", self.expr_str(scope, d), self.expr_str(scope, d))
        if k == 8:
            return pair("len(%s)", "(%s).length", self.expr_list(scope, d))
        return {"py": "(s1 in d1)", "js": "(s1 in d1)"} if scope.get("d1") == "dict" and scope.get("s1") == "str" else "0"

    def expr_cond(self, scope, depth=2):
        if self.chance(5):
            k = self.n(7)
            return [
                pair("True", "true"), "1", pair("False", "false"), "0", "''", "'x'", pair("None", "null"),
                pair("not 0", "!0"),
            ][k]
        return self.expr_bool(scope, depth)

    def expr_list(self, scope, depth):
        k = self.n(5 if depth > 0 else 1)
        d = depth - 1
        if k == 0:
            return self.var(scope, "list") or "['u']"
        if k == 1:
            return self.pick([same("[%s, %s]", self.expr_str(scope, 0), self.expr_str(scope, 0)), same("[%s]", self.expr_str(scope, 0))])
        if k <= 3:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return pair(
                "[%s for " + q + " in %s]",
                "%s.map(function (" + q + ") { return %s; })",
                *self.swapped(self.expr_str(inner, d), self.expr_list(scope, 0)),
            )
        if k == 4:
            return pair("(%s + %s)", "%s.concat(%s)", self.expr_list(scope, 0), self.expr_list(scope, 0))
        v = self.var(scope, "obj")
        return "%s.kids" % v if v else "[]"

    def swapped(self, a, b):
        part = lambda x, lang: x if isinstance(x, str) else x[lang]
        return {"py": part(a, "py"), "js": part(b, "js")}, {"py": part(b, "py"), "js": part(a, "js")}

    def expr_any(self, scope, depth=2):
        k = self.n(9)
        if k <= 2:
            return self.var(scope, "str", "int", "markup") or "n1"
        if k == 3:
            return self.expr_int(scope, depth)
        if k <= 5 and self.vars_of(scope, "func"):
            return self.call(scope)
        if k == 6:
            return same("literal(%s)", self.expr_str(scope, depth - 1))
        return self.expr_str(scope, depth)

    def call(self, scope):
        name = self.var(scope, "func")
        args = [self.expr(scope, kind, 1) for _, kind, _ in self.functions[name]]
        return same("%s(" % name + ", ".join("%s" for _ in args) + ")", *args)

    def expr_node(self, scope, depth=2):
        if self.counters and scope.get("k1") == "counter" and self.chance(12):
            return ["expr", "k1()", self.form()]
        if self.n(2) == 0:
            v = self.var(scope, "str", "markup", "int")
            if v:
                return ["expr", v, self.form()]
        return ["expr", self.expr_any(scope, depth), self.form()]

    def expr_attr(self, scope):
        k = self.n(4)
        if k <= 1:
            return self.var(scope, "attr", "bool", "int", "str", "markup") or "0"
        if k == 2:
            return self.expr_any(scope, 1)
        if k == 3:
            return self.pick([pair("None", "null"), pair("None", "undefined"), pair("None", "({}).x"), pair("True", "true"), pair("False", "false"), "0", "''"])
        return pair("(not %s)", "!%s", self.expr_bool(scope, 1))

    def attr_parts(self, scope, name=None):
        if self.n(2) == 0:
            return [["expr", self.expr_attr(scope), self.n(1)]]
        return super().attr_parts(scope, name)

    def attr_controls(self, scope, wanted, ctl, after, depth):
        inner = super().attr_controls(scope, wanted, ctl, after, depth)
        if "attrs" in ctl:
            at = "at" if inner.get("at") == "attrs" else pair("None", "null")
            k = self.n(4)
            a, b = self.expr_attr(inner), self.expr_attr(inner)
            # names that objects of JavaScript have themselves among them
            q = self.pick(["q", "q", "length", "keys", "constructor", "toString", "hasOwnProperty", "items", "size", "forEach", "0x", "class"])
            ctl["attrs"] = [
                at, at, same("{'" + q + "': %s}", a), pair("[('y', %s), ('w', %s)]", "[['y', %s], ['w', %s]]", a, b),
                same("{'" + q + "': %s, 'r-s': %s}", a, b),
            ][k]
        return inner

    def for_target(self, scope):
        inner = dict(scope)
        a = self.name("i")
        if self.n(3):
            inner[a] = "str"
            return inner, [a, self.expr_list(scope, 1)]
        # the second argument is the index
        b = self.name("i")
        inner[a] = "str"
        inner[b] = "int"
        return inner, ["%s, %s" % (a, b), pair("[(v, k) for k, v in enumerate(%s)]", "%s", self.expr_list(scope, 1))]

    def function(self, scope, name=None):
        name = name or self.name("fn")
        inner = dict(scope)
        params = []
        for _ in range(self.n(2)):
            p = self.shadow_name(scope, "p")
            if p in [x[0] for x in params]:
                continue
            kind = self.pick(["str", "int"])
            params.append([p, kind, False])
            inner[p] = kind
        self.functions[name] = params
        return inner, [name, ", ".join(p[0] for p in params) if params or self.n(1) else None], name
