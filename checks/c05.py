"""Scoping: templates that bind a few names over and over, against the reference interpreter."""

import collections
import collections.abc
import types

from tklib import gen, model, names, real
from tklib.harness import Family, Info, Violation

ID = "C05"
ASSUMPTIONS = [
    "the scopes are those of Python functions: in one function (the template, a block, a template function or "
    "the inside of a with element) a name is not read before it is bound by a loop, function or code section in it",
]

POOL = ["a", "b", "c", "d", "len", "id", "max", "self", "context", "name", "i", "escape", "output",
        "__x", "_y", "__z__"]
FUNCS = ["f", "g", "h", "a", "b", "min", "context", "sum", "len", "__f"]


class Fn:
    """A Python scope: the names that were read and bound in it"""

    def __init__(self, parent=None, bound=()):
        self.parent = parent
        self.reads = set()
        self.bound = set(bound)
        self.poisoned = set()


class ScopeGen(gen.Gen):
    def start_scopes(self):
        self.functions = {}
        self.fn = Fn()
        self.kinds = set()
        self.shadowed = 0

    # -- names

    def read(self, name):
        fn = self.fn
        while fn:
            fn.reads.add(name)
            if name in fn.bound:
                return
            fn = fn.parent

    def readable(self, name):
        fn = self.fn
        while fn:
            if name in fn.poisoned:
                return False
            if name in fn.bound:
                return True
            fn = fn.parent
        return True

    def can_assign(self, name):
        return name in self.fn.bound or (name not in self.fn.reads and name not in self.fn.poisoned)

    def assignable(self, pool, env=None):
        names = [
            n for n in pool if self.can_assign(n)
            # what is bound already must stay a value
            and (n not in self.fn.bound or (env is not None and env.get(n) == "str"))
        ]
        return self.pick(names) if names else self.name("z")

    def some_value(self, env):
        names = sorted(n for n, t in env.items() if t == "str" and self.readable(n))
        if not names:
            return None
        name = self.pick(names)
        self.read(name)
        return name

    def some_function(self, env, simple=False):
        names = sorted(
            n for n, t in env.items()
            if t != "str" and self.readable(n) and (not simple or t == [] or t == ["*"])
        )
        if not names:
            return None
        name = self.pick(names)
        self.read(name)
        return name

    # -- expressions

    def value(self, env, depth=2):
        k = self.n(13 if depth else 2)
        v = self.some_value(env)
        if v is None or k == 0:
            return repr(self.pick(["x", "<", "y", "k", ""]))
        if k <= 4:
            return v
        if k == 5:
            return "%s + %s" % (v, self.value(env, 0))
        if k == 6:
            q = self.pick(POOL)
            # no list: CPython 3.12 confuses the variables of inlined comprehensions
            # with those of the same name in nested functions
            return "'.'.join(%s + %s for %s in %s)" % (
                q, self.value(dict(env, **{q: "str"}), 0) if q in env else q, q, self.value(env, 0))
        if k == 7:
            q = self.pick(POOL)
            return "(lambda %s: %s)(%s)" % (q, q, self.value(env, 0))
        if k == 8:
            q = self.pick(POOL)
            return "(lambda %s=%s: %s)()" % (q, self.value(env, 0), q)
        if k == 9:
            return "len(%s) * 'n'" % v if env.get("len") == "builtin" and self.readable("len") and not self.read("len") else v
        if k == 10:
            return "[%s for _q in 'x' if %s][0]" % (v, "1")
        if k == 11:
            return "f'{%s}'" % v
        if k == 12:
            q = self.pick([n for n in POOL if n != v])
            return "(lambda %s, **kw: kw[%r])('', %s=%s)" % ("zz", q, q, v)
        return "str(%s)" % v

    def output(self, env):
        k = self.n(9)
        if k <= 4:
            return self.value(env)
        if k <= 7:
            f = self.some_function(env)
            if f:
                return self.call_of(f, env[f], env)
        if k == 8:
            f = self.some_function(env, True)
            if f:
                self.kinds.add("passed")
                return self.pick(["(lambda z: z())(%s)", "[%s][0]()", "keeper.keep(%s)", "{'k': %s}['k']()"]) % f
        return self.value(env)

    def call_of(self, f, params, env):
        if params == "builtin":
            return "str(%s(%s))" % (f, {"min": "3, 4", "sum": "[1, 2]", "max": "5, 7"}.get(f, "'xyz'")) if f != "id" else "1"
        args = []
        for p in params:
            if p == "*":
                args.extend(self.value(env, 0) for _ in range(self.n(2)))
            elif p == "**":
                args.append("k%d=%s" % (self.n(3), self.value(env, 0)))
            elif p[0] == "=":
                if self.n(1):
                    args.append("%s=%s" % (p[1:], self.value(env, 0)))
            elif p[0] == "!":
                args.append("%s=%s" % (p[1:], self.value(env, 0)))
            else:
                args.append(self.value(env, 0))
        # the keywords go last
        args.sort(key=lambda s: bool(__import__("re").match(r"[\w]+=(?!=)", s)))
        return "%s(%s)" % (f, ", ".join(args))

    # -- nodes

    def body(self, env, depth, top=False, level=4):
        rv = []
        for _ in range(1 + self.n(level)):
            if self.size <= 0:
                break
            self.size -= 1
            node = self.scope_node(env, depth, top)
            if rv and rv[-1][0] == "expr" and node[0] == "expr":
                rv.append(["text", "|", 0])
            rv.append(node)
        return rv

    def scope_node(self, env, depth, top):
        k = self.n(11 if depth else 2)
        if k <= 2:
            return ["expr", self.output(env), self.n(1)]
        if k == 3:
            # an element is not a scope
            return ["el", "p", [["id", [["expr", self.output(env), 0]], 0]], self.body(env, depth - 1, top), {}]
        if k <= 5:
            return self.with_node(env, depth)
        if k <= 7:
            return self.for_node(env, depth)
        if k <= 9:
            return self.def_node(env, depth, top)
        if k == 10:
            self.kinds.add("pi")
            name = self.assignable(POOL, env)
            value = self.value({n: t for n, t in env.items() if n != name}, 1)
            # reading in the value happens before
            self.fn.bound.add(name)
            env[name] = "str"
            return ["pi", [[name, value]]]
        cond = "str(%s)" % self.value(env, 0)
        branch = dict(env)
        before = set(self.fn.bound)
        body = self.body(branch, depth - 1)
        self.poison(before)
        self.forget(env)
        return ["ctl", "if", cond, body, {}]

    def poison(self, before):
        """What was bound in a conditional part may not be there any more"""
        new = self.fn.bound - before
        self.fn.bound = before
        self.fn.poisoned |= new

    def forget(self, env):
        for n in list(env):
            if n in self.fn.poisoned and n not in self.fn.bound:
                del env[n]

    def with_node(self, env, depth):
        self.kinds.add("with")
        outer = self.fn
        names = []
        for _ in range(1 + self.n(1)):
            n = self.pick(POOL)
            if n not in names:
                names.append(n)
        inner = Fn(outer, names)
        pairs = []
        self.fn = inner
        seen = {n: t for n, t in env.items() if n not in names}
        for n in names:
            pairs.append([n, self.value(seen, 1)])
            seen[n] = "str"
            self.shadowed += n in env
        body = self.body(seen, depth - 1)
        self.fn = outer
        if self.n(1):
            return ["el", "u", [], body, {"ctl": {"with": pairs}}]
        return ["ctl", "with", pairs, body, {}]

    def for_node(self, env, depth):
        self.kinds.add("for")
        name = self.assignable(POOL, env)
        if self.n(3):
            items = "[%s, 'i<']" % self.value({n: t for n, t in env.items() if n != name}, 0)
            empty = False
        else:
            items = self.value({n: t for n, t in env.items() if n != name}, 0)
            empty = True
        self.shadowed += name in env
        before = set(self.fn.bound)
        was_bound = name in before
        self.fn.bound.add(name)
        inner = dict(env, **{name: "str"})
        body = self.body(inner, depth - 1)
        self.poison(before)
        if not empty or was_bound:
            self.fn.poisoned.discard(name)
            self.fn.bound.add(name)
            env[name] = "str"
        self.forget(env)
        if self.n(1):
            return ["el", "li", [], body, {"ctl": {"for": [name, items]}}]
        return ["ctl", "for", [name, items], body, {}]

    def def_node(self, env, depth, top):
        self.kinds.add("def")
        name = self.assignable([n for n in FUNCS if n not in self.top_names])
        if top:
            # top level functions are hoisted, and see only what is there everywhere
            name = self.name("t")
            base = dict(self.top_env)
            saved = self.fn
            self.fn = Fn(None)
        else:
            base = env
        sig, params, bound = self.signature({n: t for n, t in base.items() if n != name}, top)
        if not top:
            self.fn.bound.add(name)
            env[name] = params
            base = dict(env)
        outer = self.fn
        self.fn = Fn(outer, bound)
        inner = dict(base, **{b: "str" for b in bound})
        for b, kind in self.odd_params.items():
            inner.pop(b, None)
        self.shadowed += any(b in env for b in bound)
        body = []
        for b, kind in self.odd_params.items():
            body.append(["expr", "','.join(sorted(%s))" % b, 0])
        # no recursion
        inner.pop(name, None)
        body += self.body(inner, depth - 1)
        self.fn = outer
        if top:
            self.fn = saved
            self.top_env[name] = params
            env[name] = params
        node_args = [name, sig]
        if self.n(1):
            return ["el", "b", [], body, {"ctl": {"def": node_args}}]
        return ["ctl", "def", node_args, body, {}]

    odd_params = {}

    def signature(self, env, top):
        sig, params, bound = [], [], []
        self.odd_params = {}
        k = self.n(8)
        names = []
        while len(names) < 3:
            n = self.pick(POOL)
            if n not in names:
                names.append(n)
            else:
                break
        if k <= 1 or not names:
            return ("" if k else None), [], []
        if k == 2:
            self.odd_params = {names[0]: "*"}
            return "*" + names[0], ["*"], [names[0]]
        if k == 3:
            self.odd_params = {names[0]: "**"}
            return "**" + names[0], ["**"], [names[0]]
        if k == 4 and len(names) > 1:
            return "*, %s" % names[0], ["!" + names[0]], [names[0]]
        default = False
        for n in names:
            if default or self.n(2) == 2:
                default = True
                sig.append("%s=%s" % (n, self.value(env, 0)))
                params.append("=" + n)
            else:
                sig.append(n)
                params.append(n)
            bound.append(n)
        return ", ".join(sig), params, bound


def build(draw):
    g = ScopeGen(draw, size=26)
    g.start_scopes()
    ctx = {n: "<%s>" % n for n in POOL if g.n(2)}
    if g.chance(4):
        # a name that is bound to something false or None is bound
        ctx.update({n: g.pick(["", "", None]) for n in ctx if g.chance(4)})
    env = {n: "str" for n in ctx}
    for n in ("len", "max", "min", "sum", "id"):
        env.setdefault(n, "builtin")
    if g.chance(12):
        # something undefined
        env.setdefault("d", "str")
    ctx["keeper"] = {"$": "keeper", "v": 0}
    g.top_names = ()
    g.top_env = dict(env)
    late = []
    for _ in range(g.n(2)):
        # functions that may be used before their definition
        late.append(g.def_node(env, 2, True))
    children = g.body(env, 4, True, level=6)
    for node in late:
        children.insert(g.n(len(children)), node)
    children.append(["expr", "keeper.call()", 0])
    doc = {"root": ["el", "div", [], children, {}]}
    case = {"doc": doc, "ctx": ctx, "shadowed": g.shadowed, "kinds": sorted(g.kinds)}
    if g.chance(6):
        files, (case["ctx"],), written, _ = names.odd_files(
            g, {"doc": doc}, [ctx], ["a", "b", "c", "d", "f", "g", "h", "i", "name"])
        case["doc"], case["written"] = files["doc"], written["doc"]
    if g.chance(3):
        case["mapping"] = g.pick(list(MAPPINGS))
    return case


class Context(dict):
    pass


class Items(collections.abc.Mapping):
    """A mapping that is no dictionary"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def halves(d):
    return {k: d[k] for k in list(d)[::2]}, {k: d[k] for k in list(d)[1::2]}


# what a context may be
MAPPINGS = {
    "dict": dict,
    "subclass": Context,
    "OrderedDict": collections.OrderedDict,
    "defaultdict": lambda d: collections.defaultdict(lambda: "default", d),
    "ChainMap": lambda d: collections.ChainMap(*halves(d)),
    "ChainMap2": lambda d: collections.ChainMap({}, d, {k: "hidden" for k in d}),
    "UserDict": collections.UserDict,
    "proxy": types.MappingProxyType,
    "Mapping": Items,
}


def check(case):
    source = model.emit_doc(case.get("written", case["doc"]))
    given = MAPPINGS[case.get("mapping", "dict")](model.decode_ctx(case["ctx"]))
    before = dict(given)
    got = real.outcome(lambda: real.render(source, given))
    want = real.outcome(
        lambda: model.Interp({"main": case["doc"]}).render("main", model.decode_ctx(case["ctx"]))
    )
    real.compare(got, want, source=source, context=case["ctx"])
    if dict(given) != before or list(given) != list(before):
        raise Violation("the context was changed", source=source)
    return Info(
        case["shadowed"] >= 1 and len(case["kinds"]) >= 2,
        case["kinds"] + [case.get("mapping", "dict"), got[0] + (got[1] if got[0] != "ok" else ""), "shadowed" if case["shadowed"] else "plain"],
    )


FAMILIES = [
    Family(
        "scopes",
        lambda: gen.case_strategy(build),
        check,
        quick=28000,
        thorough=700000,
        rule="templates of nested with, for, def, if and code sections that bind and read names of a small "
        "pool (some of letters beyond ASCII that are spelled in several ways), with functions passed as values and called later; with contexts of many kinds of mappings, that are not changed; compared with the reference interpreter; "
        "non-trivial: a visible name is shadowed and two kinds of bindings are used",
    )
]
