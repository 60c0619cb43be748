"""Generators of templates, expressions and contexts."""

import re

from hypothesis import strategies as st

from . import model

TEXT_PIECES = [
    "a", " ", "b", "\n", "<", "&", ">", '"', "'", "$", ".", "1", "(", "[", "{", "}",
    "é", "€", "x y", "&amp;", "&lt;", "${", "$x", "</", "-->", "]]>", "\u00a0", "中",
    "_", "Z", "%s", "\\", "$$", ";", ")", ".a", "#", "/", "=", "\t", "😀", "py:if", "–", "’",
]
# the text of raw elements must not look like the end of the element
RAW_PIECES = [p for p in TEXT_PIECES if "<" not in p and "-->" not in p] + [" < ", "<b"]

VALUE_PIECES = [
    "a", "<", "&", ">", '"', "'", "b", " ", "<b>", "</b>", "&amp;", "&#34;", "<script>",
    "$x", "${x}", "é", "\n", "1", '" onload="', "€", "%s", "{0}", "\\", "]]>", "<!--", "😀",
]

TAGS = ["div", "p", "span", "b", "ul", "li", "a", "h1", "td", "x-foo", "textarea", "title", "em", "svg:g"]
VOIDS = ["br", "hr", "input", "img", "meta", "link", "area", "base", "col", "embed", "param", "source", "track", "wbr", "keygen"]
ATTRS = ["class", "id", "href", "title", "data-x", "style", "alt", "checked", "value", "xml:lang", "aria-label", "onclick", "for", "content", "xlink:href", "if"]

COMMENT_PIECES = ["a", " ", "<b>", "$x", "${x}", "&amp;", "é", "\n", '"', "x-y", "&", "!", "-", "--", "[if IE]", "<!", "?>", "]]>", "=", "py:if"]

# keys of model.ODD
ODD = sorted(model.ODD)

# names of elements and attributes with a meaning
SPECIAL = VOIDS + ["script", "style", "command", "textarea", "title", "pre"]
# names that look like those of control attributes or are spelled oddly
ODD_ATTRS = [
    "xmlns", "xmlns:p", "xmlns:pyro", "xmlns:x", "py", "py-if", "pyx:if", "py.if", "_x", "x_", "@click", ":is", "v-on:x.y", "#r",
    "(ev)", "[p]", "*if", "\u00e9t\u00e9", "x:y:z", "talx:if", "1a", "a~b", "t", "function", "vars", "test", "each", "name",
]
ODD_TAGS = ["py-if", "pyx:if", "py.if", "x_", "a:b:c", "py", "if", "for", "block", "b\u00e9", "tal-if"]
SPECIAL_ATTRS = ["title", "alt", "placeholder", "value", "caption", "class", "href", "checked", "if", "content", "strip", "attrs"]

# the context variables, by type
BASE_VARS = {
    "s1": "str", "s2": "str", "s3": "str", "n1": "int", "n2": "int",
    "l1": "list", "l2": "list", "lp": "pairs", "d1": "dict", "o1": "obj",
    "b1": "bool", "b2": "bool", "m1": "any", "v1": "any", "v2": "any", "at": "attrs",
    "k1": "counter",
}


class Gen:
    """Draws from Hypothesis; everything is decided by small integers"""

    def __init__(self, draw, size=20, features=()):
        self.draw = draw
        self.size = size
        self.counter = 0
        self.features = set(features)
        self.used = set()

    # -- primitives

    def n(self, top):
        """0..top"""
        return self.draw(st.integers(0, top))

    def pick(self, items):
        return items[self.n(len(items) - 1)]

    def chance(self, k):
        """True about once in k; shrinks to False"""
        return self.n(k - 1) == k - 1

    def name(self, prefix):
        self.counter += 1
        return "%s%d" % (prefix, self.counter)

    def near(self, names):
        """A name that is similar to one of the names but another one"""
        name = self.pick(names)
        rv = self.pick(["%sx", "%ss", "%s-x", "x%s", "data-%s", "%s:x", "x:%s", "%s1", "%s_", "py-%s", "%s.x"]) % name
        k = self.n(11)
        if k == 11 and len(name) > 2 and name[:-1] not in names:
            rv = name[:-1]
        return rv

    def string(self, pieces=VALUE_PIECES, top=4):
        return "".join(self.pick(pieces) for _ in range(self.n(top)))

    def style(self):
        return 0 if self.n(2) == 0 else self.draw(st.integers(0, 2**24 - 1))

    def tag_style(self):
        return (0, 0, self.n(127), self.n(4095))[self.n(3)]

    # -- contexts

    def scalar(self):
        k = self.n(19)
        if k < 6:
            return self.string()
        if k > 15:
            return {"$": "odd", "v": self.pick(ODD)} if k < 19 else self.pick([
                {"$": "sub", "v": self.string()}, {"$": "htmlsub", "v": self.string()}, {"$": "intsub", "v": self.n(3)},
                {"$": "equal", "v": self.string()}, {"$": "bytes", "v": self.string()}, {"$": "tuple", "v": [self.string()]},
                "", "0", "None", "False", " ", "true",
            ])
        return [
            lambda: self.n(5),
            lambda: True,
            lambda: False,
            lambda: None,
            lambda: {"$": "markup", "v": self.string()},
            lambda: {"$": "str", "v": self.string()},
            lambda: {"$": "html", "v": self.string()},
            lambda: self.draw(st.sampled_from([1.5, -3, 10**20])),
            lambda: [self.string(), self.n(3)],
            lambda: {"k<": self.string()},
        ][k - 6]()

    def context(self):
        return {
            "s1": self.string(),
            "s2": self.string(),
            "s3": self.string(),
            "n1": self.n(4),
            "n2": self.n(9) - 3,
            "l1": [self.string(top=2) for _ in range(self.n(3))],
            "l2": [self.string(top=2) for _ in range(self.n(2))],
            "lp": [[self.string(top=1), self.string(top=1)] for _ in range(self.n(2))],
            "d1": {"k": self.string(), "j": self.string()},
            "o1": {
                "$": "obj",
                "v": {
                    "name": self.string(),
                    "kids": [self.string(top=1) for _ in range(self.n(2))],
                    "sub": {"$": "obj", "v": {"name": self.string()}},
                },
            },
            "b1": self.pick([False, True, None]),
            "b2": self.pick([True, False, 0]),
            "m1": {"$": "markup", "v": self.string()},
            "v1": self.scalar(),
            "v2": self.scalar(),
            "at": self.attrs_value(),
            "k1": {"$": "counter", "v": 0},
        }

    def attrs_value(self):
        pairs = [
            [self.pick(ATTRS[:8]) + "-" + str(i), self.scalar()] for i in range(self.n(2))
        ]
        k = self.n(3)
        if k == 0:
            return {p[0]: p[1] for p in pairs}
        if k == 1:
            return {"$": "pairs", "v": pairs}
        if k == 2:
            return None
        return {p[0]: p[1] for p in pairs}

    # -- expressions; scope: {name: type}

    def vars_of(self, scope, *types):
        return [n for n, t in scope.items() if t in types]

    def var(self, scope, *types):
        names = self.vars_of(scope, *types)
        if not names:
            return None
        name = self.pick(names)
        self.used.add(name)
        return name

    def expr(self, scope, kind, depth=2):
        method = getattr(self, "expr_" + kind)
        return method(scope, depth)

    def str_literal(self):
        s = self.string(top=2)
        return repr(s)

    def expr_str(self, scope, depth):
        k = self.n(17 if depth > 0 else 2)
        if k <= 1:
            v = self.var(scope, "str")
            return v or self.str_literal()
        if k == 2:
            return self.str_literal()
        d = depth - 1
        if k == 3:
            return "%s + %s" % (self.expr_str(scope, d and 0), self.expr_str(scope, 0))
        if k == 4:
            return "(%s).upper()" % self.expr_str(scope, d)
        if k == 5:
            v = self.var(scope, "str")
            return "%s.strip()" % v if v else "''"
        if k == 6:
            return "str(%s)" % self.expr_int(scope, d)
        if k == 7:
            return "'%%s|%%s' %% (%s, %s)" % (self.expr_str(scope, d), self.expr_int(scope, d))
        if k == 8:
            v = self.var(scope, "str")
            return 'f"{%s}{{}}"' % v if v else "f'}{{'"[:0] + "''"
        if k == 9:
            return "(%s if %s else %s)" % (
                self.expr_str(scope, d),
                self.expr_bool(scope, d),
                self.expr_str(scope, d),
            )
        if k == 10:
            v = self.var(scope, "dict")
            return "%s['k']" % v if v else "''"
        if k == 11:
            v = self.var(scope, "dict")
            return "%s.get('zz', %s)" % (v, self.expr_str(scope, 0)) if v else "''"
        if k == 12:
            v = self.var(scope, "obj")
            return self.pick(["%s.name", "%s.sub.name"]) % v if v else "''"
        if k == 13:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return "'-'.join([%s for %s in %s])" % (
                self.expr_str(inner, 0), q, self.expr_list(scope, 0))
        if k == 14:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return "(lambda %s: %s)(%s)" % (q, self.expr_str(inner, d), self.expr_str(scope, 0))
        if k == 15:
            return "{'}': %s}['}']" % self.expr_str(scope, d)
        if k == 16:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return "','.join(sorted({%s: 1 for %s in %s}))" % (
                self.expr_str(inner, 0), q, self.expr_list(scope, 0))
        v = self.var(scope, "str")
        return "%s[0:%d]" % (v, self.n(3)) if v else "''"

    def expr_int(self, scope, depth):
        if "k1" in scope and self.counters and self.chance(8):
            self.used.add("k1")
            return "k1()"
        k = self.n(5 if depth > 0 else 1)
        if k == 0:
            return str(self.n(4))
        if k == 1:
            return self.var(scope, "int") or "2"
        if k == 2:
            return "len(%s)" % self.expr_list(scope, depth - 1)
        if k == 3:
            return "(%s + %s)" % (self.expr_int(scope, depth - 1), self.expr_int(scope, depth - 1))
        if k == 4:
            return "-%s" % self.expr_int(scope, depth - 1)
        return "sum(1 for q in %s)" % self.expr_list(scope, depth - 1)

    def expr_bool(self, scope, depth):
        k = self.n(11 if depth > 0 else 2)
        if k == 9:
            return self.part_constant(scope, depth)
        if k == 10:
            return self.comparison(scope, depth - 1)
        if k == 11:
            return "%s %s %s" % (self.expr_str(scope, depth - 1), self.pick(["in", "not in", "!="]), self.expr_list(scope, 0))
        if k == 8:
            return self.expr_int(scope, depth - 1) if not self.chance(30) else self.pick(["missing", "s1.nope", "1 // 0", "s1()"])
        if k == 0:
            return self.var(scope, "bool") or "not n1"
        if k == 1:
            return self.var(scope, "list") or "1"
        if k == 2:
            return self.var(scope, "int", "str") or "''"
        d = depth - 1
        if k == 3:
            return "not %s" % self.expr_bool(scope, d)
        if k == 4:
            return "(%s and %s)" % (self.expr_bool(scope, d), self.expr_bool(scope, d))
        if k == 5:
            return "(%s or %s)" % (self.expr_bool(scope, d), self.expr_bool(scope, d))
        if k == 6:
            return "%s < %s" % (self.expr_int(scope, d), self.expr_int(scope, d))
        return "%s == %s" % (self.expr_str(scope, d), self.expr_str(scope, d))

    def comparison(self, scope, depth):
        """Comparisons, also chained ones"""
        # few different values
        def value():
            return self.pick(["s1", "s2", "s1", "''", "'a'"]) if text else self.pick(["n1", "n2", "1", "0", self.expr_int(scope, depth)])

        text = self.n(1)
        rv = value()
        for _ in range(1 + self.n(2)):
            rv += " %s %s" % (self.pick(["==", "!=", "<", "<=", "==", ">", ">="]), value())
        return "not " * self.pick([0, 0, 0, 1, 2]) + (rv if self.n(3) else "(%s)" % rv)

    def part_constant(self, scope, depth=1):
        """Constant, except that evaluating a part may fail or have an effect"""
        if self.chance(5):
            return self.fails()
        if self.chance(3):
            part = "missing"
        elif "k1" in scope and self.counters and self.chance(3):
            self.used.add("k1")
            part = "k1()"
        else:
            part = self.pick([self.expr_bool(scope, depth - 1), self.expr_int(scope, 0)])
        return "(%s)" % self.pick([
            "%s or 1", "1 or %s", "%s and 0", "0 and %s", "'' or %s", "%s or ''", "(%s, 1)[1]", "not (%s or 1)",
            "1 if %s else 1", "[%s] and 0", "not (%s and 0)", "None and %s", "%s is None and 0", "[%s]", "(%s,)", "{0: %s}",
            "not [%s]", "f'a{%s}'", "0 < (%s) < -1", "[1, 2][0:0] and %s",
        ]) % part

    def fails(self):
        """Constant, and its evaluation fails"""
        return self.pick([
            "{[]: 1}", "{[1]}", "-'a'", "1 < 'a'", "{[2]: 0}", "-[]", "1 // 0", "'a' + 1", "1 + 'a'", "[] < 1", "1 in 2",
            "{{}}", "{1: 2, []: 3}", "+''", "~'a'", "1 - ''", "'x' in 5", "{(1, []): 2}", "'a'['b']", "()[0]", "[1][1]", "{}[1]",
            "not {[]: 1}", "2 ** 'a'", "1 and -'a'", "(1, -'a')", "[1, {[]: 1}]", "'%d' % 'a'", "1()", "'a'.b",
        ])

    def expr_cond(self, scope, depth=2):
        """A condition, sometimes a constant one"""
        if self.chance(5):
            return self.pick(["True", "1", "False", "0", "not 0", "''", "not 1", "[]", "'x'", "None"])
        if self.chance(8):
            return self.part_constant(scope)
        return self.expr_bool(scope, depth)

    def expr_list(self, scope, depth):
        k = self.n(5 if depth > 0 else 1)
        if k == 0:
            return self.var(scope, "list") or "['u']"
        if k == 1:
            return "[%s]" % ", ".join(self.expr_str(scope, 0) for _ in range(self.n(2)))
        d = depth - 1
        if k == 2:
            q = self.name("q")
            inner = dict(scope)
            inner[q] = "str"
            return "[%s for %s in %s if %s]" % (
                self.expr_str(inner, 0), q, self.expr_list(scope, 0), self.expr_bool(inner, 0))
        if k == 3:
            return "sorted(%s)" % self.expr_list(scope, d)
        if k == 4:
            return "(%s + %s)" % (self.expr_list(scope, 0), self.expr_list(scope, 0))
        v = self.var(scope, "obj")
        return "%s.kids" % v if v else "[]"

    def expr_any(self, scope, depth=2):
        """Something to output"""
        k = self.n(9)
        if k <= 2:
            return self.var(scope, "any", "str", "int") or "s1"
        if k == 3:
            return self.expr_int(scope, depth)
        if k == 4 and self.vars_of(scope, "func"):
            return self.call(scope)
        if k == 5:
            if self.chance(20):
                # wrong, or an unusual way
                return self.pick([
                    "literal(*[%s, s2])", "literal(%s, k=1)", "literal(%s, **{})", "literal(*[%s])", "literal(x=%s)", "literal(*[][:len(%s)])",
                ]) % self.expr_str(scope, 0)
            return "literal(%s)" % self.expr_str(scope, depth - 1)
        if k == 6:
            return self.expr_bool(scope, 1)
        if k == 7:
            return self.expr_list(scope, 1)
        return self.expr_str(scope, depth)

    def call(self, scope):
        """Call a template function; scope has its arity in the type"""
        name = self.var(scope, "func")
        params = self.functions[name]
        args = []
        keyword = False
        for pname, kind, has_default in params:
            if has_default and self.n(1):
                keyword = True
                continue
            value = self.expr(scope, kind if kind != "any" else "str", 1)
            if keyword:
                args.append("%s=%s" % (pname, value))
            elif self.chance(4):
                keyword = True
                args.append("%s=%s" % (pname, value))
            else:
                args.append(value)
        return "%s(%s)" % (name, ", ".join(args))

    # -- nodes

    functions = None
    # whether a counter may be used
    counters = True

    def text(self, pieces=TEXT_PIECES, top=5):
        return ["text", self.string(pieces, top), self.style()]

    def nonempty_text(self, pieces=TEXT_PIECES):
        s = self.pick(pieces) + self.string(pieces, 4)
        return ["text", s, self.style()]

    def expr_node(self, scope, depth=2):
        if self.n(2) == 0:
            v = self.var(scope, "str", "any", "int")
            if v:
                return ["expr", v, self.form()]
        if self.vars_of(scope, "func") and self.chance(3):
            return ["expr", self.call(scope), self.form()]
        return ["expr", self.expr_any(scope, depth), self.form()]

    def form(self):
        return (0, 1, 1, self.n(5))[self.n(3)]

    def attr_parts(self, scope, name=None):
        k = self.n(5)
        if name and self.chance(16):
            # like the value of a boolean attribute
            return [["text", self.pick([name, name, name.upper(), "true", "", " ", "False", "None", "0"]), 0]]
        if k == 0:
            return None
        if k <= 2:
            return [self.text()]
        if k == 3:
            return [self.expr_node(scope)]
        parts = []
        for _ in range(1 + self.n(2)):
            parts.append(self.text() if self.n(1) else self.expr_node(scope))
        return parts

    def attrs(self, scope, top=2):
        names = []
        rv = []
        for _ in range(self.n(top)):
            name = self.attr_name()
            if name in names:
                continue
            names.append(name)
            rv.append([name, self.attr_parts(scope, name), self.n(7) if self.n(1) else self.n(63)])
        return rv

    def tag(self):
        if self.chance(24):
            return self.pick(ODD_TAGS)
        return self.near(SPECIAL) if self.chance(8) else self.pick(TAGS)

    def attr_name(self):
        if self.chance(10):
            return self.pick(ODD_ATTRS)
        return self.near(SPECIAL_ATTRS) if self.chance(8) else self.pick(ATTRS)

    def comment(self):
        s = self.string(COMMENT_PIECES[: 11 if self.n(1) else None], 5)
        pad = self.pick([" ", " ", "", "\n"])
        s = pad + s + pad
        if re.search(r"--\s*!?\s*>", s + "-->"[:-1]) or s.endswith("-") or s.startswith((">", "->")) or s.strip().startswith("!"):
            s = " a "
        return ["comment", s, 0]

    def children(self, scope, depth, top=None, allow=(), level=None):
        rv = []
        for _ in range(self.n(4 if level is None else level)):
            if self.size <= 0:
                break
            rv.append(self.node(scope, depth, allow))
        return rv

    def node(self, scope, depth, allow=()):
        self.size -= 1
        k = self.n(11)
        if depth <= 0 or k <= 2:
            return self.text() if self.n(1) else self.expr_node(scope)
        if k == 3:
            return self.expr_node(scope)
        if k == 4:
            return self.comment() if self.chance(2) else self.text()
        if k <= 7 or not self.control_kinds:
            return self.element(scope, depth, allow)
        return self.control(scope, depth, allow)

    control_kinds = ("if", "unless", "for", "with", "def", "vars", "replace", "block")
    attr_kinds = ("if", "unless", "for", "with", "vars", "def", "strip", "content", "replace", "attrs", "block")

    def element(self, scope, depth, allow=(), controls=True, tag=None):
        if tag is None:
            k = self.n(9)
            if k == 9:
                return self.raw_element(scope)
            tag = self.pick(VOIDS) if k == 8 else self.tag()
        ctl = {}
        inner = scope
        after = {}
        if controls and self.chance(3) and self.attr_kinds:
            wanted = set()
            for _ in range(1 + self.n(3)):
                wanted.add(self.pick(self.attr_kinds))
            inner = self.attr_controls(scope, wanted, ctl, after, depth)
        attrs = self.attrs(inner)
        children = []
        if tag not in VOIDS:
            children = self.children(inner, depth - 1, allow=allow)
        self.close_scope(inner, after)
        rv = ["el", tag, attrs, children, {"style": self.tag_style()}]
        if ctl:
            rv[4]["ctl"] = ctl
        scope.update(after)
        return rv

    def raw_element(self, scope):
        tag = self.pick(["script", "style"])
        children = []
        for _ in range(self.n(3)):
            children.append(
                ["text", self.string(RAW_PIECES, 4), 0]
                if self.n(1)
                else ["expr", self.var(scope, "str", "int", "any") or "s1", self.n(1)]
            )
        return ["el", tag, self.attrs(scope, 1), children, {}]

    def close_scope(self, inner, after):
        pass

    def attr_controls(self, scope, wanted, ctl, after, depth):
        """
        Draw the control attributes in the order in which they nest; returns
        the scope within.
        """
        inner = scope
        if "block" in wanted:
            if not self.allow_blocks:
                wanted.discard("block")
            else:
                name = self.name("blk")
                ctl["block"] = name
                inner = dict(self.global_scope)
                after[name] = "func"
                self.functions[name] = []
        if "if" in wanted:
            ctl["if"] = self.expr_cond(inner)
        if "unless" in wanted:
            ctl["unless"] = self.expr_cond(inner)
        if "if" in wanted or "unless" in wanted:
            # what is defined within may stay undefined
            after.update({k: v for k, v in after.items() if k.startswith("blk")})
            inner = dict(inner)
        if "for" in wanted:
            inner, ctl["for"] = self.for_target(inner)
        if "def" in wanted:
            inner, ctl["def"], name = self.function(inner)
            if not ({"for", "if", "unless", "block"} & wanted):
                after[name] = "func"
        if "with" in wanted:
            inner, ctl["with"] = self.with_vars(inner)
        if "vars" in wanted:
            inner, ctl["vars"] = self.with_vars(inner)
        if "strip" in wanted:
            ctl["strip"] = self.pick(["", self.expr_cond(inner), self.expr_cond(inner), self.pick(self.STRIP)])
        if "attrs" in wanted:
            ctl["attrs"] = self.pick(["at", "dict(at or {})", "{'z': s1}", "[('y', b1), ('w', v1)]"])
            self.used.add("at")
        if "content" in wanted:
            ctl["content"] = self.expr_any(inner)
        elif "replace" in wanted:
            ctl["replace"] = self.expr_any(inner)
        return inner

    STRIP = ["0", "1", "''", "None", "False", "True"]
    allow_blocks = True
    global_scope = None

    def for_target(self, scope):
        inner = dict(scope)
        k = self.n(6)
        if k <= 2:
            name = self.name("i")
            inner[name] = "str"
            return inner, [name, self.expr_list(scope, 1)]
        if k == 3:
            a, b = self.name("i"), self.name("i")
            inner[a] = inner[b] = "str"
            v = self.var(scope, "pairs") or "[]"
            return inner, [self.pick(["%s, %s", "(%s, %s)", "[%s, %s]", "%s, (%s)"]) % (a, b), v]
        if k == 5:
            # other things to iterate over
            name = self.name("i")
            inner[name] = "any"
            things = self.expr_list(scope, 0)
            return inner, [name, self.pick([
                "(q for q in %s)", "%s, 'x'", "iter(%s)", "range(len(%s))", "reversed(%s)", "tuple(%s)", "dict.fromkeys(%s)",
                "'ab<' if %s else 'c'", "map(str, %s)", "[*%s, 1]", "zip(%s)", "{'u': 1, **dict.fromkeys(%s)}.items()",
                "(lambda: (yield 1))() if %s else ()", "not %s and 'y' or ()",
            ]) % things]
        if k == 6:
            a, b, c = self.name("i"), self.name("i"), self.name("i")
            inner[a] = inner[b] = inner[c] = "any"
            target, things = self.pick([
                ("%s, (%s, %s)", "enumerate(zip(%s, %s))"), ("(%s, %s), %s", "zip(zip(%s, 'ab'), %s)"),
                ("[%s, [%s, %s]]", "enumerate(zip(%s, %s))"), ("%s, *%s, %s", "[%s + [1], %s + ['<', 2]]"),
                ("%s, %s, *%s", "[[1, *%s, 2], (3, 4, *%s)]"), ("(*%s, %s), %s", "[[[*%s, 1], 2], ['ab', *%s, 3][:2]]"),
            ])
            d = self.expr_list(scope, 0)
            return inner, [target % (a, b, c), things % (d, d)]
        a, b = self.name("i"), self.name("i")
        inner[a] = "int"
        inner[b] = "str"
        return inner, ["%s, %s" % (a, b), "enumerate(%s)" % self.expr_list(scope, 1)]

    def shadow_name(self, scope, prefix):
        """A new name, or one of the outer scopes to shadow"""
        if self.chance(3):
            names = [n for n in scope if scope[n] in ("str", "int", "any")]
            if names:
                return self.pick(names)
        return self.name(prefix)

    def with_vars(self, scope):
        inner = dict(scope)
        pairs = []
        bound = set()
        count = 1 + self.n(1)
        # the names to be bound are local to the whole element
        names = []
        for _ in range(count):
            n = self.shadow_name(scope, "w")
            if n not in names:
                names.append(n)
        outer = {k: v for k, v in scope.items() if k not in names}
        for n in names:
            kind = self.pick(["str", "int", "list"])
            pairs.append([n, self.expr(outer, kind, 1)])
            outer[n] = kind
            inner[n] = kind
        return inner, pairs

    def function(self, scope, name=None):
        """Returns the scope of the body, the name and the signature, the name"""
        name = name or self.name("fn")
        inner = dict(scope)
        params = []
        sig = []
        default = False
        for _ in range(self.n(2)):
            p = self.shadow_name(scope, "p")
            if p in [x[0] for x in params]:
                continue
            kind = self.pick(["str", "int"])
            if default or self.chance(3):
                default = True
                sig.append("%s=%s" % (p, self.expr(scope, kind, 0)))
            else:
                sig.append(p)
            params.append([p, kind, default])
        for p, kind, _ in params:
            # without defaults, anything might be passed
            inner[p] = kind
        self.functions[name] = params
        return inner, [name, ", ".join(sig) if params or self.n(1) else None], name

    def more_controls(self, scope, opts, depth):
        """Attributes of a control element, within it"""
        kinds = [k for k in ("if", "unless", "for", "with", "vars", "content", "replace") if k in self.attr_kinds]
        if not kinds or not self.chance(5):
            return scope
        wanted = {self.pick(kinds) for _ in range(1 + self.n(2))}
        opts["ctl"] = {}
        return self.attr_controls(scope, wanted, opts["ctl"], {}, depth)

    def control(self, scope, depth, allow=()):
        kind = self.pick(self.control_kinds)
        if kind == "block" and not self.allow_blocks:
            kind = "if"
        opts = {"style": self.tag_style() & ~8}
        if kind in ("if", "unless"):
            cond = self.expr_cond(scope)
            inner = self.more_controls(dict(scope), opts, depth)
            return ["ctl", kind, cond, self.children(inner, depth - 1), opts]
        if kind == "for":
            inner, args = self.for_target(scope)
            inner = self.more_controls(inner, opts, depth)
            return ["ctl", "for", args, self.children(inner, depth - 1), opts]
        if kind in ("with", "vars"):
            inner, args = self.with_vars(scope)
            inner = self.more_controls(inner, opts, depth)
            return ["ctl", kind, args, self.children(inner, depth - 1), opts]
        if kind == "def":
            inner, args, name = self.function(scope)
            inner = self.more_controls(inner, opts, depth)
            node = ["ctl", "def", args, self.children(inner, depth - 1), opts]
            scope[name] = "func"
            return node
        if kind == "replace":
            ignored = [self.text(), ["el", "i", [], [self.text()], {}]][: self.n(2)]
            return ["ctl", "replace", self.expr_any(scope), ignored, opts]
        name = self.name("blk")
        inner = dict(self.global_scope)
        node = ["ctl", "block", name, self.children(inner, depth - 1), opts]
        self.functions[name] = []
        scope[name] = "func"
        if scope is not self.global_scope:
            self.global_scope[name] = "func"
        return node

    # -- documents

    def start(self, variables=None):
        self.functions = {}
        scope = dict(BASE_VARS if variables is None else variables)
        self.global_scope = dict(scope)
        return scope

    def document(self, scope=None, depth=4, hoisted=True):
        """A document, with some of the functions defined after their use"""
        if scope is None:
            scope = self.start()
        late = []
        if hoisted and "def" in self.control_kinds:
            for _ in range(self.n(2)):
                inner, args, name = self.function(scope)
                body = self.children(inner, 2, level=3)
                late.append(["ctl", "def", args, body, {}])
                scope[name] = "func"
                self.global_scope[name] = "func"
        root = self.element(scope, depth, controls=False, tag=self.pick(["html", "div"]))
        for node in late:
            at = self.n(len(root[3]))
            root[3].insert(at, node)
        return {"root": root}


def case_strategy(build):
    """A strategy from a function of draw"""

    @st.composite
    def strategy(draw):
        return build(draw)

    return strategy()
