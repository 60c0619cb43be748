"""Generates JavaScript expressions, with functions and the statements in them."""

import json

# the precedence of the operators
COMMA, ASSIGN, COND, OR, AND, BOR, XOR, BAND, EQ, REL, SHIFT, ADD, MUL, UNARY, POST, CALL, MEMBER, PRIMARY = range(18)

BINARY = {
    "||": OR, "&&": AND, "|": BOR, "^": XOR, "&": BAND, "==": EQ, "!=": EQ, "===": EQ, "!==": EQ, "<": REL, ">": REL,
    "<=": REL, ">=": REL, "in": REL, "instanceof": REL, "<<": SHIFT, ">>": SHIFT, ">>>": SHIFT, "+": ADD, "-": ADD,
    "*": MUL, "/": MUL, "%": MUL,
}

STRINGS = [" in ", 
    "", "a", "<b>", "é", "x y", "'", '"', "\\", "\n", "&amp;", "}", "{", "${", "$x", "//", "/*", "\u2028", "</script>", "\t",
    "😀", "\x00", "]]>", "1", "-->", "<!--",
]


class ExprGen(object):
    def __init__(self, gen, variables):
        self.g = gen
        self.n = gen.n
        self.pick = gen.pick
        # {name: type}
        self.variables = dict(variables)
        self.counter = 0

    def name(self):
        self.counter += 1
        return self.pick(["v", "w", "tmp", "a", "_x", "e"]) + str(self.counter)

    def var(self, kind):
        names = [n for n, k in self.variables.items() if k == kind]
        return self.pick(names) if names else None

    def put(self, e, level):
        """The expression as an operand"""
        text, own = e
        if own < level or self.n(5) == 0:
            return "(%s)" % text
        return text

    def binary(self, op, a, b):
        level = BINARY[op]
        space = " " if op in ("in", "instanceof") or self.n(3) else ""
        right = self.put(b, level + 1)
        if op in "+-" and right[:1] in "+-":
            space = " "
        if op == "/" and right[:1] == "/":
            space = " "
        left = self.put(a, level)
        if op == "<" and right.startswith("!--"):
            space = " "
        return left + space + op + space + right, level

    def unary(self, op, e):
        operand = self.put(e, UNARY)
        space = " " if op.isalpha() or operand[:1] == op[-1] or self.n(5) == 0 else ""
        return op + space + operand, UNARY

    def cond(self, kind, depth):
        return (
            "%s ? %s : %s"
            % (
                self.put(self.expr("bool", depth), OR),
                self.put(self.expr(kind, depth), ASSIGN),
                self.put(self.expr(kind, depth), ASSIGN),
            ),
            COND,
        )

    def common(self, kind, depth):
        d = depth - 1
        k = self.n(10)
        if k == 0:
            return self.cond(kind, d)
        if k == 1:
            return "%s, %s" % (self.put(self.any(d), ASSIGN), self.put(self.expr(kind, d), ASSIGN)), COMMA
        if k == 2:
            v = self.var(kind)
            if v:
                return "%s = %s" % (v, self.put(self.expr(kind, d), ASSIGN)), ASSIGN
        if k == 3:
            items = [self.put(self.expr(kind, d), ASSIGN) for _ in range(1 + self.n(2))]
            return "[%s][%s]" % (", ".join(items), self.pick(["0", "'0'", "%d" % (len(items) - 1)])), MEMBER
        if k == 4:
            key = self.pick(["a", "'a'", '"a"'])
            rest = self.pick(["", ", b: %s" % self.put(self.any(d), ASSIGN), ", 7: 8", ", 'x-y': 'z'"])
            access = self.pick([".a", "['a']", '["a"]'])
            return "{%s: %s%s}%s" % (key, self.put(self.expr(kind, d), ASSIGN), rest, access), MEMBER
        if k <= 6:
            return self.call(kind, d)
        if k == 7:
            name = self.name()
            e = self.put(self.expr(kind, d), ASSIGN)
            return self.pick(["new (function () { this.%s = %s; })().%s", "(new (function () { this.%s = %s; })).%s"]) % (
                name, e, name), MEMBER
        if k == 8:
            return "%s || %s" % (self.put(self.falsy(d), OR), self.put(self.expr(kind, d), AND)), OR
        if k == 9:
            return "%s && %s" % (self.put(self.truthy(d), AND), self.put(self.expr(kind, d), BOR)), AND
        return self.put(self.expr(kind, d), PRIMARY), MEMBER

    def falsy(self, depth):
        return self.pick([("0", PRIMARY), ("''", PRIMARY), ("null", PRIMARY), ("false", PRIMARY), ("undefined", PRIMARY),
                          ("void 0", UNARY), ("!1", UNARY), ("NaN", PRIMARY)])

    def truthy(self, depth):
        return self.pick([("1", PRIMARY), ("'x'", PRIMARY), ("true", PRIMARY), ("{}", PRIMARY), ("[]", PRIMARY), ("!0", UNARY),
                          ("function () {}", PRIMARY), ("/x/", PRIMARY), ("-1", UNARY)])

    def call(self, kind, depth):
        """A function expression, called"""
        outer = dict(self.variables)
        params = []
        args = []
        for _ in range(self.n(2)):
            k = self.pick(["num", "str"])
            args.append(self.put(self.expr(k, depth), ASSIGN))
            params.append((self.name(), k))
        self.variables.update(params)
        body = "".join(self.statement(depth) for _ in range(self.n(2))) + "return %s;" % self.expr(kind, depth)[0]
        self.variables = outer
        own = self.pick(["", "", " " + self.name()])
        func = "function%s(%s) { %s }" % (own or " ", ", ".join(p for p, _ in params), body)
        k = self.n(3)
        if k == 0:
            return "(%s(%s))" % (func, ", ".join(args)), PRIMARY
        if k == 1:
            return "(%s).call(%s)" % (func, ", ".join(["null"] + args)), CALL
        return "(%s)(%s)" % (func, ", ".join(args)), CALL

    def block(self, depth):
        outer = dict(self.variables)
        text = "".join(self.statement(depth) for _ in range(self.n(2)))
        self.variables = outer
        return text

    def body(self, depth):
        k = self.n(3)
        if k == 0:
            outer = dict(self.variables)
            text = self.statement(depth, simple=True)
            self.variables = outer
            return text
        return "{ %s }" % self.block(depth)

    def statement(self, depth, simple=False):
        d = depth - 1
        k = self.n(11 if depth > 0 and not simple else 2)
        if k <= 1:
            kind = self.pick(["num", "str"])
            v = self.var(kind)
            if v:
                op = self.pick(["=", "+=", "="])
                return "%s %s %s; " % (v, op, self.put(self.expr(kind, d), ASSIGN))
            k = 2
        if k == 2 and not simple or k == 3:
            kind = self.pick(["num", "str"])
            e = self.put(self.expr(kind, d), ASSIGN)
            v = self.name()
            self.variables[v] = kind
            if self.n(3) == 0:
                w = self.name()
                return "var %s = %s, %s; " % (v, e, w)
            return "var %s = %s; " % (v, e)
        if k == 4:
            return "if (%s) %s " % (self.expr("bool", d)[0], self.body(d))
        if k == 5:
            other = self.body(d) if self.n(1) else self.statement(d, simple=True)
            return "if (%s) { %s } else %s " % (self.expr("bool", d)[0], self.block(d), other)
        if k == 6:
            i = self.name()
            return "for (var %s = 0; %s < %d; %s) %s " % (i, i, self.n(3), self.pick([i + "++", "++" + i, i + " += 1"]), self.body(d))
        if k == 7:
            i = self.name()
            body = "%s -= 1; %s" % (i, self.block(d))
            exits = self.pick(["", "", "if (%s) break; " % self.expr("bool", d)[0], "if (%s) continue; " % self.expr("bool", d)[0]])
            return self.loop(i, body + exits)
        if k == 8:
            i = self.name()
            self_vars = dict(self.variables)
            self.variables[i] = "str"
            body = self.body(d)
            self.variables = self_vars
            return "for (var %s in %s) %s " % (i, self.pick(["l1", "o1", "{x: 1, y: 2}"]), body)
        if k == 9:
            cases = "".join(
                "case %d: %s %s" % (i, self.block(d), self.pick(["break; ", "", "break; "])) for i in range(self.n(3))
            )
            default = self.pick(["", "default: %s" % self.block(d)])
            return "switch (%s) { %s%s } " % (self.expr("num", d)[0], cases, default)
        if k == 10:
            e = self.name()
            outer = dict(self.variables)
            tried = self.block(d) + self.pick(["", "throw %s; " % self.expr("str", d)[0]])
            self.variables = dict(outer)
            self.variables[e] = "any"
            caught = self.block(d)
            self.variables = outer
            final = self.pick(["", " finally { %s}" % self.block(d)])
            return "try { %s} catch (%s) { %s}%s " % (tried, e, caught, final)
        if k == 11:
            f = self.name()
            p = self.name()
            kind = self.pick(["num", "str"])
            outer = dict(self.variables)
            self.variables[p] = kind
            body = self.block(d) + "return %s;" % self.expr(kind, d)[0]
            self.variables = outer
            v = self.name()
            arg = self.put(self.expr(kind, d), ASSIGN)
            self.variables[v] = kind
            return "function %s(%s) { %s } var %s = %s(%s); " % (f, p, body, v, f, arg)
        return "%s; " % self.pick(["s1", "n1++", "Math.max(n1, 1)"])

    def loop(self, i, body):
        start = "var %s = %d; " % (i, self.n(3))
        if self.n(1):
            return start + "while (%s > 0) { %s} " % (i, body)
        return start + "do { %s} while (%s > 0); " % (body, i)

    def any(self, depth):
        return self.expr(self.pick(["num", "str", "bool"]), depth)

    def expr(self, kind, depth):
        if depth > 0 and self.n(3) == 0:
            return self.common(kind, depth)
        return getattr(self, "expr_" + kind)(depth)

    def number(self):
        k = self.n(9)
        if k <= 4:
            return str(self.n(9)), PRIMARY
        return [("1.5", PRIMARY), (".5", PRIMARY), ("0x1F", PRIMARY), ("1e3", PRIMARY), ("2.", PRIMARY)][k - 5]

    def expr_num(self, depth):
        d = depth - 1
        e = lambda: self.expr("num", d)
        k = self.n(13 if depth > 0 else 1)
        if k == 0:
            return self.number()
        if k == 1:
            v = self.var("num")
            return (v, PRIMARY) if v else self.number()
        if k <= 4:
            return self.binary(self.pick("+-*/%"), e(), e())
        if k <= 6:
            return self.unary(self.pick(["-", "+", "~", "-"]), e())
        if k == 7:
            return self.binary(self.pick(["&", "|", "^", "<<", ">>", ">>>"]), e(), e())
        if k == 8:
            v = self.var("num")
            if v:
                op = self.pick(["++", "--"])
                return (op + v, UNARY) if self.n(1) else (v + op, POST)
        if k == 9:
            v = self.var("num")
            if v:
                return "%s %s %s" % (v, self.pick(["+=", "-=", "*=", "="]), self.put(e(), ASSIGN)), ASSIGN
        if k == 10:
            return self.put(self.expr("str", d), MEMBER) + self.pick([".length", "['length']"]), MEMBER
        if k == 11:
            return "l1.length", MEMBER
        if k == 12:
            return "Math.%s(%s, %s)" % (self.pick(["max", "min"]), self.put(e(), ASSIGN), self.put(e(), ASSIGN)), CALL
        return self.put(e(), MUL) + " * 2", MUL

    def string(self):
        s = json.dumps("".join(self.pick(STRINGS) for _ in range(self.n(2))), ensure_ascii=bool(self.n(3) == 0))
        s = s.replace("\u2028", "\\u2028")
        if self.n(1):
            s = "'%s'" % s[1:-1].replace('\\"', '"').replace("'", "\\'")
        return s, PRIMARY

    def expr_str(self, depth):
        d = depth - 1
        e = lambda: self.expr("str", d)
        k = self.n(12 if depth > 0 else 1)
        if k == 0:
            return self.string()
        if k == 1:
            v = self.var("str")
            return (v, PRIMARY) if v else self.string()
        if k <= 3:
            return self.binary("+", e(), self.any(d) if self.n(1) else e())
        if k == 4:
            return self.put(e(), MEMBER) + self.pick([".toUpperCase()", "['toLowerCase']()", ".concat('z', 1)", ".charAt(0)"]), CALL
        if k == 5:
            operand = self.put(self.any(d), UNARY)
            return "typeof " + operand, UNARY
        if k == 6:
            return self.put(e(), MEMBER) + ".replace(%s, %s)" % (
                self.pick(["/a/g", "/[a-z]/", "/[0-9]+/gi", "/=b/", "/./", "/ /g"]), self.put(e(), ASSIGN)), CALL
        if k == 7:
            n = self.expr("num", d)
            return "(%s)" % n[0] + self.pick([".toFixed(1)", ".toString()"]), CALL
        if k == 8:
            return "l1" + self.pick([".join('-')", "[0]", "['1']", ".concat(s1).join()", ".slice(1).join('+')"]), CALL
        if k == 9:
            return "o1" + self.pick([".k", "['k']", ".sub.name", '["sub"]["name"]']), MEMBER
        if k == 10:
            return "String(%s)" % self.put(self.any(d), ASSIGN), CALL
        if k == 11:
            p = self.name()
            outer = dict(self.variables)
            self.variables[p] = "str"
            body = self.block(d) + "return %s;" % self.expr("str", d)[0]
            self.variables = outer
            return "l1.map(function (%s) { %s }).join('')" % (p, body), CALL
        v = self.var("str")
        if v:
            return "%s += %s" % (v, self.put(e(), ASSIGN)), ASSIGN
        return self.string()

    def expr_bool(self, depth):
        d = depth - 1
        k = self.n(9 if depth > 0 else 1)
        if k == 0:
            return self.pick(["true", "false", "b1", "null"]), PRIMARY
        if k == 1:
            return self.pick(["b1", "n1", "s1"]), PRIMARY
        if k <= 3:
            return self.binary(self.pick(["<", ">", "<=", ">=", "==", "!=", "===", "!=="]), self.expr("num", d), self.expr("num", d))
        if k == 4:
            return self.unary("!", self.expr("bool", d))
        if k == 5:
            return self.binary(self.pick(["&&", "||"]), self.expr("bool", d), self.expr("bool", d))
        if k == 6:
            return self.binary("in", self.expr("str", d), self.pick([("o1", PRIMARY), ("{a: 1}", PRIMARY), ("l1", PRIMARY)]))
        if k == 7:
            return self.binary("instanceof", self.pick([("[]", PRIMARY), ("{}", PRIMARY), ("/x/", PRIMARY)]),
                               self.pick([("Array", PRIMARY), ("Object", PRIMARY)]))
        if k == 8:
            return self.pick(["/a/i", "/^x/", "/b/"]) + ".test(%s)" % self.put(self.expr("str", d), ASSIGN), CALL
        return self.binary(self.pick(["===", "!=="]), self.expr("str", d), self.expr("str", d))

    expr_any = expr_bool
