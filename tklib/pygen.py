"""Generates Python expressions and statements over some variables."""

NAMES = ["a", "b", "c", "d", "e", "xs", "ys", "s", "m", "o", "f", "g", "T"]
# parameters and loop variables may have the names of variables, too
LOCALS = ["a", "b", "xs", "s", "f", "missing", "p", "q", "r", "str", "len"]
BUILTINS = ["len", "str", "sum", "sorted", "list", "tuple", "max", "min", "abs", "bool", "repr", "range", "dict", "set"]


class PyGen:
    def __init__(self, g):
        self.g = g
        self.counter = 0
        self.assigned = []  # the names bound by statements
        self.kinds = set()
        # without nested functions, variables of comprehensions may have any
        # names; with them that would meet a bug of Python itself
        self.errors = g.n(7) == 7
        self.flat = g.n(3) == 0
        # variables that occur only once: any that is overlooked shows
        self.unique = g.n(2) == 0
        self.used = []

    def fresh(self, prefix="v"):
        self.counter += 1
        return "%s%d" % (prefix, self.counter)

    def n(self, k):
        return self.g.n(k)

    def pick(self, x):
        return self.g.pick(x)

    # ------------------------------------------------------------- expressions

    def name(self, env):
        k = self.n(7)
        if env and k <= 2:
            return self.pick(env)
        if self.assigned and k <= 4:
            return self.pick(self.assigned)
        if self.errors and self.n(5) == 0:
            return self.pick(["missing", "other"])
        if self.unique and self.n(3):
            self.used.append("u%d" % len(self.used))
            return self.used[-1]
        return self.pick(NAMES[:5] if self.n(2) else NAMES)

    def atom(self, env):
        k = self.n(11)
        if k <= 7 or not self.errors and k == 10:
            return self.name(env)
        if k == 8:
            return self.pick(["1", "2", "0", "'t'", "'}'"])
        if k == 9:
            return self.pick(["1", "0", "2", "-3", "1.5", "None", "True", "False", "10**2", "0x3", "1_2", "1j", "..."])
        if k == 10:
            return self.pick(["'t'", "'}'", "'{'", "''", "'a' 'b'", "r'\\n'", "'\\n'", "b'x'", "'$a'", "'%s'", "'''t\nu'''", "'<&>'", "u'é'", "'\\x41'"])
        if k == 11 and self.n(1):
            return self.pick(["()", "[]", "{}", "set()", "''"])
        return "%s(%s)" % (self.pick(BUILTINS), self.name(env))

    def iterable(self, env, depth):
        k = self.n(7)
        if k <= 4:
            return self.pick(["a", "b", "c", "xs", "ys", "d", "range(2)"])
        if k == 5:
            return "[%s, %s]" % (self.sub(env, depth), self.sub(env, depth))
        if k == 6:
            return "a[%s]" % self.sub(env, depth)
        return self.sub(env, depth)

    def hashable(self, env, depth):
        if self.n(9) == 0:
            return self.sub(env, depth)
        return self.pick(["a", "b", "c", "d", "s", "'k'", "1", "(a, %s)" % self.name([]), "repr(%s)" % self.sub(env, depth)])

    def sub(self, env, depth):
        return self.expr(env, depth - 1)

    def expr(self, env, depth=3):
        if depth <= 0:
            return self.atom(env)
        e = lambda: self.sub(env, depth)  # noqa: E731
        k = self.n(33)
        if k <= 2:
            return self.atom(env)
        if k == 3:
            return "(%s %s %s)" % (e(), self.pick(["+", "-", "*", "%", "//", "|", "&", "^", "@", "/"]), e())
        if k == 4:
            return "(%s%s)" % (self.pick(["-", "not ", "+", "~"]), e())
        if k == 5:
            return "(%s %s %s %s %s)" % (e(), self.pick(["<", "==", "!=", "in", "not in", ">="]), e(), self.pick(["<=", "!=", ">", "=="]), e())
        if k == 6:
            return "(%s %s %s)" % (e(), self.pick(["and", "or"]), e())
        if k == 7:
            return "(%s if %s else %s)" % (e(), e(), e())
        if k == 8:
            return "[%s, %s]" % (e(), "*%s" % self.iterable(env, depth) if self.n(1) else e())
        if k == 9:
            return "{%s: %s, **%s}" % (self.hashable(env, depth), e(), self.pick(["m", "{}", "a", e()]))
        if k == 10:
            return "{%s, %s}" % (self.hashable(env, depth), self.hashable(env, depth))
        if k == 11:
            return "(%s,)" % e() if self.n(1) else "(%s, *%s)" % (e(), self.iterable(env, depth))
        if k == 12:
            return self.pick(["xs[%s]", "m['k']", "a[%s]", "b[%s]", "s[0]", "c[(%s, 1):]", "d[%s]"]).replace("%s", e())
        if k == 13:
            return "%s[%s:%s%s]" % (self.pick(["xs", "s", "ys"]), self.pick(["", "1", "-1", self.name([])]), self.pick(["", "2", self.name([])]), self.pick(["", ":2", ":-1"]))
        if k == 14:
            return "%s.%s" % tuple(self.pick([
                "a.x", "b.y.z", "c.upper()", "s.upper()", "xs.copy()", "m.get('k')", "m.keys()", "o.x", "o.y", "d.x.y",
                "o.nothing" if self.errors else "a.nothing"]).split(".", 1))
        if k <= 17:
            return self.call(env, depth)
        if k == 18:
            return self.fstring(env, depth)
        if k <= 23:
            return self.comprehension(env, depth)
        if k <= 28:
            return self.lambda_(env, depth)
        if k == 29:
            name = self.fresh("w")
            self.kinds.add("walrus")
            rv = "[%s := %s, %s]" % (name, e(), name)
            return rv if self.n(1) else "((%s := %s) and %s)" % (name, e(), name)
        if k == 30:
            return "f(%s, %s)" % (e(), e())
        if k == 31 and not self.flat:
            z = self.fresh("z")
            return "[%s\n for %s in (%s,\n)]" % (self.sub(env + [z], depth), z, e())
        return "g(%s)" % e()

    def call(self, env, depth):
        e = lambda: self.sub(env, depth)  # noqa: E731
        k = self.n(7)
        return [
            "f(%s)" % e(), "g(*%s)" % self.iterable(env, depth), "g(k=%s)" % e(),
            "g(%s, *%s, x=%s, **%s)" % (e(), self.iterable(env, depth), e(), self.pick(["m", "m", "a", e()])),
            "o.method(%s)" % e(), "%s(%s)(%s)" % (self.pick("abcd"), e(), e()),
            "tuple(x for x in %s)" % self.iterable(env, depth) if not self.flat else "f(%s)" % e(),
            "sorted(xs, key=%s)" % self.lambda_source(env, depth, 1) if not self.flat else "sorted(%s)" % self.iterable(env, 1),
        ][k]

    def fstring(self, env, depth):
        self.kinds.add("fstring")
        e = lambda: self.sub(env, min(depth, 2)).replace("\n", " ")  # noqa: E731
        k = self.n(5)
        # a brace after the opening one would be text, a colon or ! a format
        return [
            "f'{(%s)}'", "f'a{(%s)!r}b'", "f'{{{(%s)}}}'", "f'{(%s):>5}'", "f'{(%s)=}'", "f'{(%s):{a}}'",
        ][k] % e()

    def targets(self, env):
        k = self.n(5)
        if k <= 2:
            t = self.loop_variable()
            return t, [t]
        t, u = self.loop_variable(), self.fresh("z")
        if k == 3:
            return "%s, %s" % (t, u), [t, u]
        if k == 4:
            return "(%s, *%s)" % (t, u), [t, u]
        return "[%s, (%s)]" % (t, u), [t, u]

    def loop_variable(self):
        return self.pick(LOCALS) if self.flat and self.n(2) else self.fresh("z")

    def comprehension(self, env, depth):
        self.kinds.add("comprehension")
        if self.flat:
            if "shadow" in self.kinds:
                return self.atom(env)
            self.kinds.add("shadow")
            depth = 1
        t, names = self.targets(env)
        inner = env + names
        first = self.iterable(env, depth)
        if "," in t and self.n(9):
            first = self.pick(["[(1, 2), (%s, (4))]", "zip(xs, %s)", "[(%s, 1)]", "enumerate(%s)"]) % first
        clause = "for %s in %s" % (t, first)
        if self.n(2) == 0:
            clause += " if %s" % self.sub(inner, depth)
        if self.n(2) == 0:
            t2, names2 = self.targets(inner)
            second = self.iterable(inner, depth)
            clause += " for %s in %s" % (t2, second if "," not in t2 else "enumerate(%s)" % second)
            inner = inner + names2
        value = self.sub(inner, depth)
        return [
            "[%s %s]", "list(%s %s)", "{%s %s}", "tuple(%s %s)", "{'k': %s %s}", "any(%s %s)", "[*(%s %s)]",
        ][self.n(6) if not self.flat else 2 * self.n(2)] % (value, clause)

    def parameters(self, env, depth, count=None):
        """Source, names and arguments"""
        names = []
        for _ in range(self.n(2) if count is None else count):
            p = self.pick(LOCALS)
            if p not in names:
                names.append(p)
        source = []
        k = self.n(7) if count is None else 9
        if k >= 6 and count is None:
            return self.mixed_parameters(env, depth)
        if k == 0 and names:
            source = ", ".join(names) + ", /"
        elif k == 1 and names:
            source = "*, " + ", ".join(names)
        elif k == 2 and names:
            source = ", ".join("%s=%s" % (n, self.sub(env, depth)) for n in names)
        elif k == 3 and names:
            source = ", ".join(names[:-1] + ["*" + names[-1]])
        elif k == 4 and names:
            source = ", ".join(names[:-1] + ["**" + names[-1]])
        else:
            source = ", ".join(names)
        return source, names, k

    def mixed_parameters(self, env, depth):
        """Parameters of all kinds at once; the third value makes the arguments"""
        names, source, given = [], [], []
        defaults = False

        def fresh():
            rv = self.pick([n for n in LOCALS if n not in names])
            names.append(rv)
            return rv

        def default():
            return "=%s" % self.sub(env, min(depth, 2))

        e = lambda: self.sub(env, depth)  # noqa: E731
        positional = self.n(2)
        keywords = []
        for i in range(positional + self.n(2)):
            n = fresh()
            defaults = defaults or self.n(1) == 0
            source.append(n + (default() if defaults else ""))
            if not defaults or self.n(2) == 0:
                if len(given) == i and not keywords and (i < positional or self.n(2)):
                    given.append(e())
                elif i >= positional:
                    keywords.append("%s=%s" % (n, e()))
            if i == positional - 1:
                source.append("/")
        star = not keywords and len(given) == len(names) and self.n(2) == 0
        kwonly = self.n(3)
        if star or kwonly:
            if star or self.n(2) == 0:
                source.append("*" + fresh())
                if star:
                    given.append(self.pick(["%s", "*(%s,)"]) % e())
            else:
                source.append("*")
        for _ in range(kwonly):
            n = fresh()
            if self.n(2):
                source.append(n + default())
                if self.n(2) == 0:
                    keywords.append("%s=%s" % (n, e()))
            else:
                source.append(n)
                keywords.append("%s=%s" % (n, e()))
        if self.n(3) == 0:
            source.append("**" + fresh())
            keywords.append("extra=%s" % e())
        if source and source[-1] == "*":
            source.pop()
        return ", ".join(source), names, ", ".join(given + keywords)

    def arguments(self, env, depth, names, k):
        if isinstance(k, str):
            return k
        e = lambda: self.sub(env, depth)  # noqa: E731
        if not names:
            return ""
        if k == 1:
            return ", ".join("%s=%s" % (n, e()) for n in names)
        if k == 2:
            return ", ".join(e() for _ in names[: self.n(len(names))])
        if k == 3 and not self.errors:
            return ", ".join(e() for _ in range(len(names) + self.n(1)))
        if k == 3:
            return ", ".join(e() for _ in range(len(names) - 1 + self.n(2)))
        if k == 4:
            return ", ".join([e() for _ in names[:-1]] + ["k=%s" % e()])
        return ", ".join(e() for _ in names)

    def lambda_source(self, env, depth, count=None):
        source, names, _ = self.parameters(env, depth, count)
        return "lambda %s: %s" % (source, self.sub(env + names, depth))

    def lambda_(self, env, depth):
        if self.flat:
            return self.comprehension(env, depth)
        self.kinds.add("lambda")
        source, names, k = self.parameters(env, depth)
        body = self.sub(env + names, depth)
        form = self.n(3)
        if form == 0 and len(names) == 1 and k not in (1, 4) and not isinstance(k, str):
            return "list(map(lambda %s: %s, %s))" % (source, body, self.iterable(env, depth))
        if form == 1:
            return "(lambda %s: lambda: %s)(%s)()" % (source, body, self.arguments(env, depth, names, k))
        return "(lambda %s: %s)(%s)" % (source, body, self.arguments(env, depth, names, k))

    # -------------------------------------------------------------- statements

    def block(self, env, depth, indent, top=False):
        out = []
        outer = list(self.assigned)
        for _ in range(1 + self.n(2)):
            out.extend(self.statement(env, depth, indent))
        if not self.errors and self.n(4):
            # it may not have been executed
            self.assigned = outer
        return out

    def statement(self, env, depth, ind):
        """Lines of a statement; the names that it binds are readable after it"""
        e = lambda d=1: self.expr(env, d).replace("\n", " ")  # noqa: E731
        k = self.n(31 if depth > 0 else 11)
        if self.flat and k in (19, 20, 21, 22, 23, 24, 27, 28, 30, 31):
            k = 11
        more = ind + self.pick(["  ", "    ", "\t"])
        if k <= 3:
            v = self.fresh()
            rv = [ind + "%s = %s" % (v, e(2))]
            self.assigned.append(v)
            return rv
        if k == 4:
            v, w = self.fresh(), self.fresh()
            rv = [ind + self.pick(["%s, %s = (%s, 2)", "%s = %s = %s", "[%s, *%s] = (%s, 1, 2)", "(%s), %s = xs[0], %s"]) % (v, w, e())]
            self.assigned += [v, w]
            return rv
        if k == 5 and self.assigned:
            return [ind + "%s %s %s" % (self.pick(self.assigned), self.pick(["+=", "*=", "-=", "|="]), e())]
        if k == 6:
            v = self.fresh()
            rv = [ind + "%s: %s = %s" % (v, self.pick(["int", "T", "'x'", "missing"]), e())]
            self.assigned.append(v)
            return rv
        if k == 7:
            v = self.fresh()
            self.assigned.append(v)
            return [ind + self.pick(["import math as %s", "from math import pi as %s", "import os.path as %s"]) % v]
        if k == 8:
            return [ind + self.pick(["assert %s", "pass; %s", "%s;", "%s # comment", "if 1: %s"]) % e()]
        if k == 9 and self.assigned:
            return [ind + "del %s" % self.pick(self.assigned)] if self.errors and self.n(1) == 0 else [ind + "rec(%s)" % self.pick(self.assigned)]
        if k == 10:
            return [ind + "o.x = %s" % e()] if self.n(1) else [ind + "m[%s] = %s" % (self.hashable(env, 1).replace("\n", " "), e())]
        if k == 11:
            return [ind + "rec(%s)" % e(2)]
        self.kinds.add("compound")
        if k <= 13:
            out = [ind + "if %s:" % e()] + self.block(env, depth - 1, more)
            if self.n(1):
                out += [ind + "elif %s:" % e()] + self.block(env, depth - 1, more)
            if self.n(1):
                out += [ind + "else:"] + self.block(env, depth - 1, more)
            return out
        if k <= 15:
            v = self.fresh()
            head = ind + "for %s in %s:" % (v, self.pick(["xs", "range(2)", self.iterable(env, 1).replace("\n", " ")]))
            self.assigned.append(v)
            out = [head] + self.block(env, depth - 1, more)
            if self.n(2) == 0:
                out += [more + "if %s: %s" % (e(), self.pick(["break", "continue"]))]
            if self.n(2) == 0:
                out += [ind + "else:"] + self.block(env, depth - 1, more)
            return out
        if k == 16:
            v = self.fresh()
            out = [ind + "%s = 2" % v, ind + "while %s:" % v, more + "%s -= 1" % v] + self.block(env, depth - 1, more)
            self.assigned.append(v)
            return out
        if k <= 18:
            v = self.fresh()
            out = [ind + "try:"] + self.block(env, depth - 1, more)
            out += [ind + self.pick(["except Exception as %s:", "except (TypeError, NameError) as %s:", "except missing as %s:"]) % v]
            out += [more + "rec(type(%s))" % v] + self.block(env, depth - 1, more)
            if self.n(1):
                out += [ind + "else:"] + self.block(env, depth - 1, more)
            if self.n(1):
                out += [ind + "finally:"] + self.block(env, depth - 1, more)
            return out
        if k <= 22:
            return self.function(env, depth, ind, more)
        if k <= 24:
            return self.class_(env, depth, ind, more)
        if k == 25:
            v = self.fresh()
            out = [ind + "with manager(%s) as %s:" % (e(), v)]
            self.assigned.append(v)
            return out + self.block(env, depth - 1, more)
        if k == 26:
            v, w = self.fresh(), self.fresh()
            self.kinds.add("match")
            out = [ind + "match %s:" % e()]
            deeper = more + " "
            out += [more + self.pick(["case [%s, *%s]:", "case {'k': %s, **%s}:", "case (%s, %s):"]) % (v, w), deeper + "rec(%s, %s)" % (v, w)]
            out += [more + "case int() as %s if %s:" % (v, e()), deeper + "rec(%s)" % v]
            out += [more + "case _:"] + self.block(env, depth - 1, deeper)
            return out
        if k == 27:
            v = self.fresh("gen")
            self.kinds.add("generator")
            out = [ind + "def %s():" % v] + [more + "yield %s" % e()] + self.block_without_bindings(env, depth - 1, more) + [more + "yield from %s" % self.iterable(env, 1).replace("\n", " ")]
            return out + [ind + "rec(list(%s()))" % v]
        if k == 28:
            # a variable of this function, changed by one within it
            v, fn = self.fresh(), self.fresh("fn")
            self.kinds.add("nonlocal")
            out = [ind + "%s = %s" % (v, e()), ind + "def %s():" % fn, more + "nonlocal %s" % v, more + "%s = (%s, %s)" % (v, v, e())]
            self.assigned.append(v)
            return out + [ind + "%s()" % fn]
        if k == 29 and not self.errors:
            return [ind + "rec(%s)" % e(2)]
        if k == 29:
            return [ind + "raise %s" % self.pick(["ValueError(%s)", "KeyError(%s)", "missing(%s)", "o(%s)"]) % e()]
        if k == 30:
            v = self.fresh("co")
            self.kinds.add("async")
            return [
                ind + "async def %s(p):" % v, more + "%s = %s" % (self.pick(LOCALS), e()), more + "return %s" % e(),
                ind + "rec(run(%s(%s)))" % (v, e())]
        v = self.fresh("fn")
        return [ind + "%s = %s" % (v, self.lambda_source(env, 2, 1).replace("\n", " ")), ind + "rec(%s(%s))" % (v, e())]

    def block_without_bindings(self, env, depth, ind):
        return [ind + "rec(%s)" % self.expr(env, 1).replace("\n", " ")]

    def function(self, env, depth, ind, more):
        self.kinds.add("def")
        v = self.fresh("fn")
        source, names, k = self.parameters(env, 1)
        annotated = self.n(3) == 0 and names and k == 5
        if annotated:
            source = ", ".join("%s: %s" % (n, self.pick(["T", "int", "a", "'x'", "missing" if self.errors else "T"])) for n in names)
        out = []
        if self.n(3) == 0:
            out.append(ind + "@%s" % self.pick(["deco", "deco2(%s)" % self.atom(env).replace("\n", " "), names[0] if names else "deco"]))
        out.append(ind + "def %s(%s)%s:" % (v, source, self.pick(["", "", " -> T", " -> " + self.pick(names or ["a"])])))
        outer, self.assigned = self.assigned, list(self.assigned)
        inner = env + names
        # its own variables may have the names of variables
        if self.n(1):
            w = self.pick([n for n in LOCALS if n not in names])
            out.append(more + "%s = %s" % (w, self.atom([x for x in inner if x != w]).replace("\n", " ")))
            inner = inner + [w]
        for _ in range(self.n(1)):
            out += self.own_statements(inner, depth - 1, more)
        out.append(more + "return %s" % self.expr(inner, 2).replace("\n", " "))
        self.assigned = outer
        call = ind + "rec(%s(%s))" % (v, self.arguments(env, 1, names, k).replace("\n", " "))
        return out + [call]

    def own_statements(self, env, depth, ind):
        # augmented assignment or deletion would make outer ones local
        outer, self.assigned = self.assigned, []
        rv = self.statement(env, depth, ind)
        self.assigned = outer
        return rv

    def class_(self, env, depth, ind, more):
        self.kinds.add("class")
        v = self.fresh("K")
        out = [ind + "class %s%s:" % (v, self.pick(["", "(object)", "(list)", "(T)", "(missing)" if self.errors else ""]))]
        # its attributes may have the names of variables
        names = []
        for _ in range(1 + self.n(1)):
            n = self.pick([x for x in ["a", "b", "s", "missing", "p", "attr", "xs", "len"]])
            if n in names:
                continue
            out.append(more + "%s = %s" % (n, self.pick(["c", "d", "T", "o", "other", "1", "'t'", "f(2)", "m"])))
            names.append(n)
        if self.n(1):
            out += [more + "def method(self, p=%s):" % self.pick(["1", "'t'", "xs", "a"]), more + "    return %s" % self.expr(env + ["p"], 2).replace("\n", " ")]
            call = "rec(%s().method())" % v
        else:
            call = "rec(%s.%s)" % (v, names[0])
        return out + [ind + call] + [ind + "rec(%s)" % n for n in names if n in NAMES or self.errors]
