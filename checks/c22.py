"""Python expressions and code in templates, against Python itself."""

import html
import re
import types
import zlib

from tklib import gen, pygen, real
from tklib.harness import Family, Info, Violation

ID = "C22"
ASSUMPTIONS = [
    "names that a function assigns are not read in it before that, and classes do not read names they assign from the context",
    "variables of comprehensions do not share their names with nested functions' variables (a bug of Python 3.12.3 itself)",
]

ADDRESS = re.compile(r" at 0x[0-9a-f]+")
QUALIFIED = re.compile(r"[\w.<>]*<locals>\.")
CLASS = re.compile(r"<class '[^']*'>")


def norm(x, depth=3):
    """What is seen of a value, without the names of the code it came from"""
    t = type(x)
    if t is str:
        return CLASS.sub("<class>", QUALIFIED.sub("", ADDRESS.sub("", x)))
    if t in (int, float, bool, complex, bytes, type(None), type(...)):
        return repr(x)
    if depth and t in (list, tuple, set, frozenset):
        return (t.__name__, [norm(i, depth - 1) for i in x])
    if depth and t is dict:
        return ("dict", [(norm(k, depth - 1), norm(v, depth - 1)) for k, v in x.items()])
    if t is types.GeneratorType or t in (zip, map, enumerate):
        return ("iterator", [norm(i, depth - 1) for i, _ in zip(x, range(20))])
    if t is type:
        return "class " + x.__name__
    return norm(repr(x), 0)


class Symbol:
    """Any operation gives another one, named after the operation"""

    def __init__(self, name):
        if len(name) > 300:
            name = "%s#%08x" % (name[:30], zlib.crc32(name.encode()))
        self.__dict__["_name"] = name

    def __repr__(self):
        return self._name

    def __hash__(self):
        return zlib.crc32(self._name.encode())

    def __eq__(self, other):
        return type(other) is Symbol and self._name == other._name

    def __bool__(self):
        return bool(zlib.crc32(self._name.encode()) & 4)

    def __call__(self, *a, **kw):
        return Symbol("%s(%s %s)" % (self._name, norm(a), norm(kw)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Symbol("%s.%s" % (self._name, name))

    def __getitem__(self, key):
        return Symbol("%s[%s]" % (self._name, norm(key) if type(key) is not slice else key))

    def __iter__(self):
        return iter([Symbol(self._name + "/1"), Symbol(self._name + "/2")])

    def __contains__(self, x):
        return bool(zlib.crc32(("%s in %s" % (norm(x), self._name)).encode()) & 4)

    def __format__(self, spec):
        return "%s:%s" % (self._name, spec)

    def keys(self):
        return ["k"]

    def __index__(self):
        return 1 + len(self._name) % 3

    def __len__(self):
        return 2


def _operators():
    def add(name, symbol, swap=False):
        def operator(self, other):
            pair = (norm(other), self._name) if swap else (self._name, norm(other))
            return Symbol("(%s %s %s)" % (pair[0], symbol, pair[1]))

        setattr(Symbol, "__%s__" % name, operator)

    for name, symbol in [
        ("add", "+"), ("sub", "-"), ("mul", "*"), ("mod", "%"), ("floordiv", "//"), ("or", "|"), ("and", "&"), ("xor", "^"),
        ("matmul", "@"), ("truediv", "/"),
    ]:
        add(name, symbol)
        add("r" + name, symbol, True)
    for name, symbol in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]:
        add(name, symbol)
    for name in ("neg", "pos", "invert", "abs"):
        setattr(Symbol, "__%s__" % name, lambda self, name=name: Symbol("%s %s" % (name, self._name)))


_operators()


class Func:
    def __init__(self, name, log):
        self.name = name
        self.log = log

    def __repr__(self):
        return "Func(%s)" % self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, other):
        return self is other

    def __call__(self, *a, **kw):
        self.log.append((self.name, norm(a), norm(kw)))
        return a[0] if a else kw


class Thing(Func):
    x = 1
    y = "why"

    def method(self, *a):
        return (self.name, a)

    def __enter__(self):
        self.log.append("enter")
        return self.x

    def __exit__(self, *a):
        self.log.append("exit")
        return a[0] is ValueError


def context(names):
    """A new context of these names, and the log of what is called"""
    log = []

    def rec(*a):
        log.append(("rec", norm(a)))
        return True

    def run(coroutine):
        try:
            coroutine.send(None)
        except StopIteration as e:
            return e.value

    def deco2(x):
        log.append(("deco2", norm(x)))
        return lambda function: function

    every = {
        "a": Symbol("a"), "b": Symbol("b"), "c": Symbol("c"), "d": Symbol("d"), "e": Symbol("e"), "xs": [3, 1, 2], "ys": "abc", "s": "string", "m": {"k": 1, "v": "w"},
        "o": Thing("o", log), "f": Func("f", log), "g": Func("g", log), "T": int, "len": Func("len", log), "str": Func("str", log),
    }
    ctx = {n: every[n] if n in every else Symbol(n) for n in names}
    ctx.update(rec=rec, run=run, deco2=deco2, deco=lambda function: function, manager=lambda x: Thing("manager", log))
    return ctx, log


def context_names(g, used):
    rv = list(pygen.NAMES) + used
    if g.n(9) == 9:
        rv = [n for n in rv if g.n(9)]
    return rv + [n for n in ("len", "str") if g.n(7) == 0]


def summary(outcome):
    if outcome[0] == "ok":
        return "ok"
    names = {"UnboundLocalError": "NameError", "TemplateSyntaxError": "SyntaxError", "IndentationError": "SyntaxError", "TabError": "SyntaxError"}
    return names.get(outcome[1], outcome[1])


def compare(case, source, code, run_python):
    ctx, want_log = context(case["names"])
    want = real.outcome(lambda: run_python(ctx))
    ctx, got_log = context(case["names"])
    before = dict(ctx)
    got = real.outcome(lambda: real.render(source, ctx))
    if summary(got) != summary(want):
        raise Violation("in the template it is %s, in Python it is %s" % (got, want), template=source, code=code)
    if summary(want) == "SyntaxError":
        # nothing has been run
        return "SyntaxError", []
    if got_log != want_log:
        raise Violation("in the template it does %r, in Python it does %r" % (got_log, want_log), template=source, code=code)
    if ctx.keys() != before.keys() or any(ctx[k] is not before[k] for k in ctx):
        raise Violation("the context has changed", template=source, code=code)
    return summary(want), want_log


# -------------------------------------------------------------- expressions

PLACES = [
    "<html><p>${rec(%s)}</p></html>", "<html><p a='1' class=\"${rec(%s)}\"></p></html>", "<html><p py:if=\"rec(%s)\">x</p></html>",
    "<html><py:for each=\"x0 in [rec(%s)]\">x</py:for></html>", "<html><p py:with=\"w0 = %s\">${rec(w0)}</p></html>", "<html>a $rec(%s) b</html>",
    "<html><p py:attrs=\"{'a': rec(%s)}\">x</p></html>", "<html><p py:content=\"rec(%s)\">x</p></html>",
    "<html><p py:def=\"fd()\">${rec(%s)}</p>${fd()}</html>", "<html><div py:if=\"1\"><p py:def=\"fd(x0)\">${rec(%s)}</p>${fd(1)}</div></html>",
    "<html><py:block name=\"bb\">${rec(%s)}</py:block></html>", "<html><p py:for=\"x0 in (1,)\">${rec(%s)}</p></html>",
    "<html><p><py:def function=\"local(x0)\">${rec(%s)}</py:def>${local(1)}</p></html>", "<html><p py:replace=\"rec(%s)\"/></html>",
    "<html><py:unless test=\"rec(%s)\">x</py:unless></html>", "<html><script>${rec(%s)}</script></html>",
]


def build_expression(draw):
    g = gen.Gen(draw)
    p = pygen.PyGen(g)
    code = p.expr([], 1 + g.n(2))
    place = g.n(len(PLACES) - 1)
    return {"code": code, "place": place, "names": context_names(g, p.used), "kinds": sorted(p.kinds)}


def check_expression(case):
    code, template = case["code"], PLACES[case["place"]]
    quoted = template.split("%s")[0].endswith("$rec(") or "${rec(" in template and '"${rec(' not in template
    source = template % (code if quoted else html.escape(code))
    wrapped = "w0 = %s\nrec(w0)" if "w0" in template else "rec(%s)"
    mode = "exec" if "w0" in template else "eval"

    def run_python(ctx):
        if mode == "eval":
            eval(compile(wrapped % code, "<python>", mode), ctx)
        else:
            exec(compile(wrapped % code, "<python>", mode), ctx)

    result, log = compare(case, source, code, run_python)
    return Info(result == "ok" and len(log) > 0 and len(code) > 8, case["kinds"] + [result])


# -------------------------------------------------------------- statements


def build_code(draw):
    g = gen.Gen(draw)
    p = pygen.PyGen(g)
    lines = []
    for _ in range(1 + g.n(4)):
        lines.extend(p.statement([], 2, ""))
    return {
        "lines": lines, "form": g.n(4), "names": context_names(g, p.used), "kinds": sorted(p.kinds),
        "read": [g.pick(p.assigned) for _ in range(g.n(2))] if p.assigned else [],
    }


def check_code(case):
    code = "\n".join(case["lines"])
    read = ["rec(%s)" % n for n in case["read"]]
    form = case["form"]
    after = "".join("${%s}" % r for r in read)
    pi = "<?python\n%s\n?>" % code
    source = [
        "<html>%s<p>%s</p></html>" % (pi, after),
        "<html><p py:with=\"%s\">%s</p></html>" % (html.escape(code), after),
        "<html><py:def function=\"fd(x0)\">%s%s</py:def>${fd(1)}</html>" % (pi, after),
        "<html><py:block name=\"bb\">%s%s</py:block></html>" % (pi, after),
        "<html><div><py:with vars=\"%s\">%s</py:with></div></html>" % (html.escape(code), after),
    ][form]
    function = "def function():\n" + "".join("    %s\n" % line for line in case["lines"] + read)

    def run_python(ctx):
        exec(compile(function, "<python>", "exec"), ctx)
        ctx["function"]()

    result, log = compare(case, source, code, run_python)
    return Info(len(log) > 1, case["kinds"] + [result])


FAMILIES = [
    Family(
        "expressions",
        lambda: gen.case_strategy(build_expression),
        check_expression,
        quick=24000,
        thorough=600000,
        rule="expressions of all kinds - nested functions with all kinds of parameters, comprehensions, f-strings, calls, "
        "assignment expressions - over variables that the context has or has not, in every position of a template; the value, "
        "the calls made and the exception compared with eval; non-trivial: evaluates without an exception",
    ),
    Family(
        "code",
        lambda: gen.case_strategy(build_code),
        check_code,
        quick=16000,
        thorough=400000,
        rule="statements of all kinds, nested, in processing instructions and with attributes; the values seen, the calls made "
        "and the exception compared with the same function body in Python; non-trivial: at least two values or calls",
    ),
]
