"""Where expressions begin and end in text: construction, and a reference splitter."""

import re

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C03"


class W:
    """Everything can be done with it, and it tells what was done"""

    def __init__(self, path):
        self._path = path

    def __str__(self):
        return self._path

    __repr__ = __str__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return W("%s.%s" % (self._path, name))

    def __getitem__(self, key):
        return W("%s[%r]" % (self._path, key))

    def __call__(self, *a, **kw):
        args = ["%r" % (i,) for i in a] + ["%s=%r" % i for i in kw.items()]
        return W("%s(%s)" % (self._path, ",".join(args)))

    def __add__(self, other):
        return W("%s+%r" % (self._path, other))

    def __radd__(self, other):
        return W("%r+%s" % (other, self._path))

    def __iter__(self):
        return iter(())

    def __hash__(self):
        return hash(self._path)

    def __eq__(self, other):
        return isinstance(other, W) and self._path == other._path

    def __neg__(self):
        return W("-" + self._path)

    __pos__ = __neg__


NAMES = ["a", "b", "ab", "ba", "aa", "bb", "a1", "b1", "a_", "_a", "é", "a11", "aé", "x_y", "_", "A", "Zb"]
CONTEXT = {n: W(n) for n in NAMES}

# ------------------------------------------------------- reference splitter

NAME = re.compile(r"[^\d\W]\w*")
STRING = re.compile(r"('''|\"\"\"|'|\")")
OPEN, CLOSE = "([{", ")]}"


class Malformed(Exception):
    pass


def skip_string(s, i):
    quote = STRING.match(s, i).group()
    i += len(quote)
    while i < len(s):
        if s[i] == "\\":
            i += 2
        elif s.startswith(quote, i):
            return i + len(quote)
        elif s[i] == "\n" and len(quote) == 1:
            raise Malformed
        else:
            i += 1
    raise Malformed


def find_close(s, i):
    """The position after the bracket that closes the one at i"""
    stack = []
    while i < len(s):
        c = s[i]
        if c in "'\"":
            i = skip_string(s, i)
            continue
        if c == "#":
            nl = s.find("\n", i)
            if nl < 0:
                raise Malformed
            i = nl
        elif c in OPEN:
            stack.append(CLOSE[OPEN.index(c)])
        elif c in CLOSE:
            if stack.pop() != c:
                raise Malformed
            if not stack:
                return i + 1
        i += 1
    raise Malformed


def split(s):
    """[("text" | "expr", string)..]"""
    out = []
    i = 0

    def text(c):
        if out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + c)
        else:
            out.append(("text", c))

    while i < len(s):
        if s[i] != "$":
            text(s[i])
            i += 1
        elif s.startswith("$$", i):
            text("$")
            i += 2
        elif s.startswith("${", i):
            end = find_close(s, i + 1)
            out.append(("expr", s[i + 2 : end - 1]))
            i = end
        elif re.match("[a-zA-Z_]", s[i + 1 : i + 2]):
            end = NAME.match(s, i + 1).end()
            while end < len(s):
                if s[end] == "." and NAME.match(s, end + 1):
                    end = NAME.match(s, end + 1).end()
                elif s[end] in "([":
                    end = find_close(s, end)
                else:
                    break
            out.append(("expr", s[i + 1 : end]))
            i = end
        else:
            text("$")
            i += 1
    return out


def expected(parts, wrap):
    """The outcome of a text of these parts"""
    codes = []
    for kind, value in parts:
        if kind == "expr":
            try:
                codes.append(compile(value.strip(), "<ref>", "eval"))
            except (SyntaxError, ValueError):
                return ("error", "TemplateSyntaxError", "")
    try:
        out = []
        for kind, value in parts:
            if kind == "text":
                out.append(value if wrap == "raw" else model.esc_text(value))
            else:
                env = dict(vars(__import__("builtins")), **CONTEXT)
                out.append(model.esc(eval(codes.pop(0), env)))
        return ("ok", "".join(out))
    except Exception as e:
        return ("error", type(e).__name__, "")


PLACES = {
    "text": ("<p>", "</p>"),
    "attr": ('<p a="-', '"></p>'),
    "attr1": ("<p a='-", "'></p>"),
    "raw": ("<script>", "</script>"),
    "nested": ("<p>a<b>b", "</b>c</p>"),
    "def": ("<p><py:def function='f()'>", "</py:def>${f()}</p>"),
    "if": ("<p py:if='1'>", "</p>"),
}
OUTPUT = dict(PLACES, attr1=('<p a="-', '"></p>'), def_=None)
OUTPUT["def"] = ("<p>", "</p>")
OUTPUT["if"] = ("<p>", "</p>")


def encode(s, place):
    if place == "raw":
        return s
    s = s.replace("&", "&amp;").replace("<", "&lt;")
    if place == "attr":
        s = s.replace('"', "&quot;")
    if place == "attr1":
        s = s.replace("'", "&#39;")
    return s


def compare(s, place, want):
    before, after = PLACES[place]
    source = before + encode(s, place) + after
    got = real.outcome(lambda: real.render(source, CONTEXT))
    if want[0] == "ok":
        want = ("ok", OUTPUT[place][0] + want[1] + OUTPUT[place][1])
    if got[:2] != want[:2]:
        raise Violation("%r renders as %r, expected %r" % (source, got, want), text=s, source=source)


# -------------------------------------------------------------- families

SOUP = ["$", "$", "$a", "${", "a", "b", ".", "(", ")", "[", "]", "{", "}", "1", " ", "'", '"', ",", "\n", "+", "#",
        "$b", ".a", "()", "[1]", "${a}", "$$", "_", "é", "'}'", "\\", ":", "=", "'''", "-", "\t", "!", "??", "${b", "})"]


def build_soup(draw):
    g = gen.Gen(draw)
    return {"s": g.string(SOUP, 12), "place": g.pick(sorted(PLACES))}


def check_soup(case):
    s = case["s"]
    try:
        parts = split(s)
    except Malformed:
        want = ("error", "TemplateSyntaxError", "")
        parts = []
    else:
        want = expected(parts, case["place"])
    compare(s, case["place"], want)
    n = sum(p[0] == "expr" for p in parts)
    return Info(n >= 1 or want[0] == "error", ["exprs%d" % min(n, 4), want[0] + (want[1] if want[0] != "ok" else "")])


TAILS = [".a", ".b1", "()", "(1)", "(a)", "[0]", "['k']", '["]"]', "(')')", "(a.b, b[1])", "(x_y=a)", "[a[b]]",
         "(\n1)", "((1),[2])", "({})", "({'}': a})", '("$b")', "('${')", "[f'{a}']", "(f')')", '(f"{b!r}]")', "[1:2]",
         "(a if b else a)", "(*[])", "[-1]", "('''\n)''')", "(b # )\n)", "((lambda: 1)())", "(\\\n a)", "._", ".é"]
BRACED = ["a", " a", "a ", "a.b", "a+b", "{}", "{'a': b}", "'}'", '"}"', "'{'", "'''}'''", "{1: {2: 3}}[1]", "f'{a}'",
          "f'{{'", "f'}}{a}{{'", 'f"{a!r:>{b1}}"', "[{'}'}]", "a if b else {}", "[i for i in {a}]", "{i for i in 'a'}",
          "a['}']", "a('{', \"}\")", "(a # }\n)", "'\\'}'", '"\\"}"', "f'{ {1: 2}[1] }'", "{**{'a': 1}}", "(lambda: {})()", "a\n",
          "\na", "(a,\nb)", "'$a'", '"${"', "rb'}'", "r'\\}'", "''", "0", "a.b(1)[2].a", "f'''}}\n{a}'''", "(yield_ := 3)",
          "not a", "-a", "1.", "1 .real", "a  # }\n", "{'{': '}'}['{']", "`"]
BETWEEN = ["", "", " ", ".", ". ", "..", ".1", "-", "$$", "$", "}", "{", "]", ")", " (a)", " [1]", " .a", "1", "text",
           "$ ", "$1", "$$a", "$${a}", "'", '"', "#", "\n", "é", ":a", "=", "\\", ",", "$.", "$(", "%s", "&", "<", ">"]


def build_parts(draw):
    g = gen.Gen(draw)
    items = []
    for _ in range(1 + g.n(3)):
        items.append(["t", g.pick(BETWEEN)])
        if g.n(1):
            items.append(["b", g.pick(BRACED)])
        else:
            items.append(["n", g.pick(NAMES), [g.pick(TAILS) for _ in range(g.n(3))]])
    items.append(["t", g.pick(BETWEEN)])
    return {"items": items, "place": g.pick(sorted(PLACES))}


def literal_dollars(s):
    """What the literal text between expressions stands for"""
    return s.replace("$$", "$")


def check_parts(case):
    s = []
    parts = []
    for i, item in enumerate(case["items"]):
        if item[0] == "t":
            t = item[1]
            prev = case["items"][i - 1] if i else None
            if prev and prev[0] == "n" and model.CONTINUES.match(t):
                t = " " + t
            nxt = case["items"][i + 1] if i + 1 < len(case["items"]) else None
            if nxt and t.endswith("$") and not t.endswith("$$"):
                t += " "
            s.append(t)
            if t:
                parts.append(("text", literal_dollars(t)))
        elif item[0] == "b":
            s.append("${%s}" % item[1])
            parts.append(("expr", item[1]))
        else:
            e = item[1] + "".join(item[2])
            if not re.match("[A-Za-z_]", e):
                s.append("${%s}" % e)
            else:
                s.append("$" + e)
            parts.append(("expr", e))
    s = "".join(s)
    compare(s, case["place"], expected(parts, case["place"]))
    n = sum(p[0] == "expr" for p in parts)
    return Info(True, [case["place"], "exprs%d" % n])


FAMILIES = [
    Family(
        "soup",
        lambda: gen.case_strategy(build_soup),
        check_soup,
        quick=40000,
        thorough=1200000,
        rule="random sequences of dollars, names, brackets, quotes and text in seven places of a template, "
        "compared with a reference splitter and Python's eval; non-trivial: has an expression or is malformed",
    ),
    Family(
        "sequences",
        lambda: gen.case_strategy(build_parts),
        check_parts,
        quick=40000,
        thorough=1000000,
        rule="sequences of literal text and expressions of known extent written next to each other, the "
        "values are compared with Python's eval; all are non-trivial",
    ),
]
