"""Where the traceback of an error in a template points to."""

import re
import traceback

from tklib import gen, real
from tklib.harness import Family, Info, Violation

ID = "C14"
ASSUMPTIONS = [
    "multi-line expressions are within brackets, as Python requires; the error is at the line on which the failing call begins",
    "errors raised by the function gettext are not errors of an expression",
]


class Boom(Exception):
    def __init__(self, text, number):
        super().__init__(text, number)
        self.number = number


class Slotted(Exception):
    """Compares equal to anything, cannot be called again with its arguments"""

    __slots__ = ("number",)

    def __init__(self, text, number, *, needed):
        super().__init__(text, number)
        self.number = number

    def __eq__(self, other):
        return True

    __hash__ = None


class Falsy(Boom):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class BoomBase(BaseException):
    number = 99


class Bad:
    """Cannot be converted"""

    def __str__(self):
        return {}["bad"]

    __repr__ = __html__ = items = keys = __iter__ = __str__


class BadItems(dict):
    def items(self):
        return {}["bad"]


class Converted:
    def __init__(self, convert):
        self.convert = convert

    def __str__(self):
        return self.convert(98)

    __repr__ = __html__ = items = keys = __iter__ = __str__


class ConvertedItems(dict):
    def __init__(self, convert):
        super().__init__(a=1)
        self.convert = convert

    def items(self):
        return self.convert(98)


def inner(*a):
    raise ValueError("inner")


def raiser(how, raised, other):
    """A function that raises; the errors it raises are in raised"""

    def boom(*a):
        if how == "again" and raised:
            raise raised[-1]
        cls = {"slotted": Slotted, "falsy": Falsy, "base": BoomBase}.get(how, Boom)
        if how == "group":
            e = ExceptionGroup(a[0], [Boom(*a)])
            e.number = 99
        elif how == "slotted":
            e = cls(*a, needed=1)
        else:
            e = cls(*a)
        raised.append(e)
        if how == "cause":
            raise e from KeyError("the cause")
        if how == "none":
            try:
                inner()
            except ValueError:
                raise e from None
        if how == "context":
            try:
                inner()
            except ValueError:
                raise e
        if how == "inner-cause":
            try:
                inner()
            except ValueError as x:
                raise e from x
        if how == "template-cause":
            # the cause has been in a template, too
            try:
                other()
            except ZeroDivisionError as x:
                raise e from x
        if how == "template-context":
            try:
                other()
            except ZeroDivisionError:
                raise e
        if how == "notes":
            e.add_note("a note")
        if how == "again":
            try:
                raise e
            except Boom:
                pass
            raise e
        if how == "deep":
            return deep(e, 20)
        raise e

    def deep(e, n):
        if n:
            deep(e, n - 1)
        raise e

    return boom


HOWS = [
    "plain", "cause", "none", "context", "inner-cause", "template-cause", "template-context", "notes", "again", "deep",
    "slotted", "falsy", "base", "group",
]


def chained(e):
    """The error, what it is the consequence of, its notes"""
    def show(x):
        return None if x is None else (type(x).__name__, [repr(a) for a in x.args])

    return (
        show(e), show(e.__cause__), show(e.__context__), e.__suppress_context__, getattr(e, "__notes__", None),
        show(e.__context__ and e.__context__.__context__),
    )


# ---------------------------------------------------------------- generation
# Sources are built as strings; every call that is on the way to the error
# has a number of its own, by which its line is found.


def filler(g, depth=1):
    """Something without errors, that often has line breaks"""
    if g.chance(12):
        # these end a line for str.splitlines, but for nothing else
        return g.pick([
            "a%sb", "%s", "\n%s", "${'a%sb'}", "${ok(\n'%s')}", "<!--%s-->", "<p a='%s\n'>%s</p>", "<p a='%s${ok}'/>", "<p py:if=\"'%s'\">%s</p>",
            "<?python zz = '%s'\n?>", "<script>%s</script>", "<py:with vars=\"u = '%s'\nw = 2\">$u</py:with>", "<p py:attrs=\"{'a': '%s'}\"/>",
        ]).replace("%s", g.pick(["\x0c", "\x0b", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029"]))
    k = g.n(17)
    if k <= 3:
        return g.pick(["\n", "\n\n", " \n ", "text", "a\nb", "$$\n", "1 < 2\n"])
    if k == 4:
        return g.pick(["<!-- c -->", "<!-- a\nb -->", "<!--! a\n\nb -->"])
    if k == 5:
        return g.pick(["<br>", "<p>\n</p>", "<p\n>x</p\n>", "<b class='a\nb'/>", "<p a = 'b'\n\n c>\n</p>"])
    if k == 6:
        return g.pick(["${ok(\n1)}", "$ok(1) ", "${(1,\n\n2)}", "${'''a\nb\n'''}", "${ok}\n", "$ok.x ", "${[i\nfor i in (1,\n2)]}"])
    if k == 7:
        return g.pick(["&amp;\n", "&lt;&gt;", "&eacute;\n&#233;", "é\n中"])
    if k == 8:
        return g.pick(["<script>\nvar a = '$$';\n</script>", "<style>\n a {}\n</style>", "<script>$ok\n</script>"])
    if k == 9:
        return "<p py:if=\"%s\"\n>x\n</p>" % g.pick(["1", "0", "ok", "not\tok"])
    if k == 10:
        return "<py:for each=\"i in (1,\n2)\">$i\n</py:for>"
    if k == 11:
        return "<py:with vars=\"u = 1\nw = 2\">\n$u</py:with>"
    if k == 12:
        return "<?python\nzz = (1,\n2)\n?>"
    if k == 13:
        return "<p title=\"${ok}\n${ok}\" alt='\n'>\n</p>"
    if k == 14 and depth:
        return "<div>%s%s</div>" % (filler(g, 0), filler(g, 0))
    if k == 15:
        return "<p py:attrs=\"{'a': 1,\n 'b': 2}\" py:content=\"ok\"/>"
    if k == 16:
        return "<py:if test=\"ok\"\n>\n</py:if>"
    return ""


def space(g, before=""):
    """What may be between the name of a tag and an attribute: other attributes, in all layouts"""
    rv = before
    for i in range(g.pick([0, 0, 1, 1, 2, 3, 4])):
        rv += g.pick(["\n", " ", " ", "\n\n ", "\t", "\n  "]) + g.pick([
            "x%d='1'", "x%d=\"a\nb\"", "x%d", "x%d=v", "x%d = '\n'", "x%d=\n\"$ok\"", "x%d\n=\n'a'", "title='$ok\n%d'", "x%d='>'", "x%d=''", "x%d='&amp;\n'",
        ]).replace("%d", str(i))
    return rv + g.pick(["", "", "\n", " \n  "])


def fillers(g):
    return "".join(filler(g) for _ in range(g.n(3)))


def expression(g, e, multiline=True):
    """An expression within which e is evaluated first of all that may fail"""
    k = g.n(19 if multiline else 9)
    return [
        e, e, e,
        "[%s]" % e,
        "(lambda: %s)()" % e,
        "ok(%s)" % e,
        "[i for i in (1, 2) if %s]" % e,
        "f'a{%s}b'" % e,
        "not %s" % e,
        "(ok and %s)" % e,
        "(1,\n%s)" % e,
        "[1,\n\n %s,\n2]" % e,
        "(ok and\n%s)" % e,
        "ok(1,\n  x=%s\n)" % e,
        "(lambda: (\n%s\n))()" % e,
        "[i for i in (1,\n2)\nif %s]" % e,
        "{'k':\n %s}" % e,
        "('''a\nb''', %s)" % e,
        "(1 if\n%s else 2)" % e,
        "[(i,\nj) for i in (1,)\n for j in\n %s]" % e,
    ][k]


def output(g, e):
    """The source of something that converts the value of e"""
    pad = g.pick(["", "", "\n", "a\n", "$ok\n", " ", "${literal(1)}\n", "${\nliteral(ok)}"])
    nl = space(g)
    x = g.pick([e, e, "literal(%s)" % e, "literal(\n%s)" % e, "(%s)" % e, "(ok and %s)" % e])
    if "\n" in x:
        # the line is that of the argument, or of the call
        return pad + "${literal(%s\n)}" % e + pad
    return g.pick([
        pad + "${%s%s%s}" % (g.pick(["", "", " ", "\n"]), x, g.pick(["", " ", "\n"])) + pad,
        pad + "$" + e + " " + pad,
        "<p%s class=\"${%s}\">%s</p>" % (nl, x, pad),
        "<p a=\"1\"%s class=\"%s${%s}%s\"/>" % (nl, pad, x, pad),
        "<p%s py:attrs=\"%s{'a': %s}\">x</p>" % (nl, g.pick(["", "\n"]), x),
        "<p%s py:attrs=\"%s[('b', 1), ('a', %s)]\">x</p>" % (nl, g.pick(["", "\n"]), x),
        "<p%s py:attrs=\"%s\">\nx</p>" % (nl, e),
        "<p%s py:attrs=\"items_%s\">\nx</p>" % (nl, e),
        "<p%s py:content=\"%s\">\nx</p>" % (nl, x),
        "<p%s py:replace=\"%s\">\nx</p>" % (nl, x),
        "<py:replace%s value=\"%s\"/>" % (nl, x),
        "<p title=\"$ok\"%s class=\"%s\n$%s\">%s</p>" % (nl, pad, e, pad),
        g.pick(["<script>%s${%s}\n</script>", "<style>%s${%s}\n</style>", "<textarea>%s${%s}</textarea>"]) % (pad, x),
    ])


def site(g, e, depth=2, final=None):
    """The source of something that evaluates e"""
    k = g.n((36 if getattr(g, "blocks", False) else 34) if depth > 0 else 18)
    if final and k <= 18:
        return final(g, e)
    pad = g.pick(["", "", "\n", "a\n", "$ok\n", " "])
    x = expression(g, e)
    nl = space(g)
    if k <= 2:
        return pad + "${%s%s%s}" % (g.pick(["", "", " ", "\n"]), x, g.pick(["", " ", "\n"])) + pad
    if k == 3 and e[0].isalpha():
        return pad + "$" + e + " " + pad
    if k == 4:
        return "<p%s class=\"${%s}\">%s</p>" % (nl, x, pad)
    if k == 5:
        return "<p a=\"1\"%s class=\"%s${%s}%s\"/>" % (nl, pad, x, pad)
    if k == 6:
        return "<p%s py:attrs=\"%s{'a':%s %s}\">x</p>" % (nl, g.pick(["", "\n"]), g.pick(["", "\n"]), x)
    if k == 7:
        return "<p%s py:content=\"%s\">\nx</p>" % (nl, x)
    if k == 8:
        return "<p%s py:replace=%s>\nx</p>" % (nl, "'%s'" % x if "'" not in x else '"%s"' % x)
    if k == 9:
        return "<py:replace%s value=\"%s\"/>" % (nl, x)
    if k == 10:
        return "<p%s py:strip=\"%s\">\nx</p>" % (nl, x)
    if k == 11:
        return "<py:if%s test=\"%s\">\nx</py:if>" % (nl, x)
    if k == 12:
        return "<p%s py:unless=\"%s\">\nx</p>" % (nl, x)
    if k == 13:
        return "<py:for%s each=\"i in %s\">\nx</py:for>" % (nl, x)
    if k == 14:
        return "<p class='a'%s py:for=\"i in %s\">\nx</p>" % (nl, x)
    if k == 15:
        return "<py:with%s vars=\"%sa1 = 1%sa2 = %s\">\nx</py:with>" % (nl, g.pick(["", "", "\n"]), g.pick(["; ", "\n", "\n\n"]), x)
    if k == 16:
        return "<p%s py:with=\"a1 = %s; a2 = 2\">\nx</p>" % (nl, x)
    if k == 17:
        return "<?python%sa3 = 1\na4 = %s\na5 = 3\n?>" % (g.pick([" ", "\n", "\n\n"]), x)
    if k == 18:
        return g.pick(["<script>%s${%s}\n</script>", "<style>%s${%s}\n</style>", "<textarea>%s${%s}</textarea>"]) % (pad, x)
    inner = site(g, e, max(depth - 1, 0), final)
    before, after = fillers(g), filler(g)
    return wrap(g, before + inner + after, max(k - 19, 0))


def wrap(g, body, k):
    if not hasattr(g, "on_path"):
        g.on_path = []
    n = len(g.on_path)
    g.on_path.append({
        7: "s%d = 1" % n, 8: "t%d = 1" % n, 13: "u%d = 1" % n, 14: "${loc%d()}" % n, 16: "blk%d" % n,
        17: "blk%d" % n,
    }.get(k))
    return [
        "<div>%s</div>" % body,
        "<div\n class='a'>%s</div>" % body,
        "<py:if test=\"ok\">%s</py:if>" % body,
        "<py:if test=\"1\">%s</py:if>" % body,
        "<py:unless test=\"not (\nok)\">%s</py:unless>" % body,
        "<py:for each=\"i in (1,\n2)\">%s</py:for>" % body,
        "<p py:for=\"i in [1]\">%s</p>" % body,
        "<py:with\nvars=\"s%d = 1\">%s</py:with>" % (n, body),
        "<p py:with=\"t%d = 1\nr = 2\"\n>%s</p>" % (n, body),
        "<p py:strip=\"\">%s</p>" % body,
        "<p title=\"$ok\" py:if=\"ok\">%s</p>" % body,
        "<p py:attrs=\"{'a': 'b'}\">%s</p>" % body,
        "<script></script><p>%s</p>" % body,
        "<p py:if=\"ok\"\npy:for=\"i in (1,)\" py:with=\"u%d = 1\">%s</p>" % (n, body),
        "<py:def function=\"loc%d\">\n%s</py:def>\n${loc%d()}" % (n, body, n),
        "<i></i>" + body,
        "<py:block\nname=\"blk%d\">%s</py:block>" % (n, body),
        "<p\npy:block='blk%d'\n>%s</p>" % (n, body),
    ][k]


ATTRIBUTE = re.compile(r"""(?<=\s)(class|title|alt|x\d|py:[a-z]+|test|each|vars|name|value|function|href|alias)(?=\s*=\s*["'])""")


def upper(g, source):
    """The case of the names of attributes does not matter"""
    return ATTRIBUTE.sub(lambda m: g.pick([m.group().upper(), m.group().title(), m.group()]), source)


KINDS = ["boom", "boom", "boom", "boom", "bad", "bad", "name", "attr", "key", "zero", "type", "str"]


def failing(g):
    """The expression that fails, its search string, what it raises"""
    kind = g.pick(KINDS)
    return {
        "boom": ("boom('<é>', 99)", "Boom"),
        "name": ("undefined_99", "NameError"),
        "attr": ("ok.attr_99", "AttributeError"),
        "key": ("dict()['key_99']", "KeyError"),
        "zero": ("(99//0)", "ZeroDivisionError"),
        "type": ("len(99)", "TypeError"),
        "str": ("'99'.nope()", "AttributeError"),
        "bad": ("bad_99", "KeyError"),
    }[kind]


def function(g, name, body):
    pad = fillers(g)
    body = pad + body + filler(g)
    k = g.n(4)
    sig = g.pick(["%s(k)", "%s(k, b=1)", "%s(k,\nb=1)", "%s(k, *a)"]) % name
    if k == 0:
        return "<div py:def=\"%s\">%s</div>" % (sig, body)
    if k == 1:
        return "<py:def\n function='%s'>%s</py:def>" % (sig, body)
    return "<py:def function=\"%s\">%s</py:def>" % (sig, body)


def build(draw):
    """
    A chain of functions over several files; the last fails. expect: the
    strings to be found, with their files, from the outside in.
    """
    g = gen.Gen(draw)
    fail, exc = failing(g)
    if g.n(4):
        case = chain(g, fail)
    else:
        # a function that is called renders another template, which fails
        case = chain(g, g.pick(["nested(%d)", "nested(\n%d)", "nested_str_%d"]) % 98)
        within = chain(g, fail)
        case["files"].update({"in/" + name: source.replace('href="', 'href="in/') for name, source in within["files"].items()})
        case["expect"] += [["in/" + name, text] for name, text in within["expect"]]
        case["names"] += within["names"]
        case["labels"] = ["nested"] + case["labels"]
    if g.n(2) == 0:
        case["files"] = {name: upper(g, source) for name, source in case["files"].items()}
    how = "plain"
    if exc == "Boom":
        how = g.pick(HOWS) if g.n(2) else "plain"
        exc = {"slotted": "Slotted", "falsy": "Falsy", "base": "BoomBase", "group": "ExceptionGroup"}.get(how, exc)
    case.update({"exc": exc, "how": how, "inside": g.chance(4)})
    return case


def chain(g, fail):
    shape = g.n(5)
    length = g.n(3)
    if shape >= 3:
        files = {"main.tk": [], "base.tk": [], "lib.tk": []}
    else:
        files = {"main.tk": [], "lib.tk": []}
    expect = []
    functions = []
    where = []
    # the file of every function, an imported one stays in its library
    current = "main.tk"
    for i in range(1, length + 1):
        if current != "lib.tk":
            current = g.pick([f for f in files if f != "base.tk"] + (["base.tk"] if shape >= 3 else []))
        where.append(current)
    previous = "main.tk"
    names = []
    calls = []
    for i in range(1, length + 1):
        if where[i - 1] == "lib.tk" and previous != "lib.tk":
            calls.append("lib.fn%d(%d)" % (i, i))
        else:
            calls.append("fn%d(%d)" % (i, i))
        previous = where[i - 1]
    calls.append(fail)
    # what has a frame of its own on the way to the call, from the inside out
    g.on_path = []

    def place(name, i):
        final = output if calls[i] in ("bad_99", "nested_str_98") else None
        # a block within a function would be on its own when its function is not called
        g.blocks = i == 0
        first = len(g.on_path)
        names.append('def "fn%d"' % i if i else "top-level template code")
        rv = site(g, calls[i], 2, final)
        expect.extend([name, x] for x in reversed(g.on_path[first:]) if x)
        for x in reversed(g.on_path[first:]):
            if x and x[0] in "$b":
                names.append('block "%s"' % x if x[0] == "b" else 'def "%s"' % x.strip("${()}"))
        expect.append([name, calls[i]])
        return rv

    main_site = place("main.tk" if shape < 5 else "base.tk", 0)
    for i in range(1, length + 1):
        functions.append((where[i - 1], function(g, "fn%d" % i, place(where[i - 1], i))))

    for f, source in functions:
        files[f].append(source)

    def document(parts, body):
        pre = g.pick(["", "", "\n", "<!-- x\n -->", "<!DOCTYPE html>\n", "<!DOCTYPE html>"])
        parts = list(parts)
        at = g.n(len(parts))
        parts.insert(at, body)
        return pre + "<html>%s%s</html>" % (fillers(g), fillers(g).join([""] + parts + [""]))

    use_lib = any(w == "lib.tk" for w in where)
    uses = '<py:import href="lib.tk" alias="lib"/>%s' % g.pick(["", "\n"]) if use_lib else ""
    out = {}
    if use_lib:
        out["lib.tk"] = document(files["lib.tk"], "x")
    labels = ["length%d" % length]
    if shape >= 3:
        # main extends base
        block = "blk"
        if shape == 5:
            # the call is in the base, whose functions may be in the child
            labels.append("base-calls")
            base_body = uses + main_site
            main_extra = ""
        else:
            labels.append("block")
            base_body = "<py:block name=\"blk\">\nold</py:block>"
            main_extra = "<py:block name=\"blk\">%s%s</py:block>" % (filler(g), main_site)
            expect.insert(0, ["base.tk", "=\"blk\""])
            names.insert(1, 'block "blk"')
        # both may need the library
        out["base.tk"] = document(files["base.tk"] + ([uses] if use_lib and shape != 5 else []), base_body)
        head = g.pick(["", "\n", "<!-- a\n -->"])
        out["main.tk"] = head + "<py:extends href=\"base.tk\"%s>\n%s%s%s</py:extends>" % (
            g.pick(["", "\n"]), uses, "\n".join(files["main.tk"]), main_extra)
    else:
        body = main_site
        if shape == 1:
            labels.append("block")
            body = g.pick(["<py:block\nname=\"blk\">%s</py:block>", "<p\nclass=''\n py:block=\"blk\">%s</p>"]) % body
            expect.insert(0, ["main.tk", "=\"blk\""])
            names.insert(1, 'block "blk"')
        out["main.tk"] = document(files["main.tk"] + ([uses] if uses else []), body)
    return {"files": out, "expect": expect, "names": names, "labels": labels}


# ------------------------------------------------------------------ deciding


class Ok:
    x = 1

    def __call__(self, *a, **kw):
        return self

    def __str__(self):
        return "ok"


def reaches(error, outer):
    while error is not None and error is not outer:
        error = error.__context__
    return error is outer


def check(case):
    raised = []
    how = case.get("how", "plain")

    other_template = []

    def other():
        other_template[0].render({})

    boom = raiser(how, raised, other)
    ctx = {"boom": boom, "ok": Ok(), "bad_99": Bad(), "items_bad_99": BadItems(a=1)}
    files = case["files"]
    ctx["nested"] = lambda n: loader.load("in/main.tk").render(ctx)
    ctx["nested_str_98"] = Converted(ctx["nested"])
    ctx["items_nested_str_98"] = ConvertedItems(ctx["nested"])
    with real.TemplateDir(files) as d:
        loader = real.FileLoader(paths=[d.path])
        template = loader.load("main.tk")
        if how.startswith("template-"):
            other_template.append(loader.load_string("<p>\n\n${1//0}</p>", "other.tk"))

        def render():
            try:
                return template.render(ctx)
            except BaseException as e:
                return e

        expected = None
        if raised or how != "plain":
            # what it is like without templates
            try:
                boom("<é>", 99)
            except BaseException as e:
                expected = chained(e)
                e.__traceback__ = None
            if how != "again":
                raised.clear()
        if case.get("inside"):
            # while another error is handled
            try:
                raise LookupError("outer")
            except LookupError as outer:
                error = render()
                if isinstance(error, BaseException) and how not in ("again", "none", "cause") and not reaches(error, outer):
                    raise Violation("%r is no more in the context of the outer error" % error, **case)
        else:
            error = render()
            if expected is not None and isinstance(error, BaseException) and chained(error) != expected:
                raise Violation("the error is %r, expected %r" % (chained(error), expected), **case)
        if not isinstance(error, BaseException):
            raise Violation("no error, the output is %r" % error, **case)

        if type(error).__name__ != case["exc"]:
            raise Violation("raised %r, expected %s" % (error, case["exc"]), **case)
        if raised and error is not raised[-1]:
            raise Violation("another error than the one that was raised: %r" % error, **case)
        if raised and (error.number != 99 or how != "group" and error.args != ("<é>", 99)):
            raise Violation("the error has changed: %r %r" % (error, error.args), **case)

        frames = []
        names = []
        for f in traceback.extract_tb(error.__traceback__):
            for name in files:
                if f.filename == d.path + "/" + name:
                    frames.append((name, f.lineno))
                    if f.name.startswith(('def "fn', 'def "loc', "block", "top-level")):
                        names.append(f.name)

    want = []
    for name, text in case["expect"]:
        source = files[name]
        at = source.find(text)
        if source.count(text) != 1 and not text.startswith(("blk", "bad", "nested_str")):
            # the number has become part of another one
            return Info(False, ["ambiguous"])
        want.append((name, source[:at].count("\n") + 1))

    rest = iter(frames)
    missing = [w for w in want if not any(f == w for f in rest)]
    if missing or not frames or frames[-1] != want[-1]:
        raise Violation(
            "the frames of templates are %r, expected are %r, and the last one to be the last" % (frames, want), **case
        )
    # only errors that are Exceptions get the names
    if how != "base" and names != case.get("names", names):
        raise Violation("the names of the frames of templates are %r, expected are %r" % (names, case["names"]), **case)
    # lambdas and comprehensions are functions of their own; their expressions and the beginning of those are near
    for name, line in frames:
        if not any(n == name and abs(line - x) <= 6 for n, x in want):
            raise Violation("there is a frame in %s at line %d; expected are %r, all are %r" % (name, line, want, frames), **case)
    lines = [line for _, line in want]
    return Info(max(lines) > 1, case["labels"] + [case["exc"], "raised " + how] + (["while handling an error"] if case.get("inside") else []))


# ---------------------------------------------- templates that do not load


def build_loading(draw):
    """Importing or extending a template fails, when the template is rendered"""
    g = gen.Gen(draw)
    g.on_path, g.blocks = [], False
    lib = "<html>%s<py:def\nfunction=\"fn(a=%s)\">x</py:def>%s</html>" % (fillers(g), "boom('<é>', 99)", fillers(g))
    missing = g.n(2) == 0
    extends = g.n(2) == 0
    files = {} if missing else {"lib.tk": lib}
    if extends:
        # a parent that does not exist is an error of loading
        files = {"lib.tk": lib}
        missing = False
        files["main.tk"] = "%s<py:extends%s href=\"lib.tk\"%s>%s</py:extends>" % (
            g.pick(["", "\n", "\n<!-- a\n -->\n"]), g.pick(["", "\n", "\n\n"]), g.pick(["", "\n"]), g.pick(["", "\n"]))
    else:
        body = "<py:import%s %s%s></py:import>" % (
            g.pick(["", "\n", "\n\n"]), g.pick(["alias='lib' href='lib.tk'", "href='lib.tk'\nalias='lib'", "alias='lib'\nhref='lib.tk'"]),
            g.pick(["", "\n"]))
        for _ in range(g.n(2)):
            body = wrap(g, fillers(g) + body + fillers(g), g.n(17))
        files["main.tk"] = "<html>%s%s%s</html>" % (fillers(g), body, fillers(g))
    expect = [["main.tk", x] for x in reversed(g.on_path) if x] + [["main.tk", "lib.tk"]] + ([] if missing else [["lib.tk", "boom"]])
    return {"files": files, "expect": expect, "exc": "FileNotFoundError" if missing else "Boom"}


def check_loading(case):
    raised = []
    files = case["files"]
    with real.TemplateDir(files) as d:
        template = real.FileLoader(paths=[d.path]).load("main.tk")
        try:
            out = template.render({"boom": raiser("plain", raised, None), "ok": Ok()})
        except Exception as e:
            error = e
        else:
            raise Violation("no error, the output is %r" % out, **case)
        if case["exc"] == "Boom" and error is not raised[-1] or type(error).__name__ not in (case["exc"], "OSError"):
            raise Violation("raised %r, expected %s" % (error, case["exc"]), **case)
        frames = [
            (name, f.lineno) for f in traceback.extract_tb(error.__traceback__) for name in files
            if f.filename == d.path + "/" + name
        ]
    want = [(name, files[name][: files[name].index(text)].count("\n") + 1) for name, text in case["expect"]]
    if any(name == "main.tk" and files[name].count(text) > 1 and "blk" not in text for name, text in case["expect"]):
        return Info(False, ["ambiguous"])
    if frames != want:
        raise Violation("the frames of templates are %r, expected are %r" % (frames, want), **case)
    return Info(want[0][1] > 1, [case["exc"]])


# ------------------------------------------------- functions that call themselves


def build_recursion(draw):
    """Functions that call each other several times before one fails: as many frames"""
    g = gen.Gen(draw)
    g.on_path, g.blocks = [], False
    number = 1 + g.n(2)
    sources = []
    for i in range(number):
        target = g.n(number - 1)
        body = "%s${fn%d(n - 1) if n else boom('<é>', 99)}%s" % (g.pick(["", "\n", "a\n\n"]), target, filler(g))
        if g.n(1):
            body = g.pick(["<p title=\"$ok\"\n>%s</p>", "<py:for each=\"i in (1, 2)\">\n%s</py:for>", "<p py:if=\"n is not (\nNone)\">%s</p>"]) % body
        sources.append(["<py:def function=\"fn%d(n)\">%s%s</py:def>" % (i, fillers(g), body), target])
    times = g.pick([0, 1, 2, 5, 20, 60])
    body = fillers(g) + "${fn0(%d)}" % times + fillers(g)
    return {
        "files": {"main.tk": "<html>%s%s%s</html>" % (fillers(g), "\n".join(s for s, _ in sources), body)},
        "targets": [t for _, t in sources], "times": times,
    }


def check_recursion(case):
    source = case["files"]["main.tk"]
    raised = []
    with real.TemplateDir(case["files"]) as d:
        template = real.FileLoader(paths=[d.path]).load("main.tk")
        try:
            out = template.render({"boom": raiser("plain", raised, None), "ok": Ok()})
        except Exception as e:
            error = e
        else:
            raise Violation("no error, the output is %r" % out, **case)
        if error is not raised[-1]:
            raise Violation("raised %r" % error, **case)
        frames = [
            (f.name, f.lineno) for f in traceback.extract_tb(error.__traceback__) if f.filename == d.path + "/main.tk"
        ]

    def line(text, start=0):
        return source[: source.index(text, start)].count("\n") + 1

    want = [("top-level template code", line("${fn0(%d)}" % case["times"]))]
    at = 0
    for _ in range(case["times"] + 1):
        want.append(('def "fn%d"' % at, line("(n - 1) if n else", source.index('function="fn%d(n)"' % at))))
        at = case["targets"][at]
    if frames != want:
        raise Violation("the frames of templates are %r, expected are %r" % (frames, want), **case)
    return Info(case["times"] > 1, ["%d calls" % case["times"]])


FAMILIES = [
    Family(
        "recursion",
        lambda: gen.case_strategy(build_recursion),
        check_recursion,
        quick=2400,
        thorough=50000,
        rule="one to three functions that call each other up to 60 times, then fail; the traceback must have exactly the frame of "
        "every call; non-trivial: more than one call",
    ),
    Family(
        "loading",
        lambda: gen.case_strategy(build_loading),
        check_loading,
        quick=5000,
        thorough=100000,
        rule="a template imports, at the top or within structures, or extends a template whose functions' defaults fail, or that does "
        "not exist; the traceback must have exactly the frames of the import and of the default; non-trivial: not on the first line",
    ),
    Family(
        "chains",
        lambda: gen.case_strategy(build),
        check,
        quick=14000,
        thorough=350000,
        rule="a chain of up to three functions in a template, its parent and an imported one, ends in an expression "
        "that fails; calls and the failing expression are in every kind of position, with multi-line fillers around, or it is such "
        "a chain in a template that is rendered by a function; "
        "the traceback must have the file, line and name of each; non-trivial: not all on the first line",
    ),
]
