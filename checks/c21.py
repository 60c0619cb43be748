"""The lines that syntax errors name, against where the malformed construct is."""

import os
import traceback

from tklib import gen, real
from tklib.harness import Family, Info, Violation

from . import c14

ID = "C21"
ASSUMPTIONS = [
    "the line of an error in Python code is the one that Python gives for that code on its own",
    "the line of code or a tag that is not closed may be any up to where it was noticed",
]
BEGIN, END = "\x01", "\x02"

BAD = [
    "a b", "1 2", "a if b", "not", "a..b", "f(a b)", "[1 2]", "1 +", "*", "lambda", "x for", "f(a=1, b)", "None = 1", "(a b)", "{1: }",
    "f'{a b}'", "a.1", "import x", "if", "return a", "a; b", "f(**a, *b)", "a in", "in a", "f(1=2)", "a = 1", "(a, b", "a +* b", "def f(): pass",
    # these are found by the compiler
    "(lambda p, p: 1)", "f(k=1, k=2)", "[(i := 0) for i in a]", "f(__debug__=1)", "(await a)", "[*a for x in y]", "(lambda p=1, q: 1)", "(*a)",
    # and these by the tokenizer
    "0777", "1__0", "0x", "a ? b", "1a",
]
TOKENS = ["0777", "1__0", "0x", "a ? b", "1a", "(a, b", "a.1"]
BAD_STATEMENTS = ["a b", "if a", "a = ", "def f(:\n  pass", "while:\n  pass", "a b = 1", "import", "for a", "x = (1 2)", "class", "1 = a", "f() = 1", "del f()", "nonlocal zq", "b3 = 1\n  indented = 1", "import *", "from a import"]


def python_line(code, mode):
    """The line of the error that Python finds in the code"""
    try:
        compile(code, "<test>", mode)
    except SyntaxError as e:
        return e.lineno
    return None


def marked(code, line):
    """The code with marks around the beginning of the line"""
    lines = code.split("\n")
    lines[line - 1] = BEGIN + END + lines[line - 1]
    return "\n".join(lines)


def bad_code(g, mode, pattern="%s"):
    """Code with an error, with marks around the line it is at"""
    bad = g.pick(BAD)
    if mode == "args" and bad == "(a, b":
        # goes on in the text that follows
        return None
    code = pattern % c14.expression(g, bad)
    if mode == "exec" and g.n(1):
        bad = g.pick(BAD_STATEMENTS)
        code = "%s%s%s" % (g.pick(["", "b1 = 1\n", "b1 = (1,\n2)\n\n", "# c\n"]), bad, g.pick(["", "\nb2 = 2", "\n\n"]))
    source = {"eval": "%s", "exec": "%s", "for": "for %s: pass", "def": "def %s: pass", "args": "f(%s)"}[mode] % code
    line = python_line(source + "\n", "eval" if mode in ("eval", "args") else "exec")
    if line is None:
        return None
    if bad in TOKENS:
        return BEGIN + marked(code, line).replace(BEGIN, "")
    return marked(code, line)


def code_site(g):
    """Malformed code in one of the places for it"""
    k = g.n(21)
    nl = c14.space(g)
    pad = g.pick(["", "", "\n", "a\n", "$ok\n", " ", "&amp;\n"])

    def code(mode="eval", pattern="%s", lead=""):
        rv = bad_code(g, mode, pattern)
        while rv is None:
            rv = bad_code(g, mode, pattern)
        if rv.startswith(BEGIN):
            return BEGIN + lead + rv[1:]
        return lead + rv

    lead = g.pick(["", "", " ", "\n", "\n\n "])
    if k <= 2:
        return pad + "${%s%s}" % (code(lead=lead), g.pick(["", " ", "\n"])) + pad
    if k == 3:
        return pad + "$ok(%s)" % code("args") + pad
    if k == 4:
        return "<p%s class=\"${%s}\">%s</p>" % (nl, code(lead=lead), pad)
    if k == 5:
        return "<p a=\"1\"%s class=\"%s${%s}%s\"\n/>" % (nl, pad, code(), pad)
    if k == 6:
        return "<p%s py:attrs=\"%s\">x</p>" % (nl, code(pattern="{'a': %s}", lead=lead))
    if k == 7:
        return "<p%s py:content=\"%s\">\nx</p>" % (nl, code(lead=lead))
    if k == 8:
        return "<p%s py:replace=\"%s\" \n>\nx</p>" % (nl, code())
    if k == 9:
        return "<py:replace%s value=\"%s\"/>" % (nl, code())
    if k == 10:
        return "<p%s py:strip=\"%s\">\nx</p>" % (nl, code())
    if k == 11:
        return "<py:if%s test=\"%s\">\nx</py:if>" % (nl, code())
    if k == 12:
        return "<p%s py:unless=\"%s\">\nx</p>" % (nl, code())
    if k == 13:
        return "<py:for%s each=\"%s\">\nx</py:for>" % (nl, code("for", "i in %s"))
    if k == 14:
        return "<p class='a'%s py:for=\"%s\">\nx</p>" % (nl, code("for", g.pick(["i in %s", "i, j in %s"])))
    if k == 15:
        return "<py:with%s vars=\"%s\">\nx</py:with>" % (nl, code("exec", "a1 = 1%sa2 = %%s" % g.pick(["; ", "\n", "\n\n"])))
    if k == 16:
        return "<p%s py:with=\"%s\">\nx</p>" % (nl, code("exec", "a1 = %s"))
    if k == 17:
        return "<?python%s%s\n?>" % (g.pick([" ", "\n", "\n\n"]), code("exec", g.pick(["a4 = %s", "a3 = 1\na4 = %s", "ok(%s)\n"])))
    if k == 18:
        return g.pick(["<script>%s${%s}\n</script>", "<style>%s${%s}\n</style>", "<textarea>%s${%s}</textarea>"]) % (pad, code())
    if k == 19:
        return "<py:def%s function=\"%s\">\nx</py:def>" % (nl, code("def", g.pick(["fx(a=%s)", "fx(b,\na=%s)"])))
    if k == 20:
        return "<p%s py:def=\"%s\">x</p>" % (nl, code("def", "fx(a, b=%s)"))
    return "<p\npy:if=\"ok\"%s py:for=\"%s\"\n>\nx</p>" % (nl, code("for", "i in %s"))


def structure(g):
    """Something else that is malformed"""
    k = g.n(27)
    nl = g.pick(["", "\n", " \n  "])
    at = c14.space(g)
    body = c14.filler(g)
    mark = BEGIN + END
    return [
        "\x01&nosuch;\x02", "a\n\x01&nosuch;\x02\nb", "\x01&#xD800;\x02", "\n&amp;\n\x01&#1114112;\x02", "\x01&%s;\x02" % g.pick(["Amp", "lt2", "foo", "apos"]),
        "<b%s>%s%s</i>" % (nl, body, mark), "<b>%s\x01</b%s\x02></b>" % (body, nl), "\x01</dfn%s>\x02" % nl,
        "\x01<p%s py:nosuch=\"1\"\x02%s>%s</p>" % (at, nl, body), "\x01<p a='%s' py:nosuch=\"1\"\x02/>" % nl,
        "\x01<p py:if=\"ok\"%s py:else\x02>%s</p>" % (nl, body),
        "\x01<py:nosuch%s>\x02%s</py:nosuch>" % (nl, body), "\x01<py:nosuch%s a='1'/>\x02" % nl,
        "\x01<py:%s%s>\x02%s</py:if>" % ("if", nl, body), "\x01<py:for%s each/>\x02" % nl, "\x01<py:with names='a'%s>\x02%s</py:with>" % (nl, body),
        "\x01<py:block%s/>\x02" % nl, "\x01<py:def name='fx()'%s/>\x02" % nl, "\x01<py:import%s href='lib.tk'/>\x02" % nl,
        "<py:block%s name=\"\x01%s\x02\">%s</py:block>" % (at, g.pick(["a b", "1", "", "a-b", "if"]), body),
        "<p%s py:block=\"\x01%s\x02\">%s</p>" % (at, g.pick(["a b", "1", "a.b", "é!"]), body),
        "<py:import href='lib.tk'%s alias=\"\x01%s\x02\"/>" % (at, g.pick(["a b", "1", "a.b", "for"])),
        "\x01<py:import href='lib.tk' alias='lib'%s>\x02x</py:import>" % nl,
        "\x01<![if x]>\x02", "\x01<!DOCTYPE html>\x02",
        "\x01<py:for%s each=\"%s\">\x02x</py:for>" % (nl, g.pick(["a of b", "i", "in x", "f() in x", "1 in x"])),
        "<p%s py:for=\"\x01%s\x02\"%s>x</p>" % (at, g.pick(["a of b", "i", "in x", "f() in x"]), nl),
        "${\x01ok%s" % g.pick(["", "(1", "\n", " a\nb"]),
    ][k]


def outside(g, document):
    """Malformed around the root element"""
    body = c14.fillers(g).replace("${", "$$").replace("$", "$$$$")
    return [
        document + "\n" + "\x01<i>\x02x</i>",
        document + "\n\x01text\x02\n",
        "\x01text\x02\n" + document,
        document + "\n\n\x01</html>\x02\n",
        "<!-- a\n -->\n\x01<!DOCTYPE html\n foo>\x02\n" + document,
        document + "\n<!-- a\n -->\n\x01$ok\x02",
        "\n\x01${a b}\x02\n" + document,
    ][g.n(6)]


def build(draw):
    g = gen.Gen(draw)
    k = g.n(9)
    pre = g.pick(["", "", "\n", "<!-- x\n -->\n", "<!DOCTYPE html>\n", "<!DOCTYPE html>", "\n\n  "])
    if k == 0:
        source = pre + outside(g, "<html>%s</html>" % c14.fillers(g))
    else:
        body = code_site(g) if k <= 6 else structure(g)
        body = c14.fillers(g) + body
        if "\x01ok" in body and "${\x01" in body:
            # ends where the text does, but what follows may be code
            source = pre + "<html>%s%s<b/></html>" % (c14.fillers(g), body + END)
        else:
            for _ in range(g.n(2)):
                body = c14.wrap(g, body + c14.filler(g), g.n(15))
                body = c14.fillers(g) + body
            root = g.pick(["html", "html", "html\n class=\"a\nb\"", "py:if test=\"1\""])
            source = pre + "<%s>%s%s</%s>" % (root, body, c14.fillers(g), root.split()[0])
    if g.n(3) == 0:
        source = c14.upper(g, source)
    return {"source": source, "through": g.pick(["string", "file", "parent", "import"])}


def lines_of(marked_source):
    """The source, its first and last lines where the error may be"""
    first = marked_source[: marked_source.index(BEGIN)].count("\n") + 1
    last = marked_source[: marked_source.index(END)].count("\n") + 1
    return marked_source.replace(BEGIN, "").replace(END, ""), first, last


def verify(error, source, filename, first, last, case):
    details = dict(case, source=source)
    if not isinstance(error, real.TemplateSyntaxError):
        raise Violation("raised %r, expected a syntax error" % error, **details)
    if not first <= (error.lineno or 0) <= last:
        raise Violation(
            "the error %r is said to be at line %s, it is at %s" % (error.message, error.lineno, (first, last)), **details)
    if error.filename != filename:
        raise Violation("the error is said to be in %r, it is in %r" % (error.filename, filename), **details)
    if error.source != source:
        raise Violation("the source of the error is %r" % error.source, **details)


def check(case):
    source, first, last = lines_of(case["source"])
    through = case["through"]
    files = {"main.tk": source, "lib.tk": "<html>\n\n\n</html>"}
    if through in ("parent", "import"):
        files["wrong.tk"] = source
        files["main.tk"] = {
            "parent": "<py:extends href='wrong.tk'>\n\n</py:extends>",
            "import": "<html>\n<py:import href='wrong.tk' alias='w'/></html>",
        }[through]
    with real.TemplateDir(files) as d:
        loader = real.FileLoader(paths=[d.path])
        filename = os.path.join(d.path, "wrong.tk" if "wrong.tk" in files else "main.tk")
        try:
            if through == "string":
                filename = "some/<name>.tk"
                loader.load_string(source, filename)
            else:
                loader.load("main.tk").render({"ok": c14.Ok()})
        except Exception as e:
            error = e
        else:
            raise Violation("no error", **dict(case, source=source))

    verify(error, source, filename, first, last, case)
    frames = [(f.filename, f.lineno) for f in traceback.extract_tb(error.__traceback__)]
    if frames[-1] != (filename, error.lineno):
        raise Violation("the traceback ends at %s" % (frames[-1],), **dict(case, source=source))
    text = "".join(traceback.format_exception(error))
    if 'File "%s", line %d' % (filename, error.lineno) not in text or error.message not in text:
        raise Violation("the traceback is %s" % text, **dict(case, source=source))
    return Info(first > 1, [through, "exact" if first == last else "range"])


# ------------------------------------------------------ the other two languages

OTHER_BAD = ["a b", "f(a b)", "[1 2]", "1 +", "(a, b", "(1,\n 2 3)"]


def build_other(draw):
    g = gen.Gen(draw)
    syntax = g.pick(["chameleon", "js"])
    nl = c14.space(g)
    bad = BEGIN + g.pick(OTHER_BAD) + END
    if syntax == "js":
        body = [
            "${%s}" % bad, "<p%s class=\"${%s}\">x</p>" % (nl, bad), "<p%s js:if=\"%s\">x</p>" % (nl, bad), "<js:if%s test=\"%s\">x</js:if>" % (nl, bad),
            "<p%s js:content=\"%s\">x</p>" % (nl, bad), "\x01<js:if%s>\x02x</js:if>" % nl, "\x01<p%s js:nosuch='1'\x02/>" % nl,
            "\x01<js:nosuch/>\x02", "\x01&nosuch;\x02", "<b>\n\x01</i>\x02",
            "\x01<js:for%s each=\"%s\">\x02x</js:for>" % (nl, g.pick(["a of b", "i", "in x"])),
            "<p%s js:for=\"\x01%s\x02\">x</p>" % (nl, g.pick(["a of b", "i", "in x"])),
            "\x01<js:for%s>\x02x</js:for>" % nl, "<p%s js:for=\"i in %s\">x</p>" % (nl, bad), "<p%s js:strip=\"%s\">x</p>" % (nl, bad),
            "\x01<js:block%s></js:block>\x02" % nl, "<p%s js:block=\"\x01%s\x02\">x</p>" % (nl, g.pick(["a b", "1"])),
            "<p%s js:def=\"\x01%s\x02\">x</p>" % (nl, g.pick(["a b", "1", "f(a b)", "f(", "f(1)"])),
            "<js:def%s function=\"\x01%s\x02\">x</js:def>" % (nl, g.pick(["a b", "1", "f(a b)"])),
            "<p%s js:for=\"\x01%s in x\x02\">x</p>" % (nl, g.pick(["i j", "1", "i.a"])),
            "<p%s js:for=\"i in\n%s\">x</p>" % (nl, bad),
        ][g.n(20)]
        wraps = ["<js:for\n each='i in y'>%s</js:for>", "<p\njs:for='i in y'>\n%s</p>", "<js:if test='a'>%s</js:if>", "<p js:if='a'>\n\n%s</p>",
                 "<js:block name='bb'>\n%s</js:block>", "<js:def function='ff(x)'>%s</js:def>", "<p\n>%s</p>", "<p js:strip='a'\n>%s</p>"]
        pads = ["\n", "text\n\n", "<p>\n</p>", "<!-- a\n -->", "$$\n", "${ok}\n", "<p js:if=\"ok\">\n</p>", "<p\nclass='a\nb'/>"]
    else:
        body = [
            "${%s}" % bad, "<p%s class=\"${%s}\">x</p>" % (nl, bad), "<p%s tal:condition=\"%s\">x</p>" % (nl, bad),
            "<p%s tal:repeat=\"i in %s\">x</p>" % (nl, bad), "<p%s tal:content=\"%s\">x</p>" % (nl, bad), "<p%s tal:replace=\"%s\">x</p>" % (nl, bad),
            "\x01&nosuch;\x02", "<b>\n\x01</i>\x02", "\x01<?x\ny?>\x02",
        ][g.n(8)]
        wraps = ["<p\ntal:repeat='i in y'>\n%s</p>", "<p tal:condition='a'>\n%s</p>", "<p\n>%s</p>", "<p tal:omit-tag='a'\n>%s</p>"]
        pads = ["\n", "text\n\n", "<p>\n</p>", "<!-- a\n -->", "$$\n", "${ok}\n", "<p tal:condition=\"ok\">\n</p>", "<p\nclass='a\nb'/>"]

    def fill():
        return "".join(g.pick(pads) for _ in range(g.n(3)))

    for _ in range(g.n(3)):
        body = g.pick(wraps) % (fill() + body) + fill()
    return {"syntax": syntax, "source": "%s<html>%s%s%s</html>" % (g.pick(["", "\n", "<!-- a\n-->\n"]), fill(), body, fill())}


def check_other(case):
    source, first, last = lines_of(case["source"])
    name = "name of.tk"
    try:
        if case["syntax"] == "js":
            real.JSLoader().load_string(source, name)
        else:
            real.Loader(syntax="chameleon").load_string(source, name)
    except Exception as e:
        verify(e, source, name, first, last, case)
    else:
        raise Violation("no error", **dict(case, source=source))
    return Info(first > 1, [case["syntax"]])


FAMILIES = [
    Family(
        "errors",
        lambda: gen.case_strategy(build),
        check,
        quick=30000,
        thorough=300000,
        rule="documents with exactly one malformed construct - code in any position, tags, entities, attributes and "
        "elements of control, names, declarations, text around the root - with multi-line fillers and elements "
        "around, loaded from a string, a file, and as a parent or an import; the error and its traceback must have "
        "the file, the source and the line, for code the very line that Python gives; non-trivial: not on the first line",
    ),
    Family(
        "languages",
        lambda: gen.case_strategy(build_other),
        check_other,
        quick=10000,
        thorough=100000,
        rule="the same for Chameleon templates and templates compiled to JavaScript; non-trivial: not on the first line",
    ),
]
