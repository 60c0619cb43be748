"""Interpolated values are escaped exactly once, in every position of output."""

import html.parser

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C01"

EVIL = ["<", ">", "&", '"', "'", "&amp;", "&lt;", "&#34;", "<b>", "</b>", "</script>", '" x="', "' y='", "<!--",
        "-->", "]]>", "a", " ", "é", "中", "😀", "&#39;", "\x00", "\u2028", "%", "{}", "$v0", "\n", "zz"]


def value(g, depth=1):
    k = g.n(21)
    if k < 9:
        return g.string(EVIL, 5)
    if k == 9:
        # long strings, of every kind of representation
        s = g.string(EVIL, 6)
        return {"$": "rep", "v": [s, 1 + g.draw(gen.st.integers(0, 3000))]}
    return [
        lambda: {"$": "markup", "v": g.string(EVIL)},
        lambda: {"$": "str", "v": g.string(EVIL)},
        lambda: {"$": "html", "v": g.string(EVIL)},
        lambda: {"$": "sub", "v": g.string(EVIL)},
        lambda: {"$": "htmlsub", "v": g.string(EVIL)},
        lambda: {"$": "bytes", "v": g.string(EVIL)},
        lambda: [value(g, depth - 1) for _ in range(g.n(2))] if depth else [],
        lambda: {"$": "tuple", "v": [g.string(EVIL)]},
        lambda: {"k<": g.string(EVIL)},
        lambda: g.draw(gen.st.integers(-(10**25), 10**25)),
        lambda: {"$": "intsub", "v": g.n(9)},
        lambda: g.draw(gen.st.sampled_from([None, True, False, 1.5, "", {"$": "float", "v": "nan"}])),
    ][k - 10]()


def output(g, var, names, depth):
    """An expression whose value is the given variable's, possibly passed through others"""
    k = g.n(11 if depth else 2)
    if k <= 2:
        return var
    if k == 3:
        return "(%s)" % var
    if k == 4:
        return "[%s][0]" % var
    if k == 5:
        return "%s if 1 else 2" % var
    if k == 6:
        return "literal(%s)" % var
    if k == 7:
        return "(lambda q: q)(%s)" % output(g, var, names, 0)
    if k == 8 and names:
        return "%s(%s)" % (g.pick(names), output(g, var, names, depth - 1))
    if k == 9 and names:
        return "%s(%s(%s))" % (g.pick(names), g.pick(names), var)
    if k >= 10:
        # what looks like literal, and what is literal in disguise
        return g.pick([
            "o1.literal(%s)", "o1.sub.literal(%s)", "d1['literal'](%s)", "[literal][0](%s)", "(literal)(%s)", "literal(*[%s])",
            "literal(literal(%s))", "literal(str(%s)) + 'a<b'", "'a<b' + literal(str(%s))", "literal('%%s') %% (%s,)",
            "literal(%s).upper()", "(lambda literal: literal(%s))(str)", "str(literal(%s))", "f'{literal(%s)}'",
            "[literal(%s), 1]", "o1.escape(%s)", "(literal(%s),)", "literal(%s) or 1", "literal('<i>').join([str(%s)])",
            "{1: literal(%s)}", "literal(%s) if 1 else 2", "literal.escape(%s)", "'%%s' %% literal(%s)",
            "o1.literal('x') + str(%s)", "str(%s).join(['<', '>'])", "literal('{}').format(%s)",
        ]) % var
    return "str(%s)" % var


def place(g, e, names):
    """A node that outputs the expression somewhere"""
    k = g.n(17)
    x = ["expr", e, g.n(1)]
    t = ["text", g.string(gen.TEXT_PIECES, 2), 0]
    if k == 0:
        return x
    if k == 1:
        return ["el", "p", [], [t, x], {}]
    if k == 2:
        return ["el", "p", [["title", [x], g.n(7)]], [], {}]
    if k == 3:
        return ["el", "a", [["href", [t, x], g.n(7)]], [t], {}]
    if k == 4:
        return ["el", "a", [["href", [x, ["text", "-", 0], x], g.n(7)], ["alt", [x], 0]], [x], {}]
    if k == 5:
        return ["el", g.pick(["script", "style"]), [], [["text", "var a = '", 0], x, ["text", "';", 0]], {}]
    if k == 6:
        return ["el", "b", [], [t], {"ctl": {"content": e}}]
    if k == 7:
        return ["el", "b", [], [t], {"ctl": {"replace": e}}]
    if k == 8:
        return ["ctl", "replace", e, [], {}]
    if k == 9:
        return ["el", "b", [], [t], {"ctl": {"attrs": "{'v': %s}" % e}}]
    if k == 10:
        return ["el", "b", [["id", [x], 0]], [t], {"ctl": {"attrs": "[('v', %s), ('w', 1)]" % e}}]
    if k == 11:
        return ["ctl", "for", ["it", "[%s, %s]" % (e, e)], [["expr", "it", 1], ["text", "|", 0]], {}]
    if k == 12:
        return ["ctl", "with", [["it", e]], [["expr", "it", 0]], {}]
    if k == 13:
        name = g.name("f")
        names.append(name)
        return ["ctl", "def", [name, "q"], [["text", "<" + name, 0], ["expr", "q", 1], x], {}]
    if k == 14:
        return ["ctl", "block", g.name("blk"), [x, ["el", "i", [["id", [x], 0]], [], {}]], {}]
    if k == 15:
        return ["ctl", "if", "1" if g.n(1) else "n1", [t, x], {}]
    if k == 16:
        return ["el", g.pick(["textarea", "title", "input"]), [["value", [x], 0], ["class", [x, ["text", " c", 0]], 1]], [], {}]
    return ["el", "ul", [], [["el", "li", [], [x], {"ctl": {"for": ["it", "(%s,)" % e]}}]], {}]


def build(draw):
    g = gen.Gen(draw)
    g.start()
    ctx = {"n1": 1}
    # members and items of the name of a builtin, that return what they are called with
    tools = {k: {"$": "same", "v": None} for k in ("literal", "escape")}
    ctx["o1"] = {"$": "obj", "v": {**tools, "sub": {"$": "obj", "v": tools}}}
    ctx["d1"] = tools
    names = []
    nodes = []
    for i in range(1 + g.n(4)):
        ctx["v%d" % i] = value(g)
    variables = [n for n in ctx if n[0] == "v"]
    for _ in range(1 + g.n(6)):
        e = output(g, g.pick(variables), names, 2)
        nodes.append(place(g, e, names))
    files = {"main": {"root": ["el", "div", [], nodes, {}]}}
    shape = g.n(3)
    if shape == 1:
        # everything within a block of a child template
        files = {
            "base": {"root": ["el", "html", [], [["ctl", "block", "body", [["text", "base", 0]], {}]], {}]},
            "main": {"root": ["ctl", "extends", "base", [["ctl", "block", "body", nodes, {}]], {}]},
        }
    elif shape == 2:
        # in a function of an imported template, called with a value
        e = output(g, g.pick(variables), names, 1)
        files = {
            "lib": {"root": ["el", "div", [], [["ctl", "def", ["func", "arg"], [["expr", "arg", 1]] + nodes, {}]], {}]},
            "main": {"root": ["el", "div", [], [
                ["ctl", "import", ["lib", "lib"], [], {}],
                ["expr", "lib.func(%s)" % e.replace(names[-1] if names else "\0", "str"), 0],
                ["el", "b", [["id", [["expr", "lib.func(%s)" % variables[0], 0]], 0]], [], {}],
                ["expr", "lib.func(lib.func(%s))" % variables[0], 0],
            ], {}]},
        }
        for n in names:
            files["main"]["root"][3][1][1] = files["main"]["root"][3][1][1].replace(n + "(", "str(")
    return {"files": files, "ctx": ctx}


def check(case):
    sources = {k: model.emit_doc(d) for k, d in case["files"].items()}
    if len(sources) == 1:
        got = real.outcome(lambda: real.render(sources["main"], model.decode_ctx(case["ctx"])))
    else:
        got = real.outcome(lambda: real.render_files(sources, "main", model.decode_ctx(case["ctx"])))
    want = real.outcome(
        lambda: model.Interp(case["files"]).render("main", model.decode_ctx(case["ctx"]))
    )
    real.compare(got, want, source=sources, context=case["ctx"])
    special = got[0] == "ok" and any(c in got[1] for c in ("&lt;", "&amp;", "&gt;", "&#3"))
    return Info(special, [got[0], "files%d" % len(sources)])


# ---- no value can add markup: the structure of the output, seen by a parser


class Events(html.parser.HTMLParser):
    """The structure and the values of a document"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []
        self.attrs = []
        self.text = []

    def handle_starttag(self, tag, attrs):
        self.tags.append("<" + tag)
        self.attrs.append(attrs)

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        self.tags.append(">" + tag)

    def handle_data(self, data):
        self.text.append(data)

    def handle_comment(self, data):
        self.tags.append("!" + data)

    def handle_decl(self, decl):
        self.tags.append("decl")

    def handle_pi(self, data):
        self.tags.append("pi")

    unknown_decl = handle_decl


def parsed(s):
    p = Events()
    p.feed(s)
    p.close()
    return p


STRUCTURE = (
    '<div><p id="$v" class="a$v">$v</p><!-- c --><a href="x ${v} y" py:attrs="{\'k\': v}" title="$f(v)">'
    '<py:def function="f(x)">$x</py:def><b py:content="v"/><i py:replace="v"/>${f(v)}'
    '<py:for each="i in [v]"><u py:strip="1">$i</u></py:for><textarea>$v</textarea></a></div>'
)


def build_string(draw):
    g = gen.Gen(draw)
    return {"v": g.string(EVIL, 8), "any": draw(gen.st.text(max_size=8)) if g.n(1) else ""}


_template = []


def check_structure(case):
    """The parsed output has the tags of the template, and the very values"""
    if not _template:
        _template.append(real.load(STRUCTURE))
    v = (case["v"] + case["any"]).replace("\x00", "").replace("\r", "")
    if not v:
        v = "x"
    if any("\ud800" <= c <= "\udfff" for c in v):
        return Info(False, ["surrogate"])
    out = _template[0].render({"v": v})
    got = parsed(out)
    want = parsed(_template[0].render({"v": "V"}))
    if got.tags != want.tags:
        raise Violation("the value %r changed the markup to %r" % (v, out), value=v)
    attrs = [[(k, a.replace("V", v)) for k, a in el] for el in want.attrs]
    if got.attrs != attrs:
        raise Violation("attribute values are %r, expected %r" % (got.attrs, attrs), value=v)
    text = "".join(want.text).replace("V", v)
    if "".join(got.text) != text:
        raise Violation("the text is %r, expected %r" % ("".join(got.text), text), value=v)
    return Info(any(c in v for c in "<>&\"'"), ["special"] if any(c in v for c in "<>&\"'") else [])


FAMILIES = [
    Family(
        "positions",
        lambda: gen.case_strategy(build),
        check,
        quick=24000,
        thorough=500000,
        rule="values of all types output through expressions in all positions, one to two files, compared "
        "with the reference interpreter; non-trivial: something was escaped",
    ),
    Family(
        "structure",
        lambda: gen.case_strategy(build_string),
        check_structure,
        quick=16000,
        thorough=400000,
        rule="a template with a string in every position is parsed by html.parser, which must see the "
        "tags of the template and the very string; non-trivial: the string has special characters",
    ),
]
