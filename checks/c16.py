"""Translatable templates look up exactly their texts."""

import re

from markupsafe import Markup

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

from . import c07

ID = "C16"

ATTRS = ["title", "alt", "placeholder", "value", "caption", "class", "id", "data-title", "label", "xml:title", "titles", "href"]
PIECES = [
    "a", " ", "b", "\n", "hello world", "&", "<", ">", '"', "'", "$", ".", "é", "  ", "\t", "\u00a0", "%s", "$$",
    "Hello", "you  and\n  me", "&amp;", "\\", "{x}", "x", "\u3000", "\u200b", "1", "©", "\r\n"[1:], "\u2028", "_",
]
CATALOGUES = ["none", "identity", "mark", "markup", "html", "empty", "same", "upper", "object"]


class TransGen(gen.Gen):
    def expr_any(self, scope, depth=2):
        k = self.n(11)
        if k == 10:
            return "%s(%s)" % (self.pick(["gettext", "egettext"]), self.expr_str(scope, 0))
        return super().expr_any(scope, depth)

    def text(self, pieces=PIECES, top=5):
        return super().text(pieces, top)

    def attrs(self, scope, top=3):
        names = []
        rv = []
        for _ in range(self.n(top)):
            name = self.near(ATTRS[:5]) if self.chance(5) else self.pick(ATTRS)
            if name in names:
                continue
            names.append(name)
            rv.append([name, self.attr_parts(scope), self.n(31)])
        return rv


def catalogue(kind):
    """Returns gettext and the list of the messages looked up"""
    seen = []

    def translate(msg):
        seen.append(str(msg))
        if kind == "identity":
            return msg
        if kind == "mark":
            return "[" + msg + "<&\"'>]"
        if kind == "markup":
            return Markup("<i>%s</i>") % msg
        if kind == "html":
            return model.HtmlObj("<u>%d</u>" % len(msg))
        if kind == "empty":
            return ""
        if kind == "same":
            return " the & same "
        if kind == "upper":
            return msg.upper()
        return model.StrObj("o" + msg)

    return translate, seen


def build(draw):
    g = TransGen(draw, size=26)
    doc = g.document(depth=3)
    return {"files": {"main.tk": doc}, "main": "main.tk", "ctx": g.context(), "catalogue": g.pick(CATALOGUES)}


def build_tree(draw):
    """Templates that extend each other"""
    case = c07.build(draw)
    k = len(case["steps"]) - 1
    name, c = case["steps"][k]
    catalogues = CATALOGUES[1:]
    return {
        "files": case["files"], "main": name, "ctx": case["ctxs"][c],
        "catalogue": catalogues[(len(case["files"]) + k) % len(catalogues)],
    }


def static_texts(nodes, raw, acc):
    """All that may be looked up because it is text, and all that must not"""
    for n in nodes:
        if n[0] == "text":
            (acc[1] if raw else acc[0]).add(n[1].strip())
        elif n[0] == "el":
            for name, parts, _ in n[2]:
                for p in parts or []:
                    if p[0] == "text":
                        acc[0 if name in model.TRANSLATED_ATTRS else 1].add(p[1].strip())
            static_texts(n[3], raw or n[1] in model.RAW_TAGS, acc)
        elif n[0] == "ctl":
            static_texts(n[3], raw, acc)
    return acc


TAG = re.compile(r"""<[A-Za-z][\w:-]*((?: [^\s"'<>=/]+(?:="[^"]*")?)*)""")


def sort_attributes(outcome):
    """Whether an attribute is translated may change its place"""
    if outcome[0] != "ok":
        return outcome

    def sort(m):
        attrs = re.findall(r""" [^\s"'<>=/]+(?:="[^"]*")?""", m.group(1))
        return m.group(0)[: m.start(1) - m.start(0)] + "".join(sorted(attrs))

    return ("ok", TAG.sub(sort, outcome[1]))


def check(case):
    """The template is rendered with two kinds of translation, one after the other"""
    sources = {k: model.emit_doc(d) for k, d in case["files"].items()}
    kind = case["catalogue"]
    with real.TemplateDir(sources) as d:
        loader = real.FileLoader(paths=[d.path], translatable=True)
        info = check_catalogue(case, loader, sources, kind)
        check_catalogue(case, loader, sources, "upper" if kind == "mark" else "mark")
    return info


def check_catalogue(case, loader, sources, kind):
    seen = {}

    def run(which, func):
        ctx = model.decode_ctx(case["ctx"])
        messages = seen[which] = []
        if kind != "none":
            ctx["gettext"], messages = catalogue(kind)
            seen[which] = messages
        return real.outcome(lambda: func(ctx))

    got = run("real", lambda ctx: loader.load(case["main"]).render(ctx))
    interp = model.TranslatingInterp(case["files"])
    want = run("model", lambda ctx: interp.render(case["main"], ctx))
    real.compare(
        sort_attributes(got), sort_attributes(want), sources=sources, context=case["ctx"], catalogue=kind
    )
    labels = {kind, want[0]}
    if want[0] == "ok":
        expected = set(seen["model"])
        missing = expected - set(seen["real"])
        if missing:
            raise Violation("%r not looked up" % sorted(missing), sources=sources, context=case["ctx"])
        # looking up a text early would do no harm, but it must be a text
        possible = set()
        for doc in interp.docs.values():
            possible |= static_texts([doc["root"]], False, [set(), set()])[0]
        extra = set(seen["real"]) - expected - possible
        if extra:
            raise Violation("%r looked up" % sorted(extra), sources=sources, context=case["ctx"])
        labels.add("messages%d" % min(len(expected), 5))
        return Info(len(expected) > 1, labels)
    return Info(False, labels)


# ------------------------------------------------------------ one text


def build_text(draw):
    """Runs of text and expressions in one place"""
    g = TransGen(draw, size=4)
    runs = []
    for _ in range(1 + g.n(4)):
        if g.n(2):
            runs.append(["text", g.string(PIECES, 5), g.style()])
        else:
            runs.append(["expr", g.pick(["s1", "'x'", "v", "literal('<b>')", "s2 + s1", "gettext('m')", "None"]), g.n(1)])
    where = g.pick(["element", "attr", "attr", "other", "script", "style", "if", "def", "block", "title", "textarea", "svg:style", "pre"])
    return {
        "runs": runs, "where": where, "attr": g.pick(sorted(model.TRANSLATED_ATTRS)), "style": g.n(31),
        "tag": g.pick(["p", "script", "input", "style", "title"]),
        "nested": g.n(2),
        "ctx": {"s1": g.string(top=2), "s2": g.string(PIECES, 2), "v": g.pick(["", None, True, 5])},
        "catalogue": g.pick(CATALOGUES),
    }


def check_text(case):
    runs, where = case["runs"], case["where"]
    if where in ("attr", "other"):
        name = case["attr"] if where == "attr" else "data-" + case["attr"]
        tag = case["tag"]
        node = ["el", tag, [["id", [["text", "x", 0]], 0], [name, runs, case["style"]]], [], {}]
    elif where in ("if", "def", "block"):
        node = ["ctl", where, {"if": "1", "def": ["f", None], "block": "blk"}[where], runs, {}]
    elif where in model.RAW_TAGS:
        safe = [r if r[0] == "expr" else ["text", r[1].replace("<", "").replace("&", ""), 0] for r in runs]
        node = ["el", where, [], safe, {}]
    else:
        node = ["el", {"element": "p"}.get(where, where), [], runs, {}]
    children = [node] + ([["expr", "f()", 0]] if where == "def" else [])
    for _ in range(case["nested"]):
        children = [["text", "\n ", 0], ["el", "div", [], children, {}], ["text", " tail ", 0]]
    doc = {"root": ["el", "html", [], children, {}]}
    return check({"files": {"main.tk": doc}, "main": "main.tk", "ctx": case["ctx"], "catalogue": case["catalogue"]})


FAMILIES = [
    Family(
        "catalogues", lambda: gen.case_strategy(build), check, quick=10000, thorough=250000,
        rule="templates of all constructs with texts and attributes, rendered with one of nine kinds of translation; output "
        "and looked up messages are compared with the reference interpreter's; non-trivial: two messages or more",
    ),
    Family(
        "texts", lambda: gen.case_strategy(build_text), check_text, quick=14000, thorough=300000,
        rule="runs of text and expressions in one element, attribute, raw element, function or block; compared as above",
    ),
    Family(
        "trees", lambda: gen.case_strategy(build_tree), check, quick=4000, thorough=100000,
        rule="templates that extend each other (C07), translated; compared as above",
    ),
]
