"""Extraction of messages: what occurs in the template and is looked up, on its line."""

import contextlib
import io
import os
import re
import tempfile

from tonnikala.i18n import TonnikalaExtractor, extract_tonnikala

from tklib import env, gen, real
from tklib.harness import Family, Info, Violation

ID = "C17"

TAGS = ["p", "b", "div", "title", "textarea", "li", "x-y"]
TRANSLATED = ["title", "alt", "placeholder", "value", "caption"]
OTHER = ["class", "data-title", "label", "href"]


class Writer:
    """
    Writes a template with marked messages. Messages are @N@..., what is not
    to be extracted is #N#...
    """

    def __init__(self, g):
        self.g = g
        self.count = 0
        self.texts = []
        self.calls = []
        self.comments = []
        self.size = 14

    def mark(self, extracted=True):
        self.count += 1
        return ("@%d@" if extracted else "#%d#") % self.count

    # -- texts

    def message_text(self, quote=None):
        """A static message and its source"""
        g = self.g
        m = self.mark()
        message = source = m
        for _ in range(g.n(3)):
            s, e = g.pick(
                [("a", "a"), (" ", " "), ("\n", "\n"), ("é", "&eacute;"), ("<", "&lt;"), ("&", "&amp;"), ("$", "$$"),
                 ("\n  ", "\n  "), ("'", "&#39;"), ('"', "&quot;"), ("$1", "$1"), ("€", "€"), ("%s", "%s"),
                 ("gettext(x)", "gettext(x)"), (">", ">"), ("\\n", "\\n"), ("\u00a0", "&nbsp;"), ("{", "{")]
            )
            message += s
            source += e
        end = g.pick(["z", "", "", "."])
        message = message.rstrip() if not end else message + end
        source += end
        self.texts.append((m, message))
        return source

    def space(self):
        return self.g.pick(["", "", " ", "\n", "\n  ", "  \n\n\t", "\u00a0", "&#32;", "\n&nbsp;\n"])

    def text(self):
        if self.g.n(2) == 0:
            return self.space()
        return self.space() + self.message_text() + self.space()

    # -- expressions

    def string(self, extracted=True, quotes="'\""):
        """A string constant with a mark, in source"""
        g = self.g
        m = self.mark(extracted)
        q = g.pick(quotes)
        rest = [g.pick(["a", " ", "é", "\\n", "\\\\", "%s", "$x", "}", "{", ")", "(", "<", "&", "\\u20ac"]) for _ in range(g.n(2))]
        body = m + "".join(rest)
        value = eval(q + body + q)
        k = g.n(6)
        if k == 5 and quotes == "'\"":
            return m, q * 3 + body + "\n " + q * 3, value + "\n "
        if k == 4:
            return m, "%s%s%s %s-%s" % (q, body, q, q, q), value + "-"
        if k == 3 and "\\" not in body:
            return m, "r" + q + body + q, value
        return m, q + body + q, value

    def call(self, quotes="'\"", lines=True):
        g = self.g
        k = g.n(11)
        nl = "\n   " if lines and g.n(3) == 0 else ""
        if k >= 8:
            m, source, value = self.string(quotes=quotes)
            m2, source2, value2 = self.string(k == 8, quotes=quotes)
            if k == 8:
                self.calls.append((m, "pgettext", (value2, value)))
                return "_(%s%s, context=%s)" % (nl, source, source2)
            self.calls.append((m, "gettext", (value,)))
            if k == 9:
                self.comments.append((m, "Default: " + value2))
                return "_(%s%s, default=%s)" % (nl, source, source2)
            if k == 10:
                return "dgettext(%s%s, %s)" % (nl, source2, source)
            self.calls[-1] = (m, "ngettext", (value, value2))
            return "%s(%s%s, %s, n)" % (g.pick(["ungettext", "lngettext"]), nl, source, source2)
        if k == 5:
            m, source, value = self.string(quotes=quotes)
            m2, source2, value2 = self.string(quotes=quotes)
            self.calls.append((m, "ngettext", (value, value2)))
            return "ngettext(%s%s, %s, n)" % (nl, source, source2)
        if k == 6:
            m, source, value = self.string(quotes=quotes)
            m2, source2, value2 = self.string(quotes=quotes)
            self.calls.append((m, "pgettext", (value, value2)))
            return "pgettext(%s%s, %s)" % (nl, source, source2)
        if k == 7:
            return "gettext(s)"
        m, source, value = self.string(quotes=quotes)
        self.calls.append((m, "gettext", (value,)))
        return "%s(%s%s)" % (g.pick(["gettext", "gettext", "_", "ugettext"]), nl, source)

    def not_extracted(self):
        return self.string(False, "'\"")[1]

    def expression(self, depth=2, lines=True):
        g = self.g
        call = lambda: self.call(lines=lines)
        k = g.n(12 if depth else 3)
        if k <= 3:
            return call()
        e = lambda: self.expression(depth - 1, lines)
        if k == 4:
            return "(%s + %s)" % (e(), e())
        if k == 5:
            return "(lambda q: %s)(1)" % e()
        if k == 6:
            return "[%s for q1 in [%s]]" % (e(), e())
        if k == 7:
            return "(%s if n else %s)" % (e(), e())
        if k == 8:
            return "{%s: %s}" % (self.not_extracted(), e())
        if k == 9:
            return "str(%s, *[], **{})" % e()
        if k == 10:
            return "(%s.strip()[0:5] or not %s)" % (self.not_extracted(), e())
        if k == 11 and lines:
            return "(%s,\n # gettext('#0#')\n %s)" % (e(), e())
        return "f'{%s}'" % call() if not lines else "(%s == 'gettext' or %s)" % (self.not_extracted(), e())

    # -- markup

    def attr_value(self, source):
        q = self.g.pick("'\"")
        return q + source.replace("&", "&amp;").replace(q, {'"': "&quot;", "'": "&#39;"}[q]) + q

    def attributes(self):
        g = self.g
        out = []
        for name in sorted({g.near(TRANSLATED) if g.chance(6) else g.pick(TRANSLATED + OTHER) for _ in range(g.n(3))}):
            k = g.n(4)
            if k == 0:
                value = "${%s}" % self.expression(1)
                out.append("%s=%s" % (name, self.attr_value(value)))
                continue
            parts = []
            for _ in range(1 + g.n(1)):
                if name in TRANSLATED:
                    parts.append(self.text().replace('"', "&quot;"))
                else:
                    parts.append("%sxy" % self.mark(False))
                if g.n(2) == 0:
                    parts.append("${%s}" % self.expression(1).replace("&", "&amp;").replace('"', "&quot;"))
                else:
                    break
            out.append('%s="%s"' % (name, "".join(parts)))
        return "".join(g.pick([" ", "\n  "]) + o for o in out)

    def control(self):
        """Control attributes, in the order of their names"""
        g = self.g
        out = []
        kinds = sorted({g.pick(["if", "unless", "for", "with", "def", "content", "attrs", "strip", "vars"]) for _ in range(g.n(2))})
        if "vars" in kinds and "with" in kinds:
            kinds.remove("vars")
        for k in kinds:
            lead = g.pick(["", "", "\n    ", " "])
            value = {
                "if": lambda: "%s or 1" % self.expression(1),
                "unless": lambda: "%s and 0" % self.expression(1),
                "for": lambda: "v%d in [%s]" % (self.count, self.expression(1)),
                "with": lambda: "w%d = %s%sw0 = %s" % (self.count, self.expression(1), g.pick(["; ", "\n" + lead.lstrip("\n")]), self.expression(1)),
                "vars": lambda: "w%d = %s" % (self.count, self.expression(1)),
                "def": lambda: "f%d(a=%s)" % (self.count, self.expression(1)),
                "content": lambda: "(%s, c)" % self.expression(1),
                "attrs": lambda: "{'x': %s}" % self.expression(1),
                "strip": lambda: "%s and 0" % self.expression(1),
            }[k]()
            if lead == " " and k in ("with", "vars"):
                lead = ""
            if k == "def":
                lead = ""
            out.append("%spy:%s=%s" % (g.pick([" ", "\n  "]), k, self.attr_value(lead + value)))
        return "".join(out)

    def node(self, depth):
        g = self.g
        self.size -= 1
        k = g.n(11)
        if depth <= 0 or k <= 2 or self.size < 0:
            return self.text()
        if k <= 4:
            e = self.expression()
            if g.n(2) == 0:
                return "$" + self.call(lines=False).replace("&", "&amp;").replace("<", "&lt;") + " "
            return "${%s%s}" % (g.pick(["", " ", "\n  "]), e.replace("&", "&amp;").replace("<", "&lt;"))
        if k == 5:
            return "<!-- %s gettext('#0#') -->" % self.mark(False)
        if k == 6:
            tag = g.pick(["script", "style"])
            return "<%s>%s ${%s}</%s>" % (tag, self.mark(False), self.expression(1), tag)
        if k == 7:
            lines = ["x%d = %s" % (self.count, self.expression(1)) for _ in range(1 + g.n(2))]
            if g.n(2) == 0:
                lines.append("if n:\n    y = %s" % self.expression(1))
            if g.n(2) == 0:
                lines.insert(0, "# gettext('#0#')")
            return "<?python%s%s?>" % (g.pick([" ", "\n", "\n\n"]), "\n".join(lines))
        if k == 8:
            kind = g.pick(["if", "unless", "for", "with", "def", "block", "replace"])
            attr, value = {
                "if": lambda: ("test", self.expression(1)),
                "unless": lambda: ("test", self.expression(1) + " and 0"),
                "for": lambda: ("each", "v%d in [%s]" % (self.count, self.expression(1))),
                "with": lambda: ("vars", "w%d = %s" % (self.count, self.expression(1))),
                "def": lambda: ("function", "f%d(a=%s)" % (self.count, self.expression(1))),
                "block": lambda: ("name", "b%d" % self.count),
                "replace": lambda: ("value", self.expression(1)),
            }[kind]()
            body = "" if kind == "replace" else self.children(depth - 1)
            return "<py:%s %s=%s>%s</py:%s>" % (kind, attr, self.attr_value(value), body, kind)
        if k == 9:
            return "<%s%s/>" % (g.pick(["br", "img", "input"]), self.attributes())
        tag = g.near(["script", "style", "br"]) if g.chance(8) else g.pick(TAGS)
        # the contents are dropped from the output when there is py:content
        head = "<%s%s%s>" % (tag, self.attributes(), self.control())
        if "py:content" in head:
            return head + g.pick(["", " ", "<!-- %s -->" % self.mark(False)]) + "</%s>" % tag
        return head + self.children(depth - 1) + "</%s>" % tag

    def children(self, depth):
        out = []
        separate = False
        for _ in range(self.g.n(4)):
            s = self.node(depth)
            text = not s.startswith("<") and not s.startswith("$")
            if text and separate:
                # two texts would be one message
                s = "<hr>" + s
            separate = text
            out.append(s)
        return "".join(out)


def build(draw):
    g = gen.Gen(draw)
    w = Writer(g)
    body = w.children(3)
    source = "%s<html>%s</html>%s" % (
        g.pick(["", "<!DOCTYPE html>\n", "\n\n", "<!-- x\n -->"]), body, g.pick(["", "\n"]),
    )
    return {
        "source": source, "texts": [t for t in w.texts if t[0] in source], "calls": [c for c in w.calls if c[0] in source], "mode": g.n(4), "lineno": g.pick([0, 0, 1, 40]),
        "crlf": g.n(4) == 0, "n": g.n(2), "comments": [c for c in w.comments if c[0] in source],
    }


class Options:
    keywords = {}
    comment_tag = None
    domain = None


def extract(source, mode, lineno):
    """A list of (line, function, message parts, comments), in the order of extraction"""
    if mode == 0:
        return list(extract_tonnikala(io.StringIO(source), ["gettext"], [], {}))
    if mode == 1:
        return list(extract_tonnikala(io.BytesIO(source.encode("utf-8")), [], [], {}))
    extractor = TonnikalaExtractor()
    if mode == 2:
        messages = extractor("x.tk", Options(), io.StringIO(source), lineno)
    elif mode == 3:
        messages = extractor("x.tk", Options(), fileobj=io.StringIO(source))
        lineno = 0
    else:
        fd, path = tempfile.mkstemp(".tk", dir=env.scratch())
        with io.open(fd, "w", encoding="utf-8", newline="") as f:
            f.write(source)
        try:
            messages = list(extractor(path, Options()))
        finally:
            os.unlink(path)
        lineno = 0
    rv = []
    for m in messages:
        function, parts = "gettext", (m.msgid,)
        if m.msgid_plural:
            function, parts = "ngettext", (m.msgid, m.msgid_plural)
        if m.msgctxt:
            function, parts = "p" + function, (m.msgctxt, *parts)
        rv.append((m.location[1] - lineno, function, parts, [m.comment] if m.comment else []))
    return rv


def check(case):
    source = case["source"]
    plain = source
    newline = "\n"
    if case["crlf"]:
        source = source.replace("\n", "\r\n")
        newline = "\r\n"
    if case["mode"] == 4 and case["crlf"]:
        newline = "\n"

    def line_of(mark):
        return plain.count("\n", 0, plain.index(mark)) + 1

    texts = []
    for mark, message in case["texts"]:
        texts.append((line_of(mark), "gettext", (message.replace("\n", newline),)))
    calls = []
    for mark, function, parts in case["calls"]:
        at = plain.index(mark)
        # the line of the name of the function
        name = max(m.start() for m in re.finditer(r"\w*gettext\(|\b_\(", plain[:at]))
        calls.append((plain.count("\n", 0, name) + 1, function, tuple(parts)))

    # lingua tells of calls that are not constant
    with contextlib.redirect_stderr(io.StringIO()):
        got = extract(source, case["mode"], case["lineno"])
    comments = [(m[2][-1], c.replace("\r\n", "\n")) for m in got for c in m[3]]
    got = [(m[0], m[1], tuple(m[2])) for m in got]
    if case["crlf"]:
        # Python's string constants never contain \r\n
        unify = lambda ms: [(m[0], m[1], tuple(p.replace("\r\n", "\n") for p in m[2])) for m in ms]
        got, texts, calls = unify(got), unify(texts), unify(calls)
    missing = sorted(set(texts + calls) - set(got))
    extra = sorted(set(got) - set(texts + calls))
    if missing or extra:
        raise Violation("not extracted: %r; extracted: %r" % (missing, extra), source=source, mode=case["mode"])
    marked = sorted({(re.match(r"@\d+@", m).group(0), c) for m, c in comments})
    if marked != sorted(map(tuple, case["comments"])):
        raise Violation("the comments are %r, not %r" % (marked, case["comments"]), source=source, mode=case["mode"])
    order = [m for m in got if m in set(texts)]
    order = list(dict.fromkeys(order))
    if order != sorted(texts, key=lambda m: plain.index(re.match(r"@\d+@", m[2][0]).group(0))):
        raise Violation("texts are extracted as %r, not as %r" % (order, texts), source=source)

    # what rendering looks up
    seen = set()

    def gettext(s, default=None, context=None):
        seen.add(("gettext", (str(s),)) if context is None else ("pgettext", (context, str(s))))
        return s

    def dgettext(domain, s):
        return gettext(s)

    def ngettext(a, b, n):
        seen.add(("ngettext", (a, b)))
        return a

    def pgettext(c, a):
        seen.add(("pgettext", (c, a)))
        return a

    ctx = {"gettext": gettext, "_": gettext, "ugettext": gettext, "ngettext": ngettext, "pgettext": pgettext,
           "dgettext": dgettext, "ungettext": ngettext, "lngettext": ngettext,
           "n": case["n"], "s": "dynamic", "c": "c"}
    result = real.outcome(lambda: real.render(source, ctx, translatable=True))
    known = {(m[1], m[2]) for m in got}
    if case["crlf"]:
        seen = {(m[0], tuple(p.replace("\r\n", "\n") for p in m[1])) for m in seen}
    lost = sorted(seen - known - {("gettext", ("dynamic",))})
    if lost:
        raise Violation("looked up but not extracted: %r" % lost, source=source)
    if seen:
        return Info(len(seen) > 1, [result[0], "mode%d" % case["mode"], "crlf%d" % case["crlf"], "messages%d" % min(9, len(got))])
    return Info(False, [result[0], "none"])


FAMILIES = [
    Family(
        "messages", lambda: gen.case_strategy(build), check, quick=28000, thorough=350000,
        rule="templates with numbered messages in texts, attributes, expressions, control attributes and code; the extracted "
        "messages, lines and order are compared with those written, and the lookups while rendering with those extracted; "
        "non-trivial: two lookups or more",
    )
]
