"""Static markup is reproduced: comparison with the tree the source was written from."""

import html.parser

from hypothesis import strategies as st

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C02"
ASSUMPTIONS = [
    "line endings are \\n, no lone surrogates; in text only the entities of HTML 4 are known to the parser",
]

DOCTYPES = [
    None,
    ["<!DOCTYPE html>", "<!DOCTYPE html>"],
    ["<!doctype html>\n", "<!DOCTYPE html>"],
    ["<!DOCTYPE html SYSTEM 'about:legacy-compat'>", "<!DOCTYPE html  SYSTEM 'about:legacy-compat'>"],
    [
        '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
        "<!DOCTYPE html  PUBLIC '-//W3C//DTD XHTML 1.0 Strict//EN'  'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd'>",
    ],
]

CHARS = st.characters(exclude_categories=("Cs",), exclude_characters="\r")
ENTITY_CHARS = sorted(model.NAMED)


class StaticGen(gen.Gen):
    control_kinds = ()
    attr_kinds = ()

    def expr_node(self, scope, depth=2):
        return self.text()

    def text(self, pieces=gen.TEXT_PIECES, top=5):
        k = self.n(5)
        if k == 0:
            return ["text", self.draw(st.text(CHARS, max_size=12)), self.style()]
        if k == 1:
            # any of the characters that have names
            s = "".join(
                chr(self.draw(st.sampled_from(ENTITY_CHARS))) for _ in range(1 + self.n(3))
            )
            return ["text", s, self.draw(st.integers(0, 2**24 - 1))]
        if k == 2 and self.chance(8):
            return ["text", self.string(pieces, 4) * self.draw(st.integers(1, 3000)), self.style()]
        return ["text", self.string(pieces, top), self.style()]

    def attrs(self, scope, top=3):
        rv = []
        for name, parts, style in super().attrs(scope, top):
            rv.append([name, parts, self.n(31)])
        return rv

    def raw_element(self, scope):
        tag = self.pick(["script", "style"])
        s = self.string(gen.RAW_PIECES, 6)
        return ["el", tag, self.attrs(scope, 1), [["text", s, 0]] if s else [], {}]

    def comment(self):
        node = super().comment()
        if self.chance(4):
            node[2] = 1
        return node


def build(draw):
    g = StaticGen(draw, size=draw(st.integers(3, 30)))
    scope = g.start({})
    doc = g.document(scope, depth=5, hoisted=False)
    k = g.n(9)
    if k == 9:
        # deep or wide
        for _ in range(g.n(40)):
            doc["root"] = ["el", g.pick(gen.TAGS), g.attrs(scope, 1), [g.text(), doc["root"], g.text()], {}]
    elif k == 8:
        doc["root"][3] = doc["root"][3] * (1 + g.n(60))
    dt = DOCTYPES[g.n(len(DOCTYPES) - 1)]
    if dt:
        doc["doctype"], doc["doctype_out"] = dt
    ws = ["text", g.string([" ", "\n"], 2), 0]
    if g.n(1):
        doc["pre"] = [ws, g.comment(), ws]
    if g.n(1):
        doc["post"] = [ws, g.comment(), ws]
    return doc


class Tree(html.parser.HTMLParser):
    CDATA_CONTENT_ELEMENTS = ("script", "style")
    RCDATA_CONTENT_ELEMENTS = ()

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events = []

    def handle_starttag(self, tag, attrs):
        self.events.append(("start", tag, [tuple(a) for a in attrs]))

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in model.VOID:
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        self.events.append(("end", tag))

    def handle_data(self, data):
        if self.events and self.events[-1][0] == "text":
            data = self.events.pop()[1] + data
        self.events.append(("text", data))

    def handle_comment(self, data):
        self.events.append(("comment", data))

    def handle_decl(self, decl):
        pass


def tree_events(nodes, out):
    """The events of the tree the source was written from"""
    for node in nodes:
        if node[0] == "text":
            if node[1]:
                if out and out[-1][0] == "text":
                    out[-1] = ("text", out[-1][1] + node[1])
                else:
                    out.append(("text", node[1]))
        elif node[0] == "comment":
            if not node[2]:
                out.append(("comment", node[1]))
        else:
            attrs = [
                (n, None if parts is None else "".join(p[1] for p in parts))
                for n, parts, _ in node[2]
            ]
            out.append(("start", node[1], attrs))
            if node[1] in model.VOID:
                continue
            tree_events(node[3], out)
            out.append(("end", node[1]))
    return out


def flat(nodes):
    for n in nodes:
        yield n
        if n[0] == "el":
            yield from flat(n[3])


def check(doc):
    source = model.emit_doc(doc)
    out = real.render(source, {})
    want = model.Interp({"main": doc}).render("main", {})
    if out != want:
        raise Violation("rendered %r, expected %r" % (out, want), source=source)

    # what any HTML parser sees in the output
    body = doc.get("pre", []), [doc["root"]], doc.get("post", [])
    events = tree_events([n for part in (body[0], body[2]) for n in ()], [])
    tree_events([n for n in body[0] if n[0] != "text"], events)
    tree_events(body[1], events)
    tree_events([n for n in body[2] if n[0] != "text"], events)
    parser = Tree()
    parser.feed(out)
    parser.close()
    if parser.events != events:
        raise Violation("the output parses as %r, expected %r" % (parser.events, events), source=source)

    # the output is a template for itself
    nodes = list(flat(body[0] + body[1] + body[2]))
    if "$" not in out:
        again = real.render(out, {})
        if again != out:
            raise Violation("rendered again: %r, expected %r" % (again, out), source=source)

    kinds = {n[0] for n in nodes} | {n[1] for n in nodes if n[0] == "el" and n[1] in ("script", "style", "br")}
    return Info(len(nodes) >= 3 and len(kinds) >= 2, kinds)


FAMILIES = [
    Family(
        "documents",
        lambda: gen.case_strategy(build),
        check,
        quick=28000,
        thorough=600000,
        rule="documents without expressions, written with random quoting, character references and letter "
        "case; the output is compared with the tree: exactly, through html.parser, and rendered again; "
        "non-trivial: at least 3 nodes of 2 kinds",
    )
]
