"""Attribute values in all forms, against the reference interpreter."""

from tklib import gen, model, real
from tklib.harness import Family, Info

ID = "C06"

NAMES = ["for", "if", "class", "checked", "title", "x-y", "data-z", "selected", "xml:lang", "value", "b", "disabled", "on"]
# names of dynamic attributes; they are output as they are given
ODD_NAMES = [
    "class_", "for__", "_x", "__y__", "dataX", "SVG", "@click", ":is", "v-on:click.once", "#ref", "(ev)", "[prop]", "*if", "a.b", "x--", "-x", "\u00e9t\u00e9", "py:if", "py:attrs",
    "length", "keys", "0", "a'b",
]
CONSTANTS = ["None", "True", "False", "0", "1", "''", "'a<'", "0.0", "()", "literal('x')", "literal('')", "not 1", "' '",
             "-1", "b''", "None or ''", "'%s' % ''", "literal(None)", "[]", "1 == 1", "None is None", "'\"'"]


def value(g):
    k = g.n(18)
    if k <= 3:
        return [None, True, False, ""][k]
    return [
        lambda: 0,
        lambda: 1,
        lambda: {"$": "float", "v": "0.0"},
        lambda: g.string(),
        lambda: g.string(),
        lambda: {"$": "markup", "v": ""},
        lambda: {"$": "markup", "v": g.string()},
        lambda: {"$": "html", "v": g.string(top=1)},
        lambda: {"$": "str", "v": g.string(top=1)},
        lambda: {"$": "intsub", "v": g.n(1)},
        lambda: {"$": "equal", "v": g.string(top=1)},
        lambda: [],
        lambda: [None],
        lambda: {"$": "sub", "v": ""},
        lambda: {"$": "bytes", "v": ""},
    ][k - 4]()


def expression(g, scope):
    v = g.pick(scope)
    return g.pick(
        [v, v, v, v, "%s or None" % v, "%s if b1 else None" % v, "f(%s)" % v, "literal(%s)" % v, "(%s, )[0]" % v,
         "not %s" % v, "b1 and %s" % v, "str(%s)" % v, g.pick(CONSTANTS), "%s is None" % v, "[%s][0]" % v,
         "bool(%s)" % v]
    )


def parts(g, scope):
    k = g.n(8)
    text = ["text", g.string(gen.TEXT_PIECES, 2), g.style()]
    x = lambda: ["expr", expression(g, scope), g.n(1)]
    if k == 0:
        return None
    if k == 1:
        return [["text", "", 0]]
    if k == 2:
        return [text]
    if k <= 5:
        return [x()]
    if k == 6:
        return [text, x()]
    if k == 7:
        return [x(), ["text", g.pick([" ", "-", "$", "\n"]), 0]]
    return [x(), x(), text]


def numbered(name, i):
    """A name of its own, of the same kind"""
    return name if i == 0 else name[:1] + str(i) + name[1:]


def dynamic(g, scope):
    k = g.n(9)
    # a mapping has every name once, pairs may repeat it
    width = 1 if k in (1, 2) and g.n(1) else 4
    names = NAMES[: 1 + g.n(2)] if width == 1 else NAMES + ODD_NAMES
    pairs = [(numbered(g.pick(names), i) if width == 4 else g.pick(names), expression(g, scope)) for i in range(g.n(3))]
    if k == 0:
        return "{%s}" % ", ".join("%r: %s" % p for p in pairs)
    if k == 1:
        return "[%s]" % ", ".join("(%r, %s)" % p for p in pairs)
    if k == 2:
        return "((k, w) for k, w in [%s])" % ", ".join("(%r, %s)" % p for p in pairs)
    if k == 3:
        return g.pick(["None", "{}", "[]", "()", "''", "False", "iter([])"])
    if k == 4:
        return "b1 and {'a': %s}" % g.pick(scope)
    if k == 5:
        return "{'a': 1, 5: %s}" % g.pick(scope)
    if k == 6:
        return "dict(q=%s)" % g.pick(scope)
    if k == 7:
        return "{literal('m'): %s, f('n'): 1}.items()" % g.pick(scope)
    return g.pick(["m1", "m2"])


def mapping(g):
    k = g.n(5)
    if k in (0, 3) and g.n(1):
        # pairs may repeat a name
        pairs = [[g.pick(NAMES[:2]), value(g)] for i in range(g.n(4))]
    else:
        pairs = [[numbered(g.pick(NAMES + ODD_NAMES), i), value(g)] for i in range(g.n(3))]
    if k == 5:
        return g.pick([None, "", 0, False])
    if k == 4:
        return dict((p[0], p[1]) for p in pairs)
    return {"$": ["pairs", "mapping", "dictsub", "iter"][k], "v": pairs}


def element(g, scope, depth):
    attrs = []
    for _ in range(g.n(3)):
        name = g.pick(NAMES)
        if name not in [a[0] for a in attrs]:
            attrs.append([name, parts(g, scope), g.n(31)])
    ctl = {}
    k = g.n(7)
    if k <= 3:
        ctl["attrs"] = dynamic(g, scope)
    if k == 4:
        ctl["for"] = ["i", "[%s]" % ", ".join(g.pick(scope) for _ in range(1 + g.n(2)))]
        scope = scope + ["i"] * 3
        attrs.append(["for-i", [["expr", "i", 1]], 0])
    if k == 5:
        ctl["strip"] = g.pick(scope + ["1", "0"])
        ctl["attrs"] = dynamic(g, scope)
    children = []
    if depth:
        for _ in range(g.n(2)):
            children.append(element(g, scope, depth - 1))
    tag = g.pick(["a", "p", "input", "option", "br", "div"])
    if tag in model.VOID:
        children = []
    return ["el", tag, attrs, children, {"style": g.n(127), "ctl": ctl}]


def build(draw):
    g = gen.Gen(draw)
    scope = ["v%d" % i for i in range(1 + g.n(4))]
    ctx = {n: value(g) for n in scope}
    ctx["b1"] = g.pick([True, False])
    ctx["m1"] = mapping(g)
    ctx["m2"] = mapping(g)
    nodes = [["ctl", "def", ["f", "x"], [["text", "f'", 0], ["expr", "x", 1]], {}]]
    nodes += [element(g, scope, 1) for _ in range(1 + g.n(3))]
    return {"doc": {"root": ["el", "div", [["id", parts(g, scope), 0]], nodes, {}]}, "ctx": ctx}


def check(case):
    source = model.emit_doc(case["doc"])
    got = real.outcome(lambda: real.render(source, model.decode_ctx(case["ctx"])))
    want = real.outcome(
        lambda: model.Interp({"main": case["doc"]}).render("main", model.decode_ctx(case["ctx"]))
    )
    real.compare(got, want, source=source, context=case["ctx"])
    labels = [got[0]]
    if got[0] == "ok" and "py:attrs" in source:
        labels.append("attrs")
    return Info("$" in source or "py:attrs" in source, labels)


FAMILIES = [
    Family(
        "attributes",
        lambda: gen.case_strategy(build),
        check,
        quick=28000,
        thorough=700000,
        rule="elements with static, valueless, single expression, mixed and dynamic attributes over values of "
        "all kinds (missing, boolean, empty, zero, markup, objects equal to everything); compared with the "
        "reference interpreter; non-trivial: has an expression",
    )
]
