"""Control structures render as documented: comparison with a reference interpreter."""

import html

from checks import c22
from tklib import gen, model, pygen, real
from tklib.harness import Family, Info, Violation

ID = "C04"


def build(draw):
    g = gen.Gen(draw, size=22)
    g.control_kinds = tuple(k for k in g.control_kinds if k != "block")
    g.allow_blocks = False
    doc = g.document()
    return {"doc": doc, "ctx": g.context()}


def count_kinds(nodes, acc):
    for n in nodes:
        if n[0] == "ctl":
            acc.append(n[1])
            acc.extend("@" + k for k in n[4].get("ctl", {}))
            count_kinds(n[3], acc)
        elif n[0] == "el":
            acc.extend("@" + k for k in n[4].get("ctl", {}))
            count_kinds(n[3], acc)
    return acc


def check(case):
    source = model.emit_doc(case["doc"])
    got = real.outcome(lambda: real.render(source, model.decode_ctx(case["ctx"])))
    want = real.outcome(
        lambda: model.Interp({"main": case["doc"]}).render("main", model.decode_ctx(case["ctx"]))
    )
    real.compare(got, want, source=source, context=case["ctx"])
    kinds = set(count_kinds([case["doc"]["root"]], []))
    return Info(len(kinds) >= 2, [*kinds, want[0]] + ([want[1]] if want[0] == "error" else []))


# -------------------------------------------------------------- conditions


def build_focused(draw):
    """One condition, on its own"""
    g = gen.Gen(draw, size=6)
    scope = g.start()
    k = g.n(4)
    if k <= 1:
        cond = g.comparison(scope, 1)
    elif k == 2:
        cond = g.part_constant(scope, 2)
    else:
        cond = g.expr_bool(scope, 3)
    kind = g.pick(["if", "unless", "unless", "strip"])
    inside = [["text", "T", 0], ["expr", "s1", 1]][: g.n(2)]
    if kind != "strip" and g.n(1):
        node = ["ctl", kind, cond, inside, {}]
    else:
        node = ["el", g.pick(["p", "p", "script"]), [["class", [["text", "c", 0]], 0]][: g.n(1)], inside, {"ctl": {kind: cond}}]
    if node[1] == "p" and node[0] == "el" and g.n(2) == 2:
        # with another one
        node[4]["ctl"][g.pick(["if", "unless", "strip"])] = g.comparison(scope, 0)
    if g.n(3) == 3:
        node = ["ctl", "for", ["s1", "l1"], [node], {}]
    if g.n(3) == 3:
        node = ["ctl", "def", ["fd", "n1=1"], [node], {}], ["expr", "fd()", 0]
    else:
        node = (node,)
    doc = {"root": ["el", "div", [], [["text", "a", 0], *node, ["text", "b", 0]], {}]}
    return {"doc": doc, "ctx": g.context(), "cond": cond}


def check_focused(case):
    info = check(case)
    return Info(len(case["cond"]) > 4 and "error" not in info.labels, info.labels)


# template, output if true, output if false
PLACES = [
    ('<p><py:if test="%s">T</py:if></p>', "<p>T</p>", "<p></p>"),
    ('<p><b py:if="%s">T</b></p>', "<p><b>T</b></p>", "<p></p>"),
    ('<p><py:unless test="%s">T</py:unless></p>', "<p></p>", "<p>T</p>"),
    ('<p><b py:unless="%s">T</b></p>', "<p></p>", "<p><b>T</b></p>"),
    ('<p><b py:strip="%s">T</b></p>', "<p>T</p>", "<p><b>T</b></p>"),
    ('<p><py:if test="1"><b py:unless="%s">T</b>-</py:if></p>', "<p>-</p>", "<p><b>T</b>-</p>"),
    ('<p><py:def function="fd(x0)"><py:if test="%s">T</py:if></py:def>${fd(1)}</p>', "<p>T</p>", "<p></p>"),
    ('<p><b py:for="x0 in (1, 2)" py:if="%s">T</b></p>', "<p><b>T</b><b>T</b></p>", "<p></p>"),
    ('<p><b class="$$" py:if="%s" py:content="\'x\'">T</b></p>', '<p><b class="$">x</b></p>', "<p></p>"),
]


def build_conditions(draw):
    g = gen.Gen(draw)
    p = pygen.PyGen(g)
    code = p.expr([], 1 + g.n(2))
    return {"code": code, "place": g.n(len(PLACES) - 1), "names": c22.context_names(g, p.used), "kinds": sorted(p.kinds)}


def check_conditions(case):
    template, true, false = PLACES[case["place"]]
    source = template % html.escape(case["code"])
    ctx, want_log = c22.context(case["names"])
    want = real.outcome(lambda: true if eval(compile("(%s)" % case["code"], "<python>", "eval"), ctx) else false)
    ctx, got_log = c22.context(case["names"])
    got = real.outcome(lambda: real.render(source, ctx))
    if c22.summary(got) != c22.summary(want) or got[0] == "ok" and got != want:
        raise Violation("got %r, expected %r" % (got, want), template=source)
    if got[0] == "ok" and "py:strip" not in source and got_log != want_log:
        # a condition of strip may be evaluated more than once
        raise Violation("it does %r, expected %r" % (got_log, want_log), template=source)
    return Info(got[0] == "ok" and len(case["code"]) > 4, case["kinds"] + [got[0], "true" if got[1] == true else "false"])


FAMILIES = [
    Family(
        "focused", lambda: gen.case_strategy(build_focused), check_focused, quick=12000, thorough=300000,
        rule="one if, unless or strip with a generated condition - comparisons, chained ones, partly constant ones - compared "
        "with the reference interpreter; non-trivial: a condition of more than a name, without an error",
    ),
    Family(
        "conditions", lambda: gen.case_strategy(build_conditions), check_conditions, quick=12000, thorough=300000,
        rule="Python expressions of all kinds as the conditions of if, unless and strip; what is output, the calls made and the exception "
        "compared with the truth of eval; non-trivial: evaluates without an exception",
    ),
    Family(
        "render",
        lambda: gen.case_strategy(build),
        check,
        quick=24000,
        thorough=600000,
        rule="generated templates of nested control structures (element and attribute "
        "forms), rendered with a generated context and compared with the reference "
        "interpreter; non-trivial: at least two kinds of control structures",
    )
]
