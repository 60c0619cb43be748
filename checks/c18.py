"""Chameleon templates against the same templates in the Tonnikala syntax."""

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C18"

NAMES = ["condition", "repeat", "content", "replace", "attrs", "omit-tag", "if", "class", "checked", "href", "title", "for"]
DOCTYPES = ["<!DOCTYPE html>", '<!DOCTYPE html SYSTEM "about:legacy-compat">', "<!doctype html>"]


class TalGen(gen.Gen):
    control_kinds = ("replace",)
    attr_kinds = ("if", "for", "strip", "content", "replace", "attrs", "if", "for")
    allow_blocks = False

    def attrs(self, scope, top=2):
        rv = []
        for name in {self.pick(gen.ODD_ATTRS if self.chance(10) else NAMES): 1 for _ in range(self.n(top))}:
            rv.append([name, self.attr_parts(scope, name), self.n(63)])
        return rv


def build(draw):
    g = TalGen(draw, size=20)
    scope = g.start()
    k = g.n(3)
    root = g.element(scope, 4, controls=k == 0, tag=g.pick(["html", "div"]))
    doc = {"root": root}
    if g.n(4) == 0:
        doc["doctype"] = g.pick(DOCTYPES)
    if g.n(4) == 0:
        doc["post"] = [g.comment()]
    return {"doc": doc, "ctx": g.context()}


def control_names(nodes, acc):
    for n in nodes:
        if n[0] in ("el", "ctl"):
            acc.extend(n[4].get("ctl", {}))
            if n[0] == "ctl":
                acc.append("<%s>" % n[1])
            control_names(n[3], acc)
    return acc


def check(case):
    sources = {"tonnikala": model.emit_doc(case["doc"], "py:"), "chameleon": model.emit_doc(case["doc"], "tal:")}
    outcomes = {
        k: real.name_error(real.outcome(lambda: real.render(sources[k], model.decode_ctx(case["ctx"]), syntax=k)))
        for k in sources
    }
    if outcomes["tonnikala"][:2] != outcomes["chameleon"][:2]:
        raise Violation(
            "Chameleon: %r, Tonnikala: %r" % (outcomes["chameleon"], outcomes["tonnikala"]),
            sources=sources, context=case["ctx"],
        )
    if not case["doc"].get("doctype"):
        want = real.outcome(lambda: model.Interp({"main": case["doc"]}).render("main", model.decode_ctx(case["ctx"])))
        real.compare(outcomes["chameleon"], want, sources=sources, context=case["ctx"])
    names = set(control_names([case["doc"]["root"]], []))
    return Info(len(names) > 1 and outcomes["chameleon"][0] == "ok", [*names, *outcomes["chameleon"][:1]])


# ------------------------------------------------------------ errors

BROKEN = ["1 +", "a b", "(", "'x", "]", "lambda", "x = 1", "f(a=1, a=2)", "*a", "", "1 if", "def", "{", "$", "yield"]


def build_errors(draw):
    g = TalGen(draw, size=12)
    root = g.element(g.start(), 3, controls=False, tag="html")
    spots = []

    def scan(node):
        spots.append(node)
        for c in node[3]:
            if c[0] == "el" and c[1] not in model.RAW_TAGS:
                scan(c)

    scan(root)
    target = g.pick(spots)
    k = g.n(5)
    broken = g.pick(BROKEN)
    if target[1] in model.VOID or target is root:
        k = 5 if target[1] in model.VOID else 0
    if k == 0:
        target[3].insert(g.n(len(target[3])), ["expr", broken, 0])
    elif k == 5:
        target[2][:] = [["class", [["text", "a\n", 0], ["expr", broken, 0]], 2]]
    else:
        kind = ["if", "strip", "content", "attrs"][k - 1]
        target[4]["ctl"] = {kind: broken}
    for _ in range(g.n(2)):
        target[3].insert(0, ["text", "\n", 0])
    return {"doc": {"root": root}, "ctx": {}, "kind": k, "broken": broken}


def check_errors(case):
    results = {}
    sources = {"tonnikala": model.emit_doc(case["doc"], "py:"), "chameleon": model.emit_doc(case["doc"], "tal:")}
    for k, source in sources.items():
        try:
            real.load(source, "x.pt", syntax=k)
        except real.TemplateSyntaxError as e:
            if k == "chameleon" and (e.filename != "x.pt" or e.source != source):
                raise Violation("the error has filename %r and source %r" % (e.filename, e.source), sources=sources)
            results[k] = (type(e).__name__, e.lineno)
        except Exception as e:
            results[k] = (type(e).__name__, 0)
        else:
            results[k] = "ok"
    if results["tonnikala"] != results["chameleon"]:
        raise Violation("Chameleon: %r, Tonnikala: %r" % (results["chameleon"], results["tonnikala"]), sources=sources)
    return Info(results["chameleon"] != "ok", ["ok" if results["chameleon"] == "ok" else "error", "kind%d" % case["kind"]])


FAMILIES = [
    Family(
        "templates", lambda: gen.case_strategy(build), check, quick=22500, thorough=450000,
        rule="templates written in both syntaxes, with the same context; both outputs and the reference interpreter's are "
        "compared; non-trivial: two kinds of control attributes or more, rendered without an error",
    ),
    Family(
        "errors", lambda: gen.case_strategy(build_errors), check_errors, quick=7500, thorough=150000,
        rule="templates in both syntaxes with one malformed expression: the same error, on the same line; non-trivial: the "
        "expression is malformed",
    ),
]
