"""Rendering a single block or function, against its part of the whole rendering."""

import re

from tklib import gen, model, real
from tklib.harness import Family, Info, Violation
from checks import c07

ID = "C09"


# the conditions around definitions that are on the top level
TOP = ("1", "not 0", "''", "'x'")


class MarkedGen(c07.TreeGen):
    """The bodies of the definitions begin and end with a mark"""

    def mark(self, node, name):
        body = node[3]
        body.insert(0, ["text", "\u27e6%s\u27e7" % name, 0])
        body.append(["text", "\u27e6/%s\u27e7" % name, 0])
        return node

    def block(self, name, names, depth, place):
        node = super().block(name, names, depth, place)
        node = ["ctl", "block", name, node[3], {}]
        return self.mark(node, name)

    def function(self, name, names, depth):
        node = super().function(name, names, depth)
        if node[0] == "el":
            node = ["ctl", "def", node[4]["ctl"]["def"], node[3], {}]
        return self.mark(node, name)


def build(draw):
    saved = c07.TreeGen
    c07.TreeGen = MarkedGen
    try:
        case = c07.build(draw, odd_names=False)
    finally:
        c07.TreeGen = saved
    g = gen.Gen(draw)
    case["main"] = g.pick(sorted(case["files"]))
    case.pop("steps")
    return case


def definitions(case, name, acc):
    """The names defined by a file and its ancestors"""

    def walk(nodes, top):
        for n in nodes:
            if n[0] == "ctl" and n[1] == "block":
                acc.setdefault(n[2], "block")
                walk(n[3], False)
            elif n[0] == "ctl" and n[1] == "def" and top:
                acc.setdefault(n[2][0], "def")
                walk(n[3], False)
            elif n[0] == "ctl":
                walk(n[3], top and n[1] in ("if", "unless") and n[2] in TOP)
            elif n[0] == "el":
                walk(n[3], top and (n[4].get("ctl") or {}).get("if", "'x'") in TOP)

    root = case["files"][name]["root"]
    if root[1] == "extends":
        walk(root[3], True)
        definitions(case, root[2], acc)
    else:
        walk([root], True)
    return acc


def check(case):
    sources = {k: model.emit_doc(d) for k, d in case["files"].items()}
    ctx = case["ctxs"][0]
    main = case["main"]
    labels = set()
    found = 0
    with real.TemplateDir(sources) as d:
        loader = real.FileLoader(paths=[d.path])
        template = real.outcome(lambda: loader.load(main))
        if template[0] != "ok":
            raise Violation("cannot load %s: %r" % (main, template), sources=sources)
        template = template[1]
        whole = real.outcome(lambda: template.render(model.decode_ctx(ctx)))
        for name, kind in sorted(definitions(case, main, {}).items()):
            if kind == "def" and c07.PARAMS[name]:
                continue
            details = dict(sources=sources, main=main, name=name, context=ctx)
            got = real.outcome(lambda: template.render(model.decode_ctx(ctx), name))
            want = real.outcome(lambda: model.Interp(case["files"]).render(main, model.decode_ctx(ctx), name))
            real.compare(got, want, **details)
            again = real.outcome(lambda: template.render_to_buffer(model.decode_ctx(ctx), funcname=name).join())
            real.compare(again, got, **details)
            labels.add(kind + "-" + got[0])
            if whole[0] != "ok" or got[0] != "ok":
                continue
            parts = re.findall("\u27e6%s\u27e7.*?\u27e6/%s\u27e7" % (name, name), whole[1], re.DOTALL)
            for part in parts:
                found += 1
                if part != got[1]:
                    raise Violation(
                        "%s renders as %r, but as %r within the whole" % (name, got[1], part), **details
                    )
        again = real.outcome(lambda: template.render(model.decode_ctx(ctx)))
        real.compare(again, whole, sources=sources, main=main, context=ctx)
    labels.add("parts%d" % min(found, 5))
    return Info(found >= 1, labels)


FAMILIES = [
    Family(
        "parts",
        lambda: gen.case_strategy(build),
        check,
        quick=12000,
        thorough=300000,
        rule="trees of templates that extend each other, with marked blocks and functions; each is rendered by "
        "name and compared with the marked part of the whole rendering and with the reference interpreter; "
        "non-trivial: at least one part was found in the whole",
    )
]
