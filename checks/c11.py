"""The C buffer and the Python buffer, driven by the same operations."""

import gc
import os
import sys
import tracemalloc

import markupsafe

from tklib import env, gen, model, real
from tklib.harness import Family, Info, Violation

ID = "C11"
ASSUMPTIONS = [
    "the C module is built with AddressSanitizer for this check"
    if os.environ.get("TK_ASAN") == "1"
    else "AddressSanitizer is not available: memory errors are seen only if they crash",
    "positional arguments only; the attributes that only one of the buffers has are not compared",
]

_worlds = {}


def setup():
    if _worlds:
        return
    from tonnikala.runtime import python as c_runtime
    from tonnikala import loader as c_loader

    pure, pure_loader = env.second_world()
    if pure.Buffer is c_runtime.Buffer or "_buffer" in (pure.Buffer.__module__ or "") or pure.Buffer.__module__ == "buffer":
        raise env.HarnessError("no pure Python buffer")
    from tonnikala.runtime import _buffer

    if c_runtime.Buffer is not _buffer.Buffer:
        raise env.HarnessError("the C buffer is not used")
    _worlds["c"] = (c_runtime, c_loader)
    _worlds["python"] = (pure, pure_loader)


# ------------------------------------------------------------------ values


class Plain:
    def __repr__(self):
        return "<%s>" % type(self).__name__


class Raises(Plain):
    def __init__(self, name):
        self.name = name

    def __str__(self):
        raise {"ValueError": ValueError, "KeyError": KeyError, "Custom": CustomError}[self.name]("from __str__")


class CustomError(Exception):
    pass


class BadStr(Plain):
    def __str__(self):
        return 5


class RaisesHtml(Plain):
    def __html__(self):
        raise ValueError("from __html__")


class BadHtml(Plain):
    def __html__(self):
        return 7


class Reentrant(Plain):
    """Writes to a buffer while it is converted"""

    def __init__(self, buffer, html):
        self.buffer = buffer
        self.html = html

    def __str__(self):
        self.buffer("<inner>")
        return "<outer>"


class ReentrantHtml(Reentrant):
    def __html__(self):
        self.buffer("<inner>")
        return "<html>"


def decode(v, buffers, escape):
    if isinstance(v, dict) and "$" in v:
        kind, arg = v["$"], v["v"]
        if kind == "buffer":
            return buffers[arg % len(buffers)]
        if kind == "escaped":
            return escape(decode(arg, buffers, escape))
        if kind == "raise":
            return Raises(arg)
        if kind == "badstr":
            return BadStr()
        if kind == "rhtml":
            return RaisesHtml()
        if kind == "badhtml":
            return BadHtml()
        if kind == "reentrant":
            return Reentrant(buffers[arg % len(buffers)], False)
        if kind == "reentranthtml":
            return ReentrantHtml(buffers[arg % len(buffers)], True)
        if kind == "type":
            return {"int": int, "str": str, "bool": bool}[arg]
    return model.decode_value(v)


def value(g):
    k = g.n(21)
    if k <= 4:
        return g.string()
    return [
        lambda: None,
        lambda: True,
        lambda: False,
        lambda: g.n(3),
        lambda: {"$": "buffer", "v": g.n(4)},
        lambda: {"$": "buffer", "v": g.n(4)},
        lambda: {"$": "escaped", "v": value(g)},
        lambda: {"$": "markup", "v": g.string()},
        lambda: {"$": g.pick(["html", "sub", "str", "htmlsub", "equal"]), "v": g.string()},
        lambda: {"$": "raise", "v": g.pick(["ValueError", "KeyError", "Custom"])},
        lambda: {"$": g.pick(["badstr", "rhtml", "badhtml"]), "v": 0},
        lambda: {"$": "reentrant", "v": g.n(4)},
        lambda: {"$": "reentranthtml", "v": g.n(4)},
        lambda: {"$": "rep", "v": [g.string(), g.draw(gen.st.integers(0, 2000))]},
        lambda: {"$": g.pick(["intsub"]), "v": g.n(9)},
        lambda: {"$": "tuple", "v": [g.string()]},
        lambda: {"$": "type", "v": g.pick(["int", "bool"])},
    ][k - 5]()


OPS = ["call", "call", "call", "attr", "attr", "join", "str", "html", "new", "attrs", "escape", "htmlcall"]


def op(g):
    kind = g.pick(OPS)
    b = g.n(4)
    if kind == "call":
        return ["call", b, [value(g) for _ in range(g.n(4))]]
    if kind == "attr":
        if g.chance(12):
            return ["attr", b, [value(g) for _ in range(g.n(4))]]
        return ["attr", b, [value(g) if g.chance(4) else g.pick(gen.ATTRS), value(g)]]
    if kind == "attrs":
        pairs = [[g.pick(gen.ATTRS), value(g)] for _ in range(g.n(3))]
        return ["attrs", b, [g.n(2), pairs]]
    if kind == "escape":
        return ["escape", b, [value(g)]]
    return [kind, b, []]


def build(draw):
    g = gen.Gen(draw)
    return {"buffers": 1 + g.n(3), "ops": [op(g) for _ in range(1 + g.n(11))]}


def perform(runtime, buffers, step):
    kind, b, args = step
    b %= len(buffers)
    buffer = buffers[b]
    dec = lambda v: decode(v, buffers, runtime.escape)
    if kind == "call":
        return buffer(*[dec(a) for a in args])
    if kind == "attr":
        return buffer.output_boolean_attr(*[dec(a) for a in args])
    if kind == "join":
        return buffer.join()
    if kind == "str":
        return str(buffer)
    if kind == "html":
        return ("self", buffer.__html__() is buffer)
    if kind == "htmlcall":
        return str(runtime.escape(buffer))
    if kind == "new":
        buffers[b] = type(buffer)(*[dec(a) for a in args])
        return None
    if kind == "escape":
        buffer(runtime.escape(dec(args[0])))
        return None
    if kind == "attrs":
        how, pairs = args
        pairs = [(k, dec(v)) for k, v in pairs]
        if how == 0:
            values = dict(pairs)
        elif how == 1:
            values = pairs
        else:
            values = iter(pairs)
        out = runtime.output_attrs(values)
        buffer(out)
        return str(out)
    raise ValueError(kind)


def run(runtime, case, record=True):
    buffers = [runtime.Buffer() for _ in range(case["buffers"])]
    trace = []
    for step in case["ops"]:
        try:
            rv = perform(runtime, buffers, step)
            result = ["ok", None if rv is None else repr(rv)]
        except Exception as e:
            result = ["error", type(e).__name__]
        trace.append(result)
        total = sum(len(b.join()) for b in buffers)
        if total > 2000000:
            break
    trace.append([b.join() for b in buffers])
    trace.append([type(b.join()).__name__ for b in buffers])
    return trace


def check(case):
    got = run(_worlds["c"][0], case)
    want = run(_worlds["python"][0], case)
    if got != want:
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), len(want))
        step = case["ops"][at] if at < len(case["ops"]) else "the final contents"
        raise Violation(
            "step %d, %s: C gives %.300s, Python gives %.300s" % (at, step, got[at:at + 1], want[at:at + 1]),
            operations=case["ops"],
        )
    kinds = {o[0] for o in case["ops"]}
    errors = sum(t[0] == "error" for t in got[:-2])
    return Info(len(kinds) >= 2 and any(got[-2]), list(kinds) + (["errors"] if errors else []))


# -------------------------------------------------------------- references


class Tracked:
    """Converts to a string object of its own"""

    __slots__ = ("s", "__weakref__")

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __html__(self):
        return self.s


def check_references(case):
    """Nothing stays behind, and nothing is released too often"""
    Buffer = _worlds["c"][0].Buffer
    strings = ["r%d-%s" % (i, "x" * 50) for i in range(6)]
    tracked = [Tracked(s) for s in strings[:3]]
    objects = strings + tracked
    names = ["name-%s" % ("n" * 30), "other-%s" % ("o" * 30)]
    base = [sys.getrefcount(o) for o in objects + names]

    def once():
        buffers = [Buffer() for _ in range(case["buffers"])]
        for kind, b, args in case["steps"]:
            b = buffers[b % len(buffers)]
            try:
                if kind == "call":
                    b(*[buffers[a[1] % len(buffers)] if a[0] == "b" else objects[a[1]] for a in args])
                elif kind == "attr":
                    b.output_boolean_attr(names[args[0] % 2], objects[args[1]])
                elif kind == "attr3":
                    b.output_boolean_attr(names[args[0] % 2], [True, False, None, Raises("ValueError"), RaisesHtml(), BadStr(), BadHtml()][args[1] % 7])
                elif kind == "attrname":
                    b.output_boolean_attr([Raises("ValueError"), BadStr(), tracked[0], 5][args[0] % 4], objects[args[1]])
                elif kind == "fail":
                    b(objects[args[1]], [Raises("KeyError"), BadStr()][args[0] % 2], objects[args[1]])
                elif kind == "count":
                    b.output_boolean_attr(*objects[: args[0]])
                elif kind == "kw":
                    b(objects[0], a=objects[1])
                elif kind == "join":
                    b.join()
                elif kind == "str":
                    str(b)
                elif kind == "html":
                    b.__html__()
            except Exception:
                pass
            if len(b.join()) > 200000:
                break

    once()
    sys.exc_info()
    after = [sys.getrefcount(o) for o in objects + names]
    if after != base:
        raise Violation(
            "reference counts changed from %r to %r" % (base, after), steps=case["steps"]
        )
    constants = ["", " ", '="', '"', None, True, False]
    before_c = [sys.getrefcount(c) for c in constants]
    tracemalloc.start()
    try:
        once()
        grown = []
        for _ in range(3):
            start = tracemalloc.get_traced_memory()[0]
            for _ in range(20):
                once()
            grown.append(tracemalloc.get_traced_memory()[0] - start)
    finally:
        tracemalloc.stop()
    if min(grown) >= 20 * 24:
        raise Violation("memory grows by %r bytes in 20 repetitions" % (grown,), steps=case["steps"])
    # the constants of the module are immortal or keep their counts
    after_c = [sys.getrefcount(c) for c in constants]
    for c, a, b in zip(constants, before_c, after_c):
        if abs(a - b) >= 55:
            raise Violation("the reference count of %r changed from %d to %d" % (c, a, b), steps=case["steps"])
    kinds = {s[0] for s in case["steps"]}
    return Info(len(kinds) >= 2, kinds)


def build_references(draw):
    g = gen.Gen(draw)
    steps = []
    for _ in range(1 + g.n(7)):
        kind = g.pick(["call", "call", "attr", "attr", "attr3", "attrname", "fail", "count", "kw", "join", "str", "html"])
        b = g.n(3)
        if kind == "call":
            args = [["b" if g.chance(4) else "o", g.n(8)] for _ in range(g.n(4))]
        else:
            args = [g.n(6), g.n(8)]
        steps.append([kind, b, args])
    return {"buffers": 1 + g.n(2), "steps": steps}


# --------------------------------------------------------------- templates


def build_template(draw):
    g = gen.Gen(draw, size=20)
    return {"doc": g.document(), "ctx": g.context()}


def check_template(case):
    source = model.emit_doc(case["doc"])
    results = []
    for name in ("c", "python"):
        loader = _worlds[name][1].Loader()
        results.append(
            real.outcome(lambda: loader.load_string(source).render(model.decode_ctx(case["ctx"])))
        )
    if results[0] != results[1]:
        raise Violation("C renders %r, Python renders %r" % tuple(results), source=source, context=case["ctx"])
    want = real.outcome(
        lambda: model.Interp({"main": case["doc"]}).render("main", model.decode_ctx(case["ctx"]))
    )
    real.compare(results[1], want, source=source, context=case["ctx"])
    return Info("py:" in source, [results[0][0]])


FAMILIES = [
    Family(
        "operations",
        lambda: gen.case_strategy(build),
        check,
        quick=24000,
        thorough=700000,
        setup=setup,
        rule="sequences of operations on up to four buffers, performed with the C and the Python buffer; results, "
        "types of errors and contents are compared; non-trivial: two kinds of operations and some output",
    ),
    Family(
        "references",
        lambda: gen.case_strategy(build_references),
        check_references,
        quick=4800,
        thorough=100000,
        setup=setup,
        rule="sequences of operations on C buffers, succeeding and failing, repeated: reference counts of all "
        "arguments must come back, and the memory must not grow; non-trivial: two kinds of operations",
    ),
    Family(
        "templates",
        lambda: gen.case_strategy(build_template),
        check_template,
        quick=3000,
        thorough=100000,
        setup=setup,
        rule="generated templates rendered with either buffer and the reference interpreter; non-trivial: has control structures",
    ),
]
