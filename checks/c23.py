"""The compiled JavaScript: expressions, any characters, minification, the command line tool, other processes."""

import json
import os
import shutil
import subprocess
import sys
import tempfile

from checks import c02, c19
from tklib import env, gen, js, jsgen, model, real
from tklib.harness import Family, HarnessError, Info, Violation

ID = "C23"
ASSUMPTIONS = [
    "expressions are of the edition of the language that the parser of the templates knows (no reserved words as names of "
    "properties), without line breaks, comments, and regular expressions with quotes, brackets or backslashes",
]


def outputs(codes, main, ctxs, what, **details):
    outcome = js.evaluate(codes, main, ctxs)
    if outcome[0] == "error":
        raise Violation("%s: JavaScript fails: %s" % (what, outcome[1]), codes=codes, **details)
    return outcome[1]


def compiled(sources, what, **kw):
    outcome = real.outcome(lambda: {k: js.compile_js(s, k, **kw) for k, s in sources.items()})
    if outcome[0] != "ok":
        raise Violation("%s: compilation fails: %s" % (what, outcome[1:]), sources=sources)
    return outcome[1]


def valid(codes, what, **details):
    outcome = js.parse_es5(list(codes.values()))
    if outcome[0] == "error":
        raise Violation("%s is not valid JavaScript: %s" % (what, outcome[1]), codes=codes, **details)


# ------------------------------------------------------------ expressions

VARIABLES = {"n1": "num", "n2": "num", "s1": "str", "s2": "str"}
NAMES = sorted(VARIABLES) + ["b1", "l1", "o1"]


def build_expressions(draw):
    g = gen.Gen(draw, size=10)
    e = jsgen.ExprGen(g, VARIABLES)
    exprs = [e.any(2 + g.n(2))[0] for _ in range(1 + g.n(2))]
    ctx = {
        "n1": g.n(5), "n2": g.n(9) - 4, "s1": g.pick(["a", "", "b<", "aé"]), "s2": g.string(top=2), "b1": bool(g.n(1)),
        "l1": [g.string(top=1) for _ in range(g.n(2))], "o1": {"k": g.string(top=1), "a": 1, "sub": {"name": "x"}},
    }
    return {"exprs": exprs, "where": [g.n(8) for _ in exprs], "ctx": ctx}


def check_expressions(case):
    outcome = js.values(NAMES, case["exprs"], case["ctx"])
    if outcome[0] == "error":
        # an endless loop, or an error
        if "SyntaxError" in outcome[1]:
            raise HarnessError("invalid expression generated: %r: %s" % (case["exprs"], outcome[1]))
        return Info(False, ["error"])

    def document(exprs):
        children = []
        for expr, where in zip(exprs, case["where"]):
            node = ["expr", expr, 1 if expr.isalnum() else 0]
            if where == 0:
                children.append(node)
            elif where == 3:
                children.append(["ctl", "for", ["q", "[(%s)]" % expr], [["expr", "q", 1]], {}])
            elif where == 4:
                children.append(["el", "b", [], [["expr", "q", 1]], {"ctl": {"for": ["q", "[(%s)]" % expr]}}])
            elif where == 5:
                children.append(["el", "b", [], [], {"ctl": {"content": expr}}])
            elif where == 6:
                children.append(["ctl", "if", "[(%s)]" % expr, [["text", "t", 0]], {}])
            elif where == 7:
                children.append(["ctl", "with", [["q", "(%s)" % expr]], [["expr", "q", 1]], {}])
            elif where == 8:
                name = "f%d" % len(children)
                children.append(["ctl", "def", [name, "q"], [["expr", "q", 1], ["text", "!", 0]], {}])
                children.append(["expr", "%s((%s))" % (name, expr), 0])
            elif where == 1:
                children.append(["el", "p", [["title", [["text", "x", 0], node], 0]], [], {}])
            else:
                children.append(["el", "i", [], [["text", "t ", 0], node, ["text", "\n", 0]], {}])
        return {"root": ["el", "html", [], children, {}]}

    results = ["r%d" % i for i in range(len(case["exprs"]))]
    want = model.Interp({"main": document(results)}).render("main", dict(zip(results, outcome[1])))
    sources = {"main": model.emit_doc(document(case["exprs"]), "js:")}
    details = dict(source=sources["main"], expressions=case["exprs"], context=case["ctx"])
    for minify in (False, True):
        what = "minified" if minify else "compiled"
        codes = compiled(sources, what, minify=minify)
        got = outputs(codes, "main", [case["ctx"]], what, **details)
        if got != [want]:
            raise Violation("%s: %r, expected %r" % (what, got[0], want), code=codes["main"], **details)
    labels = [w for w in ("function", "typeof", "in", "instanceof", "new", "for", "while", "switch", "try", "if", "do", "var")
              if any(w in e.replace("(", " ").split() for e in case["exprs"])]
    labels += [o for o in ("++", "--", "- -", "?", ",", ">>>", "+=", "{", "/a") if any(o in e for e in case["exprs"])]
    return Info(bool(labels), labels)


# ------------------------------------------------------------ strings

SEPARATORS = ["\u2028", "\u2029", "\x00", "\x1f", "\x7f", "\x85", "\ufeff", "\u200b", "</script>", "\\u0041", "\\'", '\\"', "\\\\",
              "\\n", "//", "/*", "*/", "`", "$", "\\x41", "\U0001f600", "'", '"', "\\"]


class StringGen(c02.StaticGen):
    def text(self, pieces=gen.TEXT_PIECES, top=5):
        if self.n(1):
            return ["text", self.string(SEPARATORS, 4), self.style()]
        return super().text(pieces, top)


def build_strings(draw):
    g = StringGen(draw, size=12)
    doc = g.document(g.start({}), depth=3, hoisted=False)
    dt = c02.DOCTYPES[g.n(len(c02.DOCTYPES) - 1)]
    if dt:
        doc["doctype"], doc["doctype_out"] = dt
    return doc


def check_strings(doc):
    source = model.emit_doc(doc, "js:")
    want = model.Interp({"main": doc}).render("main", {})
    for minify in (False, True):
        what = "minified" if minify else "compiled"
        codes = compiled({"main": source}, what, minify=minify)
        valid(codes, what, source=source)
        got = outputs(codes, "main", [{}], what, source=source)
        if got != [want]:
            raise Violation("%s: %r, expected %r" % (what, got[0], want), source=source, code=codes["main"])
    labels = [repr(s) for s in SEPARATORS if s in want]
    return Info(bool(labels) or "\\" in want or '"' in want, labels)


# ------------------------------------------------------------ builds

_compilers = None


def compilers():
    """Processes with other seeds of the order of sets"""
    global _compilers
    if _compilers is None or _compilers[0] != os.getpid():
        procs = []
        for seed in (0, 1, 77, 4000000000 + os.getpid() % 1000):
            procs.append(
                subprocess.Popen(
                    [sys.executable, "-B", os.path.join(env.VERIF, "tklib", "jscompiler.py")],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8",
                    env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONIOENCODING="utf-8"),
                )
            )
        _compilers = (os.getpid(), procs)
    return _compilers[1]


def compile_elsewhere(proc, sources, **kw):
    try:
        proc.stdin.write(json.dumps([sources, kw]) + "\n")
        proc.stdin.flush()
        return json.loads(proc.stdout.readline())
    except (OSError, ValueError) as e:
        raise HarnessError("the compiler process failed: %r" % e)


def build_builds(draw):
    g = gen.Gen(draw, size=1)
    case = c19.build_tree(draw) if g.n(2) == 0 else c19.build(draw, counters=False)
    case["process"] = g.n(3)
    return case


def check_builds(case):
    sources = {k: model.emit_doc(js.project(d, "js"), "js:") for k, d in case["files"].items()}
    main = case["main"]
    first = compiled(sources, "compiled")
    valid(first, "the code", sources=sources)
    plain = js.evaluate(first, main, case["ctxs"], methods=True)
    if plain[0] == "ok":
        for text, (html, string, *others) in zip(plain[1][::2], plain[1][1::2]):
            wants = ["%s|%s|x|1" % (text, m) for m in ("appendTo", "prependTo", "insertAfter", "insertBefore")]
            if [html, string] != [text, text] or others != wants:
                raise Violation("rendered %r, but in other ways %r" % (text, [html, string] + others), sources=sources)

    def same(codes, what):
        got = js.evaluate(codes, main, case["ctxs"])
        if got[0] != plain[0] or plain[0] == "ok" and got[1] != plain[1][::2]:
            raise Violation("%s: %r, but compiled: %r" % (what, got, plain), sources=sources, codes=codes, contexts=case["ctxs"])

    same(compiled(sources, "compiled again"), "compiled again")
    minified = compiled(sources, "minified", minify=True)
    valid(minified, "the minified code", sources=sources)
    same(minified, "minified")
    proc = compilers()[case["process"]]
    elsewhere = compile_elsewhere(proc, sources)
    if elsewhere[0] != "ok":
        raise Violation("another process does not compile it: %r" % elsewhere, sources=sources)
    same(elsewhere[1], "compiled by another process")

    # the templates of a tree may be compiled in different ways
    mixed = {k: (first, minified, elsewhere[1])[i % 3][k] for i, k in enumerate(sorted(sources))}
    same(mixed, "mixed")
    return Info(plain[0] == "ok" and sum(len(s) for s in sources.values()) > 60, [plain[0], "templates: %d" % len(sources)])


# ------------------------------------------------------------ the command

ENVIRONMENTS = {
    "utf-8": {"LC_ALL": "C.UTF-8"},
    "ascii": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"},
    "hash seed": {"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "5"},
}


def build_command(draw):
    g = gen.Gen(draw, size=1)
    if g.n(2) == 0:
        doc = build_strings(draw)
        case = {"files": {"main": doc}, "main": "main", "ctxs": [{}]}
    else:
        case = c19.build(draw, counters=False)
    case["environment"] = g.pick(sorted(ENVIRONMENTS))
    # a file, or the standard streams
    case["streams"] = g.n(3) == 0
    case["cut"] = g.n(99) if g.n(3) == 0 else None
    case["name"] = g.pick(["t.html", "a b.tk", "é.html", "-t.html"][:3])
    return case


def check_command(case):
    source = model.emit_doc(js.project(case["files"]["main"], "js"), "js:")
    if case["cut"] is not None:
        source = source[: len(source) * case["cut"] // 100]
    want = real.outcome(lambda: js.compile_js(source, "main"))
    environment = dict(os.environ, PYTHONPATH=env.REPO, **ENVIRONMENTS[case["environment"]])
    if case["streams"]:
        environment["PYTHONIOENCODING"] = "utf-8"
    folder = tempfile.mkdtemp(prefix="tkcmd", dir=env.scratch())
    name = case["name"] if case["environment"] != "ascii" else "t.html"
    path = os.path.join(folder, name)
    target = os.path.join(folder, "out.js")
    try:
        with open(path, "wb") as f:
            f.write(source.encode("utf-8"))
        tool = os.path.join(env.REPO, "bin", "tonnikala-compile-jstemplate")
        args = ["-", "-"] if case["streams"] else [path, target]
        proc = subprocess.run(
            [sys.executable, "-B", tool] + args, input=source.encode("utf-8") if case["streams"] else b"",
            capture_output=True, env=environment, cwd=folder, timeout=120,
        )
        if case["streams"]:
            code = proc.stdout.decode("utf-8")
        else:
            with open(target, "rb") as f:
                code = f.read().decode("utf-8")
            if proc.stdout:
                raise Violation("the command prints %r" % proc.stdout, source=source)
    finally:
        shutil.rmtree(folder, ignore_errors=True)

    error = proc.stderr.decode("utf-8", "replace")
    details = dict(source=source, environment=case["environment"], streams=case["streams"])
    if (proc.returncode == 0) != (want[0] == "ok"):
        raise Violation("the command exits with %d, %s; the loader: %r" % (proc.returncode, error[-1500:], want[:2]), **details)
    if want[0] != "ok":
        if code:
            raise Violation("the command fails, but writes %r" % code, **details)
        if "TemplateSyntaxError" not in error:
            raise Violation("the command fails with %s" % error[-1500:], **details)
        if not case["streams"] and name.isascii() and name not in error:
            raise Violation("the command does not name the file %r: %s" % (name, error[-1500:]), **details)
        return Info(True, ["malformed", case["environment"]])
    a = js.evaluate({"main": want[1]}, "main", case["ctxs"])
    b = js.evaluate({"main": code}, "main", case["ctxs"])
    if a[0] != b[0] or a[0] == "ok" and a[1] != b[1]:
        raise Violation("the code of the command gives %r, of the loader %r" % (b, a), code=code, **details)
    return Info(a[0] == "ok", [case["environment"], "streams" if case["streams"] else "files"])


FAMILIES = [
    Family(
        "expressions", lambda: gen.case_strategy(build_expressions), check_expressions, quick=3600, thorough=120000,
        rule="JavaScript expressions of all operators, with few parentheses, and functions with statements, evaluated in Node as "
        "they are and within templates, compiled and minified; non-trivial: an operator, a function or a statement",
    ),
    Family(
        "strings", lambda: gen.case_strategy(build_strings), check_strings, quick=1950, thorough=60000,
        rule="static documents of any characters, compiled and minified, parsed as the fifth edition of the language, and "
        "rendered; non-trivial: separators, quotes or backslashes in the output",
    ),
    Family(
        "builds", lambda: gen.case_strategy(build_builds), check_builds, quick=480, thorough=15000,
        rule="templates of all constructs and trees of templates, compiled, compiled again, minified, compiled by processes with "
        "other hash seeds, and mixed; non-trivial: rendered, with a source longer than 60 characters",
    ),
    Family(
        "command", lambda: gen.case_strategy(build_command), check_command, quick=180, thorough=3000,
        rule="the command line tool in several locales, with files or standard streams, on well-formed and truncated templates; "
        "non-trivial: rendered or malformed",
    ),
]
