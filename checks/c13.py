"""Malformed templates: success or TemplateSyntaxError, nothing else."""

import contextlib
import io
import os
import re
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from tklib import env, gen, model, real
from tklib.harness import Family, HarnessError, Info, Violation

ID = "C13"
ASSUMPTIONS = [
    "sources have no lone surrogates, and no nesting of hundreds of levels (Python's own recursion limit)",
    "a template that extends a file that does not exist is an OSError, as for any other missing file",
]

SYNTAXES = ["tonnikala", "tonnikala", "tonnikala", "chameleon", "js"]

EXPRS = [
    "a", "a b", "a.b", "f(x)", "f(", ")", "a[", "]", "{", "}", "{'a': 1}", "lambda: 1", "lambda", "'x", '"', "'''",
    "f'{a}'", "f'{", "a if b", "a if b else c", "x for x in y", "[x for x in y]", "(yield)", "await x", "a = 1",
    "a := 1", "(a := 1)", "*a", "**a", "1 +", "+", "0x", "1__0", "0777", "1.", "…", "é", "a\nb", "#", "a # b", "\\",
    "a\\\nb", "None", "None = 1", "True()", "...", "not", "in", "x in y", "i in", "in y", "i, j in z", "(i in y", "i.a in y",
    "f() in y", "1 in y", "import os", "return", "pass", "a;b", ";", "a = 1; b = 2", "a, b = 1, 2", "a =", "=", "a == b",
    "a += 1", "global a", "nonlocal a", "def f(): pass", "f(a, a)", "f(*, a)", "f(a=1, b)", "f(a, /, b)", "f(a", "f()", "f(1)",
    "f(a.b)", "f(*a, **b)", "f(None)", "__debug__", "f(__debug__)", "a.__debug__", "class", "if", "$", "${", "${a}", "\t", " ", "",
    "\x00", "\x0c", "\u2028", "\u00a0", "a\u00a0b", "'\\N{x}'", "'\\x'", "b'é'", "f'{a!z}'", "f'{}'", "f'{a:{b}}'", "1if 1else 0",
    "a,", "(", "((", "())", "[(])", "{[}]", "a..b", ".a", "a.", "1 2", "'a' b", "print >> a", "9" * 5000, "-" * 90 + "1", "(" * 250,
    "\U0001d413rue", "\U0001d40done()", "\uff26alse = 1", "i, \uff26alse in y", "\uff49f", "\uff49f in y", "e\u0301", "\u00b5", "f(\uff34rue)", "\uff34rue(x)", "a.\uff34rue",
    "lambda \uff2eone: 1", "[1 for \uff2eone in y]", "a\u00b2", "\u00b2", "1 if 2 else", "match x:\n case \uff2eone: pass",
    "a<b", "a&b", "a&&b", "a>b", "a-->b", "i", "x y z", "0", "1", "'s'",
]
NAMES = [
    "if", "unless", "for", "with", "vars", "def", "block", "import", "extends", "replace", "content", "strip", "attrs", "when",
    "condition", "repeat", "omit-tag", "call", "", "IF", "i f", "if:x", "switch", "else",
]
PREFIXES = ["py:", "py:", "py:", "tal:", "js:", "PY:", "xml:", ":", "py", "py::", "metal:"]
ATTR_NAMES = [
    "test", "each", "vars", "function", "name", "href", "alias", "value", "names", "class", "title", "xmlns", "xmlns:py", "a:b", "a:b:c",
    "é", "1", "=", "a\u00a0b", "-", "<", "\"", "'", "a\x00", "placeholder", "ns:", ":x",
]
TAGS = gen.TAGS + gen.VOIDS + [
    "script", "style", "html", "body", "table", "tr", "option", "svg", "a:b", "x.y", "x-", "é", "1", "", " ", "/", "!", "?", "math", "pre",
    "p", "li", "dd", "noscript", "iframe", "xmp", "textarea", "template", "head",
]
MARKUP = [
    "<", ">", "</", "/>", "<!--", "-->", "--", "<!", "<!DOCTYPE html>", "<!doctype>", "<!DOCTYPE", "<!DOCTYPE html PUBLIC \"a\" \"b\">",
    "<!DOCTYPE html SYSTEM>", "<![CDATA[", "]]>", "<![CDATA[x]]>", "<?", "?>", "<?python", "<?python x = 1 ?>", "<?python\n x = 1\n?>",
    "<?python if x: ?>", "<?xml version='1.0'?>", "<?x?>", "<??>", "<?python ?>", "<!ENTITY a 'b'>", "<!ELEMENT>", "<![if x]>", "<!--!",
    "<!-- x -->", "<!-->", "<!--->", "<!-- -- -->", "<!---->", "<!--x--!>", "<>", "</>", "</ >", "< a>", "<a/b>", "<a b='", "<a b=\"", "<a b=>",
    "<a b", "<a b c>", "<a =b>", "<a b==c>", "<a b=c d>", "<a b='c'd='e'>", "<a b=c/>", "<a/ >", "<a // >",
]
ENTITIES = [
    "&amp;", "&lt;", "&nosuch;", "&amp", "&", "&#", "&#;", "&#x;", "&#xz;", "&#0;", "&#38;", "&#x26;", "&#xD800;", "&#1114112;", "&#99999999999;",
    "&#-1;", "&;", "& ;", "&nbsp;", "&apos;", "&lang;", "&a b;", "&copy", "&copyx;", "&NotEqualTilde;", "&#x110000;", "&#128;", "&#10;",
]
DOLLARS = ["$", "$$", "$$$", "$x", "$x.", "$x.y", "$x(", "$x(1)", "$x[", "$x[0]", "${", "${}", "${ }", "${x}", "${x", "${x}}", "$}", "$\x00", "$é", "${'}'}", "$x(')')", "$x['", "${#}", "${x:y}", "$(x)", "$[x]", "$1", "${\n}", "$x.y(z)[1].w", "$if", "$None", "$x(a=1", "$x\n.y"]


def attr(g):
    k = g.n(5)
    if k <= 2:
        name = g.pick(PREFIXES) + g.pick(NAMES)
    elif k == 3:
        name = g.pick(ATTR_NAMES)
    else:
        name = g.pick(gen.ATTRS)
    k = g.n(7)
    if k == 0:
        return name
    value = g.pick(EXPRS)
    if g.n(3) == 0:
        value = g.pick(DOLLARS) + value + g.pick(ENTITIES + [""])
    if k == 1:
        return "%s=%s" % (name, value)
    if k == 2:
        return "%s='%s'" % (name, value)
    return '%s="%s"' % (name, value)


def tag_name(g):
    if g.n(2) == 0:
        return g.pick(PREFIXES) + g.pick(NAMES)
    return g.pick(TAGS)


def control_element(g):
    """A control element as it is commonly written, with any expression"""
    name, attribute = g.pick([
        ("if", "test"), ("unless", "test"), ("for", "each"), ("with", "vars"), ("vars", "names"), ("def", "function"),
        ("block", "name"), ("import", "href"), ("extends", "href"), ("replace", "value"), ("call", "x"),
    ])
    out = "<py:%s %s=\"%s\"" % (name, attribute, g.pick(EXPRS))
    if name == "import" and g.n(3):
        out += ' alias="%s"' % g.pick(EXPRS)
    if g.n(3) == 0:
        out += " " + attr(g)
    if g.n(5) == 0:
        return out + "/>"
    return out + ">" + g.pick(["", "x", " ", "$a", "<b/>", "<!-- -->", "<py:block name='b'/>"]) + "</py:%s>" % name


WRAPPERS = [
    '<py:for each="i in y">%s</py:for>', '<p py:for="i in y">%s</p>', '<py:if test="a">%s</py:if>', '<p py:if="a">%s</p>',
    '<py:def function="f(x)">%s</py:def>', '<p py:def="g()">%s</p>', '<py:block name="b1">%s</py:block>', '<p py:block="b2">%s</p>',
    '<py:with vars="a = 1">%s</py:with>', '<p py:with="a = 1">%s</p>', '<py:unless test="a">%s</py:unless>', '<p py:strip="a">%s</p>',
    '<py:if test="1">%s</py:if>', '<py:if test="0">%s</py:if>', '<p class="$a">%s</p>', '<p py:attrs="a">%s</p>',
    '<py:vars names="a = 1">%s</py:vars>', '<p py:replace="a">%s</p>', '<p py:content="a">%s</p>',
    '<p tal:repeat="i y">%s</p>', '<p tal:condition="a">%s</p>', '<p tal:repeat="i in y">%s</p>', '<p tal:content="a">%s</p>',
]


def piece(g):
    k = g.n(17)
    if k <= 2:
        name = tag_name(g)
        attrs = "".join(" " + attr(g) for _ in range(g.n(2)))
        return "<%s%s%s>" % (name, attrs, g.pick(["", "", "", "/", " /"]))
    if k == 3:
        return "</%s>" % tag_name(g)
    if k <= 6:
        name = tag_name(g)
        attrs = "".join(" " + attr(g) for _ in range(1 + g.n(1)))
        return "<%s%s>%s</%s>" % (name, attrs, g.pick(["", "x", "$x", "\n"]), name)
    if k <= 8:
        return control_element(g)
    if k == 9:
        return g.pick(MARKUP)
    if k == 10:
        return g.pick(ENTITIES)
    if k == 11:
        return g.pick(DOLLARS)
    if k <= 13:
        return "${%s}" % g.pick(EXPRS)
    if k == 14:
        return "<?python %s ?>" % g.pick(EXPRS)
    if k == 15:
        return '<a %s="${%s}%s">' % (g.pick(["class", "title", "py:content", "py:attrs"]), g.pick(EXPRS), g.pick(["", "x", "$", "</a>"])) + "</a>"
    if k == 16:
        return g.pick(["<script>%s</script>", "<style>%s</style>", "<script>%s"]) % (g.pick(EXPRS) + g.pick(DOLLARS))
    return g.string(gen.TEXT_PIECES, 4)


def build_pieces(draw):
    g = gen.Gen(draw)
    syntax = g.pick(SYNTAXES)
    body = "".join(piece(g) for _ in range(1 + g.n(5)))
    for _ in range(g.n(3)):
        body = g.pick(WRAPPERS).replace("%s", body)
        if g.n(1):
            body = piece(g) + body
    k = g.n(5)
    if k <= 3:
        body = "<html>%s</html>" % body
    elif k == 4:
        body = g.pick(["<!DOCTYPE html>", "\n", "x", "<!-- -->", '<py:extends href="p.tk">']) + body
    return {"syntax": syntax, "source": respell(syntax, body)}


def respell(syntax, source):
    if syntax == "js":
        return source.replace("py:", "js:")
    return source


# ------------------------------------------- combinations of valid structures

ELEMENTS = [
    ("if", {"test": "a"}), ("unless", {"test": "a"}), ("for", {"each": "i in y"}), ("with", {"vars": "a = 1"}), ("vars", {"names": "a = 1"}),
    ("def", {"function": "f(x)"}), ("block", {"name": "b"}), ("import", {"href": "i.tk", "alias": "m"}), ("extends", {"href": "p.tk"}),
    ("replace", {"value": "a"}), ("nosuch", {}), ("p", {}), ("br", {}), ("script", {}), ("p", {}),
]
CONTROLS = [
    ("if", "a"), ("unless", "a"), ("for", "i in y"), ("with", "a = 1"), ("vars", "b = 2"), ("def", "g()"), ("block", "c"), ("strip", "a"),
    ("content", "a"), ("replace", "a"), ("attrs", "{'x': 1}"), ("nosuch", "1"), ("condition", "a"), ("repeat", "i in y"), ("omit-tag", ""),
]


def combined(g, depth, prefix):
    name, attrs = g.pick(ELEMENTS)
    control = name not in ("p", "br", "script")
    out = [" %s=\"%s\"" % a for a in attrs.items() if not g.chance(12)]
    names = []
    for _ in range(g.n(2)):
        n, value = g.pick(CONTROLS)
        if n in names:
            continue
        names.append(n)
        k = g.n(11)
        out.insert(g.n(len(out)), " %s%s%s" % (prefix, n, "" if k == 11 else '=""' if k == 10 else '="%s"' % value))
    if g.chance(6):
        out.append(g.pick([' class="c"', ' title="$a"', " checked", ' xmlns:py="x"', ' %s="1"' % prefix.strip(":")]))
    tag = prefix + name if control else name
    if g.chance(4):
        return ["<%s%s/>" % (tag, "".join(out))], 1 + len(names)
    count = 1 + len(names)
    body = []
    for _ in range(g.n(2) if depth else 0):
        more, n = combined(g, depth - 1, prefix)
        body += more
        count += n
    if g.n(1):
        body.insert(g.n(len(body)), g.pick(["x", " ", "$a", "<!-- c -->", "<?python a = 1 ?>", "<!--! -->", "\u00a0"]))
    return ["<%s%s>" % (tag, "".join(out)), *body, "</%s>" % tag], count


def build_combinations(draw):
    g = gen.Gen(draw)
    syntax = g.pick(SYNTAXES)
    prefix = {"chameleon": "tal:", "js": "js:"}.get(syntax, "py:")
    parts, count = combined(g, 3, prefix)
    if g.n(2):
        parts = ["<html>", *parts, "</html>"]
    elif g.n(2) == 2:
        parts = ["<%sextends href='p.tk'>" % prefix, *parts, "</%sextends>" % prefix]
    if g.chance(20):
        parts.insert(0, g.pick(["<!DOCTYPE html>", "\n", "<!-- c -->", "<?python a = 1 ?>"]))
    return {"syntax": syntax, "source": "".join(parts), "count": count}


def check_combinations(case):
    info = check(case)
    return Info(case["count"] > 1, info.labels)


# ----------------------------------------------------- damage to a valid one

TOKENS = re.compile(r"\w+|\s+|[^\w\s]")


def build_damaged(draw):
    g = gen.Gen(draw, size=8)
    syntax = g.pick(SYNTAXES)
    doc = g.document(depth=3, hoisted=False)
    source = model.emit_doc(doc)
    if syntax == "chameleon":
        source = source.replace("py:if", "tal:condition").replace("py:", "tal:")
    edits = []
    for _ in range(1 + g.n(3)):
        tokens = TOKENS.findall(source)
        if not tokens:
            break
        i = g.n(len(tokens) - 1)
        k = g.n(8)
        edits.append(k)
        if k <= 1:
            del tokens[i]
        elif k == 2:
            tokens.insert(i, tokens[g.n(len(tokens) - 1)])
        elif k == 3:
            j = g.n(len(tokens) - 1)
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif k == 4:
            tokens.insert(i, piece(g))
        elif k == 5:
            tokens[i] = g.pick([g.pick(EXPRS), g.pick(DOLLARS), g.pick(ENTITIES), g.pick(MARKUP)])
        elif k == 6:
            j = min(len(tokens), i + g.n(6))
            del tokens[i:j]
        elif k == 7:
            tokens.insert(i, g.pick(list("<>&\"'${}()[]=/!?-;:,.\\\n\x00\u00a0#é")))
        else:
            del tokens[i:]
        source = "".join(tokens)
    return {"syntax": syntax, "source": respell(syntax, source)}


def characters(draw):
    syntax = draw(st.sampled_from(SYNTAXES))
    alphabet = st.one_of(
        st.sampled_from("<>&\"'$!?-/={}()[]#;:,. \n\tapyifdr0\\@"),
        st.characters(exclude_categories=["Cs"]),
    )
    text = draw(st.text(alphabet, max_size=30))
    if draw(st.booleans()):
        text = "<a>%s</a>" % text
    return {"syntax": syntax, "source": text}


# ------------------------------------------------------------------ deciding

SENTINEL = {
    "tonnikala": '<p py:for="i in l" title="${i}x">$i<py:if test="i">a</py:if></p>',
    "chameleon": '<p tal:repeat="i in l" title="${i}x">$i<b tal:condition="i">a</b></p>',
    "js": "<p>x</p>",
}
WANT = {
    "tonnikala": '<p title="0x">0</p><p title="1x">1a</p>',
    "chameleon": '<p title="0x">0<b></b></p>'[:0] + '<p title="0x">0</p><p title="1x">1<b>a</b></p>',
}


def compile_one(syntax, source):
    if syntax == "js":
        # the parser of JavaScript prints what it thinks
        with contextlib.redirect_stdout(io.StringIO()):
            return real.JSLoader().load_string(source, "file.tk")
    loader = real.FileLoader(paths=[], syntax=syntax)
    return loader.load_string(source, "file.tk")


# carriage returns are line breaks in Python code; written as character
# references, these count as lines
LINE_BREAKS = re.compile(r"\r(?!\n)|&#0*1[03](?!\d)|&#[xX]0*[aAdD](?![0-9a-fA-F])|&NewLine;")


def attempt(syntax, source):
    """("ok",) or ("error", message, line)"""
    try:
        compile_one(syntax, source)
    except real.TemplateSyntaxError as e:
        lines = source.count("\n") + 1 + len(LINE_BREAKS.findall(source))
        if not isinstance(e.lineno, int) or isinstance(e.lineno, bool) or not 1 <= e.lineno <= lines:
            raise Violation("the line number of the error is %r, the source has %d lines: %s" % (e.lineno, lines, e.message), source=source, syntax=syntax)
        if not isinstance(e.message, str) or not e.message.strip() or e.message.strip() not in str(e):
            raise Violation("the error has no message: %r" % (e.message,), source=source, syntax=syntax)
        return ("error", e.message, e.lineno)
    except OSError:
        if "extends" in source.lower():
            # the parent does not exist
            return ("missing",)
        raise
    return ("ok",)


def check(case):
    syntax, source = case["syntax"], case["source"]
    try:
        got = attempt(syntax, source)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation(
            "compiling raised %s: %s" % (type(e).__name__, str(e)[:300]), source=source, syntax=syntax
        ) from None
    if got[0] != "ok":
        again = attempt(syntax, source)
        if again != got:
            raise Violation("compiling again gives %r, not %r" % (again, got), source=source, syntax=syntax)
        result = compile_one(syntax, SENTINEL[syntax])
        if syntax in WANT:
            text = result.render({"l": [0, 1]})
            if text != WANT[syntax]:
                raise Violation("after the error another template renders as %r" % text, source=source, syntax=syntax)
    return Info(got[0] != "ok", [syntax + "-" + got[0]])


# ------------------------------------------------------------ coverage-guided

FUZZED = {}


def finish(tier, seed):
    """Coverage-guided fuzzing of the compiler, in the thorough tier"""
    seconds = int(os.environ.get("TK_FUZZ_SECONDS", "1500" if tier == "thorough" else "0"))
    if not seconds:
        return []
    with tempfile.TemporaryDirectory(dir=env.scratch()) as top:
        procs = []
        for i in range(8):
            work = os.path.join(top, str(i))
            os.makedirs(os.path.join(work, "corpus"))
            procs.append((work, subprocess.Popen(
                [sys.executable, "-B", os.path.join(env.VERIF, "tklib", "fuzz13.py"),
                 work, str(seed * 8 + i + 1), str(seconds)],
                stdout=open(os.path.join(work, "log"), "w"), stderr=subprocess.STDOUT,
            )))
        found = []
        runs = 0
        for work, p in procs:
            p.wait()
            log = open(os.path.join(work, "log"), errors="replace").read()
            m = re.findall(r"^#(\d+)\s", log, re.M)
            runs += int(m[-1]) if m else 0
            path = os.path.join(work, "found.json")
            if os.path.exists(path):
                import json

                with open(path) as f:
                    found.append(json.load(f))
            elif not m:
                raise HarnessError("the fuzzer did not run: " + log[-1500:])
        FUZZED.update(runs=runs, seconds=seconds)
        rv = []
        for case in found:
            # decided again here, without the instrumentation
            try:
                check(case)
            except Violation as e:
                rv.append(("characters", case, e.message, e.details))
        return rv


def extra_coverage():
    return {"coverage_guided": FUZZED} if FUZZED else {}


FAMILIES = [
    Family(
        "pieces",
        lambda: gen.case_strategy(build_pieces),
        check,
        quick=24000,
        thorough=600000,
        rule="sequences of tags, control elements and attributes, processing instructions, entities, markup declarations and expressions, "
        "most of them malformed; non-trivial: the compiler reports an error",
    ),
    Family(
        "combinations",
        lambda: gen.case_strategy(build_combinations),
        check_combinations,
        quick=12000,
        thorough=400000,
        rule="control elements and elements with any control attributes, nested within each other, in the three syntaxes; "
        "non-trivial: two structures or more",
    ),
    Family(
        "damaged",
        lambda: gen.case_strategy(build_damaged),
        check,
        quick=10000,
        thorough=300000,
        rule="a valid generated template with one to four edits of its tokens (deleted, repeated, exchanged, replaced, inserted, truncated); "
        "non-trivial: the compiler reports an error",
    ),
    Family(
        "characters",
        lambda: gen.case_strategy(characters),
        check,
        quick=8000,
        thorough=200000,
        rule="random characters with many that have a meaning in templates; non-trivial: the compiler reports an error",
    ),
]
