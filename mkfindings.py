"""Writes known_findings.json: the listed findings and the repaired defects."""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))

# findings that are recorded, not repaired: {property, family, case, what}
WHAT = "a character reference to a line break (&#10;) counts as a line of the source for the errors after it in the same text or attribute"
KNOWN = [
    {
        "property": "C14",
        "family": "chains",
        "case": {
            "files": {"main.tk": "<html>&#10;${boom('<é>', 99)}</html>"},
            "expect": [["main.tk", "boom('<é>', 99)"]], "exc": "Boom", "labels": [],
        },
        "what": WHAT,
    },
    {
        "property": "C21",
        "family": "errors",
        "case": {"source": "<html>&#10;${\x01\x02a b}</html>", "through": "string"},
        "what": WHAT,
    },
    {
        "property": "C21",
        "family": "errors",
        "case": {"source": "<html><p title=\"&#10;${\x01\x02a b}\"></p></html>", "through": "string"},
        "what": WHAT + " (attribute)",
    },
]

# property and subject of the repair
FIXED = [
    ("C02", "parse markup within <title>", "markup within <title>, <textarea> and similar elements was dropped from the output"),
    ("C22", "comprehension variables no longer hide", "a context variable with the name of a comprehension variable elsewhere in the template was a NameError"),
    ("C10", "honour literal() wherever", "literal() within a larger expression escaped its argument"),
    ("C05", "blocks and functions named as a Python builtin", "a block or function named as a builtin was replaced by the builtin"),
    ("C21", "keep the location of the code of loops and functions in JavaScript", "errors in js:for and js:def named line 1"),
    ("C04", "implement py:unless", "py:unless raised an exception in the compiler"),
    ("C19", "parse JS template expressions as single operands", "JS expressions with a comma or a comment compiled to other or broken code"),
    ("C19", "literal() of JS templates", "literal() in JS templates raised a ReferenceError"),
    ("C19", "accept a mapping for attrs in JS", "js:attrs with a mapping output nothing"),
    ("C19", "compile a JS template that extends another without", "js:extends without blocks gave broken code"),
    ("C19", "js:with binds its variables", "js:with variables leaked out of the element"),
    ("C03", "allow whitespace before expressions", "whitespace after ${ was a syntax error"),
    ("C13", "report a stray end tag", "a stray end tag raised another exception"),
    ("C13", "report misplaced elements", "misplaced elements and doctypes raised other exceptions"),
    ("C13", "accept a processing instruction without", "an empty processing instruction raised another exception"),
    ("C13", "accept a doctype in any case", "a lower case doctype raised another exception"),
    ("C13", "report untokenizable expressions", "expressions Python cannot tokenize raised another exception"),
    ("C03", "ignore braces in the text of f-strings", "an f-string with braces ended the expression"),
    ("C13", "report errors found by the Python compiler", "errors that only the Python compiler detects raised SyntaxError"),
    ("C13", "report invalid block names", "invalid block names and aliases raised other exceptions or were accepted"),
    ("C13", "report a mandatory attribute without value", "a mandatory attribute without a value raised another exception"),
    ("C13", "report content or control attributes of py:import", "content of py:import was dropped silently or raised another exception"),
    ("C02", "output <embed>, <track>", "the void elements embed, track and wbr got an end tag"),
    ("C12", "removing a template file", "removal of a template file made every load fail"),
    ("C12", "reload a template that was replaced", "a file replaced by one with an older time was not reloaded"),
    ("C09", "compile blocks that are nested", "blocks within blocks, functions and loops failed to compile or could not be rendered alone"),
    ("C21", "compile control attributes whose value is alone", "a control attribute value alone on its line was a syntax error"),
    ("C21", "tell the line of every syntax error", "validation errors had no line"),
    ("C07", "allow comments within py:extends", "a comment within py:extends was an error"),
    ("C14", "report the right lines for code in processing", "errors in processing instructions were reported on other lines"),
    ("C17", "translatable texts know their position", "messages were extracted with wrong lines and in another order"),
    ("C17", "extracted plural messages are in the order", "extract_tonnikala gave the plural of a message before its singular"),
    ("C17", "the comments of extracted messages are a list", "extract_tonnikala gave comments as a string, which its users take for a list of characters"),
    ("C17", "extract the messages of control attributes", "gettext calls in control attributes were not extracted"),
    ("C11", "do not leak references", "the C buffer leaked references"),
    ("C11", "the Python buffer accepts any attribute name", "attribute names that are not strings failed with the Python buffer only"),
    ("C18", "valueless attributes, doctypes and syntax errors", "valueless attributes and doctypes failed in Chameleon templates"),
    ("C05", "defaults of the arguments of top level", "defaults of arguments of top level functions could not refer to context variables"),
    ("C04", "compile conditions and loops without contents", "an empty if or for failed to compile"),
    ("C08", "names of the importing template do not hide", "an imported template saw the functions of the importer in place of its own"),
    ("C11", "the list of the accelerated buffer", "deleting the list of the C buffer crashed the process"),
    ("C12", "a deleted template file that comes back", "a parent that was removed and created again was not reloaded"),
    ("C13", "report character references to surrogates", "references to surrogates raised another exception; &#X41; was not decoded"),
    ("C13", "report null bytes in expressions", "a null byte in an expression raised another exception"),
    ("C13", "report malformed JavaScript expressions", "malformed JavaScript expressions raised other exceptions"),
    ("C13", "report invalid names in JavaScript", "invalid names in JavaScript templates raised other exceptions or gave broken code"),
    ("C21", "tell the line of content and replace attributes", "an error had no line"),
    ("C13", "report content and replace attributes of py:import", "content and replace attributes of py:import raised other exceptions"),
    ("C13", "report an unexpected end of JavaScript", "an unexpected end of JavaScript code raised another exception"),
    ("C02", "attributes of the same name with different prefixes", "an attribute py:for was dropped when the element had an attribute for"),
    ("C23", "report characters that are illegal in JavaScript", "characters illegal in JavaScript were dropped silently from the code"),
    ("C21", "the line of text outside", "text outside of the root element was said to be at a line before it"),
    ("C21", "a syntax error in an imported template", "a syntax error in an imported template had no source, nor the frame of the importing template"),
    ("C22", "names within classes, asynchronous", "names assigned within a class hid context variables; annotations could not refer to them"),
    ("C23", "keep signs and numbers apart", "- -a was compiled to --a, and minified a + +b to a++b; (1).toFixed() to 1.toFixed()"),
    ("C23", "escape the line separators", "U+2028 and U+2029 ended string literals of the code before the tenth edition of JavaScript"),
    ("C23", "the JavaScript compiler reads and writes UTF-8", "tonnikala-compile-jstemplate failed on templates that are not ASCII in the C locale"),
    ("C21", "the JavaScript compiler reports errors", "tonnikala-compile-jstemplate did not name the file of a syntax error"),
    ("C23", "minified JavaScript keeps the braces", "js:if around a lone js:def was minified to invalid JavaScript"),
    ("C19", "JavaScript templates can have a block or variable named hasOwnProperty", "a block or variable named hasOwnProperty (or a context without a prototype) failed in JavaScript"),
    ("C22", "the code of a processing instruction may contain", "Python code with > in a processing instruction was cut"),
    ("C13", "report a character reference with too many digits", "a character reference of over 4300 digits in an attribute raised ValueError"),
    ("C14", "errors in conversions, scopes and imports", "errors of conversions of values, of imports and of parents, and the frames around py:with, had the line 1 or lines of the generated code"),
    ("C10", "a call of literal with wrong arguments", "literal with two arguments from a sequence output both, with keywords ignored them"),
    ("C07", "normalize the names of blocks", "blocks and import aliases with names such as a decomposed e and accent, or a micro sign, were a NameError (C08 too)"),
    ("C02", "resolve numeric references to Windows-1252", "references such as &#150; were resolved to control characters in text, but to those of HTML in attributes"),
    ("C13", "names that would be normalized to keywords", "names such as a fullwidth None raised ValueError, or SyntaxError, instead of TemplateSyntaxError"),
]

EXTRA = os.path.join(HERE, "known_extra.json")

if __name__ == "__main__":
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True
    ).stdout.splitlines()
    commits = {}
    for line in log:
        commit, subject = line.split(" ", 1)
        commits[subject] = commit
    fixed = []
    used = set()
    for prop, start, what in FIXED:
        found = [s for s in commits if s.startswith("fix: " + start)]
        assert len(found) == 1, (start, found)
        used.add(found[0])
        fixed.append("fixed: property=%s %s %s" % (prop, commits[found[0]], what))
    for s in commits:
        if s.startswith("fix:") and s not in used:
            print("not listed:", s)
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"known": KNOWN, "fixed": fixed}, f, indent=1)
        f.write("\n")
