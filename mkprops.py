"""Writes properties.jsonl (kept in the repository for editing convenience)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            },
        }
    )


GEN = "tonnikala/languages/python/generator.py"
TK = "tonnikala/syntaxes/tonnikala.py"
DOC = "tonnikala/syntaxes/docparser.py"
RT = "tonnikala/runtime/python.py"
BUF = "tonnikala/runtime/_buffer.c"
LOAD = "tonnikala/loader.py"
IR = "tonnikala/ir/generate.py"
NODES = "tonnikala/ir/nodes.py"
EXPR = "tonnikala/expr.py"
PYEXPR = "tonnikala/languages/python/__init__.py"
FREE = "tonnikala/languages/python/astalyzer.py"
DEBUG = "tonnikala/runtime/debug.py"

prop(
    "C01",
    "Interpolated values are HTML-escaped exactly once, everywhere",
    "Wherever a template outputs the value of an expression - in text, in an attribute value alone or with other text, "
    "in script and style elements, through content, replace and attrs control attributes, through function arguments, "
    "loops, blocks and imports - the value appears in the output as its string form with & < > \" and ' replaced by "
    "character references, so no value can add markup or end an attribute. Values that declare themselves as markup "
    "(__html__) or are wrapped in literal(), and the output of template functions and blocks, are inserted verbatim; "
    "nothing is escaped twice and nothing is lost.",
    ["inputs", "programs"],
    "all values (strings of any characters, numbers, collections, objects with __str__ or __html__, str subclasses), all "
    "positions of output in a template, all depths of passing rendered output to other functions",
    "The tests escape a handful of strings in a few positions; the guarantee is over all values in all positions and their combinations.",
    [GEN, RT, BUF, NODES, EXPR],
    [
        ("escape call around output expressions", GEN + " PyExpressionNode"),
        ("attribute output", BUF + " Buffer_output_boolean_attr, " + RT + " output_attrs"),
        ("literal optimisation", GEN + " coalesce_outputs"),
    ],
)
prop(
    "C02",
    "Static markup is reproduced faithfully",
    "A template without expressions and control structures renders to a document equivalent to its source: the same "
    "elements in the same nesting and order, the same attributes with the same values (valueless attributes stay valueless), "
    "the same text, comments and document type; text of script and style elements is kept verbatim, and comments starting with "
    "<!--! are dropped. Rendering the output again as a template reproduces it unchanged.",
    ["inputs"],
    "all well-formed documents: any nesting, attribute quoting, character references, void elements, letter case, whitespace, "
    "text and attribute values of any characters",
    "Tests compare a few dozen literal documents; parsing and output must agree for all of them.",
    [DOC, TK, IR, NODES],
    [
        ("parsing", DOC + " TonnikalaHTMLParser"),
        ("flattening to text", IR + " flatten_element_nodes_on, get_start_tag_nodes, render_constant_attributes"),
    ],
)
prop(
    "C03",
    "Expression boundaries in text follow the documented rule",
    "In text and attribute values $name begins an expression that extends over directly following attribute accesses, calls and "
    "subscripts and nothing more, ${...} extends to the matching closing brace in terms of Python tokens (braces within strings, "
    "f-strings, nested brackets and comments do not count), $$ stands for one dollar sign, and any other dollar sign stands for itself. Every "
    "character outside of the expressions is output as it is.",
    ["inputs"],
    "all sequences of literal text, dollar signs and expressions written next to each other, in text, attributes and raw elements",
    "The boundary depends on the characters that follow; tests sample a few of the combinations.",
    [EXPR, PYEXPR],
    [
        ("splitting of text", EXPR + " handle_text_node"),
        ("finding the end of expressions", PYEXPR + " parse_unenclosed_expression, parse_brace_enclosed_expression"),
    ],
)
prop(
    "C04",
    "Control structures render as documented in any combination",
    "For every nesting of if, unless, for, with, def, strip, content, replace and attrs, written as elements or as attributes, and every "
    "context, the output is what the documentation defines: conditions select, loops repeat in order, strip removes only the tag, content replaces "
    "the children, replace the element, and functions render to their contents wherever they are called. Several control attributes on one element nest in a fixed order.",
    ["programs", "inputs"],
    "all template trees of control structures and elements, all contexts",
    "Tests exercise each structure mostly alone, the combinations are unbounded.",
    [GEN, TK, IR, NODES],
    [
        ("control nodes", TK + " create_control_nodes, generate_element_node"),
        ("code generation", GEN),
    ],
)
prop(
    "C05",
    "Template variables are scoped lexically and functions are closures",
    "A name in an expression means the innermost enclosing binding - function argument, with variable, loop variable, assignment of a code "
    "section, template function - or otherwise the context variable of that name, or the Python builtin. The arguments and variables of a template function and the variables of a with are not visible "
    "outside of it; loop variables, functions and assignments are variables of the surrounding function, as in Python; none of them changes the context of the caller. Template functions see the variables of the place where they were defined, "
    "wherever they are called from, and functions at the top level of the template can be called from anywhere in it, including before their definition.",
    ["programs", "inputs"],
    "all nestings of binding constructs with shadowed names, functions passed as values and called elsewhere, names of builtins as variables",
    "Scoping errors need a particular combination of shadowing, nesting and call order.",
    [GEN, FREE, RT, LOAD],
    [
        ("free variables", FREE),
        ("binder", GEN + " PyRootNode.generate_ast"),
        ("scopes", GEN + " generate_varscope, PyDefineNode"),
    ],
)
prop(
    "C06",
    "Attribute values: omission, boolean form and dynamic attributes",
    "An attribute whose value is a single expression is omitted if the value is None or False, is written name=\"name\" if it is True, and otherwise has the escaped value - "
    "also when it is empty or zero; an attribute with other text around its expressions is always written, with the string forms of the values. "
    "The attrs control attribute adds attributes from a mapping or from pairs by the same rules, in order, and adds nothing for an empty or missing value.",
    ["inputs", "programs"],
    "all values (None, booleans, zero, empty strings, 0.0, subclasses, markup objects) in all forms of attributes",
    "Tests try a few values per form; the boundary between true, falsy and missing values has many members.",
    [GEN, RT, BUF],
    [
        ("single expression attributes", GEN + " PyAttributeNode"),
        ("boolean attributes", RT + " output_boolean_attr, " + BUF + " Buffer_output_boolean_attr"),
        ("attrs", RT + " output_attrs"),
    ],
)
prop(
    "C07",
    "Template inheritance: the most derived definition is used everywhere",
    "When a template extends another, over any number of levels, the base document is rendered with every block and top-level function replaced by the most derived definition "
    "of that name; this holds wherever the block or function is used or called - in any of the templates, in nested blocks, in loops and in other functions. "
    "What no descendant redefines renders as in the ancestor, and rendering a descendant never changes the rendering of its ancestors or siblings.",
    ["programs", "histories"],
    "all inheritance trees of several levels, all sets of overridden blocks and functions, all orders of rendering them with one loader",
    "Tests have a few fixed pairs of parent and child.",
    [GEN, RT, LOAD],
    [
        ("extends", GEN + " PyExtendsNode, PyBlockNode, PyRootNode"),
        ("binding", RT + " bind"),
        ("loading parents", LOAD + " FileLoader.load"),
    ],
)
prop(
    "C08",
    "Imported templates expose exactly their own functions and blocks",
    "Importing a template under an alias makes its functions and blocks callable as attributes of the alias, rendering as they would in that template with the same context, "
    "and defines nothing else in the importing template: functions of the same name in the importer and in several imported templates stay distinct. "
    "A name that the imported template does not define is an AttributeError.",
    ["programs"],
    "all graphs of imports without cycles, with inheritance in the imported templates, name clashes between templates, and any context",
    "Tests import one function from one template.",
    [RT, GEN],
    [("import", RT + " import_defs, ImportedTemplate"), ("imports in code", GEN + " PyImportNode")],
)
prop(
    "C09",
    "Rendering a single block or function equals its part of the whole",
    "Rendering a template with the name of a block or of a function callable without arguments gives exactly what that block or function contributes to the full rendering with the same context, "
    "also when it is defined in an ancestor of the template or overridden in a descendant.",
    ["programs", "inputs"],
    "all blocks and functions of all templates, nested blocks, inherited and overridden ones, all contexts",
    "Tests render one or two blocks by name.",
    [LOAD, GEN, RT],
    [("render by name", LOAD + " Template.render"), ("blocks as functions", GEN + " PyBlockNode, add_block")],
)
prop(
    "C10",
    "Optimisations of the compiled template do not change its output",
    "The output does not depend on how text is divided into pieces, how many pieces are output in sequence, whether a condition is constant or not, or whether literal() is applied where the compiler can remove it: "
    "equivalent spellings of a template render alike, for templates of any size.",
    ["programs"],
    "all templates and all equivalence-preserving rewritings of them: split text, dropped comments between, constant conditions, indirect literal, hundreds to thousands of consecutive outputs",
    "Tests check outputs of small templates, where most optimisations do not meet a boundary.",
    [GEN, IR],
    [
        ("output coalescing", GEN + " coalesce_outputs, coalesce_strings"),
        ("text merging", IR + " merge_text_nodes_on"),
        ("constant conditions", GEN + " PyIfNode, static_expr_to_bool"),
    ],
)
prop(
    "C11",
    "The accelerated and the pure Python output buffers are interchangeable",
    "For every sequence of operations on output buffers - output of any objects, of other buffers, of boolean attributes, joining - the C implementation and the Python implementation give the same results and raise the same kinds of errors, "
    "and templates render identically with either. The C implementation never crashes and never leaks or over-releases references.",
    ["histories", "inputs"],
    "all operation sequences, all argument types including objects whose conversions fail, buffers nested and output into themselves, all argument counts",
    "The tests run with whichever buffer is installed, and never compare the two nor count references.",
    [BUF, RT],
    [("C buffer", BUF), ("Python buffer", RT + " _TKPythonBufferImpl")],
)
prop(
    "C12",
    "The file loader serves the right version of the right file",
    "Loading a name always resolves to the first match in the search paths and returns a template compiled from that file; without reload a loaded template stays as it was, "
    "and with reload every load after the check interval reflects the current contents of the file, its parents and its imports, whatever edits, replacements, removals and re-creations of files have happened; "
    "a removed template is no longer served, while a template whose parent was removed may stay until the file comes back. "
    "A missing file is reported as an OSError, and a template that fails to compile is not served or cached and does not disturb the others.",
    ["histories", "fault_sequences"],
    "all histories of loads, edits (newer, older and equal-size versions), removals, re-creations, compile errors, search path additions and clock advances",
    "Tests load each file once from a fixed directory.",
    [LOAD],
    [("cache and reload", LOAD + " FileLoader.load, _maybe_purge_cache"), ("search", LOAD + " FileLoader.resolve")],
)
prop(
    "C13",
    "Malformed templates are reported as template syntax errors, always",
    "For every string given as a template source, compiling either succeeds or raises TemplateSyntaxError - no other exception, no crash, no endless loop - in every syntax; "
    "the error has a line number within the source and a readable message, and a failed compilation leaves no trace in later ones.",
    ["inputs"],
    "all strings, from random characters to valid templates with one construct damaged, nested or truncated",
    "Tests try a dozen malformed templates.",
    [DOC, TK, PYEXPR, GEN, LOAD, EXPR],
    [("error reports", LOAD + " load_string"), ("parser errors", DOC + " syntax_error"), ("validation", IR + " Validator")],
)
prop(
    "C14",
    "Runtime errors point to the template file and the line",
    "When an expression of a template raises an exception at render time, the exception propagates with its type, message, arguments and cause, and its traceback contains a frame for each active template, function and block, named after it, with the template's file name and the line "
    "of the expression (or of the call) in the template source.",
    ["programs", "inputs"],
    "all positions of failing expressions: text, attributes, control attributes, code sections, arguments, multi-line expressions, within functions, blocks, loops, inherited and imported templates",
    "Tests check a couple of positions in small templates.",
    [DEBUG, GEN, LOAD, DOC, PYEXPR],
    [("traceback rewriting", DEBUG + " translate_exception"), ("locations", GEN + " adjust_locations, get_fragment_ast"), ("source positions", DOC + " find_attr_positions")],
)
prop(
    "C15",
    "Rendering is a pure function of the template and the context",
    "Rendering the same template with an equal context always gives the same output: repeatedly, interleaved with other renderings and failed ones, from several threads at once, from a fresh process or another hash seed, and compiled again from the same source. "
    "Rendering does not modify the given context, and one rendering is never visible in another.",
    ["histories", "schedules", "configurations"],
    "all sequences and interleavings of compilations and renderings of several templates with several contexts, including ones that raise errors midway",
    "Tests render each template once or twice from a single thread.",
    [LOAD, RT, GEN],
    [("context handling", LOAD + " make_template_context, Template.render_to_buffer"), ("binding", RT + " bind")],
)
prop(
    "C16",
    "Translatable templates pass exactly their human-readable text to gettext",
    "With translation enabled, each run of static text between expressions and tags, without the surrounding whitespace, and each static text in title, alt, placeholder, value and caption attributes, is replaced by its gettext translation, escaped, and nothing else is: "
    "markup, other attributes, script and style contents, expressions and whitespace are output as without translation. With an identity gettext the output equals that of the untranslated template, but for the order of attributes.",
    ["programs", "inputs"],
    "all templates, all catalogues from message to translation (with markup characters in the translations)",
    "Tests translate a few sentences.",
    [EXPR, TK, GEN, IR],
    [("text partition", EXPR + " create_text_nodes"), ("translatable attributes and elements", TK), ("output", GEN + " PyTranslatableOutputNode")],
)
prop(
    "C17",
    "Message extraction finds what rendering looks up, on the right lines",
    "Extracting messages from a template yields every message that rendering the template, with translation enabled, may look up - its static texts and the constant arguments of gettext calls in all of its expressions, control attributes and code - "
    "with the line number where each occurs, in the order of the document for texts, and yields no message that does not occur in it.",
    ["programs"],
    "all templates with static text, attributes and gettext calls in any position",
    "There are no tests of extraction.",
    ["tonnikala/i18n/__init__.py", EXPR, NODES],
    [("extraction", "tonnikala/i18n/__init__.py TonnikalaExtractor"), ("positions of texts", EXPR + " create_text_nodes")],
)
prop(
    "C18",
    "The Chameleon syntax means the same as the equivalent Tonnikala template",
    "A template in the Chameleon syntax with condition, repeat, omit-tag, content, replace and attrs attributes and interpolations renders exactly as the Tonnikala template in which these are written with if, for, strip, content, replace and attrs.",
    ["programs", "inputs"],
    "all templates of the supported control attributes in any combination, all contexts",
    "Tests have a few small Chameleon templates.",
    ["tonnikala/syntaxes/chameleon.py", IR],
    [("Chameleon control attributes", "tonnikala/syntaxes/chameleon.py")],
)
prop(
    "C19",
    "Templates compiled to JavaScript render like their Python counterparts",
    "A template whose expressions mean the same in both languages renders to the same text when compiled to JavaScript (with the js: prefix) and run with the JavaScript runtime as when compiled to Python: the same control structures, escaping, attribute rules, functions, blocks and inheritance.",
    ["programs", "inputs"],
    "all templates of the constructs and expressions common to both targets, all contexts of strings, integers, booleans, null, lists and records",
    "The JavaScript tests run a few templates of one construct each.",
    ["tonnikala/languages/javascript/generator.py", "tonnikala/runtime/javascript.js"],
    [("code generation", "tonnikala/languages/javascript/generator.py"), ("runtime", "tonnikala/runtime/javascript.js")],
)
prop(
    "C20",
    "Pyramid integration renders the same, with the documented configuration",
    "A template rendered through Pyramid gives what the template gives directly with the view's values over the system's values; templates are found by asset specification or in the search paths in the order they were added, only registered extensions are handled, "
    "and the tonnikala.* settings configure exactly what the corresponding directives do, reload following pyramid.reload_templates when not set.",
    ["configurations", "histories"],
    "all combinations of settings and directives, search paths in files and packages, template names and view values",
    "There are no tests of the Pyramid integration.",
    ["tonnikala/pyramid/__init__.py", LOAD],
    [("settings", "tonnikala/pyramid/__init__.py includeme"), ("search", "tonnikala/pyramid/__init__.py PyramidTonnikalaLoader.resolve"), ("rendering", "tonnikala/pyramid/__init__.py TonnikalaTemplateRenderer")],
)
prop(
    "C21",
    "Template syntax errors name the line of the offending construct",
    "When a template has one malformed construct, the TemplateSyntaxError raised for it carries the name of the file, the source and the number of the line on which the construct begins or the error within it was found, "
    "wherever in the document the construct is, and its traceback ends at that file and line.",
    ["programs"],
    "all well-formed templates with exactly one malformed expression, control attribute, tag, entity, name or structure inserted at any position",
    "Tests check the line of a few errors in small templates.",
    [DOC, TK, GEN, PYEXPR, LOAD, "tonnikala/runtime/exceptions.py"],
    [("error location", LOAD + " load_string"), ("positions", DOC + " find_attr_positions, flush_character_data"), ("fragment errors", GEN + " get_fragment_ast")],
)
prop(
    "C22",
    "Expressions and code in templates mean what they mean in Python",
    "Every Python expression evaluates in a template to what Python's eval gives with the context as its variables - including lambdas, comprehensions, generator expressions, nested scopes, f-strings, starred and keyword arguments, conditional and assignment expressions - and raises the same exceptions; "
    "the code of processing instructions and with attributes behaves as the same statements at the beginning of a Python function over the context.",
    ["programs", "inputs"],
    "all Python expressions and all simple and compound statements that bind names, over all contexts that define their free variables or not",
    "Which names are taken from the context is decided by an analysis of the code; tests cover a few node types of the grammar.",
    [FREE, GEN, PYEXPR],
    [("free variable analysis", FREE + " FreeVarFinder"), ("binding of context variables", GEN + " PyRootNode.generate_ast")],
)
prop(
    "C23",
    "Compiled JavaScript is self-contained, valid and safe to ship",
    "Compiling a template to JavaScript succeeds for every supported template with valid JavaScript whose behaviour is the same when minified, when compiled with the command line tool, and for every order of generated variables, and in which an expression means what it means in JavaScript; "
    "any text, attribute value or name in the template is reproduced by the code exactly, whatever characters it has.",
    ["programs", "configurations"],
    "all supported templates, static texts of any characters including quotes, backslashes, line separators and script end tags, hash seeds, minification on and off",
    "Tests compile small templates without minification.",
    ["tonnikala/languages/javascript/generator.py", LOAD, "bin/tonnikala-compile-jstemplate"],
    [("strings in code", "tonnikala/languages/javascript/generator.py Str"), ("minification", LOAD + " JSLoader"), ("command line", "bin/tonnikala-compile-jstemplate")],
)

if __name__ == "__main__":
    import os

    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
