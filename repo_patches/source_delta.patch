From 19ed4c964c85b7b144d4fdd11baf424557374e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 01/67] fix: parse markup within <title>, <textarea> and other
 non-script elements

Recent html.parser versions treat these as raw text, so that the control
elements in them (README's <title><py:block> example) were output verbatim.
---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..8417c6d 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -158,6 +158,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # Only the contents of these elements are raw text in a template. Recent
+    # versions of html.parser would also take the contents of <title>,
+    # <textarea>, <iframe> etc. as raw text, hiding the markup within.
+    CDATA_CONTENT_ELEMENTS = ("script", "style")
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From 354111e5928b735405ff5745a2dad3f410860c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 02/67] fix: comprehension variables no longer hide context
 variables

$x ${[x for x in y]} raised a NameError, as the comprehension target made x
be regarded as not free in the whole function.
---
 tonnikala/languages/python/astalyzer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..10d0c96 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,19 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def do_visit_comprehension(self, node):
+        # the targets are local to the comprehension; everything but the
+        # first iterable is evaluated within it.
+        subscoper = FreeVarFinder()
+        subscoper.generic_visit(node)
+        self.vars = self.vars.union(subscoper.get_free_variables())
+        self.visit(node.generators[0].iter)
+
+    visit_ListComp = do_visit_comprehension
+    visit_SetComp = do_visit_comprehension
+    visit_DictComp = do_visit_comprehension
+    visit_GeneratorExp = do_visit_comprehension
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0


From c0be46cee14b4cc54dfcb6005ef50ac50a43219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 03/67] fix: honour literal() wherever it is not optimized away

literal() returned its argument as is, so that it disabled escaping only when
the call was removed by the optimizer; for example in ${literal(x) if y else z}
or href="$literal(x)" the value was escaped.
---
 tonnikala/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..c5df31d 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -5,6 +5,8 @@ import sys
 import time
 from typing import Iterable, Optional
 
+from markupsafe import Markup
+
 from .helpers import reraise
 from .languages.javascript.generator import Generator as JavascriptGenerator
 from .languages.python.generator import Generator as PythonGenerator
@@ -29,7 +31,7 @@ class Helpers:
 escape = python.escape
 
 helpers = Helpers()
-helpers.literal = lambda x: x
+helpers.literal = lambda x: Markup(str(x))
 helpers.gettext = lambda x: x
 helpers.egettext = lambda x: escape(x)
 
-- 
2.43.0


From a9d0b443348713bf2d243c563d711555d596b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 04/67] fix: blocks and functions named as a Python builtin are
 not replaced by it

The copyright() example of README printed the Python license.
---
 tonnikala/runtime/python.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..26828af 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -1,3 +1,4 @@
+import builtins
 from collections.abc import Mapping
 from markupsafe import escape
 
@@ -72,6 +73,20 @@ def output_attrs(values):
     return rv
 
 
+_MISSING = object()
+
+
+def is_bound(context, name):
+    """
+    Tell if the context has a value for the name. The Python builtins
+    that every context has do not count: a template may freely use their
+    names for its own blocks and functions.
+    """
+
+    value = context.get(name, _MISSING)
+    return value is not _MISSING and value is not getattr(builtins, name, _MISSING)
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
@@ -84,7 +99,7 @@ def bind(context, block=False):
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if not is_bound(context, name):
                 context[name] = func
             return context[name]
 
@@ -92,7 +107,7 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if not is_bound(context, name):
             context[name] = func
         return context[name]
 
-- 
2.43.0


From 4fcb1b1295d202c8f28f4db46e98b13b38aa98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 05/67] fix: implement py:unless in templates

It is documented, and the code generators support it, but the parser rejected
both the element and the attribute.
---
 tonnikala/syntaxes/tonnikala.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..373e346 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -4,6 +4,7 @@ from xml.dom.minidom import Node
 from tonnikala.ir.nodes import (
     Element,
     If,
+    Unless,
     For,
     Define,
     Import,
@@ -130,6 +131,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         make_control_node("extends", Extends, "href")
         make_control_node("block", Block, "name")
         make_control_node("if", If, "test")
+        make_control_node("unless", Unless, "test")
         make_control_node("for", For, "each")
         make_control_node("def", Define, "function")
         make_control_node("import", Import, "href", "alias")
@@ -148,6 +150,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         make_control_node_of_attr(Block, "block")
         make_control_node_of_attr(If, "if")
+        make_control_node_of_attr(Unless, "unless")
         make_control_node_of_attr(For, "for")
         make_control_node_of_attr(Define, "def")
         make_control_node_of_attr(With, "with")
-- 
2.43.0


From c32cf87d5feb4d5ef2711cdc6c69409ab3693f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 06/67] fix: parse JS template expressions as single operands

js:unless="a || b" and js:strip compiled to (!a || b), and expressions
starting with a brace or function could not be compiled.
---
 tonnikala/languages/javascript/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..346103c 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -167,6 +167,11 @@ def get_fragment_ast(expression, mode="eval"):
     if not isinstance(expression, str):
         return expression
 
+    if mode == "eval":
+        # the parentheses ensure that this is parsed as an expression, and
+        # that it stays a single operand within the code generated around it
+        expression = "(%s\n)" % expression
+
     tree = parse(expression, mode=mode)
     return tree
 
-- 
2.43.0


From 66e687d73ba68a71888fbaa74525fba7346a5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 07/67] fix: literal() of JS templates is the one from the
 runtime

It was hidden by a variable bound from the context, where it is undefined.
---
 tonnikala/languages/javascript/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 346103c..7e71e5a 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -689,6 +689,11 @@ class JsRootNode(JsComplexNode):
 
         free_variables |= generator.top_level_names
 
+        # the runtime provides literal, do not hide it with a variable
+        # that is bound from the context
+        if "literal" not in generator.top_level_names:
+            free_variables.discard("literal")
+
         # discard _TK_ variables, always builtin names undefined
         # from free variables.
         for i in list(free_variables):
-- 
2.43.0


From c958880d7a4b5274f1c9d4375570127ee2743c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 08/67] fix: accept a mapping for attrs in JS templates

js:attrs with an object was silently ignored; only a list of pairs worked.
---
 tonnikala/runtime/javascript.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..07c864f 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -135,10 +135,16 @@ define([], function () {
     function outputAttrs(values) {
         var rv, i, vn, key, value;
 
-        if (!values || !values.length) {
+        if (!values) {
             return '';
         }
 
+        if (!Array.isArray(values)) {
+            values = Object.keys(values).map(function (key) {
+                return [key, values[key]];
+            });
+        }
+
         rv = new Buffer();
         for (i = 0, vn = values.length; i < vn; i++) {
             key = values[i][0];
-- 
2.43.0


From aa8bb1f2539925ac36e12203c2182dbe15668424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 09/67] fix: compile a JS template that extends another without
 overriding anything

An empty variable statement was generated, which does not parse.
---
 tonnikala/languages/javascript/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 7e71e5a..4757df0 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -726,7 +726,8 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-- 
2.43.0


From 53714917489077b31ff0377077a468b60b197752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 10/67] fix: js:with binds its variables within the element
 only

The assignments leaked to the whole template.
---
 tonnikala/languages/javascript/generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 4757df0..dde1556 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -495,6 +495,18 @@ class JsWithNode(JsComplexNode):
         super(JsWithNode, self).__init__()
         self.vars = vars
 
+    @staticmethod
+    def make_declaration(statement):
+        expr = statement.expr
+        if (
+            isinstance(expr, JSAssign)
+            and expr.op == "="
+            and isinstance(expr.left, Identifier)
+        ):
+            return AssignNewVariable([expr.left], expr.right)
+
+        return statement
+
     def generate_ast(self, generator, parent):
         var_defs = get_fragment_ast(self.vars, "exec")
         for i in var_defs:
@@ -503,6 +515,8 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
+        # bind the names within the element only
+        var_defs = [self.make_declaration(i) for i in var_defs]
         body = var_defs + self.generate_child_ast(generator, self)
         return self.generate_varscope(body)
 
-- 
2.43.0


From e41888d85ce6d957946eaec84fadc9c502be980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 11/67] fix: allow whitespace before expressions

${ x }, py:if=" x " etc. were rejected as having unexpected indent.
---
 tonnikala/languages/python/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..bf8d576 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -102,6 +102,9 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
 
+    # leading whitespace would be an indentation error
+    expression = expression[len(expression) - len(expression.lstrip()):]
+
     position = getattr(expression, "position", (1, 0))
     position = position[0] + adjust[0], position[1] + adjust[1]
 
-- 
2.43.0


From f1879253d0e8e28dcadf8559ca7abbced12294a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 12/67] fix: report a stray end tag as a template syntax error

It was an AttributeError.
---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 8417c6d..ab7f39f 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -278,6 +278,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_endtag(self, name):
         self.flush_character_data()
+        if isinstance(self.elements[-1], dom.Document):
+            self.syntax_error("Unexpected end tag </%s>" % name)
+
         popped = self.elements.pop()
 
         if name.lower() != popped.name.lower():
-- 
2.43.0


From 9dd7576d420377b45dedebedd47940886004e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 13/67] fix: report misplaced elements and doctypes as template
 syntax errors

A second root element, or a document type declaration within an element,
raised a HierarchyRequestErr from the DOM implementation.
---
 tonnikala/syntaxes/docparser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index ab7f39f..e58ea28 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -5,7 +5,7 @@ from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
-from xml.dom import minidom as dom
+from xml.dom import HierarchyRequestErr, minidom as dom
 
 from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
@@ -252,6 +252,15 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         return attr_pos
 
+    def append_child(self, node):
+        try:
+            self.elements[-1].appendChild(node)
+        except HierarchyRequestErr:
+            if node.nodeType == node.DOCUMENT_TYPE_NODE:
+                self.syntax_error("Document type declaration inside an element")
+
+            self.syntax_error("More than one root element")
+
     def getlineno(self):
         return self.getpos()[0]
 
@@ -270,7 +279,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
             el.setAttribute(k, v)
 
-        self.elements[-1].appendChild(el)
+        self.append_child(el)
         self.elements.append(el)
 
         if self_closing or name.lower() in self.void_elements:
@@ -354,7 +363,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_decl(self, decl):
         dt = dom.parseString("<!%s><html/>" % decl).doctype
-        self.elements[-1].appendChild(dt)
+        self.append_child(dt)
 
     def unknown_decl(self, decl):
         self.syntax_error("Unknown declaration: %s" % decl)
-- 
2.43.0


From 87310fae56894f9dd33c9b7b496597e0ab14ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 14/67] fix: accept a processing instruction without content

<?python?> raised a ValueError.
---
 tonnikala/syntaxes/docparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index e58ea28..1bf93d3 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -312,12 +312,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
-
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        type_, data = (data.split(None, 1) + ["", ""])[:2]
+
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
-- 
2.43.0


From 1025aee2c53062430f4774d0160f8cc37e31c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 15/67] fix: accept a doctype in any case, report invalid ones
 as syntax errors

<!doctype html>, and any invalid document type declaration raised an
ExpatError.
---
 tonnikala/syntaxes/docparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 1bf93d3..c52e0ab 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -6,6 +6,7 @@ from html.entities import entitydefs as html_entity_defs
 from io import StringIO, BytesIO
 from xml import sax
 from xml.dom import HierarchyRequestErr, minidom as dom
+from xml.parsers.expat import ExpatError
 
 from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
@@ -362,7 +363,13 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
+        # HTML allows any case for the keyword, XML does not
+        keyword, rest = decl[:7].upper(), decl[7:]
+        try:
+            dt = dom.parseString("<!%s%s><html/>" % (keyword, rest)).doctype
+        except ExpatError as e:
+            self.syntax_error("Invalid document type declaration: %s" % e)
+
         self.append_child(dt)
 
     def unknown_decl(self, decl):
-- 
2.43.0


From d797f2892d7fd84ef0b126db74d70eb380a2d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 16/67] fix: report untokenizable expressions as template
 syntax errors

For example an unterminated string as the first token raised an
UnboundLocalError, inconsistent indentation an IndentationError.
---
 tonnikala/languages/python/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..28c929d 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
@@ -53,7 +54,7 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except TokenError as e:
+    except (TokenError, SyntaxError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
         raise TemplateSyntaxError(e.args[0], node=s)
-- 
2.43.0


From 9f56a06765e7fe3c93c75135f07776572d2e87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 17/67] fix: ignore braces in the text of f-strings when
 delimiting expressions

${f"}}"} and $foo(f"(") were cut at, or extended by, a brace that is a
part of the string.
---
 tonnikala/languages/python/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 28c929d..6900aed 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -72,6 +72,10 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        # not a token of its own, but for example text within an f-string
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -109,10 +113,11 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            is_operator = t_type == token.OP
+            if is_operator and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif is_operator and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From 6050ea1b866b487559d7e78f62fb671e7d685316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 18/67] fix: report errors found by the Python compiler as
 template syntax errors

For example duplicate argument names of a py:def raised a plain SyntaxError.
---
 tonnikala/loader.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index c5df31d..8dc4a58 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -196,7 +196,15 @@ class Loader(object):
         runtime.loader = self
         glob = _new_globals(runtime)
 
-        compiled = compile(code, filename, "exec")
+        try:
+            compiled = self._compile(code, filename, string)
+        except exceptions.TemplateSyntaxError:
+            exc_info = sys.exc_info()
+
+        if exc_info:
+            self.handle_exception(exc_info, string, tb_override=None)
+            return
+
         glob["__TK_template_info__"] = TemplateInfo(filename, gen.lnotab_info())
 
         exec(compiled, glob, glob)
@@ -205,6 +213,18 @@ class Loader(object):
         return Template(template_func)
 
 
+    @staticmethod
+    def _compile(code, filename, source):
+        try:
+            return compile(code, filename, "exec")
+        except SyntaxError as e:
+            # the compiler detects errors that are not in the grammar,
+            # for example duplicate argument names
+            raise exceptions.TemplateSyntaxError(
+                e.msg, e.lineno, source=source, filename=filename
+            ) from None
+
+
 class FileLoader(Loader):
     def __init__(
         self,
-- 
2.43.0


From 09f7e399921cc858478eda4c4470e045fb12d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 19/67] fix: report invalid block names and import aliases as
 syntax errors

They ended up in the generated code, raising a SyntaxError or a ValueError.
---
 tonnikala/languages/python/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index bf8d576..a23a92d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import sys
 from ast import (
     Call, FunctionDef, Pass, UnaryOp, iter_child_nodes, literal_eval,
@@ -127,6 +128,11 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     return tree.body
 
 
+def ensure_identifier(name, what):
+    if not name.isidentifier() or keyword.iskeyword(name):
+        raise TemplateSyntaxError("Invalid %s %r" % (what, str(name)), node=name)
+
+
 def gen_name(typename=None):
     global name_counter
     name_counter += 1
@@ -333,9 +339,10 @@ class PyImportNode(PythonNode):
     def __init__(self, href, alias):
         super(PyImportNode, self).__init__()
         self.href = str(href)
-        self.alias = str(alias)
+        self.alias = alias
 
     def generate_ast(self, generator, parent):
+        ensure_identifier(self.alias, "import alias")
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
             value=simple_call(
@@ -489,6 +496,7 @@ class PyBlockNode(PyComplexNode):
         is_extended = isinstance(parent, PyExtendsNode)
 
         name = self.name
+        ensure_identifier(name, "block name")
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
         body = get_fragment_ast(
-- 
2.43.0


From 23279850d2c7684f5a25a5b1b36fb7a8815e062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 20/67] fix: report a mandatory attribute without value as a
 syntax error

<py:if test> and others raised ValueError, TypeError or AttributeError.
---
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 373e346..aa81502 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -105,7 +105,8 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         BaseDOMIRGenerator.syntax_error(self, message=message, lineno=lineno)
 
     def grab_mandatory_attribute(self, dom_node, name):
-        if not dom_node.hasAttribute(name):
+        # the value is None if only the name is given
+        if not dom_node.hasAttribute(name) or dom_node.getAttribute(name) is None:
             self.syntax_error(
                 message="<{}> does not have the required attribute '{}'".format(
                     dom_node.name, name
-- 
2.43.0


From 3e001522f868fb5e062a095149ec6e9a63147c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 21/67] fix: report content or control attributes of py:import
 as syntax errors

They raised an AttributeError; whitespace is now ignored.
---
 tonnikala/syntaxes/tonnikala.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index aa81502..8574cb0 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -161,6 +161,12 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if not ir_node_stack:
             return True, None, None
 
+        if isinstance(ir_node_stack[0], Import) and len(ir_node_stack) > 1:
+            self.syntax_error(
+                "Control attributes are not allowed on <{}>".format(name),
+                node=dom_node,
+            )
+
         top = ir_node_stack[0]
         bottom = ir_node_stack[-1]
 
@@ -175,6 +181,17 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         return generate_element, top, bottom
 
+    def ensure_blank(self, dom_node):
+        for child in self.child_iter(dom_node):
+            if child.nodeType == Node.COMMENT_NODE:
+                continue
+
+            if child.nodeType != Node.TEXT_NODE or child.nodeValue.strip():
+                self.syntax_error(
+                    "<{}> cannot have any content".format(dom_node.tagName),
+                    node=dom_node,
+                )
+
     def generate_element_node(self, dom_node):
         generate_element, topmost, bottom = self.create_control_nodes(dom_node)
 
@@ -218,6 +235,8 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if add_children:
             if overridden_children:
                 bottom.children = overridden_children
+            elif isinstance(bottom, Import):
+                self.ensure_blank(dom_node)
             else:
                 self.add_children(self.child_iter(dom_node), bottom)
 
-- 
2.43.0


From 5164b2c5ba4fc5ba85f57d1a162fe1267d98ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 22/67] fix: output <embed>, <track> and <wbr> as void elements

They were parsed as such, but output with an end tag, which is invalid.
---
 tonnikala/ir/generate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 258045b..8dc1165 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -33,6 +33,9 @@ html5_empty_tags = frozenset(
     command
     keygen
     source
+    embed
+    track
+    wbr
 """.split()
 )
 
-- 
2.43.0


From 76aa93bf19017078c1bd66c4adf629af362c0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 23/67] fix: removing a template file does not break loading of
 the others

With reload enabled, any load raised a FileNotFoundError after a cached
template was deleted.
---
 tonnikala/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 8dc4a58..4da50b2 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -271,11 +271,13 @@ class FileLoader(Loader):
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except OSError:
                 self.cache.pop(name)
                 continue
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime > tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 83abf382ddb5c4c3e816dacb0ecc40a38fcd41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 24/67] fix: reload a template that was replaced by a file with
 an older mtime

For example one restored from a backup or an archive was not noticed.
---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 4da50b2..e4fdf28 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -277,7 +277,8 @@ class FileLoader(Loader):
                 self.cache.pop(name)
                 continue
 
-            if mtime > tmpl.mtime:
+            # a file can be replaced by one that is older, too
+            if mtime != tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 54aa42bf5bddcac244ed7ececee9c32d391bda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 25/67] fix: compile blocks that are nested in blocks,
 functions and loops

The call of a nested block had no end position of its own and got one that
precedes its start, which the compiler rejects.
---
 tonnikala/languages/python/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index a23a92d..dd0642a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -170,6 +170,7 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
-- 
2.43.0


From 8fa4c60f8155c4f275280a366404282506959d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 26/67] fix: compile control attributes whose value is alone on
 its line

py:for=, py:def= or py:block= followed by a newline and the value resulted in
a negative column offset, which the compiler rejects.
---
 tonnikala/languages/python/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index dd0642a..02fa6d3 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -86,7 +86,9 @@ def adjust_locations(ast_node, first_lineno, first_offset):
 
                 # adjust the offset on the first line
                 if lineno == 1:
-                    col += first_offset
+                    # the code prefixed to an expression can start before
+                    # the beginning of the line
+                    col = max(col + first_offset, 0)
 
                 lineno += line_delta
 
-- 
2.43.0


From 8faf085ab9ee545090df2166fc7d3ee1bbf8b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 27/67] fix: tell the line of every syntax error found while
 validating

Errors about content that is not allowed had no line number, and those about
unknown control attributes without a value had line 0.
---
 tonnikala/ir/generate.py        | 3 +++
 tonnikala/syntaxes/tonnikala.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 8dc1165..c8b83a2 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -191,6 +191,9 @@ class BaseDOMIRGenerator(BaseIRGenerator):
         for dom_node in children:
             node = self.generate_ir_node(dom_node)
             if node:
+                if node.position[0] is None:
+                    node.position = getattr(dom_node, "position", node.position)
+
                 ir_node.add_child(node)
 
         self.exit_node(ir_node)
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 8574cb0..b48f0fa 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -53,7 +53,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k),
+                    node=v if hasattr(v, "position") else dom_node,
+                )
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
@@ -97,7 +100,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
     def syntax_error(self, message, node=None, lineno=None):
         if lineno is None:
-            if node:
+            if node is not None:
                 lineno = getattr(node, "position", (0, 0))[0]
             else:
                 lineno = 0
-- 
2.43.0


From 30ca2ccbffd24abd60d1b8e8e7c3868dacbe42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 28/67] fix: allow comments within py:extends

They are to be discarded, but were reported as text that is not allowed.
---
 tonnikala/ir/nodes.py           | 6 +++++-
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..4528a99 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -100,6 +100,10 @@ class EscapedText(Text):
         return self.text
 
 
+class EscapedComment(EscapedText):
+    """A comment to be output as is, including the delimiters"""
+
+
 class Expression(BaseNode):
     is_cdata = False
 
@@ -333,7 +337,7 @@ class Extends(ContainerNode):
         other nodes, raise a syntax error.
         """
 
-        if isinstance(child, Comment):
+        if isinstance(child, (Comment, EscapedComment)):
             return
 
         # ignore Text nodes with whitespace-only content
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index b48f0fa..6f33768 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -8,6 +8,7 @@ from tonnikala.ir.nodes import (
     For,
     Define,
     Import,
+    EscapedComment,
     EscapedText,
     Block,
     Extends,
@@ -266,7 +267,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.COMMENT_NODE:
-            ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
+            ir_node = EscapedComment(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-- 
2.43.0


From d2c5d020cee85e18207f778debca549b464f11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 29/67] fix: report the right lines for code in processing
 instructions

---
 tonnikala/syntaxes/docparser.py | 9 ++++++++-
 tonnikala/syntaxes/tonnikala.py | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index c52e0ab..590be33 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -8,7 +8,7 @@ from xml import sax
 from xml.dom import HierarchyRequestErr, minidom as dom
 from xml.parsers.expat import ExpatError
 
-from ..helpers import StringWithLocation
+from ..helpers import StringWithLocation, calculate_position
 from ..runtime.exceptions import TemplateSyntaxError
 
 impl = dom.getDOMImplementation(" ")
@@ -317,10 +317,17 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        source = data
         type_, data = (data.split(None, 1) + ["", ""])[:2]
 
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
+
+        # the line and the column where the data begins
+        row, col = calculate_position(
+            source, len(source) - len(data), (0, len("<?"))
+        )
+        node.data_position = self.delta(row, col)
         self.elements[-1].appendChild(node)
 
     def syntax_error(self, message, lineno=None):
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 6f33768..aa9b2db 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -18,6 +18,7 @@ from tonnikala.ir.nodes import (
     EmptyAttrVal,
 )
 from ..expr import handle_text_node  # TODO: move this elsewhere.
+from ..helpers import StringWithLocation
 from ..ir.generate import BaseDOMIRGenerator
 from .docparser import TonnikalaHTMLParser
 
@@ -271,7 +272,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            ir_node = Code(
+                StringWithLocation(dom_node.nodeValue.strip(), *dom_node.data_position)
+            )
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From 6a7b171fb8f3b372fac27dc38a3edade90bca2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 30/67] fix: translatable texts know their position and are
 iterated in document order

---
 tonnikala/expr.py     | 48 ++++++++++++++++++++++++++++++++++++-------
 tonnikala/ir/nodes.py |  2 +-
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/tonnikala/expr.py b/tonnikala/expr.py
index 9a099a1..04c5376 100644
--- a/tonnikala/expr.py
+++ b/tonnikala/expr.py
@@ -1,6 +1,7 @@
 """Tonnikala expression compiler."""
 
 import re
+from tonnikala.helpers import StringWithLocation, calculate_position
 from tonnikala.ir.nodes import Text, DynamicText, TranslatableText
 from tonnikala.languages import python
 
@@ -55,7 +56,19 @@ def partition_translatable_text(text):
     return m.groups()
 
 
-def create_text_nodes(text, is_cdata=False, translatable=False):
+def position_at(text, offset):
+    """
+    Return the position of the given offset within a text, or None if it is
+    not known where the text is located.
+    """
+
+    if not isinstance(text, StringWithLocation):
+        return None
+
+    return calculate_position(text, offset, text.position)
+
+
+def create_text_nodes(text, is_cdata=False, translatable=False, position=None):
     if not translatable:
         rv = Text(text)
         rv.is_cdata = is_cdata
@@ -68,7 +81,11 @@ def create_text_nodes(text, is_cdata=False, translatable=False):
         rv.append(Text(prefix, is_cdata=is_cdata))
 
     if this:
-        rv.append(TranslatableText(this, is_cdata=is_cdata))
+        node = TranslatableText(this, is_cdata=is_cdata)
+        if position:
+            node.position = calculate_position(text, len(prefix), position)
+
+        rv.append(node)
 
     if suffix:
         rv.append(Text(suffix, is_cdata=is_cdata))
@@ -91,18 +108,25 @@ def handle_text_node(
     whole_translatable=False,
 ):
     try:
-        text = _strip_dollars_fast(text)
-        return create_text_nodes(text, is_cdata=is_cdata, translatable=translatable)
+        return create_text_nodes(
+            _strip_dollars_fast(text),
+            is_cdata=is_cdata,
+            translatable=translatable,
+            position=position_at(text, 0),
+        )
 
     except HasExprException:
         pass
 
     nodes = []
     string_run = []
-    max_index = len(text)
+    run_start = 0
     pos = 0
 
     while pos < len(text):
+        if not string_run:
+            run_start = pos
+
         m = _expr_find_code.match(text, pos)
         pos = m.end()
 
@@ -115,7 +139,11 @@ def handle_text_node(
         elif m.group(3):
             if string_run:
                 nodes.append(
-                    create_text_nodes("".join(string_run), translatable=translatable)
+                    create_text_nodes(
+                        "".join(string_run),
+                        translatable=translatable,
+                        position=position_at(text, run_start),
+                    )
                 )
 
             string_run = []
@@ -127,7 +155,13 @@ def handle_text_node(
             string_run.append("$")
 
     if string_run:
-        nodes.append(create_text_nodes("".join(string_run), translatable=translatable))
+        nodes.append(
+            create_text_nodes(
+                "".join(string_run),
+                translatable=translatable,
+                position=position_at(text, run_start),
+            )
+        )
 
     if len(nodes) == 1:
         return nodes[0]
diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index 4528a99..77da297 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -386,5 +386,5 @@ class IRTree(object):
         while stack:
             item = stack.popleft()
             if hasattr(item, "children"):
-                stack.extendleft(item.children or [])
+                stack.extendleft(reversed(item.children or []))
             yield item
-- 
2.43.0


From adc3d4a7292ba36041a6012347f278d70ab356ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 31/67] fix: extract the messages of control attributes, tell
 the right lines

---
 tonnikala/i18n/__init__.py | 47 ++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..47b291c 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -3,22 +3,49 @@ import io
 from lingua.extractors import Extractor
 from lingua.extractors import Message
 from lingua.extractors.python import _extract_python
-from tonnikala.ir.nodes import TranslatableText, Expression
+from tonnikala.ir.nodes import (
+    TranslatableText,
+    Code,
+    Define,
+    DynamicAttributes,
+    Expression,
+    For,
+    If,
+    Unless,
+    With,
+)
 from tonnikala.loader import parsers
 
 
+def get_python_code(node):
+    """Return the Python code that the node contains, if any"""
+    if isinstance(node, (Expression, If, Unless, For, DynamicAttributes)):
+        return node.expression
+
+    if isinstance(node, Define):
+        return node.funcspec
+
+    if isinstance(node, With):
+        return node.vars
+
+    if isinstance(node, Code):
+        return node.source
+
+
 class TonnikalaExtractor(Extractor):
     "Extract strings from tonnikala templates, defaulting to Python expressions"
 
     extensions = [".tk"]
     syntax = "tonnikala"
 
-    def parse_python(self, node, filename, lineno, options):
-        start_line = (node.position[0] or 1) + lineno
-        for message in _extract_python(filename, node.expression, options, start_line):
-            yield Message(
-                *message[:6], location=(filename, lineno + message.location[1])
-            )
+    def parse_python(self, node, code, filename, lineno, options):
+        # leading whitespace would be an indentation error
+        code = code[len(code) - len(code.lstrip()):]
+        position = getattr(code, "position", node.position)
+
+        # the tokens on the first line of the code are on line 1
+        first_line = lineno + (position[0] or 1) - 1
+        return _extract_python(filename, code, options, first_line)
 
     def __call__(self, filename, options, fileobj=None, lineno=0):
         self.filename = filename
@@ -43,8 +70,10 @@ class TonnikalaExtractor(Extractor):
                     u"",
                     (filename, lineno + (node.position[0] or 1)),
                 )
-            elif isinstance(node, Expression):
-                for m in self.parse_python(node, filename, lineno, options):
+
+            code = get_python_code(node)
+            if code:
+                for m in self.parse_python(node, code, filename, lineno, options):
                     yield m
 
 
-- 
2.43.0


From a96f259244416f8bc3a3a0e316dd55b066dba9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 32/67] fix: do not leak references in the accelerated buffer

---
 tonnikala/runtime/_buffer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..db1a910 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -26,6 +26,10 @@ static void
 Buffer_dealloc(Buffer* self)
 {
     Py_XDECREF(self->buffer_list);
+    Py_XDECREF(self->escape_func);
+    Py_XDECREF(self->equals_quot);
+    Py_XDECREF(self->quot);
+    Py_XDECREF(self->space);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -87,6 +91,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -150,19 +155,23 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (! escape_args) {
+            goto error;
+        }
+
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +194,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
-- 
2.43.0


From a3d2bb52480f075e1865f48fc1e3b67f0f138813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 33/67] fix: the Python buffer accepts any attribute name the C
 buffer does

---
 tonnikala/runtime/python.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 26828af..b47b4d4 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -23,14 +23,12 @@ class _TKPythonBufferImpl(object):
         def output_boolean_attr(name, value):
             t = type(value)
             if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
+                value and do_output(" ", name, '="', name, '"')
 
                 # skip on false, None
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            do_output(" ", name, '="', escape(value), '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From ba89ad5eb178b12e01742e7b358bf1be967eeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 34/67] fix: valueless attributes, doctypes and syntax errors
 in Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 40 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..31e4fc9 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -1,6 +1,13 @@
 """XML parser"""
 
-from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression
+from tonnikala.ir.nodes import (
+    Element,
+    EmptyAttrVal,
+    EscapedText,
+    Expression,
+    For,
+    If,
+)
 from xml.dom.minidom import Node
 
 from tonnikala.expr import handle_text_node  # TODO: move this elsewhere.
@@ -17,7 +24,12 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        attrs = [(k, handle_text_node(v)) for (k, v) in dom_node.attributes.items()]
+
+        # the value is None for HTML attributes without value
+        attrs = [
+            (k, handle_text_node(v) if v is not None else EmptyAttrVal())
+            for (k, v) in dom_node.attributes.items()
+        ]
         self.generate_attributes(ir_node, attrs=attrs, dynamic_attrs=attrs_node)
 
     def is_control_name(self, name, to_match):
@@ -43,13 +55,16 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
         # TODO: add all node types in order
         generate_element = not bool(ir_node_stack)
-        attr = self.grab_and_remove_control_attr(dom_node, "condition")
-        if attr is not None:
-            ir_node_stack.append(If(attr))
 
-        attr = self.grab_and_remove_control_attr(dom_node, "repeat")
-        if attr is not None:
-            ir_node_stack.append(For(attr))
+        def make_control_node_of_attr(irtype, name):
+            attr = self.grab_and_remove_control_attr(dom_node, name)
+            if attr is not None:
+                irnode = irtype(attr)
+                irnode.position = getattr(attr, "position", dom_node.position)
+                ir_node_stack.append(irnode)
+
+        make_control_node_of_attr(If, "condition")
+        make_control_node_of_attr(For, "repeat")
 
         # TODO: add all control attrs in order
         if not ir_node_stack:
@@ -135,7 +150,12 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
-        raise ValueError("Unhandled node type %d" % node_t)
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            return EscapedText(dom_node.toxml())
+
+        self.syntax_error(
+            "Unhandled node type %d" % node_t, lineno=dom_node.position[0]
+        )
 
 
 def parse(filename, string, translatable=False):
@@ -144,7 +164,7 @@ def parse(filename, string, translatable=False):
 
     parser = TonnikalaHTMLParser(filename, string)
     parsed = parser.parse()
-    generator = ChameleonIRGenerator(parsed)
+    generator = ChameleonIRGenerator(parsed, filename=filename, source=string)
     tree = generator.generate_tree()
 
     tree = generator.flatten_element_nodes(tree)
-- 
2.43.0


From 1d3044386c2a0199ae2c0d80c5dea860efc0ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 35/67] fix: defaults of the arguments of top level functions
 see the context

---
 tonnikala/languages/python/generator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 02fa6d3..ad8a65a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -730,15 +730,22 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        bind_variables = ""
+        for i in free_variables:
+            bind_variables += '    if "%s" in __TK__context:\n' % i
+            bind_variables += '        %s = __TK__context["%s"]\n' % (i, i)
+
+        # the default values of arguments are evaluated when the functions
+        # are created
+        code += bind_variables
         code += "    raise\n"  # a placeholder
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
             code += "    __TK__parent_template.binder_func(__TK__context)\n"
 
-        for i in free_variables:
-            code += '    if "%s" in __TK__context:\n' % i
-            code += '        %s = __TK__context["%s"]\n' % (i, i)
+        # the blocks and the inherited functions are now in the context
+        code += bind_variables
 
         code += "    return __TK__context\n"
 
-- 
2.43.0


From 181d16bf629073e292ef5259dd35e094f6b6f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 36/67] fix: compile conditions and loops without contents

---
 tonnikala/languages/python/generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index ad8a65a..a090b6a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -328,8 +328,9 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
-        return [node]
+        # the body may not be empty
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        return [If(test=test, body=body, orelse=[])]
 
 
 def PyUnlessNode(self, expression):
@@ -435,7 +436,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From 7f90dec2d81a37a42d8a50a70f3bafd6def398b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 37/67] fix: names of the importing template do not hide
 functions of the imported one

---
 tonnikala/runtime/python.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index b47b4d4..85d8ba6 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -82,7 +82,20 @@ def is_bound(context, name):
     """
 
     value = context.get(name, _MISSING)
-    return value is not _MISSING and value is not getattr(builtins, name, _MISSING)
+    if value is _MISSING or value is getattr(builtins, name, _MISSING):
+        return False
+
+    # the names of an imported template are its own, not those of the importer
+    importer = getattr(context, "importer", None)
+    return importer is None or value is not importer.get(name, _MISSING)
+
+
+class ImportContext(dict):
+    """The context of an imported template, a copy of that of the importer"""
+
+    def __init__(self, importer):
+        super().__init__(importer)
+        self.importer = importer
 
 
 def bind(context, block=False):
@@ -138,7 +151,7 @@ class TonnikalaRuntime(object):
         return self.loader.load(href)
 
     def import_defs(self, context, href):
-        modified_context = context.copy()
+        modified_context = ImportContext(context)
         self.loader.load(href).bind(modified_context)
         container = ImportedTemplate(href)
 
-- 
2.43.0


From 459f1f361ecd806364f0dc5d39b0cb43382f9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 38/67] fix: the list of the accelerated buffer cannot be
 replaced or deleted

---
 tonnikala/runtime/_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index db1a910..d9a77ea 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -244,7 +244,7 @@ exit:
 }
 
 static PyMemberDef Buffer_members[] = {
-    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), 0,
+    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), READONLY,
      "The buffer list"},
     {NULL}  /* Sentinel */
 };
-- 
2.43.0


From 5f190e7edbb0780f68e6b894f45e28145ee40f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 39/67] fix: a deleted template file that comes back counts as
 changed

---
 tonnikala/loader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index e4fdf28..0eb550c 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -239,6 +239,7 @@ class FileLoader(Loader):
         self.cache = {}
         self.paths = list(paths)
         self.reload = False
+        self._deleted_paths = set()
         self._last_reload_check = time.time()
 
     def add_path(self, *a: str) -> None:
@@ -264,24 +265,33 @@ class FileLoader(Loader):
         If enough time since last check has elapsed, check if any
         of the cached templates has changed. If any of the template
         files were deleted, remove that file only. If any were
-        changed, then purge the entire cache.
+        changed, or a deleted one has come back, then purge the
+        entire cache.
         """
 
         if self._last_reload_check + MIN_CHECK_INTERVAL > time.time():
             return
 
+        # the templates still in the cache may extend the one deleted
+        changed = any(map(os.path.exists, self._deleted_paths))
+
         for name, tmpl in list(self.cache.items()):
             try:
                 mtime = os.stat(tmpl.path).st_mtime
             except OSError:
                 self.cache.pop(name)
+                self._deleted_paths.add(tmpl.path)
                 continue
 
             # a file can be replaced by one that is older, too
             if mtime != tmpl.mtime:
-                self.cache.clear()
+                changed = True
                 break
 
+        if changed:
+            self.cache.clear()
+            self._deleted_paths.clear()
+
         self._last_reload_check = time.time()
 
     def load(self, name):
-- 
2.43.0


From 343353552e9cbea19a550d5ab9ae13b33365ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 40/67] fix: report character references to surrogates as
 syntax errors, accept &#X

---
 tonnikala/syntaxes/docparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 590be33..34ae6c0 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -350,12 +350,14 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code.startswith(("x", "X")):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
 
             content = chr(cp)
+            # surrogates are not characters
+            content.encode("UTF-8")
             return self.handle_data(content)
         except Exception as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
-- 
2.43.0


From d01a506d3a1d45785c09ac87fc4042ab6fbb2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 41/67] fix: report null bytes in expressions as template
 syntax errors

---
 tonnikala/languages/python/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index a090b6a..de35ed4 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -119,7 +119,8 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
     except SyntaxError as e:
-        lineno = e.lineno
+        # some errors have no line, for example null bytes
+        lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
 
-- 
2.43.0


From 73a1d3334c77e707feebcf203ec0e9abc0ad486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 42/67] fix: report malformed JavaScript expressions and names
 as template syntax errors

---
 tonnikala/languages/javascript/generator.py | 56 ++++++++++++++-------
 tonnikala/loader.py                         | 11 +++-
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index dde1556..28173ad 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -15,6 +15,7 @@ from slimit.ast import (
     Block,
     Return as JSReturn,
     FuncDecl,
+    FuncExpr,
 )
 from slimit.parser import Parser
 from slimit.scope import SymbolTable
@@ -163,17 +164,34 @@ def parse(expression, mode="eval"):
     raise TypeError("Only eval, exec modes allowed")
 
 
+def parse_fragment(code, mode, node):
+    try:
+        return parse(code, mode=mode)
+    except (SyntaxError, TypeError) as e:
+        # TypeErrors are errors in regular expressions
+        raise TemplateSyntaxError(str(e), node=node) from None
+
+
 def get_fragment_ast(expression, mode="eval"):
     if not isinstance(expression, str):
         return expression
 
+    code = expression
     if mode == "eval":
         # the parentheses ensure that this is parsed as an expression, and
         # that it stays a single operand within the code generated around it
-        expression = "(%s\n)" % expression
+        code = "(%s\n)" % expression
+
+    return parse_fragment(code, mode, node=expression)
 
-    tree = parse(expression, mode=mode)
-    return tree
+
+def get_declaration(code, source, what):
+    """Parse the code of a function declaration made of the source"""
+    tree = parse_fragment(code, "exec", node=source)
+    if len(tree) != 1 or not isinstance(tree[0], FuncDecl) or tree[0].elements:
+        raise TemplateSyntaxError("Invalid %s %r" % (what, str(source)), node=source)
+
+    return tree[0]
 
 
 def get_func_name(func):
@@ -449,15 +467,16 @@ class JsForNode(JsComplexNode):
         self.expression = parts[1]
 
     def generate_contents(self, generator, parent):
-        body = get_fragment_ast(
-            "__TK__foreach(%s, function (%s) { });" % (self.expression, self.vars),
-            "exec",
+        expression = get_fragment_ast(self.expression)
+        func_frame = get_declaration(
+            "function __TK__body(%s\n) { }" % self.vars, self.vars, "loop variables"
         )
-
-        for_node = body[0]
-        func_frame = for_node.expr.args[1]
-        func_frame.elements = self.generate_child_ast(generator, self)
-        return [for_node]
+        func_frame = FuncExpr(
+            identifier=None,
+            parameters=func_frame.parameters,
+            elements=self.generate_child_ast(generator, self),
+        )
+        return [Expr(SimpleCall(NameX("__TK__foreach"), [expression, func_frame]))]
 
     def generate_ast(self, generator, parent):
         return self.generate_contents(generator, parent)
@@ -472,9 +491,9 @@ class JsDefineNode(JsComplexNode):
         self.funcspec = funcspec
 
     def generate_ast(self, generator, parent):
-        body = get_fragment_ast("function %s{}" % self.funcspec, "exec")
-
-        def_node = body[0]
+        def_node = get_declaration(
+            "function %s{}" % self.funcspec, self.funcspec, "function"
+        )
         assign_func_body(
             def_node,
             self.make_buffer_frame(
@@ -512,7 +531,8 @@ class JsWithNode(JsComplexNode):
         for i in var_defs:
             if not isinstance(i, ast.ExprStatement):
                 raise TemplateSyntaxError(
-                    "Only assignment statements allowed in With; not %s" % self.vars
+                    "Only assignment statements allowed in With; not %s" % self.vars,
+                    node=self.vars,
                 )
 
         # bind the names within the element only
@@ -545,9 +565,9 @@ class JsBlockNode(JsComplexNode):
     def generate_ast(self, generator, parent):
         is_extended = isinstance(parent, JsExtendsNode)
 
-        body = get_fragment_ast("function %s () {}" % self.name, "exec")
-
-        def_node = body[0]
+        def_node = get_declaration(
+            "function %s () {}" % self.name, self.name, "block name"
+        )
         assign_func_body(
             def_node,
             self.make_buffer_frame(
diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 0eb550c..3e94a1f 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -341,8 +341,15 @@ class JSLoader(object):
                 % (self.syntax, sorted(parsers.keys()))
             )
 
-        tree = parser_func(filename, string)
-        code = JavascriptGenerator(tree).generate_ast()
+        try:
+            tree = parser_func(filename, string)
+            code = JavascriptGenerator(tree).generate_ast()
+        except exceptions.TemplateSyntaxError as e:
+            if e.source is None:
+                e.source = string
+            if e.filename is None:
+                e.filename = filename
+            raise
 
         if self.debug:
             print("JS template output code for %s" % filename)
-- 
2.43.0


From 0d539c89f7272e3e39f69fbefc7b8e21f3c68d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 43/67] fix: report invalid names in JavaScript templates as
 syntax errors

---
 tonnikala/languages/javascript/generator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 28173ad..3c884b7 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -194,6 +194,14 @@ def get_declaration(code, source, what):
     return tree[0]
 
 
+def ensure_identifier(name, what):
+    declaration = get_declaration("function %s () {}" % name, name, what)
+    if get_func_name(declaration) != name:
+        raise TemplateSyntaxError("Invalid %s %r" % (what, str(name)), node=name)
+
+    return declaration
+
+
 def get_func_name(func):
     return func.identifier.value
 
@@ -387,6 +395,7 @@ class JsImportNode(JavascriptNode):
         self.href = href
 
     def generate_ast(self, generator, parent):
+        ensure_identifier(self.alias, "import alias")
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
             value=SimpleCall(
@@ -565,9 +574,7 @@ class JsBlockNode(JsComplexNode):
     def generate_ast(self, generator, parent):
         is_extended = isinstance(parent, JsExtendsNode)
 
-        def_node = get_declaration(
-            "function %s () {}" % self.name, self.name, "block name"
-        )
+        def_node = ensure_identifier(self.name, "block name")
         assign_func_body(
             def_node,
             self.make_buffer_frame(
-- 
2.43.0


From 06d76c3845681571edb3876597915451bb83b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 44/67] fix: tell the line of content and replace attributes in
 py:extends

---
 tonnikala/syntaxes/tonnikala.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index aa9b2db..b51b047 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -210,7 +210,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         overridden_children = None
         content = self.grab_and_remove_control_attr(dom_node, "content")
         if content:
-            overridden_children = [Expression(content)]
+            content_node = Expression(content)
+            content_node.position = getattr(content, "position", dom_node.position)
+            overridden_children = [content_node]
 
         if self.is_control_name(dom_node.tagName, "replace"):
             replace = self.grab_mandatory_attribute(dom_node, "value")
@@ -221,6 +223,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         el_ir_node = None
         if replace is not None:
             el_ir_node = Expression(replace)
+            el_ir_node.position = getattr(replace, "position", dom_node.position)
             add_children = False
             generate_element = False
 
-- 
2.43.0


From 0ee9f5688df67615914da713f575b9843633218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 45/67] fix: report content and replace attributes of py:import
 as syntax errors

---
 tonnikala/syntaxes/tonnikala.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index b51b047..078de1a 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -219,6 +219,12 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         else:
             replace = self.grab_and_remove_control_attr(dom_node, "replace")
 
+        if isinstance(topmost, Import) and (content or replace is not None):
+            self.syntax_error(
+                "Control attributes are not allowed on <{}>".format(dom_node.tagName),
+                node=dom_node,
+            )
+
         add_children = True
         el_ir_node = None
         if replace is not None:
-- 
2.43.0


From 1259f0cad27dd0ad1aaf0a2a5a04aa6ad4570565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 46/67] fix: report an unexpected end of JavaScript code as a
 syntax error

---
 tonnikala/languages/javascript/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 3c884b7..90e2235 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -170,6 +170,9 @@ def parse_fragment(code, mode, node):
     except (SyntaxError, TypeError) as e:
         # TypeErrors are errors in regular expressions
         raise TemplateSyntaxError(str(e), node=node) from None
+    except AttributeError:
+        # the parser fails to report an unexpected end
+        raise TemplateSyntaxError("Unexpected end of code", node=node) from None
 
 
 def get_fragment_ast(expression, mode="eval"):
-- 
2.43.0


From fadf3f4341dcd9c2e6ff139d74b9e8bf9d888e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 47/67] fix: the code of a processing instruction may contain >

---
 tonnikala/syntaxes/docparser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 34ae6c0..4a37ac7 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -308,6 +308,16 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         self.characters.append(content)
 
+    def parse_pi(self, i):
+        # the HTMLParser ends these at the first >, as in SGML, but in XML
+        # syntax the data, for example Python code, may contain it
+        end = self.rawdata.find("?>", i + 2)
+        if end < 0 or self.rawdata.find("<?", i + 2, end) >= 0:
+            return super(TonnikalaHTMLParser, self).parse_pi(i)
+
+        self.handle_pi(self.rawdata[i + 2 : end])
+        return end + 2
+
     def handle_pi(self, data):
         self.flush_character_data()
 
-- 
2.43.0


From c8fa2b6ccbc86e0818f2f5929ec1cfbea2f52a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 48/67] fix: attributes of the same name with different
 prefixes are distinct

A control attribute such as py:for was dropped when the element had an
attribute for, as was xlink:href when there was an href.
---
 tonnikala/syntaxes/docparser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 4a37ac7..aec72c4 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -265,6 +265,17 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def getlineno(self):
         return self.getpos()[0]
 
+    def set_attribute(self, el, name, value):
+        if el.hasAttribute(name):
+            el.setAttribute(name, value)
+            return
+
+        # the attributes are not namespaced: for and py:for are distinct
+        attr = dom.Attr(name, localName=name)
+        attr.ownerDocument = self.doc
+        attr.value = value
+        el.setAttributeNode(attr)
+
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
@@ -278,7 +289,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
 
-            el.setAttribute(k, v)
+            self.set_attribute(el, k, v)
 
         self.append_child(el)
         self.elements.append(el)
-- 
2.43.0


From 67bdc8e448cdee5aec99b2f91294e98fd569f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 49/67] fix: report characters that are illegal in JavaScript
 as syntax errors

The lexer printed a message and dropped them, so that other code was
compiled than what was in the template.
---
 tonnikala/languages/javascript/generator.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 90e2235..23b4567 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -17,6 +17,7 @@ from slimit.ast import (
     FuncDecl,
     FuncExpr,
 )
+from slimit.lexer import Lexer
 from slimit.parser import Parser
 from slimit.scope import SymbolTable
 from slimit.visitors.scopevisitor import (
@@ -155,11 +156,23 @@ class FreeVarFinder(object):
         return free_var_analysis.free_variables
 
 
+class StrictLexer(Lexer):
+    # slimit prints a message and goes on without the character
+    def t_error(self, token):
+        raise SyntaxError("Illegal character %r" % token.value[0])
+
+
+def make_parser():
+    parser = Parser()
+    parser.lexer = StrictLexer()
+    return parser
+
+
 def parse(expression, mode="eval"):
     if mode == "eval":
-        return Parser().parse(expression).children()[0].expr
+        return make_parser().parse(expression).children()[0].expr
     elif mode == "exec":
-        return Parser().parse(expression).children()
+        return make_parser().parse(expression).children()
 
     raise TypeError("Only eval, exec modes allowed")
 
-- 
2.43.0


From efeae9065cf9e4e06dedd7c9fefff78069d926e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 50/67] fix: the line of text outside of the root element is
 that of the text

---
 tonnikala/syntaxes/docparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index aec72c4..b034c31 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -191,9 +191,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 # Special case: just skip adding whitespace to document root,
                 # but raise hell, if trying to add other characters
                 if len(text.strip()) > 0:
+                    leading = text[: len(text) - len(text.lstrip())]
                     self.syntax_error(
                         "Text data outside of root element",
-                        lineno=self.characters_start[0],
+                        lineno=self.characters_start[0] + leading.count("\n"),
                     )
 
                 else:
-- 
2.43.0


From 0922a21d336ef366b8a26c0ee6ba6db1ca6ed79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 51/67] fix: a syntax error in an imported template keeps its
 source and the traceback

---
 tonnikala/runtime/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/runtime/debug.py b/tonnikala/runtime/debug.py
index 3ae9833..b8f9506 100644
--- a/tonnikala/runtime/debug.py
+++ b/tonnikala/runtime/debug.py
@@ -171,7 +171,7 @@ class ProcessedTraceback(object):
 def make_traceback(exc_info, source_hint=None):
     """Creates a processed traceback object from the exc_info."""
     exc_type, exc_value, tb = exc_info
-    if isinstance(exc_value, TemplateSyntaxError):
+    if isinstance(exc_value, TemplateSyntaxError) and not exc_value.translated:
         exc_info = translate_syntax_error(exc_value, source_hint)
         initial_skip = 0
     else:
-- 
2.43.0


From d5ece18a6b8fd081fd7712de0b56d2405ede7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 52/67] fix: names within classes, asynchronous functions and
 annotations in template code

---
 tonnikala/languages/python/astalyzer.py | 27 +++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 10d0c96..13cffb3 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -35,9 +35,19 @@ class FreeVarFinder(ast.NodeVisitor):
         args = node.args.args
         masked = [getattr(i, "id", getattr(i, "arg", None)) for i in args]
         subscoper = FreeVarFinder(masked)
-        subscoper.generic_visit(node)
+        for i in node.body if isinstance(node.body, list) else [node.body]:
+            subscoper.visit(i)
+
         self.vars = self.vars.union(subscoper.get_free_variables())
         self.do_visit_lambda_defaults(node.args)
+
+        # these are evaluated outside of the function, too
+        for i in getattr(node, "decorator_list", []):
+            self.visit(i)
+
+        if getattr(node, "returns", None):
+            self.visit(node.returns)
+
         self.newly_masked = set(masked)
 
     def visit_Lambda(self, node):
@@ -47,6 +57,18 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
+    def visit_ClassDef(self, node):
+        # the names assigned in the body are only visible there
+        for i in node.decorator_list + node.bases + node.keywords:
+            self.visit(i)
+
+        for i in node.body:
+            subscoper = FreeVarFinder()
+            subscoper.visit(i)
+            self.vars = self.vars.union(subscoper.vars)
+
     def do_visit_comprehension(self, node):
         # the targets are local to the comprehension; everything but the
         # first iterable is evaluated within it.
@@ -65,9 +87,6 @@ class FreeVarFinder(ast.NodeVisitor):
 
     def do_visit_lambda_defaults(self, node):
         for field, value in ast.iter_fields(node):
-            if field == "args":
-                continue
-
             if isinstance(value, list):
                 for item in value:
                     if isinstance(item, ast.AST):
-- 
2.43.0


From ce042ae04616d0aa75b699252ad63dac7dbc9f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 53/67] fix: keep signs and numbers apart from their operands
 in compiled JavaScript

---
 tonnikala/languages/javascript/generator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 23b4567..112f631 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -11,6 +11,7 @@ from slimit.ast import (
     FunctionCall,
     Assign as JSAssign,
     UnaryOp,
+    Number,
     If,
     Block,
     Return as JSReturn,
@@ -20,6 +21,7 @@ from slimit.ast import (
 from slimit.lexer import Lexer
 from slimit.parser import Parser
 from slimit.scope import SymbolTable
+from slimit.visitors import nodevisitor
 from slimit.visitors.scopevisitor import (
     Visitor,
     ScopeTreeVisitor,
@@ -168,11 +170,25 @@ def make_parser():
     return parser
 
 
+def isolate_operands(tree):
+    """Keep the operands apart that slimit would print as a single token"""
+    for node in nodevisitor.visit(tree):
+        if isinstance(node, UnaryOp) and node.op[0] in "+-" and not node.postfix:
+            node._parens = True
+
+        elif isinstance(node, DotAccessor) and isinstance(node.node, Number):
+            if node.node.value.isdigit():
+                node.node.value += "."
+
+    return tree
+
+
 def parse(expression, mode="eval"):
+    tree = isolate_operands(make_parser().parse(expression))
     if mode == "eval":
-        return make_parser().parse(expression).children()[0].expr
+        return tree.children()[0].expr
     elif mode == "exec":
-        return make_parser().parse(expression).children()
+        return tree.children()
 
     raise TypeError("Only eval, exec modes allowed")
 
-- 
2.43.0


From 2784fb63a802fc063125e516bcbc177aedfae504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 54/67] fix: escape the line separators in strings of compiled
 JavaScript

---
 tonnikala/languages/javascript/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 112f631..3eec9a0 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -82,7 +82,9 @@ ALWAYS_BUILTINS = """
 
 
 def Str(s):
-    return String(json.dumps(s, ensure_ascii=False))
+    code = json.dumps(s, ensure_ascii=False)
+    # these end the line within a string of JavaScript, but not of JSON
+    return String(code.replace("\u2028", "\\u2028").replace("\u2029", "\\u2029"))
 
 
 def Name(id, ctx=None):
-- 
2.43.0


From 71b4fe0f8f72cb7614331b311cf33949675662a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 55/67] fix: the JavaScript compiler reads and writes UTF-8 in
 any locale

---
 bin/tonnikala-compile-jstemplate | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/tonnikala-compile-jstemplate b/bin/tonnikala-compile-jstemplate
index 5a7f7de..49a5d77 100755
--- a/bin/tonnikala-compile-jstemplate
+++ b/bin/tonnikala-compile-jstemplate
@@ -4,8 +4,8 @@ from tonnikala.loader import JSLoader
 import argparse
 
 parser = argparse.ArgumentParser(description='Compile a Tonnikala Javascript template into JavaScript')
-parser.add_argument('source', help='Source file', type=argparse.FileType('r'))
-parser.add_argument('target', help='Target file', type=argparse.FileType('w'))
+parser.add_argument('source', help='Source file', type=argparse.FileType('r', encoding='utf-8'))
+parser.add_argument('target', help='Target file', type=argparse.FileType('w', encoding='utf-8'))
 
 args = parser.parse_args()
 
-- 
2.43.0


From a7db9772a8a9df19581ff86f8306c7d4d7179947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 56/67] fix: the JavaScript compiler reports errors in the file
 they are in

---
 bin/tonnikala-compile-jstemplate | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/tonnikala-compile-jstemplate b/bin/tonnikala-compile-jstemplate
index 49a5d77..8cd90fd 100755
--- a/bin/tonnikala-compile-jstemplate
+++ b/bin/tonnikala-compile-jstemplate
@@ -9,6 +9,6 @@ parser.add_argument('target', help='Target file', type=argparse.FileType('w', en
 
 args = parser.parse_args()
 
-compiled = JSLoader().load_string(args.source.read())
+compiled = JSLoader().load_string(args.source.read(), args.source.name)
 args.target.write(compiled)
 
-- 
2.43.0


From 4013149569bc05814a1b316604084a4d9c4e692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 57/67] fix: minified JavaScript keeps the braces around a lone
 function

---
 tonnikala/languages/javascript/generator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 3eec9a0..7fb30bd 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -11,6 +11,7 @@ from slimit.ast import (
     FunctionCall,
     Assign as JSAssign,
     UnaryOp,
+    EmptyStatement,
     Number,
     If,
     Block,
@@ -409,11 +410,13 @@ class JsIfNode(JsComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(
-            test,
-            Block(self.generate_child_ast(generator, self)),
-        )
-        return [node]
+        body = self.generate_child_ast(generator, self)
+        if len(body) == 1 and isinstance(body[0], FuncDecl):
+            # a function cannot be declared without the braces, and the
+            # minifier removes them from around a single statement
+            body.append(EmptyStatement(";"))
+
+        return [If(test, Block(body))]
 
 
 def JsUnlessNode(self, expression):
-- 
2.43.0


From 9201659e4b390dde3e5396116d4ebed86e047fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 58/67] fix: extracted plural messages are in the order of the
 arguments

---
 tonnikala/i18n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 47b291c..9f7c611 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -103,7 +103,7 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
 
         prefix = ""
         if msg.msgid_plural:
-            msgid = (msg.msgid_plural,) + msgid
+            msgid += (msg.msgid_plural,)
             prefix = "n"
 
         if msg.msgctxt:
-- 
2.43.0


From 6bc9a6479ff64f92267db9a8416a2bd7aef03975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 59/67] fix: the comments of extracted messages are a list

---
 tonnikala/i18n/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 9f7c611..3f5a25d 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -110,4 +110,5 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
             msgid = (msg.msgctxt,) + msgid
             prefix += "p"
 
-        yield msg.location[1], prefix + "gettext", msgid, msg.comment
+        comments = [msg.comment] if msg.comment else []
+        yield msg.location[1], prefix + "gettext", msgid, comments
-- 
2.43.0


From 7ace1349f30193a062b9b879d21bced8405ef446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 60/67] fix: JavaScript templates can have a block or variable
 named hasOwnProperty

---
 tonnikala/runtime/javascript.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index 07c864f..f21e437 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty;
 
     function Markup(s) {
         this.s = s;
@@ -160,13 +161,13 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0


From 27984d923d39e7d6a5ab8b34652640536cc7c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 61/67] fix: report a character reference with too many digits
 in an attribute as a TemplateSyntaxError

---
 tonnikala/syntaxes/docparser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index b034c31..c4b7476 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -310,6 +310,13 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 "Invalid end tag </%s> (expected </%s>)" % (name, popped.name)
             )
 
+    def parse_starttag(self, i):
+        try:
+            return super(TonnikalaHTMLParser, self).parse_starttag(i)
+        except ValueError as e:
+            # the number in a character reference is too long to be decoded
+            self.syntax_error("Invalid attribute value: %s" % e)
+
     def handle_startendtag(self, name, attrs):
         self.handle_starttag(name, attrs, self_closing=True)
 
-- 
2.43.0


From 252dd050b5dfb88498218156366ecdb4599bb8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 62/67] fix: errors in conversions, scopes and imports are at
 the line of the template

---
 tonnikala/languages/python/generator.py | 103 +++++++++++++++++-------
 1 file changed, 75 insertions(+), 28 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index de35ed4..6d5558c 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -33,6 +33,24 @@ def simple_call(func, args=None):
     return Call(func=func, args=args or [], keywords=[], starargs=None, kwargs=None)
 
 
+def locate(node, position):
+    """
+    Set the location of a generated node; it is all on one line, as the calls
+    of methods are otherwise attributed to the last one.
+    """
+    node.lineno, node.col_offset = position
+    node.end_lineno, node.end_col_offset = position
+    return node
+
+
+def locate_call(call, expression):
+    """
+    Locate a call that converts the value of an expression of the template: an
+    error in the conversion is at the line of the expression
+    """
+    return locate(call, (expression.lineno, expression.col_offset))
+
+
 def create_argument_list(arguments):
     return [arg(arg=id, annotation=None) for id in arguments]
 
@@ -172,10 +190,12 @@ class PythonNode(LanguageNode):
         rv = []
         for i in code:
             if position is not None:
-                i.lineno, i.col_offset = position
-                i.end_lineno, i.end_col_offset = position
+                locate(i, position)
 
             e = Expr(simple_call(func, [i]))
+            if hasattr(i, "lineno"):
+                locate_call(e.value, i)
+
             e.output_args = [i]
             rv.append(e)
 
@@ -212,7 +232,7 @@ class PythonNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, position=(1, 0)):
         name = gen_name("variable_scope")
         rv = [
             self.make_function(name, body, arguments=["__TK__output", "__TK__escape"]),
@@ -220,6 +240,7 @@ class PythonNode(LanguageNode):
                 simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])
             ),
         ]
+        locate(rv[1].value, position)
         return rv
 
 
@@ -267,7 +288,8 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        expr = self.get_unescaped_expression()
+        return locate_call(simple_call(NameX("__TK__escape"), [expr]), expr)
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -345,6 +367,7 @@ class PyImportNode(PythonNode):
         super(PyImportNode, self).__init__()
         self.href = str(href)
         self.alias = alias
+        self.position = getattr(href, "position", (1, 0))
 
     def generate_ast(self, generator, parent):
         ensure_identifier(self.alias, "import alias")
@@ -359,6 +382,7 @@ class PyImportNode(PythonNode):
                 args=[NameX("__TK__original_context"), Str(s=self.href)],
             ),
         )
+        locate(node.value, self.position)
 
         if parent.is_top_level:
             generator.add_top_level_import(str(self.alias), node)
@@ -385,7 +409,7 @@ class PyAttributeNode(PyComplexNode):
             # expression, these are handled by
             # __TK__output.output_boolean_attr,
             # given the name, and unescaped expression!
-            return [
+            rv = [
                 Expr(
                     simple_call(
                         func=Attribute(
@@ -400,6 +424,8 @@ class PyAttributeNode(PyComplexNode):
                     )
                 )
             ]
+            locate_call(rv[0].value, rv[0].value.args[1])
+            return rv
 
         # otherwise just return the output for the attribute code
         # like before
@@ -419,6 +445,7 @@ class PyAttrsNode(PythonNode):
         expression = get_fragment_ast(self.expression)
 
         output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        locate_call(output, expression)
         return self.generate_output_ast([output], generator, parent)
 
 
@@ -536,7 +563,7 @@ class PyWithNode(PyComplexNode):
     def generate_ast(self, generator, parent=None):
         var_defs = get_fragment_ast(self.vars, "exec")
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        return self.generate_varscope(body, getattr(self.vars, "position", (1, 0)))
 
 
 class PyExtendsNode(PyComplexNode):
@@ -557,6 +584,32 @@ def ast_equals(tree1, tree2):
     return x1 == x2
 
 
+def literal_argument(arg1):
+    """
+    The x of __TK__escape(literal(x)), or None
+    """
+    if not arg1.__class__.__name__ == "Call":
+        return None
+
+    if not ast_equals(arg1.func, NameX("__TK__escape")):
+        return None
+
+    if len(arg1.args) != 1:
+        return None
+
+    arg2 = arg1.args[0]
+    if not arg2.__class__.__name__ == "Call":
+        return None
+
+    if not ast_equals(arg2.func, NameX("literal")):
+        return None
+
+    if len(arg2.args) != 1:
+        return None
+
+    return arg2.args[0]
+
+
 def coalesce_outputs(tree):
     """
     Coalesce the constant output expressions
@@ -596,7 +649,10 @@ def coalesce_outputs(tree):
                 for i in node.body:
                     if hasattr(i, "output_args") and should_coalesce(i):
                         if output_node:
-                            if len(output_node.value.args) + len(i.output_args) > 250:
+                            # a literal is converted in the call itself, which
+                            # must be at its line
+                            too_many = len(output_node.value.args) + len(i.output_args) > 250
+                            if too_many or literal_argument(i.output_args[0]) is not None:
                                 coalesce_strs()
                                 output_node = i
                             else:
@@ -625,27 +681,9 @@ def coalesce_outputs(tree):
                 return
 
             for i in range(len(node.args)):
-                arg1 = node.args[i]
-                if not arg1.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg1.func, NameX("__TK__escape")):
-                    continue
-
-                if len(arg1.args) != 1:
-                    continue
-
-                arg2 = arg1.args[0]
-                if not arg2.__class__.__name__ == "Call":
-                    continue
-
-                if not ast_equals(arg2.func, NameX("literal")):
-                    continue
-
-                if len(arg2.args) != 1:
-                    continue
-
-                node.args[i] = arg2.args[0]
+                argument = literal_argument(node.args[i])
+                if argument is not None:
+                    node.args[i] = argument
 
         def visit_Call(self, node):
             self.check(node)
@@ -666,6 +704,9 @@ def remove_locations(node):
         if "col_offset" in node._attributes and hasattr(node, "col_offset"):
             del node.col_offset
 
+        if "end_lineno" in node._attributes and hasattr(node, "end_lineno"):
+            del node.end_lineno, node.end_col_offset
+
         for child in iter_child_nodes(node):
             fix(child)
 
@@ -754,6 +795,12 @@ class PyRootNode(PyComplexNode):
         tree = ast.parse(code)
         remove_locations(tree)
 
+        if extended:
+            # what fails in the parent is at py:extends
+            for node in ast.walk(tree):
+                if isinstance(node, Call):
+                    locate(node, getattr(extended, "position", (1, 0)))
+
         class LocatorAndTransformer(ast.NodeTransformer):
             binder = None
 
-- 
2.43.0


From 306b9036c0f6c43d5fc85d72097e7cdace02eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 63/67] fix: a call of literal with wrong arguments raises
 TypeError

---
 tonnikala/languages/python/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 6d5558c..92e3be2 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -604,7 +604,11 @@ def literal_argument(arg1):
     if not ast_equals(arg2.func, NameX("literal")):
         return None
 
-    if len(arg2.args) != 1:
+    # literal itself tells if the arguments are wrong
+    if len(arg2.args) != 1 or arg2.keywords:
+        return None
+
+    if arg2.args[0].__class__.__name__ == "Starred":
         return None
 
     return arg2.args[0]
-- 
2.43.0


From 47862eb7c0c9c533bec69026d2d1db627955d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 64/67] fix: keep the location of the code of loops and
 functions in JavaScript templates

---
 tonnikala/ir/nodes.py                       | 9 ++++++++-
 tonnikala/languages/javascript/generator.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index 77da297..d518d0a 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -241,7 +241,14 @@ class For(ContainerNode):
         super(For, self).__init__()
 
         self.expression = expression
-        self.parts = self.IN_RE.split(self.expression, 1)
+        self.parts = [self.expression]
+        match = self.IN_RE.search(self.expression)
+        if match:
+            # slices, unlike the results of a split, know their location
+            self.parts = [
+                self.expression[: match.start()],
+                self.expression[match.end() :],
+            ]
 
     def validate(self, validator):
         if len(self.parts) != 2:
diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 7fb30bd..3687392 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -531,6 +531,7 @@ class JsForNode(JsComplexNode):
 class JsDefineNode(JsComplexNode):
     def __init__(self, funcspec):
         super(JsDefineNode, self).__init__()
+        self.source = funcspec
         if "(" not in funcspec:
             funcspec += "()"
 
@@ -538,7 +539,7 @@ class JsDefineNode(JsComplexNode):
 
     def generate_ast(self, generator, parent):
         def_node = get_declaration(
-            "function %s{}" % self.funcspec, self.funcspec, "function"
+            "function %s{}" % self.funcspec, self.source, "function"
         )
         assign_func_body(
             def_node,
-- 
2.43.0


From 1aa967a3e55f012145e5786dbcf69e6cc4904c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 65/67] fix: normalize the names of blocks and import aliases
 as Python does those in expressions

---
 tonnikala/languages/python/generator.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 92e3be2..9b53d2d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -1,6 +1,7 @@
 import ast
 import keyword
 import sys
+import unicodedata
 from ast import (
     Call, FunctionDef, Pass, UnaryOp, iter_child_nodes, literal_eval,
     NodeVisitor, If, Expr, Assign, Attribute,
@@ -150,9 +151,13 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
 
 
 def ensure_identifier(name, what):
-    if not name.isidentifier() or keyword.iskeyword(name):
+    # the Python parser normalizes the identifiers in expressions
+    identifier = unicodedata.normalize("NFKC", str(name))
+    if not identifier.isidentifier() or keyword.iskeyword(identifier):
         raise TemplateSyntaxError("Invalid %s %r" % (what, str(name)), node=name)
 
+    return identifier
+
 
 def gen_name(typename=None):
     global name_counter
@@ -370,9 +375,9 @@ class PyImportNode(PythonNode):
         self.position = getattr(href, "position", (1, 0))
 
     def generate_ast(self, generator, parent):
-        ensure_identifier(self.alias, "import alias")
+        alias = ensure_identifier(self.alias, "import alias")
         node = Assign(
-            targets=[NameX(str(self.alias), store=True)],
+            targets=[NameX(alias, store=True)],
             value=simple_call(
                 func=Attribute(
                     value=NameX("__TK__runtime", store=False),
@@ -385,7 +390,7 @@ class PyImportNode(PythonNode):
         locate(node.value, self.position)
 
         if parent.is_top_level:
-            generator.add_top_level_import(str(self.alias), node)
+            generator.add_top_level_import(alias, node)
             return []
 
         return [node]
@@ -527,10 +532,9 @@ class PyBlockNode(PyComplexNode):
     def generate_ast(self, generator, parent):
         is_extended = isinstance(parent, PyExtendsNode)
 
-        name = self.name
-        ensure_identifier(name, "block name")
+        name = ensure_identifier(self.name, "block name")
         blockfunc_name = f"__TK__block__{name}"
-        position = getattr(name, "position", (1, 0))
+        position = getattr(self.name, "position", (1, 0))
         body = get_fragment_ast(
             StringWithLocation(
                 "def %s():pass" % blockfunc_name, position[0], position[1] - 4
@@ -540,12 +544,12 @@ class PyBlockNode(PyComplexNode):
         def_node = body[0]
         def_node.body = self.make_buffer_frame(self.generate_child_ast(generator, self))
 
-        generator.add_block(str(name), def_node, blockfunc_name)
+        generator.add_block(name, def_node, blockfunc_name)
 
         if not is_extended:
             # call the block in place
             return self.generate_output_ast(
-                [simple_call(NameX(str(self.name)), [])],
+                [simple_call(NameX(name), [])],
                 self,
                 parent,
                 position=position,
-- 
2.43.0


From 8fa85e73b9761e946df3920d48d3ef94549617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 66/67] fix: names that would be normalized to keywords are
 syntax errors

---
 tonnikala/languages/python/generator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 9b53d2d..90c50b4 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -120,6 +120,19 @@ def adjust_locations(ast_node, first_lineno, first_offset):
     _fix(ast_node)
 
 
+def check_names(tree):
+    """
+    The parser lets names such as a fullwidth None or if through; they could
+    not be compiled, or bound.
+    """
+    for node in ast.walk(tree):
+        name = getattr(node, "id", getattr(node, "name", None))
+        if isinstance(name, str) and keyword.iskeyword(name):
+            raise SyntaxError(
+                "cannot use %s as a name" % name, (None, node.lineno, 0, None)
+            )
+
+
 def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     if not isinstance(expression, str):
         return expression
@@ -137,13 +150,14 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
         if expression[-1:] != "\n":
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
+        check_names(tree)
     except SyntaxError as e:
         # some errors have no line, for example null bytes
         lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
 
-    if tree is None:
+    if t is not None:
         raise t
 
     adjust_locations(tree, position[0], position[1])
-- 
2.43.0


From b975f119ee19cf2d7161f762853bb19c62223613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 67/67] fix: resolve numeric references to Windows-1252
 characters in text as in attributes

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index c4b7476..beaabeb 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -1,5 +1,6 @@
 """XML parser"""
 
+import html
 import sys
 from html import parser as html_parser
 from html.entities import entitydefs as html_entity_defs
@@ -387,6 +388,8 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             content = chr(cp)
             # surrogates are not characters
             content.encode("UTF-8")
+            # those of C1 controls are of Windows-1252, as in attribute values
+            content = html.unescape("&#%d;" % cp) or content
             return self.handle_data(content)
         except Exception as e:
             self.syntax_error("Invalid HTML charref &#%s;: %s" % (code, e))
-- 
2.43.0

