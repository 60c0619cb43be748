"""
A reference model of the template language, independent of the code under test.

Templates are JSON trees. emit() writes the tree as template source, and
Interp renders it directly, by the documented semantics.

Nodes:
    ["text", s, style]
    ["expr", source, form]        form: 0 ${..}, 1 $.. where possible
    ["el", tag, attrs, children, opts]
        attrs: [[name, parts or null, style]..]; parts: text and expr nodes
        opts: {"ctl": {name: value}, "style": n}
    ["ctl", kind, args, children, opts]
        kind: if, unless, for, with, vars, def, block, import, extends, replace
    ["comment", s, hidden]
    ["pi", [[name, source]..]]
"""

import ast
import builtins
import collections.abc
import datetime
import decimal
import enum
import fractions
import functools
import html
import html.entities
import re

import markupsafe

PREFIX = "py:"

VOID = set(
    "area base br col embed hr img input keygen link meta param source track wbr".split()
)
# these have a short form in the output when they are empty
EMPTY_TAGS = VOID | {"command"}
RAW_TAGS = {"script", "style"}
# the entities that HTML 4 and HTML 5 agree upon
NAMED = {
    ord(v): k
    for k, v in html.entities.entitydefs.items()
    if html.entities.html5.get(k + ";") == v
}

CONTINUES = re.compile(r"\w|[(\[]|\.[^\d\W]")
UNQUOTABLE = re.compile("[\\s\"'=<>`/\x00-\x20]")
SIMPLE = re.compile(r"[A-Za-z_]\w*(\.[A-Za-z_]\w*|\(\w*\)|\[\w+\])*\Z", re.ASCII)


# ---------------------------------------------------------------- escaping


def esc_text(s):
    """What static text or interpolated strings look like in the output"""
    return (
        s.replace("&", "&amp;")
        .replace("<", "&lt;")
        .replace(">", "&gt;")
        .replace('"', "&#34;")
        .replace("'", "&#39;")
    )


def esc(value):
    if hasattr(value, "__html__"):
        return str(value.__html__())
    return esc_text(str(value))


class Rendered:
    """The result of a template function or a block"""

    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return self.s

    def join(self):
        return self.s


class Literal:
    def __init__(self, value):
        self.s = str(value)

    def __html__(self):
        return self.s

    def __str__(self):
        return self.s


# ---------------------------------------------------------------- emission


def _variant(style, i, n):
    return ((style >> (2 * (i % 12))) & 3) % n


# HTML has references to these by their numbers in Windows-1252 too
WINDOWS = {
    bytes([b]).decode("cp1252"): b for b in range(0x80, 0xA0) if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)
}


def charref(c, which):
    code = WINDOWS.get(c, ord(c)) if which // 5 % 2 else ord(c)
    rv = ("&#%d;", "&#x%x;", "&#X%X;", "&#0%d;", "&#x00%X;")[which % 5] % code
    # HTML has no references to some characters
    return rv if html.unescape(rv) == c else c


def emit_chars(s, style, quote=None, raw=False):
    """The source of a string: in text, in an attribute (quote), or in a raw element"""
    if raw:
        return s
    out = []
    for i, c in enumerate(s):
        v = _variant(style, i, 4)
        if v and (style >> 3) % 5 == 4 and (style >> 9) & 1 and charref(c, style + i) != c:
            # any character may be written so
            out.append(charref(c, style + i))
        elif c == "&":
            out.append(("&amp;", "&#38;", "&#x26;", "&amp;")[v])
        elif c == "<":
            nxt = s[i + 1 : i + 2]
            if quote and v == 3:
                out.append("<")
            elif v == 3 and nxt in (" ", "=", "1"):
                out.append("<")
            else:
                out.append(("&lt;", "&#60;", "&#x3C;", "&lt;")[v])
        elif c == ">":
            out.append((">", "&gt;", "&#62;", ">")[v])
        elif c == quote:
            out.append({'"': "&quot;", "'": "&#39;"}[c])
        elif c in "\"'":
            out.append((c, {'"': "&quot;", "'": "&#39;"}[c], "&#%d;" % ord(c), c)[v])
        elif ord(c) >= 0xA0 and v == 1 and ord(c) in NAMED:
            out.append("&%s;" % NAMED[ord(c)])
        elif ord(c) >= 0xA0 and v == 2:
            out.append("&#x%x;" % ord(c))
        elif ord(c) >= 0xA0 and v == 3:
            out.append("&#%d;" % (WINDOWS[c] if c in WINDOWS and style & 1 else ord(c)))
        else:
            out.append(c)
    return "".join(out)


def dollar_text(s, style=0):
    """Write the dollars of a literal text"""
    out = []
    for i, c in enumerate(s):
        if c == "$":
            nxt = s[i + 1 : i + 2]
            if nxt and not re.match(r"[A-Za-z_{$]", nxt) and _variant(style, i, 2):
                out.append("$")
            else:
                out.append("$$")
        else:
            out.append(c)
    return "".join(out)


def emit_parts(nodes, quote=None, raw=False):
    """Source of consecutive text and expr nodes"""
    out = []
    for i, node in enumerate(nodes):
        if node[0] == "text":
            # styles of the characters are by position in the final text
            out.append(emit_chars(dollar_text(node[1], node[2]), node[2], quote, raw))
            continue

        source = node[1]
        if node[2] == 1 and SIMPLE.match(source):
            following = ""
            for n in nodes[i + 1 :]:
                following += dollar_text(n[1], n[2]) if n[0] == "text" else "$"
                if n[0] != "text":
                    break
            if not CONTINUES.match(following):
                out.append("$" + source)
                continue

        form = ("${%s}", "${%s}", "${ %s }", "${\n  %s\n}", "${%s\n}", "${\t%s}")[node[2]]
        out.append(emit_chars(form % source, 0, quote, raw))
    return "".join(out)


def quote_attr(source, style=0):
    """The source of an attribute with verbatim contents (control attributes)"""
    q = "'" if style & 1 else '"'
    return q + emit_chars(source, scatter(style) if style & 512 else 0, q) + q


def scatter(style):
    """Styles of the characters, from that of an element"""
    return style * 2654435761 & 0xFFFFFF


def with_source(pairs, style=0):
    sep = "; " if not style & 2 else "\n"
    fmt = "%s = %s"
    if style & 1024:
        sep = "\n\n" if style & 2 else ";"
        fmt = "%s=%s"
    return sep.join(fmt % (n, e) for n, e in pairs)


# the names of the control attributes in the Chameleon syntax
ATTR_NAMES = {"tal:": {"if": "condition", "for": "repeat", "strip": "omit-tag"}}

CTL_ATTR_ORDER = "block if unless for def with vars strip content replace attrs".split()


def ctl_value(kind, value, style=0):
    pad = ""
    if kind == "for":
        sep = (" in ", "\tin  ")[bool(style & 1024)]
        rv, pad = sep.join(value), " \t"
    elif kind in ("with", "vars"):
        rv, pad = with_source(value, style), "\n"
    elif kind == "def":
        rv, pad = def_source(value), " "
    else:
        rv = value
        if kind in ("if", "unless", "content", "replace", "strip", "attrs") and value:
            pad = (" ", "\n  ", "\t", "\n")[style >> 5 & 3]

    return pad + rv + pad if style & 256 else rv


def def_source(value):
    name, sig = value
    if sig is None:
        return name
    return "%s(%s)" % (name, sig)


def emit_ctl_attrs(ctl, style, prefix):
    out = []
    names = [n for n in CTL_ATTR_ORDER if n in ctl]
    if style & 4:
        names.reverse()
    for n in names:
        name = ATTR_NAMES.get(prefix, {}).get(n, n)
        out.append(" %s%s=%s" % (prefix, name, quote_attr(ctl_value(n, ctl[n], style), style)))
    return out


CTL_ATTRS = {
    "if": "test",
    "unless": "test",
    "for": "each",
    "with": "vars",
    "vars": "names",
    "def": "function",
    "block": "name",
    "replace": "value",
}


def emit_node(node, prefix=PREFIX, raw=False):
    kind = node[0]
    if kind in ("text", "expr"):
        return emit_parts([node], raw=raw)

    if kind == "comment":
        return "<!--%s%s-->" % ("!" if node[2] else "", node[1])

    if kind == "pi":
        return "<?python %s?>" % "\n".join("%s = %s" % tuple(p) for p in node[1])

    if kind == "el":
        _, tag, attrs, children, opts = node
        style = opts.get("style", 0)
        name = tag.upper() if style & 8 else tag
        out = ["<", name]
        for attr in attrs:
            aname, parts, astyle = attr
            if parts is None:
                out.append(" " + aname)
                continue
            q = "'" if astyle & 1 else '"'
            space = ("\n\t " if astyle & 32 else "\n  ") if astyle & 2 else ("  " if astyle & 32 else " ")
            eq = " = " if astyle & 4 else "="
            if astyle & 16:
                aname = aname.upper()
            if astyle & 8:
                value = emit_parts(parts, '"')
                if value and not UNQUOTABLE.search(value):
                    out.append("%s%s%s%s " % (space, aname, eq, value))
                    continue
            out.append(
                "%s%s%s%s%s%s" % (space, aname, eq, q, emit_parts(parts, q), q)
            )
        ctl = emit_ctl_attrs(opts.get("ctl", {}), style, prefix)
        if style & 16:
            out[2:2] = ctl
        else:
            out.extend(ctl)
        if style & 128:
            out.append((" ", "\n", "\t ", "\n\n")[style >> 5 & 3])
        if tag in VOID:
            out.append(" />" if style & 32 else ">")
            return "".join(out)
        if not children and style & 32:
            out.append("/>")
            return "".join(out)
        out.append(">")
        out.append(emit_children(children, prefix, raw=tag in RAW_TAGS))
        if style & 2048:
            name = name.swapcase()
        out.append("</%s%s>" % (name, " " if style & 64 else ""))
        return "".join(out)

    if kind == "ctl":
        _, what, args, children, opts = node
        style = opts.get("style", 0)
        tag = prefix + what
        out = ["<", tag]
        if what == "import":
            out.append(' href="%s" alias="%s"' % tuple(args))
        elif what == "extends":
            out.append(' href="%s"' % args)
        else:
            out.append(
                " %s=%s" % (CTL_ATTRS[what], quote_attr(ctl_value(what, args, style), style))
            )
        out.extend(emit_ctl_attrs(opts.get("ctl", {}), style, prefix))
        if not children and style & 32:
            out.append("/>")
            return "".join(out)
        out.append(">")
        out.append(emit_children(children, prefix, raw=raw))
        out.append("</%s>" % tag)
        return "".join(out)

    raise ValueError(kind)


def emit_children(children, prefix=PREFIX, raw=False):
    out = []
    run = []
    for c in children:
        if c[0] in ("text", "expr"):
            run.append(c)
            continue
        if run:
            out.append(emit_parts(run, raw=raw))
            run = []
        out.append(emit_node(c, prefix, raw))
    if run:
        out.append(emit_parts(run, raw=raw))
    return "".join(out)


def emit_doc(doc, prefix=PREFIX):
    """doc: {"root": node, "doctype": str or None, "pre": [..], "post": [..]}"""
    out = []
    if doc.get("doctype"):
        out.append(doc["doctype"])
    out.append(emit_children(doc.get("pre", []), prefix))
    out.append(emit_node(doc["root"], prefix))
    out.append(emit_children(doc.get("post", []), prefix))
    return "".join(out)


# ------------------------------------------------------------ normal form

CTL_NESTING = "block if unless for def with vars".split()


def normalize(nodes):
    """
    Resolve the control attributes. Yields
        ("text", s) ("expr", e) ("raw", s) ("if", e, ch) ("unless", e, ch)
        ("for", target, e, ch) ("def", name, sig, ch) ("with", pairs, ch)
        ("block", name, ch) ("import", href, alias) ("pi", pairs)
        ("el", tag, attrs, dynamic, strip, ch)
    """
    out = []
    for node in nodes:
        kind = node[0]
        if kind in ("text", "expr"):
            if kind == "expr" or node[1]:
                out.append((kind, node[1]))
        elif kind == "comment":
            if not node[2]:
                out.append(("raw", "<!--%s-->" % node[1]))
        elif kind == "pi":
            out.append(("pi", node[1]))
        elif kind == "el":
            _, tag, attrs, children, opts = node
            ctl = opts.get("ctl", {})
            if "replace" in ctl:
                inner = ("expr", ctl["replace"])
            else:
                ch = (
                    [("expr", ctl["content"])]
                    if ctl.get("content")
                    else normalize(children)
                )
                strip = ctl.get("strip")
                if strip is not None and not strip.strip():
                    strip = "True"
                inner = ("el", tag, attrs, ctl.get("attrs"), strip, ch)
            out.append(wrap_ctl(inner, ctl))
        elif kind == "ctl":
            _, what, args, children, opts = node
            ctl = opts.get("ctl", {})
            if what == "import":
                out.append(("import", args[0], args[1]))
                continue
            if what == "replace":
                out.append(wrap_ctl(("expr", args), ctl))
                continue
            if "replace" in ctl:
                ch = [("expr", ctl["replace"])]
            elif ctl.get("content"):
                ch = [("expr", ctl["content"])]
            else:
                ch = normalize(children)
            for k in reversed([k for k in CTL_NESTING if k in ctl]):
                ch = [make_ctl(k, ctl[k], ch)]
            out.append(make_ctl(what, args, ch))
        else:
            raise ValueError(kind)
    return out


def wrap_ctl(inner, ctl):
    for k in reversed([k for k in CTL_NESTING if k in ctl]):
        inner = make_ctl(k, ctl[k], [inner])
    return inner


def make_ctl(kind, value, ch):
    if kind == "for":
        return ("for", value[0], value[1], ch)
    if kind == "def":
        return ("def", value[0], value[1], ch)
    if kind == "vars":
        kind = "with"
    return (kind, value, ch)


# ------------------------------------------------------------- evaluation


# no name: the context that the templates imported by a file get
ORIGINAL = "original context"


class Scope:
    __slots__ = ("vars", "parent", "env", "__weakref__")

    def __init__(self, parent=None, vars=None):
        self.parent = parent
        self.vars = {} if vars is None else vars
        self.env = Env(self)


class Env(dict):
    """The live view of a scope, as the globals of evaluated expressions"""

    def __init__(self, scope):
        dict.__init__(self)
        self.scope = scope
        dict.__setitem__(self, "__builtins__", {})

    def __getitem__(self, name):
        scope = self.scope
        while scope is not None:
            if name in scope.vars:
                return scope.vars[name]
            scope = scope.parent
        raise KeyError(name)


@functools.lru_cache(maxsize=20000)
def compiled(source, mode):
    return compile(source, "<ref>", mode)


def evaluate(source, scope):
    # an expression may span lines only within brackets, keep it as it is
    return eval(compiled(source.strip(), "eval"), scope.env)


def assign(target, value, scope):
    names = {"__v__": value}
    exec(compiled("%s = __v__" % target, "exec"), scope.env, names)
    del names["__v__"]
    scope.vars.update(names)


def static_value(source):
    """True or False when the condition is constant, else None"""
    try:
        tree = ast.parse(source.strip(), mode="eval").body
    except SyntaxError:
        return None
    negate = False
    while isinstance(tree, ast.UnaryOp) and isinstance(tree.op, ast.Not):
        negate = not negate
        tree = tree.operand
    try:
        return bool(ast.literal_eval(tree)) != negate
    except Exception:
        return None


class ModelError(Exception):
    pass


class File:
    """The parts of a template file"""

    def __init__(self, doc):
        self.doc = doc
        self.extends = None
        self.imports = []
        self.blocks = []
        self.defs = []
        root = doc["root"]
        head = []
        if doc.get("doctype"):
            head.append(("raw", doc.get("doctype_out", doc["doctype"])))
        if root[0] == "ctl" and root[1] == "extends":
            self.extends = root[2]
            body = normalize(root[3])
            for n in body:
                if n[0] == "block":
                    self.blocks.append((n[1], n[2]))
                    self.scan(n[2], False)
                elif n[0] == "def":
                    self.scan([n], True)
                elif n[0] == "import":
                    self.imports.append((n[1], n[2]))
            self.body = []
            return
        self.body = (
            head
            + normalize([n for n in doc.get("pre", []) if n[0] != "text"])
            + normalize([root])
            + normalize([n for n in doc.get("post", []) if n[0] != "text"])
        )
        self.scan(self.body, True)

    def scan(self, nodes, top):
        """Find the functions, the blocks and the imports to hoist"""
        for n in nodes:
            kind = n[0]
            if kind == "block":
                self.blocks.append((n[1], n[2]))
                self.scan(n[2], False)
            elif kind == "def":
                if top:
                    self.defs.append((n[1], n[2], n[3]))
                self.scan(n[3], False)
            elif kind == "import":
                if top:
                    self.imports.append((n[1], n[2]))
            elif kind in ("if", "unless"):
                static = static_value(n[1])
                if static is not None:
                    if static == (kind == "if"):
                        self.scan(n[2], top)
                else:
                    self.scan(n[2], False)
            elif kind == "for":
                self.scan(n[3], False)
            elif kind == "with":
                self.scan(n[2], False)
            elif kind == "el":
                self.scan(n[5], top)


class Imported:
    def __init__(self, attrs):
        self.__dict__.update(attrs)


class Interp:
    """Renders a set of template files: {name: doc}"""

    def __init__(self, files):
        self.files = {}
        self.docs = files
        self.budget = 20000

    def file(self, name):
        if name not in self.files:
            self.files[name] = File(self.docs[name])
        return self.files[name]

    def root_context(self, ctx):
        rv = {n: getattr(builtins, n) for n in dir(builtins) if not n.startswith("__")}
        rv["literal"] = lambda x: markupsafe.Markup(str(x))
        rv["gettext"] = lambda x: x
        rv.update(ctx)
        if "egettext" not in ctx:
            rv["egettext"] = lambda x: Literal(esc(rv["gettext"](x)))
        return rv

    @staticmethod
    def is_bound(context, name, importer=None):
        missing = object()
        value = context.get(name, missing)
        if value is missing or value is getattr(builtins, name, missing):
            return False
        return importer is None or value is not importer.get(name, missing)

    def bind(self, name, context, importer=None):
        """Add the functions of the file and of its parents; returns the main function"""
        file = self.file(name)
        original = dict(context)
        scope = Scope(None, context)
        local = Scope(scope)
        local.vars[ORIGINAL] = original
        for href, alias in file.imports:
            local.vars[alias] = self.import_file(href, original)

        # the file's own names refer to what is bound, and arguments'
        # defaults are evaluated in this order
        for bname, body in file.blocks:
            func = self.make_function(bname, "", body, local, True)
            if not self.is_bound(context, bname, importer):
                context[bname] = func
        for dname, sig, body in file.defs:
            func = self.make_function(dname, sig or "", body, local, True)
            if not self.is_bound(context, dname, importer):
                context[dname] = func

        if file.extends:
            return self.bind(file.extends, context, importer)

        return self.make_function("__main__", "", file.body, local, True)

    def import_file(self, href, original):
        context = dict(original)
        main = self.bind(href, context, original)
        context["__main__"] = main
        return Imported(
            {
                k: v
                for k, v in context.items()
                if not (k in original and original[k] is v)
            }
        )

    def render(self, name, ctx, funcname="__main__"):
        context = self.root_context(ctx)
        main = self.bind(name, context)
        context.setdefault("__main__", main)
        return str(context[funcname]())

    def make_function(self, name, sig, body, scope, top=False):
        binder = eval(compiled("lambda %s: locals()" % sig, "eval"), scope.env)

        def function(*args, **kwargs):
            local = Scope(scope, dict(binder(*args, **kwargs)))
            out = []
            self.run(body, local, out, top and name == "__main__")
            return Rendered("".join(out))

        return function

    def run(self, nodes, scope, out, top):
        for n in nodes:
            self.budget -= 1
            if self.budget < 0:
                raise ModelError("too many steps")
            kind = n[0]
            if kind == "text":
                out.append(self.static_text(n[1]))
            elif kind == "raw":
                out.append(n[1])
            elif kind == "expr":
                out.append(esc(evaluate(n[1], scope)))
            elif kind in ("if", "unless"):
                static = static_value(n[1])
                if bool(evaluate(n[1], scope)) == (kind == "if"):
                    self.run(n[2], scope, out, top and static is not None)
            elif kind == "for":
                for value in evaluate(n[2], scope):
                    assign(n[1], value, scope)
                    self.run(n[3], scope, out, False)
            elif kind == "with":
                local = Scope(scope)
                for name, source in n[1]:
                    local.vars[name] = evaluate(source, local)
                self.run(n[2], local, out, False)
            elif kind == "pi":
                for name, source in n[1]:
                    scope.vars[name] = evaluate(source, scope)
            elif kind == "def":
                if not top:
                    scope.vars[n[1]] = self.make_function(n[1], n[2] or "", n[3], scope)
            elif kind == "block":
                out.append(str(scope.env[n[1]]()))
            elif kind == "import":
                if not top:
                    scope.vars[n[2]] = self.import_file(n[1], scope.env[ORIGINAL])
            elif kind == "el":
                self.run_element(n, scope, out, top)
            else:
                raise ValueError(kind)

    def static_text(self, s):
        return esc_text(s)

    def run_element(self, n, scope, out, top):
        _, tag, attrs, dynamic, strip, children = n
        keep = strip is None or not evaluate(strip, scope)
        if keep:
            out.append("<" + tag)
            constant = []
            mutable = []
            for name, parts, _ in dict((a[0], a) for a in attrs).values():
                if parts is None:
                    constant.append(" " + name)
                elif self.is_constant_attr(name, parts):
                    text = "".join(p[1] for p in parts)
                    constant.append(' %s="%s"' % (name, self.static_attr(name, text)))
                else:
                    mutable.append((name, parts))
            out.extend(constant)
            for name, parts in mutable:
                parts = [p for p in parts if p[0] == "expr" or p[1]]
                if len(parts) == 1 and parts[0][0] == "expr":
                    self.boolean_attr(name, evaluate(parts[0][1], scope), out)
                    continue
                out.append(' %s="' % name)
                for p in parts:
                    if p[0] == "text":
                        out.append(self.static_attr(name, p[1]))
                    else:
                        out.append(esc(evaluate(p[1], scope)))
                out.append('"')
            if dynamic is not None:
                values = evaluate(dynamic, scope)
                if values:
                    if hasattr(values, "items"):
                        values = values.items()
                    for k, v in values:
                        self.boolean_attr(str(k), v, out)
            if not children:
                out.append(" />" if tag in EMPTY_TAGS else "></%s>" % tag)
            else:
                out.append(">")
        if tag in RAW_TAGS:
            for c in children:
                if c[0] == "text":
                    out.append(c[1])
                else:
                    self.run([c], scope, out, False)
        else:
            self.run(children, scope, out, top)
        if children and (strip is None or not evaluate(strip, scope)):
            out.append("</%s>" % tag)

    def static_attr(self, name, s):
        return esc_text(s)

    def is_constant_attr(self, name, parts):
        return all(p[0] == "text" for p in parts)

    @staticmethod
    def boolean_attr(name, value, out):
        if value is None or value is False:
            return
        if value is True:
            out.append(' %s="%s"' % (name, name))
            return
        out.append(' %s="%s"' % (name, esc(value)))


TRANSLATED_ATTRS = set("title alt placeholder value caption".split())


def merge_texts(nodes):
    """Make one text node of consecutive ones, in all of the tree"""
    rv = []
    for n in nodes:
        if n[0] == "text":
            if not n[1]:
                continue
            if rv and rv[-1][0] == "text":
                rv[-1] = ["text", rv[-1][1] + n[1], 0]
                continue
        elif n[0] == "el":
            attrs = [[a[0], a[1] if a[1] is None else merge_texts(a[1]), a[2]] for a in n[2]]
            n = ["el", n[1], attrs, merge_texts(n[3]), n[4]]
        elif n[0] == "ctl":
            n = ["ctl", n[1], n[2], merge_texts(n[3]), n[4]]
        rv.append(n)
    return rv


class TranslatingInterp(Interp):
    """
    Renders translatable templates: the texts between tags and expressions
    and in some attributes are looked up.
    """

    def __init__(self, files):
        files = {k: dict(v, root=merge_texts([v["root"]])[0]) for k, v in files.items()}
        super().__init__(files)

    def bind(self, name, context, importer=None):
        if importer is None:
            self.gettext = context["gettext"]
        return super().bind(name, context, importer)

    def static_text(self, s):
        core = s.strip()
        if not core:
            return esc_text(s)
        start = s.index(core)
        return esc_text(s[:start]) + esc(self.gettext(core)) + esc_text(s[start + len(core) :])

    def is_constant_attr(self, name, parts):
        # the order of constant and other attributes is not specified here
        if name in TRANSLATED_ATTRS:
            text = "".join(p[1] for p in parts)
            if text.strip() or not text:
                return False
        return super().is_constant_attr(name, parts)

    def static_attr(self, name, s):
        return self.static_text(s) if name in TRANSLATED_ATTRS else esc_text(s)


# ------------------------------------------------------------------ values


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Obj"


class StrObj:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "<StrObj %r>" % self.s

    def __str__(self):
        return self.s


class HtmlObj:
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return "NOT THIS <&>"

    __repr__ = __str__


class EqualsAll:
    """Equal to everything, false, and neither a boolean nor None"""

    def __init__(self, s):
        self.s = s

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False

    __hash__ = None

    def __str__(self):
        return self.s

    __repr__ = __str__


class Mapped(collections.abc.Mapping):
    """A mapping that is no dict"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class DictSub(dict):
    pass


class Pairs:
    """Iterable, and always true"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        return iter(self.pairs)


class Keeper:
    """Keeps functions given to it, and calls them later"""

    def __init__(self):
        self.kept = []

    def keep(self, *functions):
        self.kept.extend(functions)
        return ""

    def call(self):
        return Literal("".join("[%s]" % esc(f()) for f in self.kept))


class StrSub(str):
    def __str__(self):
        return "sub:" + str.__str__(self)[0:]


class IntSub(int):
    def __str__(self):
        return "<int %d>" % int(self)


class HtmlStr(str):
    """A string that knows its markup"""

    def __html__(self):
        return "<q>" + str.__str__(self)[:3].replace("<", "") + "</q>"


class Counter:
    """Tells how often it has been called, and thus the order of the calls"""

    def __init__(self):
        self.n = 0

    def __call__(self, *args):
        self.n += 1
        return self.n


class AnyDecimal(decimal.Decimal):
    pass


class Color(enum.Enum):
    RED = "<red>"


class Number(enum.IntEnum):
    ONE = 1
    ZERO = 0


class StrEnum(enum.StrEnum):
    A = "a<b"


class Dataless:
    """Neither a string nor markup: it is the empty string"""

    def __str__(self):
        return ""

    def __bool__(self):
        return False


class BadBool:
    def __str__(self):
        return "<bad bool>"

    def __bool__(self):
        raise ValueError("no truth")

    def __eq__(self, other):
        raise ValueError("not comparable")

    __hash__ = None


class NullHtml(str):
    """Its markup is the empty string"""

    def __html__(self):
        return ""


class AttrAll:
    """Has any attribute, but no special ones"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __str__(self):
        return "<all&>"


ODD = {
    "nan": lambda: float("nan"),
    "-0.0": lambda: -0.0,
    "inf": lambda: float("inf"),
    "decimal": lambda: decimal.Decimal("1.50"),
    "decimal0": lambda: AnyDecimal("0"),
    "fraction": lambda: fractions.Fraction(1, 3),
    "complex": lambda: 1j,
    "enum": lambda: Color.RED,
    "intenum": lambda: Number.ONE,
    "intenum0": lambda: Number.ZERO,
    "strenum": lambda: StrEnum.A,
    "empty": Dataless,
    "badbool": BadBool,
    "nullhtml": lambda: NullHtml("<x>"),
    "attrall": AttrAll,
    "ellipsis": lambda: ...,
    "notimplemented": lambda: NotImplemented,
    "range": lambda: range(3),
    "class": lambda: int,
    "bytearray": lambda: bytearray(b"<&>"),
    "frozenset": lambda: frozenset(["<"]),
    "tuple0": tuple,
    "dict0": dict,
    "zero": lambda: 0,
    "one": lambda: 1,
    "emptymarkup": lambda: markupsafe.Markup(""),
    "date": lambda: datetime.date(2020, 1, 2),
    "userstring": lambda: collections.UserString("<&>"),
    "exception": lambda: ValueError("<&>"),
}


def decode_value(v):
    """Context values from JSON"""
    if isinstance(v, list):
        return [decode_value(i) for i in v]
    if isinstance(v, dict):
        if "$" in v:
            kind, arg = v["$"], v["v"]
            if kind == "markup":
                return markupsafe.Markup(arg)
            if kind == "obj":
                return Obj(**{k: decode_value(i) for k, i in arg.items()})
            if kind == "str":
                return StrObj(arg)
            if kind == "html":
                return HtmlObj(arg)
            if kind == "sub":
                return StrSub(arg)
            if kind == "rep":
                return arg[0] * arg[1]
            if kind == "float":
                return float(arg)
            if kind == "intsub":
                return IntSub(arg)
            if kind == "equal":
                return EqualsAll(arg)
            if kind == "mapping":
                return Mapped({k: decode_value(i) for k, i in arg})
            if kind == "dictsub":
                return DictSub((k, decode_value(i)) for k, i in arg)
            if kind == "iter":
                return Pairs([(k, decode_value(i)) for k, i in arg])
            if kind == "keeper":
                return Keeper()
            if kind == "htmlsub":
                return HtmlStr(arg)
            if kind == "bytes":
                return arg.encode("utf-8")
            if kind == "tuple":
                return tuple(decode_value(i) for i in arg)
            if kind == "pairs":
                return [(k, decode_value(i)) for k, i in arg]
            if kind == "undefined":
                return None
            if kind == "counter":
                return Counter()
            if kind == "odd":
                return ODD[arg]()
            if kind == "same":
                return lambda x: x
            if kind == "func":
                value = decode_value(arg)
                return lambda *a, **kw: value
            raise ValueError(kind)
        return {k: decode_value(i) for k, i in v.items()}
    return v


def decode_ctx(ctx):
    return {k: decode_value(v) for k, v in ctx.items()}
