"""Other names for the variables, functions, blocks and imports of generated templates, spelled in several ways."""

import re

# names in their normal form (NFKC), as Python has them, with other spellings
SPELLINGS = {
    "\u00e9lan": ["\u00e9lan", "e\u0301lan"],
    "na\u00efve": ["na\u00efve", "nai\u0308ve"],
    "\u03bc1": ["\u03bc1", "\u00b51"],
    "bfi": ["bfi", "b\ufb01", "\uff42fi"],
    "rona": ["rona", "ron\u00aa", "\U0001d42fona".replace("\U0001d42f", "\U0001d42b")],
    "\u043f\u0435\u0440\u0435\u043c": ["\u043f\u0435\u0440\u0435\u043c"],
    "\u540d\u524d": ["\u540d\u524d"],
    "\u30ac\u30b3": ["\u30ac\u30b3", "\uff76\u3099\u30b3", "\u30ab\u3099\uff7a"],
    "_\u0131": ["_\u0131"],
    "k2": ["k2", "\u212a2".replace("\u212a", "\uff4b"), "k\uff12"],
}


def choose(g, old, spelled=SPELLINGS):
    """Some of the names are to be replaced by others"""
    new = sorted(spelled)
    rv = {}
    for name in old:
        if g.n(2) == 0:
            other = g.pick(new)
            if other not in rv.values():
                rv[name] = other
    return rv


def pattern(names):
    # not within strings, but within f-strings
    return re.compile(
        r"(?<![\w'])(?:[bru]?'[^']*'|[bru]?\"[^\"]*\")|(?<!\w)(?:%s)(?![\w'\"])" % "|".join(map(re.escape, names))
    )


def walk(node, f):
    """The tree with f applied to all code in it"""
    kind = node[0]
    if kind == "expr":
        return ["expr", f(node[1]), *node[2:]]
    if kind == "pi":
        return ["pi", everywhere(node[1], f)]
    if kind == "el":
        _, tag, attrs, children, opts = node
        attrs = [[a[0], a[1] and [walk(n, f) for n in a[1]], *a[2:]] for a in attrs]
        return ["el", tag, attrs, [walk(n, f) for n in children], options(opts, f)]
    if kind == "ctl":
        _, what, args, children, opts = node
        if what == "import":
            args = [args[0], f(args[1])]
        elif what != "extends":
            args = everywhere(args, f)
        return ["ctl", what, args, [walk(n, f) for n in children], options(opts, f)]
    return node


def everywhere(value, f):
    if isinstance(value, (list, tuple)):
        return [everywhere(v, f) for v in value]
    return f(value) if isinstance(value, str) else value


def options(opts, f):
    if "ctl" not in opts:
        return opts
    return {**opts, "ctl": {k: everywhere(v, f) for k, v in opts["ctl"].items()}}


def walk_doc(doc, f):
    rv = dict(doc)
    for key in ("pre", "post"):
        if key in rv:
            rv[key] = [walk(n, f) for n in rv[key]]
    rv["root"] = walk(rv["root"], f)
    return rv


def rename(doc, names):
    """The document with other names"""
    if not names:
        return doc
    p = pattern(names)
    return walk_doc(doc, lambda s: p.sub(lambda m: names.get(m.group(), m.group()), s))


def respell(g, doc, names, spelled=SPELLINGS):
    """The document with every occurrence of a name spelled in one of its ways"""
    if not names:
        return doc
    p = pattern(names.values())
    return walk_doc(doc, lambda s: p.sub(lambda m: g.pick(spelled[m.group()]) if m.group() in spelled else m.group(), s))


def odd_files(g, files, ctxs, old):
    """
    Files and contexts with other names for some of the old ones, as they are
    to be interpreted, and the files as they are to be written
    """
    names = choose(g, old)
    files = {k: rename(d, names) for k, d in files.items()}
    ctxs = [{names.get(k, k): v for k, v in ctx.items()} for ctx in ctxs]
    return files, ctxs, {k: respell(g, d, names) for k, d in files.items()}, sorted(names.values())
