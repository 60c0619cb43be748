"""Atheris target of C13: fuzz13.py DIRECTORY SEED SECONDS"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
work, seed, seconds = sys.argv[1:4]

from tklib import env  # noqa: E402

env.add_paths()
import atheris  # noqa: E402

with atheris.instrument_imports(include=["tonnikala", "html.parser", "_markupbase"]):
    env.setup(buffer="python")
    import tonnikala.loader  # noqa: F401
    from tonnikala.languages.javascript import generator  # noqa: F401
from checks import c13  # noqa: E402
from tklib.harness import Violation  # noqa: E402

DICTIONARY = sorted(set(
    c13.MARKUP + c13.ENTITIES + c13.DOLLARS + [e for e in c13.EXPRS if len(e) < 40]
    + ["py:" + n for n in c13.NAMES] + ["<py:%s " % n for n in c13.NAMES] + ["</py:%s>" % n for n in c13.NAMES]
    + ['test="', 'each="', 'vars="', 'function="', 'name="', 'href="', 'alias="', "<script>", "</script>", "<div ", "</div>"]
))


def target(data):
    fdp = atheris.FuzzedDataProvider(data)
    syntax = c13.SYNTAXES[fdp.ConsumeIntInRange(0, len(c13.SYNTAXES) - 1)]
    if fdp.ConsumeBool():
        out = []
        while fdp.remaining_bytes() and len(out) < 40:
            if fdp.ConsumeBool():
                out.append(DICTIONARY[fdp.ConsumeIntInRange(0, len(DICTIONARY) - 1)])
            else:
                out.append(fdp.ConsumeUnicodeNoSurrogates(4))
        source = "".join(out)
    else:
        source = fdp.ConsumeUnicodeNoSurrogates(200)
    if len(source) > 600:
        return
    case = {"syntax": syntax, "source": c13.respell(syntax, source)}
    try:
        c13.check(case)
    except (Violation, Exception):
        with open(os.path.join(work, "found.json"), "w") as f:
            json.dump(case, f)
        raise


atheris.Setup(
    [sys.argv[0], "-seed=%s" % seed, "-max_total_time=%s" % seconds, "-max_len=400", "-timeout=60",
     "-artifact_prefix=" + work + "/", os.path.join(work, "corpus")],
    target,
)
atheris.Fuzz()
