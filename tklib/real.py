"""Access to the code under test, through its public API only."""

import functools
import os
import shutil
import tempfile

from tonnikala.loader import FileLoader, JSLoader, Loader  # noqa: F401
from tonnikala.runtime.exceptions import TemplateSyntaxError  # noqa: F401

from . import env
from .harness import Violation


def outcome(func):
    """("ok", result) or ("error", type name, text)"""
    try:
        return ("ok", func())
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:300])


def load(source, filename="<string>", **kw):
    return Loader(**kw).load_string(source, filename)


def render(source, ctx, funcname="__main__", **kw):
    return load(source, **kw).render(ctx, funcname)


class TemplateDir:
    """A temporary directory of template files"""

    def __init__(self, files):
        self.path = tempfile.mkdtemp(dir=env.scratch())
        for name, source in files.items():
            path = os.path.join(self.path, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(source)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def render_files(files, main, ctx, funcname="__main__", **kw):
    with TemplateDir(files) as d:
        return FileLoader(paths=[d.path], **kw).load(main).render(ctx, funcname)


def name_error(outcome):
    if outcome[:2] == ("error", "UnboundLocalError"):
        return ("error", "NameError", outcome[2])
    return outcome


def compare(got, want, **details):
    """Compare two outcomes; the messages of errors do not count"""
    if name_error(got)[:2] != name_error(want)[:2]:
        raise Violation("got %r, expected %r" % (got, want), **details)
