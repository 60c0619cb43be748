"""Makes the code of the repository importable, with a freshly built C buffer."""

import atexit
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

REPO = os.environ.get("TK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
warnings.simplefilter("ignore", SyntaxWarning)
_scratch = None
_scratch_pid = None


class HarnessError(Exception):
    """Something is wrong with the machinery itself, or its environment."""


def scratch():
    """A directory of this run only, removed at exit."""
    global _scratch, _scratch_pid
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="tkverif-")
        _scratch_pid = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _scratch_pid:
        shutil.rmtree(_scratch, ignore_errors=True)


def add_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch(), "hypothesis")


def build_c_buffer(flags=("-O1",), name="buf"):
    """Compile the C module from the sources of the repository."""
    src = os.path.join(REPO, "tonnikala", "runtime", "_buffer.c")
    target = os.path.join(scratch(), name + "_buffer.so")
    include = sysconfig.get_paths()["include"]
    cmd = ["gcc", "-shared", "-fPIC", "-w", *flags, "-I" + include, src, "-o", target]
    proc = subprocess.run(cmd, capture_output=True, text=True)
    if proc.returncode:
        raise HarnessError("cannot compile _buffer.c: " + proc.stderr[-2000:])
    return target


def preload_c_buffer(path):
    name = "tonnikala.runtime._buffer"
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module


def setup(buffer="c", flags=("-O1",)):
    """Set the import system up. buffer is c or python."""
    add_paths()
    if any(m == "tonnikala" or m.startswith("tonnikala.") for m in sys.modules):
        raise HarnessError("tonnikala was imported too early")

    if buffer == "c":
        preload_c_buffer(build_c_buffer(flags))
    else:
        # makes the import of the C module fail
        sys.modules["tonnikala.runtime._buffer"] = None

    import tonnikala

    where = os.path.realpath(tonnikala.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("tonnikala imported from %s" % where)


def second_world():
    """
    Import the code once more, with the Python buffer; returns the modules
    (runtime.python, loader) of that world.
    """
    import importlib

    saved = {n: m for n, m in sys.modules.items() if n == "tonnikala" or n.startswith("tonnikala.")}
    for n in saved:
        del sys.modules[n]
    sys.modules["tonnikala.runtime._buffer"] = None
    try:
        return importlib.import_module("tonnikala.runtime.python"), importlib.import_module("tonnikala.loader")
    finally:
        for n in [n for n in sys.modules if n == "tonnikala" or n.startswith("tonnikala.")]:
            del sys.modules[n]
        sys.modules.update(saved)
