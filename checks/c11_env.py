"""Runs the check of the buffers with the C module under AddressSanitizer, where there is one."""

import os
import subprocess
import sys

BUFFER = "c"


def _library():
    try:
        path = subprocess.run(
            ["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True
        ).stdout.strip()
    except OSError:
        return None
    path = os.path.realpath(path)
    return path if os.path.isabs(path) and os.path.exists(path) else None


def _enter():
    library = _library()
    env = dict(os.environ, TK_ASAN="0")
    if library:
        env.update(
            TK_ASAN="1",
            LD_PRELOAD=library,
            PYTHONMALLOC="malloc",
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:log_path=/dev/null",
        )
        # does it work at all?
        probe = subprocess.run([sys.executable, "-c", "print(1)"], env=env, capture_output=True, text=True)
        if probe.stdout != "1\n":
            env = dict(os.environ, TK_ASAN="0")
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)


if "TK_ASAN" not in os.environ:
    _enter()

CFLAGS = ["-O1", "-g"]
if os.environ["TK_ASAN"] == "1":
    CFLAGS += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    # not for the processes started from here
    os.environ.pop("LD_PRELOAD", None)
