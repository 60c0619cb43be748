"""
Renders in another process: renderworker.py C_BUFFER_LIBRARY

For a request with threads, it lets a copy of itself, which has not rendered
anything yet, do all of the renderings at once.
"""

import json
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tklib import env  # noqa: E402

env.add_paths()
env.preload_c_buffer(sys.argv[1])
from tklib import model, real  # noqa: E402


def render(get_template, ctx):
    ctx = model.decode_ctx(ctx)
    ctx["hook"] = lambda k: ""
    return list(real.name_error(real.outcome(lambda: get_template().render(ctx)))[:2])


def one_by_one(request):
    loader = real.FileLoader(paths=[request["path"]])
    rv = []
    # the other way around
    for name, ctx in reversed(request["renderings"]):
        rv.insert(0, render(lambda: loader.load(name), ctx))
    return rv


def at_once(request):
    loader = real.FileLoader(paths=[request["path"]])
    renderings = request["renderings"]
    getters = [lambda name=name: loader.load(name) for name, _ in renderings]
    if request["compiled"]:
        getters = [lambda t=t: t for t in [g() for g in getters]]
    rv = [None] * len(renderings)
    barrier = threading.Barrier(len(renderings))

    def work(i):
        barrier.wait()
        rv[i] = render(getters[i], renderings[i][1])

    sys.setswitchinterval(1e-6)
    threads = [threading.Thread(target=work, args=(i,)) for i in range(len(renderings))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return rv


def main():
    for line in sys.stdin:
        request = json.loads(line)
        if "compiled" not in request:
            print(json.dumps(one_by_one(request)), flush=True)
            continue
        pid = os.fork()
        if not pid:
            try:
                print(json.dumps(at_once(request)), flush=True)
            except BaseException as e:
                print(json.dumps("%s: %s" % (type(e).__name__, e)), flush=True)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


main()
