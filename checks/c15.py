"""Rendering is pure: histories, nested renderings, schedules of threads, other processes."""

import json
import os
import subprocess
import sys
import threading

from checks import c07, c08
from tklib import env, gen, model, real
from tklib.harness import Family, HarnessError, Info, Violation

ID = "C15"
ASSUMPTIONS = [
    "threads switch where the templates call the context, by a generated schedule; in part of the cases the interpreter switches them as it likes",
]


def put_hooks(g, nodes, counter, inside=False):
    """Add calls of hook(n) to some of the lists of children"""
    for n in list(nodes):
        if n[0] == "el" and n[1] in model.VOID | model.RAW_TAGS:
            continue
        if n[0] in ("el", "ctl") and n[1] not in ("import", "replace"):
            put_hooks(g, n[3], counter, n[1] != "extends")
    if inside and g.n(2):
        counter[0] += 1
        nodes.insert(g.n(len(nodes)), ["expr", "hook(%d)" % counter[0], 0])


def templates(g, draw):
    """[[files, main, contexts]..]"""
    rv = []
    for i in range(1 + g.n(2)):
        k = g.n(3)
        if k <= 1:
            sub = Templates(draw, size=8)
            doc = sub.document(depth=3)
            files, main, ctxs = {"main": doc}, "main", [sub.context() for _ in range(2)]
        elif k == 2:
            case = c07.build(draw)
            files, ctxs = case["files"], case["ctxs"]
            main = g.pick(sorted(files))
        else:
            case = c08.build(draw)
            other = dict(case["ctx"], s1=g.string(), s2=g.string(), l1=[g.string(top=1) for _ in range(g.n(2))])
            files, ctxs, main = case["files"], [case["ctx"], other], "main"
        counter = [0]
        for doc in files.values():
            put_hooks(g, [doc["root"]], counter, False)
        rv.append([files, main, ctxs, counter[0]])
    return rv


class Templates(gen.Gen):
    # the values of a context are used again
    counters = False


class World:
    """The templates of a case, compiled by one loader or one for each group, and their contexts"""

    def __init__(self, case, directory):
        self.case = case
        self.directory = directory
        self.reload()
        self.contexts = [
            [model.decode_ctx(c) for c in ctxs] for _, _, ctxs, _ in case["templates"]
        ]
        for ctxs in self.contexts:
            for c in ctxs:
                c["hook"] = self.hook
        self.snapshots = [[snapshot(c) for c in ctxs] for ctxs in self.contexts]
        # the contexts whose values the dictionaries have
        self.which = [list(range(len(ctxs))) for ctxs in self.contexts]
        self.expected = {}
        self.held = {}

    def hook(self, k):
        return ""

    def reload(self):
        """Forget what was compiled"""
        if self.case.get("separate"):
            # the files of the groups have the same names
            self.loaders = [
                real.FileLoader(paths=[os.path.join(self.directory.path, "t%d" % t)])
                for t in range(len(self.case["templates"]))
            ]
        else:
            self.loaders = [real.FileLoader(paths=[self.directory.path])] * len(self.case["templates"])

    def name(self, t):
        name = self.case["templates"][t][1]
        return name if self.case.get("separate") else "t%d/%s" % (t, name)

    def source(self, t):
        path = os.path.join(self.directory.path, "t%d" % t, self.case["templates"][t][1])
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()

    def load(self, t):
        return self.loaders[t].load(self.name(t))

    def expect(self, t, c, part, boom=None):
        key = (t, c, part, boom)
        if key not in self.expected:
            files, main, ctxs, _ = self.case["templates"][t]
            ctx = model.decode_ctx(ctxs[c])

            def hook(k):
                if k == boom:
                    raise Stop(k)
                return ""

            ctx["hook"] = hook
            self.expected[key] = real.name_error(
                real.outcome(lambda: model.Interp(files).render(main, ctx, part))
            )[:2]
        return self.expected[key]

    def context_of(self, t, c):
        c %= len(self.contexts[t])
        return self.which[t][c], self.contexts[t][c]

    def exchange(self, t):
        """Exchange the contents of two contexts"""
        if len(self.contexts[t]) < 2:
            return
        a, b = self.contexts[t][:2]
        values = dict(a)
        a.clear()
        a.update(b)
        b.clear()
        b.update(values)
        for pair in self.which[t], self.snapshots[t]:
            pair[0], pair[1] = pair[1], pair[0]

    def check_contexts(self):
        for ctxs, snaps in zip(self.contexts, self.snapshots):
            for c, s in zip(ctxs, snaps):
                now = snapshot(c)
                if now != s:
                    raise Violation("rendering changed the context: %s" % changes(s, now), sources=self.sources())

    def sources(self):
        return [{k: model.emit_doc(d) for k, d in t[0].items()} for t in self.case["templates"]]


def snapshot(value):
    if isinstance(value, dict):
        return {str(k): snapshot(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [snapshot(i) for i in value]
    if isinstance(value, model.Obj):
        return ["obj", snapshot(value.__dict__)]
    if value is None or isinstance(value, (int, float)):
        return value
    if isinstance(value, str):
        return [type(value).__name__, str.__str__(value)]
    return [type(value).__name__, id(value) if not hasattr(value, "s") else value.s]


def changes(a, b):
    return "%s" % [k for k in set(a) | set(b) if a.get(k) != b.get(k)]


class Stop(Exception):
    pass


def write_files(case):
    files = {}
    for i, (docs, _, _, _) in enumerate(case["templates"]):
        for name, doc in docs.items():
            if not case.get("separate"):
                doc = redirect(doc, "t%d/" % i)
            files["t%d/%s" % (i, name)] = model.emit_doc(doc)
    return real.TemplateDir(files)


def redirect(node, prefix):
    """Let the extends and imports refer to the directory of the group"""
    if isinstance(node, dict):
        return {k: redirect(v, prefix) if k == "root" else v for k, v in node.items()}
    if node[0] in ("el", "ctl"):
        node = list(node)
        if node[0] == "ctl" and node[1] == "import":
            node[2] = [prefix + node[2][0], node[2][1]]
        elif node[0] == "ctl" and node[1] == "extends":
            node[2] = prefix + node[2]
        node[3] = [redirect(n, prefix) for n in node[3]]
    return node


# ----------------------------------------------------------------- histories


def part_of(g, docs):
    """A part to be rendered alone, mostly the whole"""
    if g.n(3):
        return "__main__"
    names = []

    def scan(nodes):
        for n in nodes:
            if n[0] == "ctl" and n[1] == "block":
                names.append(n[2])
            if n[0] in ("el", "ctl"):
                scan(n[3])

    for doc in docs.values():
        scan([doc["root"]])
    return g.pick(names) if names else "__main__"


def action(g, groups, depth):
    t = g.n(len(groups) - 1)
    k = g.n(8)
    if k == 0:
        return ["compile", t]
    if k == 1:
        return ["reload", t]
    if k == 7:
        return ["exchange", t]
    boom = None
    if k == 2 and groups[t][3]:
        boom = 1 + g.n(groups[t][3] - 1)
    nested = []
    if depth and groups[t][3] and g.n(1):
        for _ in range(1 + g.n(1)):
            nested.append([1 + g.n(groups[t][3] - 1), action(g, groups, depth - 1)])
    return ["render", t, g.n(1), part_of(g, groups[t][0]), boom, nested]


def build(draw):
    g = Templates(draw)
    groups = templates(g, draw)
    return {"templates": groups, "separate": g.n(1), "actions": [action(g, groups, 2) for _ in range(2 + g.n(6))]}


def check(case):
    with write_files(case) as d:
        world = World(case, d)
        stack = []
        labels = set()

        def hook(k):
            action = stack[-1]
            if action[4] == k:
                raise Stop(k)
            for at, inner in action[5]:
                if at == k and len(stack) < 4:
                    labels.add("nested")
                    perform(inner)
            return ""

        world.hook = hook
        for ctxs in world.contexts:
            for c in ctxs:
                c["hook"] = hook
        world.snapshots = [[snapshot(c) for c in ctxs] for ctxs in world.contexts]

        def perform(action):
            kind, t = action[:2]
            if kind == "compile":
                world.held[t] = world.loaders[t].load_string(world.source(t))
                return
            if kind == "reload":
                # all templates are compiled again
                world.reload()
                world.held.pop(t, None)
                return
            if kind == "exchange":
                world.exchange(t)
                labels.add("exchange")
                return
            c, ctx = world.context_of(t, action[2])
            template = world.held.get(t) or world.load(t)
            stack.append(action)
            try:
                got = real.outcome(lambda: template.render(ctx, action[3]))
            finally:
                stack.pop()
            want = world.expect(t, c, action[3], action[4])
            if want[0] == "error":
                labels.add("error")
            if real.name_error(got)[:2] != want:
                raise Violation(
                    "%s: got %r, expected %r" % (action[:5], got, want), sources=world.sources(), actions=case["actions"]
                )
            world.check_contexts()

        for a in case["actions"]:
            perform(a)
    return Info(len(case["actions"]) >= 2, labels or ["plain"])


# ------------------------------------------------------------------- threads


def build_threads(draw):
    g = Templates(draw)
    groups = templates(g, draw)
    threads = []
    for _ in range(2 + g.n(2)):
        threads.append([action(g, groups, 0) for _ in range(1 + g.n(2))])
    return {
        "templates": groups, "threads": threads, "separate": g.n(1), "free": g.n(5) == 5,
        "schedule": [g.n(3) for _ in range(40)],
    }


class Scheduler:
    """Lets one thread run at a time; they hand over where switch() is called"""

    def __init__(self, count, schedule):
        self.batons = [threading.Semaphore(0) for _ in range(count)]
        self.alive = list(range(count))
        self.schedule = schedule
        self.at = 0
        self.switches = 0
        self.local = threading.local()

    def choose(self):
        self.at += 1
        return self.alive[self.schedule[self.at % len(self.schedule)] % len(self.alive)]

    def switch(self):
        me = self.local.me
        other = self.choose()
        if other != me:
            self.switches += 1
            self.batons[other].release()
            self.batons[me].acquire()

    def body(self, me, func):
        self.local.me = me
        self.batons[me].acquire()
        try:
            func(me)
        finally:
            self.alive.remove(me)
            if self.alive:
                self.batons[self.choose()].release()

    def run(self, func):
        threads = [
            threading.Thread(target=self.body, args=(i, func), daemon=True) for i in range(len(self.batons))
        ]
        for t in threads:
            t.start()
        self.batons[self.choose()].release()
        for t in threads:
            t.join()


class Free(Scheduler):
    def switch(self):
        pass

    def body(self, me, func):
        self.local.me = me
        func(me)

    def run(self, func):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            Scheduler.run(self, func)
        finally:
            sys.setswitchinterval(old)

    def choose(self):
        return 0


def check_threads(case):
    with write_files(case) as d:
        world = World(case, d)
        scheduler = (Free if case["free"] else Scheduler)(len(case["threads"]), case["schedule"])
        current = {}
        problems = []

        def hook(k):
            action = current[scheduler.local.me]
            if action[4] == k:
                raise Stop(k)
            scheduler.switch()
            return ""

        for ctxs in world.contexts:
            for c in ctxs:
                c["hook"] = hook
        world.snapshots = [[snapshot(c) for c in ctxs] for ctxs in world.contexts]
        for actions in case["threads"]:
            for a in actions:
                if a[0] == "render":
                    world.expect(a[1], world.context_of(a[1], a[2])[0], a[3], a[4])

        def work(me):
            try:
                for action in case["threads"][me]:
                    kind, t = action[:2]
                    if kind != "render":
                        template = World(case, d).load(t)
                        action = ["render", t, 0, "__main__", None, []]
                    else:
                        template = world.load(t)
                    scheduler.switch()
                    c, ctx = world.context_of(t, action[2])
                    current[me] = action
                    got = real.outcome(lambda: template.render(ctx, action[3]))
                    want = world.expect(t, c, action[3], action[4])
                    if real.name_error(got)[:2] != want:
                        problems.append("thread %d, %s: got %r, expected %r" % (me, action[:5], got, want))
            except Exception as e:
                problems.append("thread %d: %s %s" % (me, type(e).__name__, e))

        scheduler.run(work)
        if problems:
            raise Violation(problems[0], sources=world.sources(), threads=case["threads"])
        world.check_contexts()
    return Info(
        scheduler.switches >= 2 or case["free"],
        ["free" if case["free"] else "switches%d" % min(10, scheduler.switches)],
    )


# ----------------------------------------------------------------- processes

PROCESSES = []


def start_processes():
    library = os.path.join(env.scratch(), "buf_buffer.so")
    for seed in ("0", "20202"):
        PROCESSES.append(subprocess.Popen(
            [sys.executable, "-B", os.path.join(env.VERIF, "tklib", "renderworker.py"), library],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONIOENCODING="utf-8"),
        ))


def ask(process, request):
    process.stdin.write(json.dumps(request) + "\n")
    process.stdin.flush()
    line = process.stdout.readline()
    if not line:
        raise HarnessError("the other process ended")
    return json.loads(line)


def build_processes(draw):
    g = Templates(draw)
    return {"templates": templates(g, draw)}


def check_processes(case):
    request = []
    want = []
    with write_files(case) as d:
        world = World(case, d)
        for t, (files, main, ctxs, _) in enumerate(case["templates"]):
            for c in range(len(ctxs)):
                request.append([world.name(t), ctxs[c]])
                got = real.outcome(lambda: world.load(t).render(world.contexts[t][c]))
                want.append(list(real.name_error(got)[:2]))
        for p in PROCESSES:
            answer = ask(p, {"path": d.path, "renderings": request})
            if answer != want:
                raise Violation(
                    "in another process: %r, here: %r" % (answer, want), sources=world.sources()
                )
    return Info(True, [w[0] for w in want])


# ------------------------------------------------------------------- startup


def build_startup(draw):
    g = Templates(draw)
    return {"templates": templates(g, draw), "compiled": g.n(3) > 0, "copies": 1 + g.n(2)}


def check_startup(case):
    """The first renderings of a process are those of several threads"""
    request = []
    want = []
    with write_files(case) as d:
        world = World(case, d)
        for t, (files, main, ctxs, _) in enumerate(case["templates"]):
            for c in range(len(ctxs)):
                expected = world.expect(t, c, "__main__")
                for _ in range(case["copies"]):
                    request.append([world.name(t), ctxs[c]])
                    want.append(list(expected))
        process = PROCESSES[len(request) % len(PROCESSES)]
        answer = ask(process, {"path": d.path, "renderings": request, "compiled": case["compiled"]})
    if answer != want:
        raise Violation(
            "in threads of a fresh process: %r, expected %r" % (answer, want), sources=world.sources()
        )
    return Info(len(request) > 1, [w[0] for w in want])


FAMILIES = [
    Family(
        "histories",
        lambda: gen.case_strategy(build),
        check,
        quick=5000,
        thorough=120000,
        rule="up to eight renderings, compilations and failed renderings of up to three groups of templates with shared "
        "contexts, some of them started within others, and contexts that exchange their values; every output is compared with the reference interpreter, and "
        "the contexts must not change; non-trivial: at least two actions",
    ),
    Family(
        "threads",
        lambda: gen.case_strategy(build_threads),
        check_threads,
        quick=3000,
        thorough=60000,
        rule="the same in two to four threads that take turns by a generated schedule at the calls of the templates; "
        "non-trivial: at least two switches within renderings",
    ),
    Family(
        "processes",
        lambda: gen.case_strategy(build_processes),
        check_processes,
        quick=1200,
        thorough=20000,
        setup=start_processes,
        rule="the same templates are compiled and rendered in processes with two other hash seeds; all are non-trivial",
    ),
    Family(
        "startup",
        lambda: gen.case_strategy(build_startup),
        check_startup,
        quick=800,
        thorough=15000,
        setup=start_processes,
        rule="the same templates are rendered by two to twelve threads at once in a process that has not rendered "
        "anything before, some of them compiled before; non-trivial: at least two threads",
    ),
]
