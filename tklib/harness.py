"""Runs the generated-input search of one property.

A check module has ID, and FAMILIES: a list of Family objects. Every family
has a Hypothesis strategy of JSON-serialisable cases, and a function that
decides a case: it raises Violation, or returns an Info about the case.
"""

import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import struct
import sys
import time
import traceback
import mmap

from . import env
from .env import HarnessError

WORKERS = int(os.environ.get("TK_WORKERS", "8"))
CASE_CPU_LIMIT = 30.0  # seconds of CPU time in Python code for one case
HANG_CPU_LIMIT = 90.0  # seconds of CPU time without any progress
SHRINK_TIME = 25.0


class Violation(Exception):
    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class Info:
    """What was seen in a case: is it non-trivial, and its classes"""

    __slots__ = ("nontrivial", "labels")

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = nontrivial
        self.labels = labels


class Family:
    def __init__(self, name, strategy, check, quick, thorough, rule, setup=None,
                 workers=None, bulk=None):
        self.name = name
        self.strategy = strategy  # a callable that returns the strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.setup = setup  # called once in each worker
        self.workers = workers
        self.bulk = bulk


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def is_repo_file(filename):
    return os.path.realpath(filename).startswith(os.path.realpath(env.REPO) + os.sep)


def run_case(family, case):
    """
    Decide one case, returns its Info. Any failure that comes from the code
    under test is raised as Violation.
    """
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        return family.check(case)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation("no result after %d s of CPU time" % CASE_CPU_LIMIT) from None
    except HarnessError:
        raise
    except (Exception, RecursionError) as e:
        for frame, _ in traceback.walk_tb(e.__traceback__):
            if is_repo_file(frame.f_code.co_filename):
                raise Violation(
                    "unexpected %s: %s" % (type(e).__name__, e),
                    traceback=traceback.format_exc()[-3000:],
                ) from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def case_key(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass"),
        digest_size=8,
    ).digest()


class Progress:
    """Shared with the parent: a counter, and the file of the current case"""

    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 8)
        self.file = open(path, "r+b")
        self.map = mmap.mmap(self.file.fileno(), 8)
        self.case_path = path + ".case"
        self.case_file = open(self.case_path, "wb", buffering=0)

    def set_case(self, family_name, case):
        data = json.dumps([family_name, case]).encode("utf-8", "surrogatepass")
        self.case_file.seek(0)
        self.case_file.write(struct.pack("<I", len(data)) + data)
        self.map[:8] = struct.pack("<Q", self.counter() + 1)

    def counter(self):
        return struct.unpack("<Q", self.map[:8])[0]

    def read_case(self):
        with open(self.case_path, "rb") as f:
            head = f.read(4)
            if len(head) < 4:
                return None
            return json.loads(f.read(struct.unpack("<I", head)[0]).decode("utf-8", "surrogatepass"))


class FamilyStats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None  # (case, message, details)
        self.cpu = 0.0


def search(family, n, seed_value, progress):
    """Search n generated cases of the family; runs in a worker."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = FamilyStats()
    started = time.process_time()
    failures = {}
    state = {"first": None}

    def one(case):
        key = case_key(case)
        if state["first"] is not None and time.monotonic() - state["first"] > SHRINK_TIME:
            # the time to shrink is over: only known failures do fail
            if key in failures:
                raise failures[key][1]
            return

        progress.set_case(family.name, case)
        try:
            info = run_case(family, case)
        except Violation as e:
            if state["first"] is None:
                state["first"] = time.monotonic()
            failures[key] = (case, e)
            raise

        if state["first"] is not None:
            return

        stats.evaluations += 1
        for label in info.labels:
            stats.labels[label] += 1

        if info.nontrivial:
            stats.nontrivial += 1
            if key not in stats.keys:
                stats.keys.add(key)
                if len(stats.samples) < 3 or (len(stats.samples) < 6 and stats.nontrivial % 97 == 0):
                    stats.samples.append(case)

    wrapped = given(family.strategy())(one)
    wrapped = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(wrapped)
    wrapped = hypothesis.seed(seed_value)(wrapped)

    try:
        wrapped()
    except Violation:
        pass
    except HarnessError:
        raise
    except Exception:
        # Hypothesis reports flaky failures in its own ways
        if not failures:
            raise

    stats.cpu = time.process_time() - started
    if failures:
        case, exc = min(failures.values(), key=lambda f: len(json.dumps(f[0])))
        details = dict(exc.details)
        try:
            run_case(family, case)
            details["note"] = "passes when run again: depends on the previous cases"
        except Violation:
            pass
        stats.failure = (case, exc.message, details)

    return stats


def derive_seed(seed, *parts):
    text = ":".join(map(str, (seed,) + parts))
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def worker_main(module, worker, n_workers, tier, seed, out_path, progress):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    results = {}
    error = None
    try:
        for family in module.FAMILIES:
            width = min(n_workers, family.workers or n_workers)
            if worker >= width:
                continue

            total = family.quick if tier == "quick" else family.thorough
            scale = float(os.environ.get("TK_SCALE", "1"))
            n = max(1, int(total * scale) // width)
            if family.setup:
                family.setup()
            random.seed(0)
            stats = search(
                family, n, derive_seed(seed, module.ID, family.name, worker), progress
            )
            results[family.name] = stats
            if stats.failure:
                break
    except BaseException:
        error = traceback.format_exc()

    with open(out_path + ".tmp", "wb") as f:
        pickle.dump((results, error), f)
    os.rename(out_path + ".tmp", out_path)


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            fields = f.read().rpartition(")")[2].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def run_workers(module, tier, seed):
    """Returns the stats per family, or the failures and the errors."""
    scratch = env.scratch()
    n_workers = WORKERS
    procs = {}
    for worker in range(n_workers):
        progress = Progress(os.path.join(scratch, "progress%d" % worker))
        out = os.path.join(scratch, "result%d" % worker)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if not pid:
            code = 3
            try:
                worker_main(module, worker, n_workers, tier, seed, out, progress)
                code = 0
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs[pid] = [worker, progress, out, 0, 0.0]

    limit = time.monotonic() + (780 if tier == "quick" else 4 * 3600)
    collected = []
    failures = []
    errors = []
    while procs:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break

        if pid and pid in procs:
            worker, progress, out, _, _ = procs.pop(pid)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    results, error = pickle.load(f)
                collected.append(results)
                if error:
                    errors.append(error)
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                signal.SIGSEGV,
                signal.SIGABRT,
                signal.SIGBUS,
                signal.SIGFPE,
                signal.SIGILL,
            ):
                current = progress.read_case()
                failures.append(
                    (
                        current[0],
                        current[1],
                        "crashed the interpreter with signal %d" % os.WTERMSIG(status),
                        {},
                    )
                )
            else:
                errors.append("worker %d ended with status %d" % (worker, status))
            continue

        if pid:
            continue

        for pid, entry in list(procs.items()):
            counter = entry[1].counter()
            used = cpu_time(pid)
            if counter != entry[3]:
                entry[3], entry[4] = counter, used
            elif used - entry[4] > HANG_CPU_LIMIT and counter:
                current = entry[1].read_case()
                failures.append(
                    (
                        current[0],
                        current[1],
                        "no result after %d s of CPU time" % HANG_CPU_LIMIT,
                        {},
                    )
                )
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del procs[pid]

        if time.monotonic() > limit:
            for pid in procs:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            errors.append("out of time")
            break

        time.sleep(0.02)

    return collected, failures, errors


def load_known():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["known"]


def write_replay(module, family, case, message, details, seed, tier):
    directory = os.path.join(env.VERIF, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(
        directory, "%s-%s.json" % (module.ID, case_key([family, case]).hex())
    )
    with open(path, "w") as f:
        json.dump(
            {
                "property": module.ID,
                "family": family,
                "case": case,
                "message": message,
                "details": details,
                "seed": seed,
                "tier": tier,
            },
            f,
            indent=1,
            default=str,
        )
        f.write("\n")
    return os.path.relpath(path, env.VERIF)


def check_known(module):
    """
    Run the inputs of the known findings of this property. Each is listed with
    its specific case; prints a line for every one that still fails.
    """
    families = {f.name: f for f in module.FAMILIES}
    families.update({f.name: f for f in getattr(module, "KNOWN_FAMILIES", [])})
    for entry in load_known():
        if entry["property"] != module.ID:
            continue
        family = families[entry["family"]]
        if family.setup:
            family.setup()
        try:
            run_case(family, entry["case"])
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (module.ID, entry["what"]))
        else:
            print("known finding no longer fails: %s" % entry["what"])


def short(value, limit=2500):
    text = json.dumps(value, ensure_ascii=False)
    return value if len(text) <= limit else text[:limit] + "..."


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int)
    parser.add_argument("--replay")
    args = parser.parse_args(argv)

    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    started = time.monotonic()

    env.add_paths()
    prelude = importlib.import_module("checks." + args.property.lower() + "_env") if os.path.exists(
        os.path.join(env.VERIF, "checks", args.property.lower() + "_env.py")
    ) else None
    env.setup(buffer=getattr(prelude, "BUFFER", "c"), flags=getattr(prelude, "CFLAGS", ("-O1",)))
    module = importlib.import_module("checks." + args.property.lower())
    signal.signal(signal.SIGVTALRM, _on_alarm)

    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        family = {f.name: f for f in module.FAMILIES}[replay["family"]]
        if family.setup:
            family.setup()
        try:
            run_case(family, replay["case"])
        except Violation as e:
            print("case: %s" % json.dumps(replay["case"], ensure_ascii=False))
            print("message: %s" % e.message)
            for k, v in e.details.items():
                print("%s: %s" % (k, v if isinstance(v, str) else json.dumps(v, ensure_ascii=False, default=str)))
            print("VIOLATION property=%s replay=%s" % (module.ID, args.replay))
            return 1
        print("the case passes")
        return 0

    if hasattr(module, "prepare"):
        module.prepare()
    check_known(module)
    collected, failures, errors = run_workers(module, tier, seed)

    total = {}
    for results in collected:
        for name, stats in results.items():
            agg = total.setdefault(name, FamilyStats())
            agg.evaluations += stats.evaluations
            agg.nontrivial += stats.nontrivial
            agg.keys |= stats.keys
            agg.labels.update(stats.labels)
            agg.cpu += stats.cpu
            if len(agg.samples) < 5:
                agg.samples.extend(stats.samples[: 5 - len(agg.samples)])
            if stats.failure:
                failures.append((name,) + stats.failure)

    extra_violations = []
    if hasattr(module, "finish") and not failures and not errors:
        extra_violations = module.finish(tier, seed) or []

    violations = len(failures) + len(extra_violations)
    coverage = {
        "evaluations": sum(s.evaluations for s in total.values()),
        "distinct_nontrivial": sum(len(s.keys) for s in total.values()),
        "rule": " | ".join("%s: %s" % (f.name, f.rule) for f in module.FAMILIES),
        "samples": [
            {"family": name, "case": short(case)}
            for name, s in total.items()
            for case in s.samples[:3]
        ],
        "families": {
            name: {
                "evaluations": s.evaluations,
                "nontrivial": s.nontrivial,
                "distinct_nontrivial": len(s.keys),
                "cpu_s": round(s.cpu, 1),
                "classes": dict(sorted(s.labels.items())),
            }
            for name, s in total.items()
        },
    }
    if hasattr(module, "extra_coverage"):
        coverage.update(module.extra_coverage())
    evidence = {
        "property": module.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", module.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    # report the smallest failure of each family
    best = {}
    for family, case, message, details in failures + extra_violations:
        size = len(json.dumps(case))
        if family not in best or size < best[family][0]:
            best[family] = (size, case, message, details)

    for family, (size, case, message, details) in best.items():
        path = write_replay(module, family, case, message, details, seed, tier)
        print("[%s] %s" % (family, message))
        print("case: %s" % json.dumps(short(case), ensure_ascii=False))
        for k, v in details.items():
            print("  %s: %s" % (k, v if isinstance(v, str) else json.dumps(v, ensure_ascii=False, default=str)))
        print("VIOLATION property=%s replay=%s" % (module.ID, path))

    if best:
        return 1

    if errors:
        for e in errors[:2]:
            print(e, file=sys.stderr)
        return 2

    for name, s in total.items():
        print(
            "%s %s: %d cases, %d distinct non-trivial, %.1f s CPU"
            % (module.ID, name, s.evaluations, len(s.keys), s.cpu)
        )
    print("%s held, %.1f s" % (module.ID, time.monotonic() - started))
    return 0
