"""Runtime-monitoring core: scenarios, monitors' bookkeeping, verdicts, evidence, replay.

A check runs scenarios (workloads) against the real code of /repo; oracles observe the executions through the
public interface and record what they observed. Three verdicts: held on what was observed (exit 0), violated with
a replay file (exit 1), inconclusive (exit 2: nothing observed, a worker died, the wall-clock watchdog fired).
"""
import argparse
import asyncio
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import selectors
import signal
import struct
import sys
import threading
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FRAMEWORK = os.path.join(REPO, "framework_python")
KNOWN_FINDINGS = os.path.join(VERIF, "known_findings.txt")

CPU_LIMIT = {"quick": int(os.environ.get("RV_CPU_LIMIT", 150)), "thorough": 600}     # seconds of CPU per execution (the largest ones of C27: about ten)
WALL_LIMIT = {"quick": 840, "thorough": 6 * 3600}
MEMORY_LIMIT = 6 << 30                         # address space per worker (typical: below 0.5 GB)
MAX_VIOLATIONS = int(os.environ.get("RV_MAX_VIOLATIONS", 3))


class Violation(Exception):
    pass


class Stuck(BaseException):
    """Definitely no progress any more (deterministic evidence), or the CPU budget is exhausted."""


# ---------------------------------------------------------------------------------------------------------------
# Event loops that cannot block forever: with nothing ready, nothing scheduled, the loop waits for ever -> Stuck
# ---------------------------------------------------------------------------------------------------------------

class NoBlockSelector(selectors.DefaultSelector):
    each_thread = False         # no thread is woken up by another one

    def select(self, timeout=None):
        if timeout is None and (NoBlockSelector.each_thread or threading.active_count() == 1):
            raise Stuck("all coroutines are waiting for each other: the event loop can never continue")
        return super().select(timeout)


class NoBlockPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return asyncio.SelectorEventLoop(NoBlockSelector())


def run(coro):
    """Runs a coroutine to its end in a loop of its own."""
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop.close()
        except RuntimeError:
            pass


# ---------------------------------------------------------------------------------------------------------------
# Scenarios
# ---------------------------------------------------------------------------------------------------------------

class Scenario:
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


_REGISTRY = {}


def scenario(prop, quick, thorough):
    def deco(fn):
        _REGISTRY.setdefault(prop, []).append(Scenario(fn.__name__, fn, quick, thorough))
        return fn
    return deco


class Ctx:
    """What the monitors of one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.cases = 0
        self.checks = 0
        self.counters = Counter()
        self.maxima = Counter()
        self.states = set()
        self.case_digests = set()
        self.samples = []
        self.findings = {}
        self.oplog = []
        self.info = None

    # -- recording
    def log(self, *op):
        if len(self.oplog) < 3000:
            self.oplog.append(" ".join(str(x) for x in op))
        self.counters["events"] += 1

    def count(self, name, n=1):
        self.counters[name] += n

    def maximum(self, name, n):
        if n > self.maxima[name]:
            self.maxima[name] = n

    def state(self, obj):
        """A state of the system as seen by a monitor: counted if distinct."""
        self.states.add(digest(obj))

    def case(self, obj, nontrivial=True):
        """The case which was executed: counted if distinct and non-trivial."""
        if nontrivial:
            self.case_digests.add(digest(obj))

    # -- oracles
    def ok(self, cond, what, *info):
        self.checks += 1
        if not cond:
            raise Violation(what + "".join(" | " + short(i) for i in info))

    def eq(self, got, want, what, *info):
        self.checks += 1
        if not (got == want):
            raise Violation(f"{what}: observed {short(got)}, expected {short(want)}" +
                            "".join(" | " + short(i) for i in info))

    def same(self, got, want, what, *info):
        """Two sequences hold the same objects in the same order."""
        self.checks += 1
        got, want = list(got), list(want)
        if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
            raise Violation(f"{what}: observed {short(label(got))}, expected {short(label(want))}" +
                            "".join(" | " + short(i) for i in info))

    def rejected(self, fn, what, exc=Exception):
        """The operation has to end with an error."""
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            self.count("rejections")
            return e
        raise Violation(f"{what}: accepted although invalid (result {short(r)})")

    def finding(self, key, text):
        self.findings[key] = text


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "backslashreplace")
    return hashlib.blake2b(obj, digest_size=8).digest()


def label(x):
    if isinstance(x, (list, tuple)):
        return [label(i) for i in x]
    if hasattr(x, "qualified_name"):
        return f"<{type(x).__name__} {x.qualified_name}>"
    return x


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(label(x))
    except Exception as e:          # the object under test may be broken
        s = f"<unprintable {type(x).__name__}: {e!r}>"
    return s if len(s) <= n else s[:n] + "…"


# ---------------------------------------------------------------------------------------------------------------
# Which lines of the repository the monitors actually drove
# ---------------------------------------------------------------------------------------------------------------

class LineMonitor:
    def __init__(self):
        self.lines = set()
        self._tool = sys.monitoring.COVERAGE_ID
        self._prefix = os.path.join(FRAMEWORK, "rei") + os.sep

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self._tool, "rv")
        m.register_callback(self._tool, m.events.LINE, self._line)
        m.set_events(self._tool, m.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self._prefix):
            self.lines.add((code.co_filename[len(self._prefix):], line))
        return sys.monitoring.DISABLE

    def stop(self):
        sys.monitoring.set_events(self._tool, 0)
        sys.monitoring.free_tool_id(self._tool)


# ---------------------------------------------------------------------------------------------------------------
# Execution
# ---------------------------------------------------------------------------------------------------------------

def _cpu_alarm(signum, frame):
    raise Stuck("the CPU budget of the scenario is exhausted: no termination")


_waiting = [None, 0.0, 0]        # where the last alarms found the thread, the CPU time then, how often


def _wall_alarm(signum, frame):
    # Only evidence counts: the only thread waits for itself, that is, several alarms in succession find it at the very
    # same place (the same call, the same instruction) of the same lock or queue, and it used no CPU in between
    f, depth, where = frame, 0, None
    while f is not None and depth < 3:
        name = os.path.basename(f.f_code.co_filename)
        if name in ("queue.py", "threading.py") and f.f_code.co_name in ("wait", "get", "put", "acquire", "join"):
            where = where or (f, f.f_lasti, name + ":" + f.f_code.co_name)
        f, depth = f.f_back, depth + 1
    last, cpu, n = _waiting
    now = time.process_time()
    if where is None or threading.active_count() != 1:
        _waiting[:] = None, now, 0
    elif last is not None and last[0] is where[0] and last[1] == where[1] and now - cpu < 0.2:
        _waiting[:] = last, cpu, n + 1
        if n + 1 >= 3:
            _waiting[:] = None, now, 0
            raise Stuck("the only thread waits for itself (" + where[2] + ")")
    else:
        _waiting[:] = where, now, 0


def make_rng(seed, prop, name, index):
    return random.Random(f"{seed}/{prop}/{name}/{index}")


def run_item(ctx, sc, index):
    """Runs one scenario; returns None or a violation record."""
    ctx.oplog = []
    ctx.info = None
    rng = make_rng(ctx.seed, ctx.prop, sc.name, index)
    limit = CPU_LIMIT[ctx.tier]
    msg = trace = None
    fds = len(os.listdir("/proc/self/fd"))
    _waiting[:] = None, 0.0, 0
    cpu = time.process_time()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, limit, 5)
        signal.setitimer(signal.ITIMER_REAL, 20, 5)
        try:
            sc.fn(ctx, rng, index)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        msg, trace = str(e), traceback.format_exc()
    except Stuck as e:
        msg, trace = f"no progress: {e}", traceback.format_exc()
    except MemoryError as e:
        msg, trace = f"memory exhausted: {e!r}", traceback.format_exc()
    except Exception as e:
        msg, trace = f"unexpected error: {e!r}", traceback.format_exc()
    ctx.cases += 1
    ctx.counters["cases_" + sc.name] += 1
    ctx.maximum("cpu_seconds_of_one_execution", round(time.process_time() - cpu, 1))
    if msg is not None:
        gc.collect()
        return {"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "scenario": sc.name, "index": index,
                "message": msg, "operations": ctx.oplog[-300:], "traceback": trace[-6000:]}
    if len(ctx.samples) < 2 and ctx.oplog:
        ctx.samples.append({"scenario": sc.name, "index": index, "events": ctx.oplog[:40]})
    return None


def worker(prop, tier, seed, items, scenarios, out_path):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    sys.setswitchinterval(0.005)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGVTALRM, _cpu_alarm)
    signal.signal(signal.SIGALRM, _wall_alarm)
    asyncio.set_event_loop_policy(NoBlockPolicy())
    ctx = Ctx(prop, tier, seed)
    lines = LineMonitor()
    lines.start()
    violations = []
    for name, index in items:
        v = run_item(ctx, scenarios[name], index)
        if v is not None:
            violations.append(v)
            if len(violations) >= MAX_VIOLATIONS or v["message"].startswith("no progress"):
                break
    lines.stop()
    with open(out_path, "wb") as f:
        pickle.dump({"cases": ctx.cases, "checks": ctx.checks, "counters": ctx.counters, "maxima": ctx.maxima,
                     "states": ctx.states, "case_digests": ctx.case_digests, "samples": ctx.samples,
                     "findings": ctx.findings, "violations": violations, "lines": lines.lines}, f)


def load_known():
    """The open known findings: {key: (property, text)}."""
    known = {}
    if os.path.exists(KNOWN_FINDINGS):
        for line in open(KNOWN_FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("open:"):
                _, prop, key, text = line.split(None, 3)
                known[key.removeprefix("key=")] = (prop.removeprefix("property="), text)
    return known


def bootstrap():
    sys.path.insert(0, FRAMEWORK)
    os.chdir(FRAMEWORK)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--only", help="only this scenario (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="scales the number of cases (development)")
    a = ap.parse_args(argv)
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    bootstrap()
    try:
        mod = importlib.import_module("rv.checks." + prop.lower())
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the code under test cannot be loaded")
        return 2
    scenarios = {s.name: s for s in _REGISTRY[prop]}
    if a.replay:
        return replay(prop, scenarios, a.replay)
    items = []
    for s in scenarios.values():
        if a.only and s.name != a.only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        items.extend((s.name, i) for i in range(max(1, int(n * a.scale))))
    random.Random(0).shuffle(items)      # balance the workers
    n_workers = a.workers or getattr(mod, "WORKERS", 8)
    n_workers = max(1, min(n_workers, len(items)))
    if hasattr(mod, "prepare"):
        mod.prepare()
    # One evidence file, always rewritten
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    tmp = [os.path.join(ev_dir, f".{prop}.{os.getpid()}.{w}") for w in range(n_workers)]
    pids = {}
    for w in range(n_workers):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker(prop, tier, seed, items[w::n_workers], scenarios, tmp[w])
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = w
    problems = []
    deadline = t0 + WALL_LIMIT[tier]
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            w = pids.pop(pid)
            if status != 0:
                problems.append(f"worker {w} ended with status {status}")
        elif pid == 0:
            if time.time() > deadline:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                problems.append("the wall-clock watchdog fired")
                deadline = float("inf")
            time.sleep(0.02)
    tot = Ctx(prop, tier, seed)
    violations, lines = [], set()
    for path in tmp:
        if not os.path.exists(path):
            continue
        with open(path, "rb") as f:
            r = pickle.load(f)
        os.unlink(path)
        tot.cases += r["cases"]
        tot.checks += r["checks"]
        tot.counters.update(r["counters"])
        for k, v in r["maxima"].items():
            tot.maximum(k, v)
        tot.states |= r["states"]
        tot.case_digests |= r["case_digests"]
        tot.samples.extend(r["samples"])
        tot.findings.update(r["findings"])
        violations.extend(r["violations"])
        lines |= r["lines"]
    if os.environ.get("RV_LINES"):        # development: append the driven lines
        with open(os.environ["RV_LINES"], "a", encoding="utf-8") as f:
            f.writelines(f"{n}:{k}\n" for n, k in sorted(lines))
    # Known findings: only listed ones are no violations
    known = load_known()
    for key, text in sorted(tot.findings.items()):
        if key in known and known[key][0] == prop:
            print(f"KNOWN-FINDING: property={prop} {known[key][1]}")
        else:
            violations.append({"property": prop, "seed": seed, "tier": tier, "scenario": "finding", "index": 0,
                               "message": f"{key}: {text}", "operations": [], "traceback": ""})
    # Were the deciding monitors reached?
    anchors = getattr(mod, "ANCHORS", [])
    per_file = Counter(f for f, _ in lines)
    idle = [f for f in anchors if per_file[f] == 0 and os.path.exists(os.path.join(FRAMEWORK, "rei", f))]
    if idle and not violations and len(idle) > len(anchors) // 2:      # some code may have moved elsewhere
        problems.append(f"no line of {', '.join(idle)} was executed")
    if tot.checks == 0 or tot.counters["events"] == 0:
        problems.append("the monitors observed nothing")
    for name in getattr(mod, "REQUIRED", []):
        if tot.counters[name] == 0 and not violations:
            problems.append(f"never observed: {name}")
    wall = round(time.time() - t0, 2)
    violations.sort(key=lambda v: (len(v["operations"]), v["scenario"], v["index"]))
    samples = sorted(tot.samples, key=lambda s: (s["scenario"], s["index"]))
    picked, names = [], set()
    for s in samples:
        if s["scenario"] not in names:
            names.add(s["scenario"])
            picked.append(s)
    coverage = {"evaluations": tot.cases, "distinct_nontrivial": len(tot.case_digests), "rule": mod.RULE,
                "samples": picked[:4] or [{"scenario": "none"}],
                "oracle_decisions": tot.checks, "distinct_states_observed": len(tot.states),
                "observed": {k: v for k, v in sorted(tot.counters.items())},
                "maxima": dict(sorted(tot.maxima.items())),
                "repository_lines_driven": {f: per_file[f] for f in sorted(per_file)},
                "known_findings_reproduced": sorted(tot.findings)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(violations)}
    with open(ev_path, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    if violations:
        rep_dir = os.path.join(VERIF, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        for v in violations[:MAX_VIOLATIONS]:
            path = os.path.join(rep_dir, f"{prop}-{v['scenario']}-{v['index']}-{seed}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(v, f, indent=1, ensure_ascii=True)
            print(f"# {v['scenario']}[{v['index']}]: {short(v['message'], 600)}".encode("ascii", "backslashreplace").decode().replace("\n", " "))
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems:
            print(f"INCONCLUSIVE property={prop} {p}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed}: {tot.cases} executions ({len(tot.case_digests)} distinct "
          f"non-trivial), {tot.checks} oracle decisions, {len(tot.states)} distinct states, {wall}s")
    return 0


def replay(prop, scenarios, path):
    rec = json.load(open(path))
    signal.signal(signal.SIGVTALRM, _cpu_alarm)
    signal.signal(signal.SIGALRM, _wall_alarm)
    asyncio.set_event_loop_policy(NoBlockPolicy())
    ctx = Ctx(prop, rec["tier"], rec["seed"])
    if rec["scenario"] not in scenarios:
        print("nothing to replay: " + rec["message"])
        return 2
    v = run_item(ctx, scenarios[rec["scenario"]], rec["index"])
    for op in ctx.oplog:
        print("  " + op)
    if v is None:
        print("not reproduced: the property held on this execution")
        return 0
    print(v["message"])
    print(v["traceback"])
    print(f"VIOLATION property={prop} replay={path}")
    return 1
