"""Exploration core shared by all checks.

A check is a list of *tasks*.  A task is a deterministic function that explores
a finite, explicitly enumerated space (configurations, operation sequences,
schedules, fault points) against the implementation in /repo/src and compares
every step with a model or an independently computed reference.  Nothing is
sampled: VERIF_SEED only permutes the order in which tasks are started.

Every task runs in a forked child of its own, so a crash, a hang or a memory
blow-up of the implementation is attributed to that task and is itself a
violation.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

NPROC = int(os.environ.get("MC_NPROC", "8"))
MAX_FAIL_PER_TASK = 20


class Inapplicable(Exception):
    """Part of the exploration cannot bind to this version of the code"""


def h(obj):
    """Short stable digest of a state"""
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    """Book-keeping of one task: what has been explored and what failed"""
    def __init__(self, name):
        self.name = name
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.failures = []
        self.notes = []
        self.partial = False

    def state(self, *key):
        """Record a (model or configuration) state as visited"""
        d = h(key)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        """Record calls made into the implementation"""
        self.transitions += int(n)

    def trace(self, n=1):
        """Record complete executions compared against model/oracle"""
        self.traces += int(n)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text))

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def fail(self, what, key=None, **info):
        if len(self.failures) < MAX_FAIL_PER_TASK:
            self.failures.append(dict(what=str(what), key=key or "", info={
                k: _jsonable(v) for k, v in info.items()}))

    def expect(self, cond, what, key=None, **info):
        self.comparisons += 1
        if not cond:
            self.fail(what, key, **info)
        return bool(cond)

    def close(self, got, want, tol, what, key=None, **info):
        """Demand |got - want| <= tol elementwise and equal shape"""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        self.comparisons += max(1, want.size)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape}, expected {want.shape}",
                      key, **info)
            return False
        if got.size == 0:
            return True
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            tol = np.broadcast_to(np.asarray(tol), err.shape)
            bad = ~(err <= tol)
        if bad.any():
            pos = tuple(int(i) for i in np.argwhere(bad)[0])
            self.fail(f"{what}: at index {pos} got {got[pos]!r}, expected "
                      f"{want[pos]!r} (error {float(err[pos]):.3g}, allowed "
                      f"{float(tol[pos]):.3g}; {int(bad.sum())} of {bad.size} "
                      f"elements off)", key, **info)
            return False
        return True

    def raises(self, fn, what, key=None, exc=Exception, **info):
        """Demand that call is rejected"""
        self.comparisons += 1
        self.step()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail(f"{what}: raised {type(e).__name__} ({e}), expected "
                      f"{exc}", key, **info)
            return False
        self.fail(f"{what}: accepted, returned {_short(r)}", key, **info)
        return False

    def result(self):
        return dict(name=self.name, states=self.states,
                    transitions=self.transitions, traces=self.traces,
                    comparisons=self.comparisons, samples=self.samples,
                    failures=self.failures, notes=self.notes,
                    partial=self.partial)


def _short(r):
    s = repr(r)
    return s if len(s) < 200 else s[:200] + "..."


def _jsonable(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        return _short(v)


class Task:
    def __init__(self, fn, *args, timeout=240, mem_gb=8, weight=1, **kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.timeout = timeout
        self.mem_gb = mem_gb
        self.weight = weight

    @property
    def name(self):
        a = [repr(x) for x in self.args]
        a += [f"{k}={v!r}" for k, v in self.kwargs.items()]
        return f"{self.fn.__name__}({', '.join(a)})"


def _child(task, wfd):
    import resource
    lim = int(task.mem_gb * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    ctx = Ctx(task.name)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            task.fn(ctx, *task.args, **task.kwargs)
    except Inapplicable as e:
        ctx.note(f"inapplicable: {e}")
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        ctx.fail(f"unexpected {type(e).__name__}: {e}", "exception", traceback=tb)
    data = pickle.dumps(ctx.result())
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def _stuck(pid, watch, now, timeout, idle=120):
    """Task has used up its computing time, or has stopped computing.

    A machine that is busy with other things must not turn into an alarm, so
    this does not look at the time of day.
    """
    try:
        with open(f"/proc/{pid}/stat") as f:
            fields = f.read().rsplit(")", 1)[1].split()
    except OSError:
        return False
    state = fields[0]
    cpu = sum(map(int, fields[11:15])) / os.sysconf("SC_CLK_TCK")
    if cpu > watch[0] + .01 or state not in "SI":
        # Computing, or waiting for its turn
        watch[0] = max(cpu, watch[0])
        watch[1] = now
    return cpu > timeout or now - watch[1] > idle


def run_tasks(tasks, nproc=NPROC, is_violation=lambda failure: True, budget=None,
              grace=45):
    """Run tasks in forked children; returns list of results in task order.

    Once something is found, the remaining tasks have some more time, but are not
    awaited: there may be a lot of them, or they may take very long on broken code.
    Results are None for tasks not completed.
    """
    pending = list(range(len(tasks)))[::-1]
    active = {}
    results = [None] * len(tasks)
    deadline = time.time() + budget if budget else float("inf")
    found = False
    while pending or active:
        if time.time() > deadline:
            for rfd, (i, pid, t0, buf, watch) in active.items():
                os.kill(pid, signal.SIGKILL)
                os.close(rfd)
                os.waitpid(pid, 0)
            break
        while pending and len(active) < nproc:
            i = pending.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                code = 0
                try:
                    _child(tasks[i], wfd)
                except BaseException:
                    code = 70
                finally:
                    os._exit(code)
            os.close(wfd)
            active[rfd] = (i, pid, time.time(), [], [0., time.time()])
        ready, _, _ = select.select(list(active), [], [], 1.0)
        now = time.time()
        for rfd in list(active):
            i, pid, t0, buf, watch = active[rfd]
            done = killed = False
            if rfd in ready:
                chunk = os.read(rfd, 1 << 20)
                if chunk:
                    buf.append(chunk)
                else:
                    done = True
            elif _stuck(pid, watch, now, tasks[i].timeout):
                os.kill(pid, signal.SIGKILL)
                done = killed = True
            if not done:
                continue
            os.close(rfd)
            _, status = os.waitpid(pid, 0)
            del active[rfd]
            try:
                results[i] = pickle.loads(b"".join(buf))
            except Exception:
                ctx = Ctx(tasks[i].name)
                if killed:
                    ctx.fail(f"no result within {tasks[i].timeout} s of computing "
                             "time (implementation does not terminate)", "timeout")
                else:
                    ctx.fail(f"process died with status {status}", "crash")
                results[i] = ctx.result()
            results[i]["wall"] = now - t0
            results[i]["cpu"] = watch[0]
            if not found and any(map(is_violation, results[i]["failures"])):
                found = True
                deadline = min(deadline, time.time() + grace)
    return results


def load_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    found = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                fields = line[len("finding:"):].split(None, 2)
                kv = dict(x.split("=", 1) for x in fields[:2])
                found[(kv["property"], kv["key"])] = fields[2]
    return found


def setup_failed(ctx, tb):
    ctx.fail("objects under test cannot be made", "exception", traceback=tb)


def main(pid, argv):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module(f"mc.{pid.lower()}")
    import sparse_ir
    where = os.path.dirname(os.path.abspath(sparse_ir.__file__))
    if not where.startswith(os.path.abspath(SRC)):
        print(f"error: sparse_ir imported from {where}, not {SRC}")
        return 2

    try:
        tasks = mod.tasks(tier)
    except Exception:
        tb = traceback.format_exc(limit=-6)
        tasks = [Task(setup_failed, tb)]
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            want = json.load(f)["task"]
        tasks = [t for t in mod.tasks("quick") + mod.tasks("thorough")
                 if t.name == want][:1]
        if not tasks:
            print(f"error: no such task {want}")
            return 2
    if "--only" in argv:
        pat = argv[argv.index("--only") + 1]
        tasks = [t for t in tasks if pat in t.name]

    if tier == "quick":
        # Must end within the budget, even if something does not terminate
        for t in tasks:
            t.timeout = min(t.timeout, 300)

    # Heavy tasks first; the seed only permutes tasks of equal weight
    rng = random.Random(seed)
    rng.shuffle(tasks)
    tasks.sort(key=lambda t: -t.weight)
    findings = load_findings()
    budget = os.environ.get("MC_BUDGET", "780" if tier == "quick" else "0")
    results = run_tasks(
        tasks, is_violation=lambda f: (pid, f["key"]) not in findings,
        budget=float(budget), grace=float(os.environ.get("MC_GRACE", "45")))
    skipped = [t.name for t, r in zip(tasks, results) if r is None]
    results = [r for r in results if r is not None]

    states = set()
    for r in results:
        states |= {(r["name"].split("(")[0], s) for s in r["states"]}
    transitions = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    comparisons = sum(r["comparisons"] for r in results)
    samples = []
    seen = set()
    for r in sorted(results, key=lambda r: r["name"]):
        fn = r["name"].split("(")[0]
        if r["samples"] and fn not in seen:
            seen.add(fn)
            samples.append(f"{r['name']}: {r['samples'][0]}")
    notes = sorted({n for r in results for n in r["notes"]})
    partial = [r["name"] for r in results if r.get("partial")]

    known, violations = {}, []
    for r in results:
        for f in r["failures"]:
            k = (pid, f["key"])
            if k in findings:
                known[k] = findings[k]
            else:
                violations.append((r["name"], f))

    outdir = os.path.join(VERIF, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    for name in os.listdir(outdir):
        os.unlink(os.path.join(outdir, name))
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for i, (name, f) in enumerate(violations[:int(os.environ.get("MC_MAXV", "20"))]):
        path = os.path.join(outdir, f"violation-{i}.json")
        with open(path, "w") as fh:
            json.dump(dict(
                property=pid, task=name, what=f["what"], key=f["key"],
                info=f["info"], replay_cmd=f"cd {VERIF} && /opt/venv/bin/python "
                f"mc/run.py {pid} --replay {path}"), fh, indent=1)
        if i < 5:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  task {name}\n  {f['what']}")
            if "traceback" in f["info"]:
                print("  " + f["info"]["traceback"].replace("\n", "\n  "))
    if skipped:
        print(f"({len(skipped)} of {len(tasks)} tasks not completed)")
    if len(violations) > 5:
        print(f"({len(violations)} violations in total)")

    coverage = dict(
        states=len(states), transitions=transitions,
        traces_validated_against_impl=traces, comparisons=comparisons,
        samples=samples[:40], exhaustive=not skipped and not partial, tasks=len(tasks),
        tasks_not_completed=len(skipped), tasks_cut_short=partial[:20],
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""), notes=notes)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=coverage,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t_start, 2), violations=len(violations))
    if "--replay" not in argv and "--only" not in argv:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    if "--timing" in argv:
        tot = {}
        for r in results:
            k = r["name"].split("(")[0]
            tot[k] = tot.get(k, 0) + r["wall"]
        print("   total:", {k: round(v, 1) for k, v in tot.items()})
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print(f"   {r['wall']:7.2f} s {r['cpu']:7.2f} s {r['name']}")
    print(f"{pid} [{tier}]: {len(states)} states, {transitions} transitions, "
          f"{traces} traces, {comparisons} comparisons, "
          f"{len(violations)} violations, {time.time() - t_start:.1f} s")
    return 1 if violations else 0
