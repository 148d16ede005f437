"""C13: Concurrent use from several threads gives the sequential results.

Stateless model checking of the real code: two real threads run one library call
each under a controlled scheduler, which can stop a thread before any bytecode
instruction of the library that may touch shared state.

 1. Every call is run alone, and the state reachable from the common objects and the
    modules is digested at every line: a call which never changes it, not even for
    the time being, is read-only; two such calls commute.
 2. For every pair of calls in a set of pairs, one thread is stopped at every
    instruction in turn, the other one runs its call in the meantime (one preemption).
 3. For calls found to write in step 1: pairs with all other calls, and two
    preemptions.

Results have to be those of the same call run alone in a fresh process.
"""
import dis
import os
import sys
import threading
import time
import warnings
import numpy as np
from .core import Task
from .lib import sir
from . import ops, c12

BOUNDS = {
    "quick": "2 threads, 1 call each; 1 preemption at every instruction accessing "
             "attributes, items, globals or calling (up to 800 per call) for 106 calls "
             "with themselves and with related ones; digest of shared state at every "
             "line (first 4, for slow calls 2 visits) of all calls; writers with all calls",
    "thorough": "all pairs of fast calls at every instruction; slow calls (expansions, root searches) "
                "preempted at every store; 2 preemptions at stores"}
ASSUMPTIONS = ["threads are switched inside of the Python code of the library only: "
               "numpy, scipy and xprec calls are atomic",
               "expansions made concurrently may differ by rounding, as scipy's "
               "randomized SVD uses one global generator"]

GROUPS = [
    ["K", "K plus minus", "K bad x", "R", "K even", "R odd", "K weight", "kept weights",
     "K hints", "R hints", "dlr u", "dlrB u", "kept dlr u"],
    ["uhat F", "uhat B", "uhat R", "uhat F5", "uhat parity", "uhat[1]", "kept uhat F",
     "kept uhat B", "kept uhat[1]", "dlr uhat", "dlrB uhat", "kept dlrB uhat", "dlrB u",
     "kept dlr u", "new wn", "aug uhat", "ad unl"],
    ["u", "u scalar", "u bad", "u[1]", "u[1:3]", "u value", "u deriv", "u deriv 2",
     "overlap err", "overlap raise", "kept u", "aug u", "aug deriv", "ad d_ulx", "v",
     "new tau"],
    ["tau evaluate", "tau evaluate axis", "tau evaluate points", "tau fit", "tau fit bad",
     "wnB fit", "wnp fit", "wn evaluate", "wn fit points", "kept fit", "kept evaluate",
     "matrix", "dlr from", "dlr to", "new dlr", "new wnp"],
    ["aug u", "aug uhat", "aug deriv", "aug u[1]", "aug uhat[0]", "vertex uhat", "new aug",
     "aug slice bad", "slice bad", "attributes"],
    ["rule", "reseat", "scale", "piecewise", "piecewise bad", "astype", "join", "kronrod",
     "collocation"],
    ["svd fast product", "svd default", "svd accurate", "part", "basis bad",
     "basis mismatch"],
    ["ad ulx", "ad d_ulx", "ad vly", "ad unl", "ad unl B", "ad sl", "ad bad"],
]
# too many instructions to stop at each of them
LONG = {"sve K", "sve R", "sve K default", "sve K accurate", "sve bad", "basis F",
        "basis B sve", "pair", "set", "slice", "rescale", "tau points", "tau points n",
        "omega points", "u roots", "v roots", "aug slice", "ad wn points", "wn points",
        "wn points B", "extrema", "sign changes", "kept roots", "kept roots alpha",
        "kept v roots", "plain roots", "plain roots alpha",
        "kept extrema", "kept extrema positive", "kept sign changes"}
SKIP = {"svd fast"}        # sign depends on the random numbers used
RANDOM = {"sve K", "sve R", "basis F", "pair", "set", "svd fast product"}

ACCESS = frozenset(i for n, i in dis.opmap.items() if any(
    k in n for k in ("ATTR", "SUBSCR", "GLOBAL", "CALL", "BINARY_OP", "SLICE", "DEREF")))
STORES = frozenset(i for n, i in dis.opmap.items() if any(
    k in n for k in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE",
                     "DELETE_", "STORE_DEREF")))


def library_dir():
    return os.path.dirname(os.path.abspath(sir().__file__)) + os.sep


class Thread(threading.Thread):
    """Thread running one call, which can stop at a given instruction"""
    def __init__(self, env, name, stop=None, which=ACCESS):
        super().__init__(daemon=True)
        self.env = env
        self.call = name
        self.stop = stop
        self.which = which
        self.count = 0
        self.last = None
        self.idle = threading.Event()
        self.resume = threading.Event()
        self.stopped = False
        self.where = None
        self.result = ("no result",)
        self.args_ok = True
        self.dir = library_dir()

    def local_trace(self, frame, event, arg):
        if event == "opcode":
            code = frame.f_code
            now = code.co_code[frame.f_lasti]
            # stop before and after, as far as another instruction follows
            hit = now in self.which or self.last in STORES
            self.last = now
            if hit:
                if self.count == self.stop:
                    self.where = f"{os.path.basename(code.co_filename)}:{frame.f_lineno}"
                    self.stopped = True
                    self.idle.set()
                    self.resume.wait()
                self.count += 1
        return self.local_trace

    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.dir):
            frame.f_trace_opcodes = True
            return self.local_trace

    def run(self):
        mk, fn = ops.OPS[self.call]
        args = mk()
        keep = [a.copy() for a in args]
        try:
            if self.stop is not None:
                sys.settrace(self.global_trace)
            try:
                self.result = fn(self.env, *args)
            except Exception as ex:
                self.result = ex
            sys.settrace(None)
            self.args_ok = all(np.array_equal(a, k, equal_nan=True)
                               for a, k in zip(args, keep))
        finally:
            self.idle.set()


def finish(ctx, threads, what):
    for t in threads:
        t.join(60)
        if t.is_alive():
            ctx.fail(f"{what}: deadlock")
            raise SystemExit


def judge(ctx, t, what):
    rtol = 1e-6 if t.call in RANDOM else 1e-10
    got = ops.canon(t.result)
    ctx.comparisons += 1
    if not ops.same(got, c12.REF[t.call], rtol):
        ctx.fail(f"{what}: {t.call} differs: {c12.ops_diff(got, c12.REF[t.call])}")
    ctx.expect(t.args_ok, f"{what}: argument of {t.call} changed")


def run_pair(ctx, first, k, second, which=ACCESS, j=None, which2=STORES):
    """first runs to its k-th instruction, second runs (to its j-th), first ends"""
    env = ops.fresh(c12.PRISTINE)
    a = Thread(env, first, k, which)
    b = Thread(env, second, j, which2)
    a.start()
    a.idle.wait(120)
    b.start()
    if not b.idle.wait(5):
        # waits for something held by the first one
        ctx.note("blocked on a lock")
    if j is not None and b.stopped:
        a.resume.set()
        a.join(5)
    b.resume.set()
    if not a.stopped or j is None:
        b.join(5)
    a.resume.set()
    what = f"{first} stopped at {a.where} (access {k}), {second} run meanwhile"
    if j is not None:
        what += f", itself stopped at {b.where} (access {j})"
    finish(ctx, (a, b), what)
    judge(ctx, a, what)
    judge(ctx, b, what)
    ctx.step(2)
    return a, b


def warm_up(name="u"):
    # The first traced frame of a process does not report instructions
    t = Thread(ops.fresh(c12.PRISTINE), name, -1)
    t.start()
    t.join()


def pair(ctx, first, second, which=ACCESS):
    """One preemption of the first call at every instruction"""
    warm_up()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = 0
        while True:
            a, b = run_pair(ctx, first, k, second, which)
            if not a.stopped or len(ctx.failures) > 3:
                break
            ctx.state(first, second, k)
            ctx.trace()
            k += 1
    ctx.sample(f"{k} schedules")


def pairs(ctx, first, partners, which=ACCESS):
    for second in partners:
        if len(ctx.failures) > 3:
            break
        pair(ctx, first, second, which)


def double(ctx, first, second):
    """Two preemptions, at stores"""
    warm_up()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = 0
        while True:
            j = 0
            while True:
                a, b = run_pair(ctx, first, k, second, STORES, j, STORES)
                if not a.stopped or not b.stopped:
                    break
                ctx.state(first, second, k, j)
                ctx.trace()
                j += 1
            if not a.stopped or len(ctx.failures) > 3:
                break
            k += 1


class Watcher:
    """Digests the shared state at every line of a call run alone"""
    def __init__(self, env, visits):
        self.env = env
        self.visits = visits
        self.seen = {}
        self.start = c12.digest(env)
        self.where = None
        self.lines = 0
        self.dir = library_dir()

    def local_trace(self, frame, event, arg):
        if self.where is None:
            key = frame.f_code, frame.f_lineno, event
            n = self.seen[key] = self.seen.get(key, 0) + 1
            if n <= self.visits:
                self.lines += 1
                sys.settrace(None)
                now = c12.digest(self.env)
                sys.settrace(self.global_trace)
                if now != self.start:
                    self.where = (f"{os.path.basename(frame.f_code.co_filename)}:"
                                  f"{frame.f_lineno}")
        return self.local_trace

    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.dir):
            return self.local_trace


def writes(name, visits):
    env = ops.fresh(c12.PRISTINE)
    mk, fn = ops.OPS[name]
    args = mk()
    w = Watcher(env, visits)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sys.settrace(w.global_trace)
        try:
            fn(env, *args)
        except Exception:
            pass
        finally:
            sys.settrace(None)
    if w.where is None and c12.digest(env) != w.start:
        w.where = "end"
    return w


def alone(ctx, name, visits, limit):
    """Find writes to shared state, explore the writers"""
    w = writes(name, visits)
    ctx.state(name, w.where)
    ctx.step(w.lines)
    ctx.sample(f"{w.lines} digests")
    if w.where is None:
        return
    ctx.note(f"{name} writes to shared state at {w.where}")

    def goes_on():
        if len(ctx.failures) > 3:
            return False
        if time.process_time() > limit:
            # Not an error: there are a great many schedules if calls write
            ctx.partial = True
            return False
        return True

    related = {x for g in GROUPS if name in g for x in g} | {name}
    others = [x for x in ops.OPS if x not in LONG and x not in SKIP]
    others.sort(key=lambda x: x not in related)
    for second in others:
        if goes_on():
            pair(ctx, name, second, STORES)
    if name not in LONG:
        if goes_on():
            double(ctx, name, name)
        for second in others:
            if goes_on():
                pair(ctx, second, name, ACCESS if second in related else STORES)
        for second in others:
            if goes_on():
                pair(ctx, name, second)


def tasks(tier):
    T = tier == "thorough"
    c12.prepare()
    fast = [n for n in ops.OPS if n not in LONG and n not in SKIP]
    res = []
    for name in ops.OPS:
        if name not in SKIP:
            res.append(Task(alone, name, (4 if T else 2) if name in LONG else 4,
                            1500 if T else 60,
                            weight=50 if name in LONG else 2,
                            timeout=3000))
    for name in fast:
        partners = {name}
        for g in GROUPS:
            if name in g:
                partners |= set(g) & set(fast)
        partners = sorted(fast if T else partners - {name})
        res.append(Task(pairs, name, (name,), weight=8, timeout=1500))
        for i in range(0, len(partners), 6):
            res.append(Task(pairs, name, tuple(partners[i:i+6]), ACCESS if T else STORES,
                            weight=6, timeout=1500))
        if T:
            res.append(Task(double, name, name, weight=9, timeout=1500))
    if T:
        for name in sorted(LONG):
            for second in (name, "uhat F", "u deriv"):
                res.append(Task(pairs, name, (second,), STORES, weight=40, timeout=3000))
    return res
