"""C12: Results never depend on what was called before.

Explores histories of calls on a common set of live objects: every sequence of two
calls out of about 120 (including failing ones), every sequence of three out of a
subset, each with a caller that overwrites all arguments and all arrays it got
after each call.  Every result is compared with that of the same call made first
thing in a fresh process.  In addition the state reachable from the objects and
from the modules of the library is digested after each call: if no call changes
it, then no history of whatever length can make a difference.
"""
import hashlib
import itertools
import os
import pickle
import signal
import sys
import types
import numpy as np
from .core import Task
from . import ops

BOUNDS = {
    "quick": "all sequences of 1, 2 calls (of about 125) and of 3 calls from a subset of "
             "24; caller overwrites arguments and results after every call; digest of "
             "reachable state after every first call; read-only arguments; all sequences "
             "of 3 calls of one kind with up to 7 arguments easily mistaken for each "
             "other, also in one array overwritten between calls; objects made from "
             "arrays (16 kinds) x array overwritten x 3 kinds of overwriting x 3 "
             "memory layouts x before or after the first use",
    "thorough": "all sequences of 3 calls from a subset of 60"}
ASSUMPTIONS = ["results are compared up to 1e-10 of their magnitude"]

CORE = ["uhat F", "uhat B", "uhat parity", "kept uhat F", "kept dlrB u", "dlr uhat",
        "u deriv", "overlap raise", "overlap err", "u bad", "K even", "K bad x",
        "slice", "rescale", "tau evaluate points", "tau fit", "wnp fit", "new wn",
        "aug deriv", "aug uhat", "ad unl", "rule", "svd fast", "svd accurate"]
MORE = CORE + ["uhat R", "kept uhat B", "kept dlr uhat", "dlrB u", "u[1:3]", "u roots",
               "overlap", "v bad", "R odd", "K hints", "aug slice", "basis F", "set",
               "tau points", "wn points B", "extrema", "wn fit points", "wnB fit",
               "new tau", "matrix", "dlr from", "new dlr", "vertex uhat", "ad d_ulx",
               "reseat", "astype", "collocation", "svd accurate", "kept fit", "u value",
               "sign changes", "new aug", "K weight", "part", "kept weights", "u scalar"]

# calls which are too slow to be made twice in each history
SLOW = {"sve K", "sve R", "sve K default", "sve K accurate", "ad wn points", "set", "pair",
        "basis F", "wn points", "extrema", "wn points B", "sign changes"}

PRISTINE = None
REF = {}


def reference(fn, *args):
    """Result of a call on new objects in a process of its own"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.alarm(100)
            res = ops.canon(ops.attempt(fn, ops.fresh(PRISTINE), *args))
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("no result",)


def references():
    """Results of all calls, each in a process in which nothing else was called"""
    names = list(ops.OPS)
    for k in range(0, len(names), 8):
        procs = []
        for name in names[k:k+8]:
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    signal.alarm(100)
                    mk, fn = ops.OPS[name]
                    env = ops.fresh(PRISTINE)
                    res = ops.canon(ops.attempt(fn, env, *mk()))
                    with os.fdopen(wfd, "wb") as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(wfd)
            procs.append((name, pid, rfd))
        for name, pid, rfd in procs:
            with os.fdopen(rfd, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            REF[name] = pickle.loads(data) if data else ("no result",)


def prepare():
    global PRISTINE
    if PRISTINE is None:
        PRISTINE = ops.make_env()
        ops.table(PRISTINE)
        references()


def digest(root):
    """Digest of all data reachable from the objects and the library's modules"""
    h = hashlib.blake2b(digest_size=16)
    seen = {}

    def visit(x, depth=0):
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
            h.update(repr(x).encode())
            return
        if isinstance(x, np.dtype):
            h.update(str(x).encode())
            return
        if id(x) in seen:
            h.update(b"ref%d" % seen[id(x)][0])
            return
        seen[id(x)] = (len(seen), x)
        h.update(type(x).__name__.encode())
        if isinstance(x, np.ndarray):
            h.update(str((x.shape, x.dtype)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, np.generic):
            h.update(x.tobytes())
        elif isinstance(x, (tuple, list)):
            for y in x:
                visit(y)
        elif isinstance(x, dict):
            for k in sorted(x, key=repr):
                if k == "__warningregistry__":
                    continue
                h.update(repr(k).encode() if isinstance(k, (str, int)) else b"key")
                visit(x[k])
        elif isinstance(x, types.MethodType):
            visit(x.__self__)
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").startswith("sparse_ir"):
                visit(x.__dict__)
                visit(x.__defaults__)
                visit(x.__kwdefaults__)
                for c in x.__closure__ or ():
                    try:
                        visit(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, type):
            if (x.__module__ or "").startswith("sparse_ir"):
                for k in sorted(vars(x)):
                    if not (k.startswith("__") and k.endswith("__")):
                        visit(vars(x)[k])
        elif isinstance(x, types.ModuleType):
            if x.__name__.startswith("sparse_ir"):
                for k in sorted(vars(x)):
                    if k not in ("__builtins__", "__warningregistry__", "__loader__",
                                 "__spec__", "__cached__", "__file__"):
                        visit(vars(x)[k])
        elif isinstance(x, (property, classmethod, staticmethod)):
            visit(getattr(x, "fget", None) or getattr(x, "__func__", None))
        else:
            if hasattr(x, "__dict__"):
                visit(vars(x))
            for c in type(x).__mro__:
                for k in getattr(c, "__slots__", ()) or ():
                    if isinstance(k, str) and hasattr(x, k):
                        visit(getattr(x, k))

    visit(vars(root))
    for name in sorted(sys.modules):
        if name.startswith("sparse_ir"):
            visit(sys.modules[name])
    return h.hexdigest()


def perform(ctx, env, name, history, readonly=False):
    """Make one call, compare with the reference, then write to everything"""
    mk, fn = ops.OPS[name]
    args = mk()
    keep = [a.copy() for a in args]
    if readonly:
        for a in args:
            a.flags.writeable = False
    res = ops.attempt(fn, env, *args)
    ctx.step()
    for i, (a, k) in enumerate(zip(args, keep)):
        ctx.expect(a.dtype == k.dtype and np.array_equal(a, k, equal_nan=True),
                   f"{name} after {history}: argument {i} changed")
    if not readonly:
        for a in args:
            ops.scribble(a)
    got = ops.canon(res)
    if not ops.same(got, REF[name]):
        ctx.fail(f"{name} after {history or 'nothing'}: {ops_diff(got, REF[name])}")
    ctx.comparisons += 1
    if not isinstance(res, ops.keep):
        for a in ops.arrays_in(res):
            ops.scribble(a)
    return res


def ops_diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if not ops.same(x, y):
                return ops_diff(x, y)
    return f"got {str(a)[:150]}, expected {str(b)[:150]}"


def pairs(ctx, first):
    """All sequences starting with one call"""
    names = list(ops.OPS)
    base = digest(PRISTINE)
    env = ops.fresh(PRISTINE)
    perform(ctx, env, first, [], True)
    ctx.expect(digest(PRISTINE) == base, f"{first}: state shared by copies of objects")
    env = ops.fresh(PRISTINE)
    start = digest(env)
    perform(ctx, env, first, [])
    after = digest(env)
    ctx.state(after)
    if after != start:
        ctx.note(f"{first} changes the state of objects or modules")
    # again, and once more with everything in between
    perform(ctx, env, first, [first])
    for second in names:
        env = ops.fresh(PRISTINE)
        perform(ctx, env, first, [])
        r = perform(ctx, env, second, [first])
        ctx.state(first, second)
        # the objects live on after the caller has written to results
        if first not in SLOW:
            perform(ctx, env, first, [first, second])
        del r
        ctx.trace()


def triples(ctx, first, wide):
    names = [x for x in (MORE if wide else CORE) if x in ops.OPS]
    for second in names:
        for third in names:
            env = ops.fresh(PRISTINE)
            for i, name in enumerate((first, second, third)):
                perform(ctx, env, name, [first, second, third][:i])
            ctx.state(first, second, third)
            ctx.trace()


def similar(args):
    """Arguments which are easily mistaken for the ones given"""
    def each(f):
        return [f(a) for a in args]

    def nudge(a):
        a = a.copy()
        if a.size > 2:
            # Same ends, and same sum
            a.flat[1] = a.flat[1] + (2 if a.dtype.kind == "i" else .01)
            if a.size > 3:
                a.flat[2] = a.flat[2] - (2 if a.dtype.kind == "i" else .01)
        return a

    yield "reversed", each(lambda a: a[::-1].copy())
    yield "nudged", each(nudge)
    yield "shorter", each(lambda a: a[:-1].copy())
    yield "last only", each(lambda a: a[-1:].copy())
    yield "negative", each(lambda a: -a)
    for i, a in enumerate(args):
        if len(args) > 1:
            yield f"reversed argument {i}", [b[::-1].copy() if i == j else b.copy()
                                             for j, b in enumerate(args)]


def variants(ctx, name):
    """Call with one set of arguments, then with another which resembles it"""
    mk, fn = ops.OPS[name]
    table = [("original", mk())]
    table += [(k, v) for k, v in similar(mk())
              if not all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
                         for x, y in zip(v, mk()))]
    refs = {k: reference(fn, *[a.copy() for a in v]) for k, v in table}
    args = dict(table)
    copy = {k: [a.copy() for a in v] for k, v in table}
    for seq in itertools.product(args, repeat=2):
        for third in {seq[0], "original"}:
            env = ops.fresh(PRISTINE)
            for i, k in enumerate(seq + (third,)):
                # On purpose the same array objects in all calls
                got = ops.canon(ops.attempt(fn, env, *args[k]))
                ctx.step()
                ctx.expect(ops.same(got, refs[k]), f"{name}, {k} arguments after "
                           f"{(seq + (third,))[:i]}: {ops_diff(got, refs[k])}")
            ctx.state(name, seq, third)
            ctx.trace()
    # One array, with different contents in each call
    for k in args:
        if any(a.shape != b.shape for a, b in zip(args[k], copy["original"])):
            continue
        env = ops.fresh(PRISTINE)
        own = [a.copy() for a in copy["original"]]
        for step in ("original", k, "original"):
            for a, b in zip(own, copy[step]):
                a[...] = b
            got = ops.canon(ops.attempt(fn, env, *own))
            ctx.step()
            ctx.expect(ops.same(got, refs[step]), f"{name}, {step} contents of the same "
                       f"array: {ops_diff(got, refs[step])}")
        ctx.state(name, k, "in place")
        ctx.trace()


def long_run(ctx, shift):
    """One long history: every call after every other, on the same objects"""
    names = list(ops.OPS)
    env = ops.fresh(PRISTINE)
    n = len(names)
    for i in range(n * 4):
        perform(ctx, env, names[(i * shift) % n], f"{i} calls with shift {shift}")
    ctx.trace()
    # objects made afterwards in the same process behave as new ones
    env = ops.make_env()
    for name in names:
        perform(ctx, env, name, "long history, on new objects")
    ctx.state("long", shift)


def constructors():
    """What is made out of arrays: name -> (arguments, constructor, probes)"""
    s = ops.sir()
    from sparse_ir import poly, dlr, sampling, _gauss
    b, bb = PRISTINE.F, PRISTINE.B
    r = b.sve_result
    K = r.K
    data = np.cos(np.arange(12.)).reshape(3, 2, 2)
    knots = np.array([-1, .25, 1])
    mat = np.cos(np.arange(12.)**2).reshape(4, 3)
    cmat = mat + 1j * np.sin(np.arange(12.)).reshape(4, 3)
    svd = np.linalg.svd(mat, full_matrices=False)
    ones = np.ones
    table = {
        "polynomial": ([data, knots], poly.PiecewiseLegendrePoly,
                       [lambda o: o([-.5, .3]), lambda o: o.deriv()([-.5, .3]),
                        lambda o: o[0].roots(), lambda o: o.knots, lambda o: o.data]),
        "polynomial with lengths": (
            [data, knots, np.diff(knots), np.array([1, -1])],
            poly.PiecewiseLegendrePoly,
            [lambda o: o([-.5, .3]), lambda o: o.symm, lambda o: o.dx,
             lambda o: o.deriv().symm, lambda o: o[1](.3)]),
        "transform": ([data, knots], lambda d, k: poly.PiecewiseLegendreFT(
            poly.PiecewiseLegendrePoly(d, k), "odd", 100),
            [lambda o: o([1, 3, 1001]), lambda o: o[1](-7)]),
        "frequency poles": ([np.array([.1, .5, -.3])],
                            lambda p: dlr.MatsubaraPoles("F", 10., p),
                            [lambda o: o([1, 3])]),
        "time poles": ([np.array([.1, .5, -.3])], lambda p: dlr.TauPoles("F", 10., p),
                       [lambda o: o([1., 3.])]),
        "DLR": ([np.array([-.5, .1, .7])],
                lambda p: dlr.DiscreteLehmannRepresentation(b, p),
                [lambda o: o.u([.5, 1.9]), lambda o: o.uhat([1, 5]), lambda o: o.from_IR(
                    ones(b.size)), lambda o: o.to_IR(ones(3)),
                 lambda o: o.sampling_points]),
        "rule": ([np.array([-.5, 0, .75]), np.array([.5, 1, .5])], _gauss.Rule,
                 [lambda o: o.x, lambda o: o.w, lambda o: o.reseat(1, 3).x,
                  lambda o: o.piecewise([-1, 0, 1]).w, lambda o: o.x_forward]),
        "rule with distances": (
            [np.array([-.5, 0, .75]), np.array([.5, 1, .5]), np.array([.5, 1, 1.75]),
             np.array([1.5, 1, .25])], _gauss.Rule,
            [lambda o: o.x_backward, lambda o: o.reseat(1, 3).x_forward]),
        "matrix": ([mat], sampling.DecomposedMatrix,
                   [lambda o: o.a, lambda o: o.matmul(ones(3)),
                    lambda o: o.lstsq(ones(4)), lambda o: o.cond]),
        "matrix with SVD": ([mat, *svd], lambda a, u, x, v: sampling.DecomposedMatrix(
            a, (u, x, v)), [lambda o: o.a, lambda o: o.matmul(ones(3)), lambda o: o.s,
                            lambda o: o.lstsq(ones(4)), lambda o: o.cond]),
        "expansion": ([r.s], lambda x: s.SVEResult(r.u, x, r.v, K, r.eps),
                      [lambda o: o.s, lambda o: o.part(1e-3)[1], lambda o: o.part()[1]]),
        "basis": ([r.s], lambda x: s.FiniteTempBasis(
            "F", b.beta, b.wmax, kernel=K, sve_result=s.SVEResult(r.u, x, r.v, K, r.eps)),
            [lambda o: o.s, lambda o: o.significance, lambda o: o.rescale(3.).s,
             lambda o: o[:3].s, lambda o: o.sve_result.s, lambda o: o.accuracy]),
    }
    for stat, base in (("F", b), ("B", bb)):
        table[f"times {stat}"] = (
            [base.default_tau_sampling_points()], lambda p, base=base: s.TauSampling(
                base, p),
            [lambda o: o.tau, lambda o: o.evaluate(ones(o.basis.size)),
             lambda o: o.fit(ones(o.tau.size)), lambda o: o.sampling_points])
        for pos in (False, True):
            table[f"frequencies {stat} {pos}"] = (
                [base.default_matsubara_sampling_points(positive_only=pos)],
                lambda p, base=base, pos=pos: s.MatsubaraSampling(
                    base, p, positive_only=pos),
                [lambda o: o.wn, lambda o: o.evaluate(ones(o.basis.size)),
                 lambda o: o.fit(ones(o.wn.size)), lambda o: o.sampling_points])
    try:
        split = sampling._split_complex(cmat)
    except AttributeError:
        pass
    else:
        table["split matrix"] = (
            [cmat, *split], lambda a, u, x, v: sampling.SplitDecomposedMatrix(
                a, (u, x, v)),
            [lambda o: o.a, lambda o: o.matmul(ones(3)), lambda o: o.s,
             lambda o: o.lstsq(ones(4) + 0j), lambda o: o.cond])
    return table


def aliases(ctx):
    """Objects do not follow later changes of the arrays which they were made from"""
    def flip(a):
        a[...] = a[::-1].copy()

    def shift(a):
        a += 2

    def zero(a):
        a[...] = 0

    for name, (args, make, probes) in constructors().items():
        ref = make(*[a.copy() for a in args])
        want = [ops.canon(ops.attempt(p, ref)) for p in probes]
        views = {"array": lambda a: a.copy(), "fortran": lambda a: a.copy("F"),
                 "strided": lambda a: np.repeat(a, 2, axis=0)[::2]}
        for (kind, view), which, change, before in itertools.product(
                views.items(), [*range(len(args)), None], (flip, shift, zero),
                (False, True)):
            own = [view(a) for a in args]
            obj = make(*own)
            what = f"{name} from {kind}, argument {which} changed by {change.__name__}, " \
                   f"{'after' if before else 'before'} first use"
            ctx.state(name, kind, which, change.__name__, before)
            if before:
                for p, w in zip(probes, want):
                    got = ops.canon(ops.attempt(p, obj))
                    ctx.step()
                    ctx.expect(ops.same(got, w), f"{what}: {ops_diff(got, w)}")
            for i, a in enumerate(own):
                if which in (None, i):
                    change(a)
                else:
                    ctx.expect(np.array_equal(a, args[i]), f"{what}: other argument "
                               "was changed")
            for i, (p, w) in enumerate(zip(probes, want)):
                got = ops.canon(ops.attempt(p, obj))
                ctx.step()
                ctx.expect(ops.same(got, w), f"{what}: probe {i}: {ops_diff(got, w)}")
            ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    prepare()
    names = list(ops.OPS)
    res = [Task(pairs, first, weight=20 if first in SLOW else 5, timeout=600)
           for first in names]
    sub = [x for x in (MORE if T else CORE) if x in ops.OPS]
    res += [Task(triples, first, T, weight=10, timeout=900) for first in sub]
    res += [Task(variants, x, weight=5, timeout=600) for x in names
            if all(isinstance(a, np.ndarray) for a in ops.OPS[x][0]())
            and ops.OPS[x][0]()]
    res += [Task(long_run, k, weight=8) for k in (1, 11, 29)]
    res.append(Task(aliases, weight=8))
    return res
