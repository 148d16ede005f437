"""C26: Copies and pickled objects stand in for the original.

For all kinds of objects of the library, all words over {copy, deepcopy, pickle in each
protocol} up to some length are applied, with the original fresh, used before, used
alternately with the copy, overwritten, or deleted.  Whatever is reached is observed
completely (attributes, values, and objects made from it) and compared with what the
original had shown before the first copy was made.  Pickles are also loaded in a new
interpreter.
"""
import copy
import gc
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import warnings
import numpy as np
from .core import Task, SRC, VERIF

BOUNDS = {
    "quick": "39 objects (kernels, hints, expansions, bases, their functions, samplings, "
             "matrices, sets, discrete Lehmann, augmented, adapter, rules) x {copy, "
             "deepcopy, pickle protocols 0-5} x original fresh, used, used alternately, "
             "deleted or overwritten; all words of 2 copies; new interpreter",
    "thorough": "words of up to 3 copies, other parameters"}
ASSUMPTIONS = ["results are compared up to 1e-11 of their magnitude",
               "derivatives of augmented functions and weight functions, which are "
               "plain local functions, are copied but not pickled"]

KINDS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    KINDS[f"pickle{_p}"] = lambda x, _p=_p: pickle.loads(pickle.dumps(x, _p))
# For chains of copies, pickling changed in kind with protocol 2 only
FEW = "copy", "deepcopy", "pickle0", f"pickle{pickle.HIGHEST_PROTOCOL}"


def objects(which):
    """name -> function returning new object"""
    import sparse_ir as s
    from sparse_ir import (augment, dlr, adapter, sampling, _gauss, kernel, svd, poly)
    beta, wmax = ((2., 5.), (30., 1.), (1., 300.))[which]
    lam = beta * wmax
    K, R = kernel.LogisticKernel(lam), kernel.RegularizedBoseKernel(lam)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sve = {k: s.compute_sve(x, 1e-8) for k, x in (("F", K), ("B", K), ("R", R))}
        ext = s.compute_sve(K)

    def basis(k="F"):
        return s.FiniteTempBasis(k.replace("R", "B"), beta, wmax,
                                 kernel=R if k == "R" else None, sve_result=sve[k])

    def augmented(*funcs, k="B"):
        return augment.AugmentedBasis(basis(k), *funcs)

    C, L, M = augment.TauConst, augment.TauLinear, augment.MatsubaraConst
    out = {
        "logistic": lambda: kernel.LogisticKernel(lam),
        "regbose": lambda: kernel.RegularizedBoseKernel(lam),
        "logistic even": lambda: kernel.LogisticKernel(lam).get_symmetrized(1),
        "logistic odd": lambda: kernel.LogisticKernel(lam).get_symmetrized(-1),
        "regbose odd": lambda: kernel.RegularizedBoseKernel(lam).get_symmetrized(-1),
        "hints": lambda: kernel.LogisticKernel(lam).sve_hints(1e-10),
        "hints odd": lambda: kernel.RegularizedBoseKernel(lam).get_symmetrized(-1)
        .sve_hints(1e-10),
        "expansion": lambda: s.SVEResult(sve["F"].u, sve["F"].s, sve["F"].v, K, 1e-8),
        "expansion extended": lambda: s.SVEResult(*ext, ext.K, ext.eps),
        "basis F": lambda: basis("F"),
        "basis B": lambda: basis("B"),
        "basis R": lambda: basis("R"),
        "basis part": lambda: basis("F")[:4],
        "basis rescaled": lambda: basis("B").rescale(3 * beta),
        "u": lambda: basis("F").u,
        "u part": lambda: basis("F").u[1:3],
        "u one": lambda: basis("F").u[2],
        "u deriv": lambda: basis("F").u.deriv(),
        "v": lambda: basis("R").v,
        "uhat F": lambda: basis("F").uhat,
        "uhat B": lambda: basis("B").uhat,
        "uhat one": lambda: basis("B").uhat[3],
        "vertex": lambda: augmented(M, k="F"),
        "aug": lambda: augmented(C, L),
        "aug all": lambda: augmented(M, C, L),
        "aug instances": lambda: augmented(C(beta), M(beta)),
        "aug nested": lambda: augment.AugmentedBasis(augmented(C), M),
        "aug u": lambda: augmented(C, L).u,
        "aug uhat": lambda: augmented(C, M).uhat,
        "dlr F": lambda: dlr.DiscreteLehmannRepresentation(basis("F")),
        "dlr B": lambda: dlr.DiscreteLehmannRepresentation(
            basis("B"), wmax * np.array([-1, -.2, 0, .5, 1])),
        "tau": lambda: s.TauSampling(basis("F")),
        "tau points": lambda: s.TauSampling(augmented(C), beta * np.linspace(0, 1, 41)),
        "wn": lambda: s.MatsubaraSampling(basis("F")),
        "wn positive": lambda: s.MatsubaraSampling(basis("B"), positive_only=True),
        "wn vertex": lambda: s.MatsubaraSampling(augmented(M)),
        "dlr tau": lambda: s.TauSampling(dlr.DiscreteLehmannRepresentation(basis("B"))),
        "set": lambda: s.FiniteTempBasisSet(beta, wmax, sve_result=sve["F"]),
        "adapter": lambda: adapter.Basis("F", lam, sve["F"]),
        "rule": lambda: _gauss.legendre(7).piecewise([0., .5, 2.]),
        "nested rule": lambda: _gauss.kronrod_31_15().reseat(0., 2.),
        "matrix": lambda: sampling.DecomposedMatrix(np.cos(np.arange(12.)).reshape(4, 3)),
    }
    return out


def public(obj):
    """Names of attributes which are data"""
    names = {n for n in getattr(obj, "__dict__", {}) if not n.startswith("_")}
    for cls in type(obj).__mro__:
        names |= {n for n, v in vars(cls).items()
                  if isinstance(v, property) and not n.startswith("_")}
    return sorted(names)


def ours(x):
    return type(x).__module__.partition(".")[0] == "sparse_ir"


def leaf(x):
    return x is None or isinstance(x, (bool, int, float, complex, str, np.ndarray,
                                       np.generic, np.dtype))


def observe(obj, derive=True):
    """Everything that can be seen of an object, as (path, value) in fixed order"""
    out = []
    seen = []

    def rec(path, x, depth):
        if leaf(x):
            out.append((path, str(x) if isinstance(x, np.dtype) else copy.copy(x)))
        elif isinstance(x, (tuple, list)):
            out.append((path + " len", len(x)))
            for i, y in enumerate(x):
                rec(f"{path}[{i}]", y, depth)
        elif ours(x):
            out.append((path + " type", type(x).__name__))
            if any(x is y for y in seen) or depth > 3:
                return
            seen.append(x)
            for n in public(x):
                try:
                    y = getattr(x, n)
                except Exception as e:
                    out.append((f"{path}.{n}", type(e).__name__))
                    continue
                rec(f"{path}.{n}", y, depth + 1)
            for label, fn in calls(x, derive and depth == 0):
                try:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        y = fn()
                    out.append((f"{path} {label} warns",
                                " ".join(sorted({i.category.__name__ for i in w}))))
                except Exception as e:
                    y = type(e).__name__
                if leaf(y) or isinstance(y, (tuple, list)) and all(map(leaf, y)):
                    rec(f"{path} {label}", y, depth)
                elif ours(y):
                    for p, z in observe(y, False):
                        out.append((f"{path} {label}{p}", z))

    rec("", obj, 0)
    return out


def calls(x, derive):
    """What to call to see how an object behaves"""
    import sparse_ir as s
    from sparse_ir import (augment, dlr, adapter, sampling, _gauss, kernel, poly, sve,
                           basis_set)
    out = []
    if isinstance(x, kernel.AbstractKernel):
        xs = np.linspace(*x.xrange, 7)
        ys = np.linspace(*x.yrange, 5)
        out += [("()", lambda: x(xs[:, None], ys)), ("scalar", lambda: x(xs[1], ys[2])),
                ("bad", lambda: x(7., 0.)),
                ("weights", lambda: x.weight_func("B")(ys[ys != 0]))]
        if derive:
            out += [("sve", lambda: s.compute_sve(x, 1e-4).s)]
            if x.is_centrosymmetric:
                out += [("odd", lambda: x.get_symmetrized(-1)),
                        ("even", lambda: x.get_symmetrized(1))]
            out += [("hints", lambda: x.sve_hints(1e-9))]
    elif isinstance(x, sve.SVEResult):
        out += [("iter", lambda: [a.size for a in x]), ("part", lambda: x.part(1e-3)[1]),
                ("part all", lambda: x.part()[1].size)]
        if derive:
            out += [("basis", lambda: s.FiniteTempBasis(
                "F", 1., x.K.lambda_, 1e-5, sve_result=x)),
                ("set", lambda: s.FiniteTempBasisSet(1., x.K.lambda_, 1e-3, x).tau)]
    elif isinstance(x, poly.PiecewiseLegendrePoly):
        mid = np.linspace(x.xmin, x.xmax, 11)
        out += [("()", lambda: x(mid)), ("scalar", lambda: x(mid[3])),
                ("deriv", lambda: x.deriv()(mid)), ("bad", lambda: x(x.xmax + 1)),
                ("part", lambda: x[1](mid[:3])), ("slice", lambda: x[:2](mid[:3])),
                ("parity", lambda: x.symm), ("hat", lambda: x.hat(
                    "odd" if x.symm is not None else "even")(3))]
        if x.ndim == 0:
            out += [("roots", lambda: x.roots())]
        out += [("overlap", lambda: x.overlap(lambda t: np.asarray(t) ** 2 + 1))]
    elif isinstance(x, poly.PiecewiseLegendreFT):
        odd = x.freq in ("odd",)
        n = 2 * np.array([0, 1, -3, 500, 10**7]) + odd
        out += [("()", lambda: x(n)), ("scalar", lambda: x(int(n[1]))),
                ("wrong", lambda: x(n + 1)), ("part", lambda: x[1](n)),
                ("slice", lambda: x[:2](n))]
        if x.ndim == 0:
            out += [("extrema", lambda: x.extrema()),
                    ("signs", lambda: x.sign_changes(positive_only=True))]
    elif isinstance(x, augment._AugmentedFunction):
        p = np.array([0, 2, 40]) + (x.zeta if hasattr(x, "zeta") else 0)
        p = p if hasattr(x, "zeta") else np.linspace(x.xmin, x.xmax, 5)
        out += [("()", lambda: x(p)), ("one", lambda: x[0](p)),
                ("last", lambda: x[-1](p)), ("slice", lambda: x[:2](p))]
        if hasattr(x, "deriv"):
            out += [("deriv", lambda: x.deriv()(p))]
    elif isinstance(x, augment.AbstractAugmentation):
        out += [("()", lambda: x(np.array([0., .1]))), ("deriv", lambda: x.deriv(1)(.1)),
                ("hat", lambda: x.hat(np.array([0, 2])))]
    elif isinstance(x, (dlr.TauPoles,)):
        out += [("()", lambda: x(np.array([0., .3])))]
    elif isinstance(x, (dlr.MatsubaraPoles,)):
        out += [("()", lambda: x(np.array([0, 2]))), ("odd", lambda: x(np.array([1, 3])))]
    elif isinstance(x, s.abstract.AbstractBasis):
        out += [("tau", lambda: x.default_tau_sampling_points()),
                ("wn", lambda: x.default_matsubara_sampling_points()),
                ("wn+", lambda: x.default_matsubara_sampling_points(positive_only=True)),
                ("well", lambda: x.is_well_conditioned)]
        if isinstance(x, dlr.DiscreteLehmannRepresentation):
            out += [("from", lambda: x.from_IR(np.ones((x.basis.size, 2)))),
                    ("to", lambda: x.to_IR(np.ones(x.size)))]
        if hasattr(x, "default_omega_sampling_points"):
            out += [("omega", lambda: x.default_omega_sampling_points(npoints=3))]
        if derive:
            out += [("slice", lambda: x[:3]),
                    ("sampling", lambda: s.TauSampling(x).fit(x.u(
                        x.default_tau_sampling_points()).T, axis=0)),
                    ("wsampling", lambda: s.MatsubaraSampling(x).evaluate(
                        np.ones(x.size)))]
        if derive and hasattr(x, "rescale"):
            out += [("rescale", lambda: x.rescale(x.beta * 2)),
                    ("aug", lambda: augment.AugmentedBasis(x, augment.MatsubaraConst)),
                    ("dlr", lambda: dlr.DiscreteLehmannRepresentation(x)),
                    ("again", lambda: s.FiniteTempBasis(
                        x.statistics, x.beta, x.wmax, kernel=x.kernel, eps=1e-3)),
                    ("set", lambda: s.FiniteTempBasisSet(
                        x.beta, x.wmax, sve_result=x.sve_result).wn_b)]
    elif isinstance(x, sampling.AbstractSampling):
        al = np.cos(np.arange(x.basis.size))
        out += [("evaluate", lambda: x.evaluate(al)),
                ("fit", lambda: x.fit(x.evaluate(al))),
                ("axis", lambda: x.evaluate(al[:, None] * [1., 2.], axis=0)),
                ("points", lambda: x.evaluate(al, points=x.sampling_points[::-1])),
                ("fit points", lambda: x.fit(x.evaluate(al)[::-1],
                                             points=x.sampling_points[::-1])),
                ("wrong", lambda: x.evaluate(al[1:]))]
    elif isinstance(x, (sampling.DecomposedMatrix, sampling.SplitDecomposedMatrix)):
        out += [("array", lambda: np.array(x)), ("@", lambda: x @ np.ones(x.a.shape[1])),
                ("lstsq", lambda: x.lstsq(np.ones(x.a.shape[0])))]
    elif isinstance(x, adapter.Basis):
        out += [("ulx", lambda: x.ulx(2, .3)), ("all", lambda: x.ulx(None, .3)),
                ("vly", lambda: x.vly(1, .9)), ("d", lambda: x.d_ulx(1, .3, 1)),
                ("unl", lambda: x.compute_unl(np.array([0, -3, 70]))),
                ("sl", lambda: x.sl(1)), ("x", lambda: x.sampling_points_x(2))]
        if derive:
            out += [("wn", lambda: x.sampling_points_matsubara(2))]
    elif isinstance(x, _gauss.Rule):
        out += [("reseat", lambda: x.reseat(-3., 1.).x), ("scale", lambda: x.scale(2).w),
                ("astype", lambda: x.astype(np.float32).w),
                ("pieces", lambda: x.piecewise([-1., 0., 4.]).x_forward),
                ("quad", lambda: x.quad(lambda t: t ** 2))]
    return out


def differ(ref, got):
    """First difference between observations, or None"""
    if [p for p, _ in ref] != [p for p, _ in got]:
        a, b = {p for p, _ in ref}, {p for p, _ in got}
        return f"what can be seen differs: {sorted(a ^ b)[:5]}"
    for (p, a), (_, b) in zip(ref, got):
        if isinstance(a, (np.ndarray, np.generic, float, complex)) \
                and not isinstance(b, (str, type(None))):
            x, y = np.asarray(a), np.asarray(b)
            if x.shape != y.shape or x.dtype != y.dtype:
                return f"{p}: {x.dtype}{x.shape} became {y.dtype}{y.shape}"
            if x.dtype.kind not in "fciub":
                # extended precision
                x, y = x.astype(float), y.astype(float)
            if x.size and not np.allclose(x, y, 0, 1e-11 * max(
                    np.abs(np.nan_to_num(x, posinf=0, neginf=0)).max(), 1e-300),
                    equal_nan=True):
                return f"{p}: {x.ravel()[:3]} became {y.ravel()[:3]}"
        elif type(a) is not type(b) or a != b:
            return f"{p}: {a!r} became {b!r}"
    return None


def arrays(x, seen):
    """All arrays reachable from an object of the library"""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y, seen)
    elif isinstance(x, dict):
        for y in x.values():
            yield from arrays(y, seen)
    elif ours(x):
        yield from arrays(getattr(x, "__dict__", {}), seen)


def spoil(x):
    """Overwrite everything, return function to undo this"""
    old = [(a, a.copy()) for a in arrays(x, {})
           if a.flags.writeable and a.dtype.kind in "fciu"]
    for a, _ in old:
        a[...] = 77

    def undo():
        for a, val in old:
            a[...] = val
    return undo


def explore(ctx, which, name, depth):
    make = objects(which)[name]
    ref = observe(make())
    ctx.expect(len(ref) > 5 and differ(ref, observe(make())) is None,
               f"{name}: objects made alike differ: {differ(ref, observe(make()))}")
    ctx.sample(f"{name}: {len(ref)} observations")

    def check(x, what, derive=True):
        ctx.step()
        d = differ(ref if derive else small, observe(x, derive))
        ctx.expect(d is None, f"{name} {what}: {d}")
        ctx.trace()

    small = observe(make(), False)
    for n in range(1, depth + 1):
        for word in itertools.product(KINDS if n == 1 else FEW, repeat=n):
            for used in ("fresh", "used"):
                if n > 1 and used == "used":
                    continue
                ctx.state(which, name, word, used)
                orig = make()
                if used == "used":
                    observe(orig, False)
                x = orig
                for k in word:
                    ctx.step()
                    try:
                        x = KINDS[k](x)
                    except Exception as e:
                        ctx.fail(f"{name} {word}: {type(e).__name__}: {e}")
                        break
                else:
                    what = f"{'-'.join(word)} of {used}"
                    check(x, what, n == 1)
                    # Now the original, which must not have noticed, and vice versa
                    check(orig, f"original after use of {what}", n == 1)
                    if n > 1:
                        continue
                    check(x, f"{what} after use of original", False)
                    if word != ("copy",):
                        ctx.expect(not ours(x) or x is not orig, f"{name}: {what} is same")
                        undo = spoil(x)
                        check(orig, f"original after overwriting {what}", False)
                        undo()
                        x = KINDS[word[0]](orig)
                        undo = spoil(orig)
                        check(x, f"{what} after overwriting original", False)
                        undo()
                    else:
                        del orig
                        gc.collect()
                        other = make()
                        check(x, f"{what} after deletion of original", False)
                        check(other, "made after deletion", False)


LOADER = """
import pickle, sys
with open(sys.argv[1], "rb") as f:
    objs = pickle.load(f)
sys.path.insert(0, sys.argv[3])
from mc import c26
with open(sys.argv[2], "wb") as f:
    pickle.dump({k: c26.observe(pickle.loads(x)) for k, x in objs.items()}, f)
"""


def process(ctx, which, protocol):
    """Pickles loaded in a new interpreter"""
    objs, ref = {}, {}
    for name, make in objects(which).items():
        x = make()
        ref[name] = observe(make())
        try:
            objs[name] = pickle.dumps(x, protocol)
        except Exception as e:
            ctx.fail(f"{name}: {type(e).__name__}: {e}")
        ctx.state(which, name, protocol, "process")
    with tempfile.TemporaryDirectory() as tmp:
        src, dst = os.path.join(tmp, "in"), os.path.join(tmp, "out")
        with open(src, "wb") as f:
            pickle.dump(objs, f)
        env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")
        run = subprocess.run([sys.executable, "-W", "ignore", "-c", LOADER, src, dst,
                              VERIF], env=env, stdin=subprocess.DEVNULL,
                             capture_output=True, text=True)
        if not ctx.expect(run.returncode == 0, f"new interpreter: {run.stderr[-800:]}"):
            return
        with open(dst, "rb") as f:
            got = pickle.load(f)
    for name, obs in got.items():
        ctx.step(2)
        d = differ(ref[name], obs)
        ctx.expect(d is None, f"{name} in a new interpreter: {d}")
        ctx.trace()


def tasks(tier):
    quick = tier == "quick"
    out = []
    for which in range(1 if quick else 3):
        for name in objects(0):
            out.append(Task(explore, which, name, 2 if quick else 3, weight=10,
                            timeout=3000))
        for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
            out.append(Task(process, which, protocol, weight=20, timeout=600))
    return out
