"""C20: Every SVD strategy returns a correct thin singular value decomposition.

 - all matrices over {-1, 0, 1} of all shapes up to a bound, by every strategy in every
   precision: factors must multiply back to the matrix and be orthonormal, which
   together with the ordering determines the decomposition;
 - all row and column scalings out of an alphabet of small matrices; here, small
   singular values are compared with those found by Jacobi rotations in 120 decimals
   (relative to their own size for the accurate strategy);
 - all structured matrices, memory layouts and hints for the number of values;
 - all histories of decompositions up to a depth: results do not depend on what was
   decomposed before.
"""
import itertools
import warnings
from decimal import Decimal as D, getcontext
import numpy as np
from .core import Task, Inapplicable
from .lib import ddouble, EPS

BOUNDS = {
    "quick": "all matrices over {-1,0,1} with m, n <= 3, also 1 x m and m x 1 for m <= 5, "
             "overall scale 1, 1e-60 or 1e60 (one per matrix; 1e20 in double-double); all "
             "diagonal scalings (1, 1e-6, 1e-12) of rows and columns of 8 matrices of size "
             "<= 3 (double), for 3 of them also (1, 1e-15, 1e-30); 9 families x 12 shapes up to 40 x 60 x 8 hints; 7 memory "
             "layouts; 5 degenerate kernels in 2 precisions; all histories "
             "of <= 3 out of 9 decompositions; strategies fast, default, accurate in "
             "single and double precision, double-double",
    "thorough": "also matrices over {-1,0,1} of 2 x 4, 4 x 2, 2 x 5, 5 x 2, over "
                "{-2..2} for m, n <= 2, shapes up to 150 x 200, histories of <= 4"}
ASSUMPTIONS = ["real matrices whose squares neither overflow nor underflow",
               "in extended precision, which is left to the xprec package, matrices "
               "that are neither badly scaled nor have exactly dependent columns after "
               "elimination (Householder reflections there are inaccurate for these)"]

STRATS = [("fast", "f8"), ("default", "f8"), ("accurate", "f8"),
          ("fast", "f4"), ("default", "f4"), ("accurate", "f4"), ("default", "dd")]


def modules():
    try:
        from sparse_ir import svd
    except ImportError:
        raise Inapplicable("no module svd")
    if not hasattr(svd, "compute"):
        raise Inapplicable("no svd.compute")
    return svd


def dtype_of(name):
    if name == "dd":
        if ddouble() is None:
            raise Inapplicable("no extended precision")
        return np.dtype(ddouble())
    return np.dtype(name)


def eps_of(name):
    return {"f4": 2.**-23, "f8": 2.**-52, "dd": 2.**-102}[name]


def amax(a):
    return float(np.abs(a).max()) if a.size else 0.


def verify(ctx, a, res, eps, what, trunc=0., hint=None):
    """Check decomposition of matrix; returns singular values"""
    ctx.comparisons += 4
    m, n = a.shape
    if not ctx.expect(isinstance(res, tuple) and len(res) == 3, f"{what}: {type(res)}"):
        return None
    u, s, v = res
    k = s.size
    if not (s.ndim == 1 and u.shape == (m, k) and v.shape == (n, k) and k <= min(m, n)
            and k >= min(1, m, n)):
        ctx.fail(f"{what}: shapes {u.shape}, {s.shape}, {v.shape}")
        return None
    if not all(np.isfinite(x.astype(float)).all() for x in res):
        ctx.fail(f"{what}: not finite")
        return None
    if (s < 0).any() or (s[1:] > s[:-1]).any():
        ctx.fail(f"{what}: singular values not in order: {s.astype(float)}")
        return None
    # Do arithmetic in at least the precision we have been given
    if a.dtype == np.float32:
        a = a.astype(float)
    u, s, v = (x if x.dtype == a.dtype else x.astype(a.dtype) for x in (u, s, v))
    scale = amax(a)
    tol = 100 * max(m, n) * eps * scale + trunc
    err = amax((u * s) @ v.T - a)
    if not err <= tol:
        ctx.fail(f"{what}: product of factors off by {err:.3g} (allowed {tol:.3g}, "
                 f"largest element {scale:.3g})")
    big = s.astype(float) > max(3e3 * max(m, n) * eps, 1e-15 * (eps < 1e-20)) * scale
    loss = 1 if eps > 1e-20 or not big.any() else float(s[0] / s[big][-1])
    for name, x in (("left", u), ("right", v)):
        x = x[:, big]
        if x.shape[1] == 0:
            continue
        err = amax(x.T @ x - np.eye(x.shape[1]).astype(x.dtype))
        if not err <= 200 * max(m, n) * eps * loss:
            ctx.fail(f"{what}: {name} vectors not orthonormal, off by {err:.3g}")
    return s


def run(ctx, a, strat, hint=None):
    """Decompose, matrix itself must not change"""
    svd = modules()
    keep = a.copy()
    ctx.step()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = svd.compute(a, hint, strat) if hint is not None else \
            svd.compute(a, strategy=strat)
    if not (keep == a).all():
        ctx.fail(f"{strat}: argument overwritten")
    return res


def small(ctx, m, n, letters, part, parts, strat, prec):
    """All matrices over an alphabet"""
    dt, eps = dtype_of(prec), eps_of(prec)
    for i, e in enumerate(itertools.product(letters, repeat=m*n)):
        if i % parts != part:
            continue
        scale = 10.**({"f8": 60, "f4": 12, "dd": 20}[prec] * (i // parts % 3 - 1))
        a = (np.array(e, float).reshape(m, n) * scale).astype(dt)
        what = f"{strat} ({prec}) of {e} as {m} x {n}, times {scale}"
        ctx.state(m, n, e, strat, prec)
        try:
            res = run(ctx, a, strat)
        except Exception as exc:
            ctx.fail(f"{what}: raised {type(exc).__name__}: {exc}")
            continue
        verify(ctx, a, res, eps, what)
        ctx.trace()
        if len(ctx.failures) > 10:
            return
    ctx.sample(f"{strat} {prec}: matrices {m} x {n} over {letters}")


def exact_sv(a):
    """Singular values by one-sided Jacobi rotations in 120 decimals"""
    getcontext().prec = 120
    a = np.array([[D(float(x)) for x in r] for r in a], dtype=object)
    if a.shape[0] < a.shape[1]:
        a = a.T.copy()
    n = a.shape[1]
    for _ in range(60):
        done = True
        for p in range(n):
            for q in range(p + 1, n):
                al = sum(x*x for x in a[:, p])
                be = sum(x*x for x in a[:, q])
                ga = sum(x*y for x, y in zip(a[:, p], a[:, q]))
                if ga == 0 or abs(ga) <= D(10)**-100 * (al*be).sqrt():
                    continue
                done = False
                zeta = (be - al) / (2*ga)
                t = (1 if zeta >= 0 else -1) / (abs(zeta) + (1 + zeta*zeta).sqrt())
                c = 1 / (1 + t*t).sqrt()
                s = c * t
                a[:, p], a[:, q] = c*a[:, p] - s*a[:, q], s*a[:, p] + c*a[:, q]
        if done:
            break
    return sorted((float(sum(x*x for x in a[:, p]).sqrt()) for p in range(n)),
                  reverse=True)


CORES = {"2x2": [[1, .5], [-.25, 1]], "3x2": [[1, .5], [.5, -1], [.25, .125]],
         "2x3": [[1, .5, -.5], [.5, -1, .25]],
         "3x3": [[1, .5, .25], [-.5, 1, .5], [.25, -.5, 1]], "1x3": [[1, -.5, .25]],
         "3x2 full": [[1, .5], [.375, -1], [-.5, .25]],
         "3x3 full": [[1, .5, -.25], [-.5, 1, .75], [.375, -.25, 1]],
         "cauchy": [[1 / (1. + i + j) for j in (0, 1, 3)] for i in (0, 2, 3)]}


def minor_cond(c):
    """Worst condition number of any minor, which any scaling can bring out"""
    m, n = c.shape
    with np.errstate(divide="ignore"):
        return max(np.linalg.cond(c[np.ix_(r, q)]) for k in range(1, min(m, n) + 1)
                   for r in itertools.combinations(range(m), k)
                   for q in itertools.combinations(range(n), k))


def graded(ctx, core, scales, part, parts):
    """Rows and columns on very different scales"""
    c = np.array(CORES[core])
    m, n = c.shape
    cond = minor_cond(c)
    combos = list(itertools.product(itertools.product(scales, repeat=m),
                                    itertools.product(scales, repeat=n)))
    for i, (r, q) in enumerate(combos):
        if i % parts != part:
            continue
        a = np.array(r)[:, None] * c * np.array(q)
        ref = np.array(exact_sv(a))
        for strat, prec in STRATS:
            if prec != "f8":
                continue
            what = f"{strat} ({prec}) of {core} scaled by {r} and {q}"
            ctx.state(core, r, q, strat, prec)
            b = a.copy()
            try:
                res = run(ctx, b, strat)
            except Exception as exc:
                ctx.fail(f"{what}: raised {type(exc).__name__}: {exc}")
                continue
            s = verify(ctx, b, res, eps_of(prec), what)
            if s is None:
                continue
            s = s.astype(float)
            short = len(set(r if m >= n else q)) == 1
            if strat == "accurate" and (short or cond < 1e4):
                # Relative to the value itself, for any scaling if all minors are
                # well-conditioned, otherwise if scaled along the short axis only
                ctx.expect(s.size == ref.size, f"{what}: {s.size} singular values")
                if s.size == ref.size:
                    ctx.close(s, ref, 200 * EPS * ref * (1 if short else cond),
                              f"{what}: relative")
            else:
                full = np.zeros(ref.size)
                full[:s.size] = s
                ctx.close(full, ref, 100 * EPS * ref[0], f"{what}: absolute")
            ctx.trace()


def families(m, n):
    i, j = np.arange(m)[:, None], np.arange(n)[None, :]
    yield "hilbert", 1. / (i + j + 1)
    yield "cos", np.cos((i + .5) * (j + .3))
    yield "exp", np.exp(-i * j / max(m, n))
    yield "rank one", (i + 1.) * (1. / (j + 1))
    yield "rank two", np.cos(i) * np.sin(j + .5) + np.sin(i) * np.cos(2*j)
    yield "eye", 1. * (i == j)
    yield "decaying", np.cos((i + .5) * (j + .5)) * .3**j
    yield "zero rows", (i % 2) * np.cos(i * j + i + j)
    yield "upper", 1. * (i <= j)


def structured(ctx, m, n, strat, prec):
    dt, eps = dtype_of(prec), eps_of(prec)
    for name, a in families(m, n):
        if name == "upper" and prec == "dd":
            continue
        a = a.astype(dt)
        what = f"{strat} ({prec}) of {name} {m} x {n}"
        ctx.state(m, n, name, strat, prec)
        res = run(ctx, a, strat)
        s = verify(ctx, a, res, eps, what)
        if s is None:
            continue
        ref = np.linalg.svd(a.astype(float), compute_uv=False)
        full = np.zeros(ref.size)
        full[:s.size] = s.astype(float)
        ctx.close(full, ref, 100 * max(EPS, eps) * max(m, n) * max(amax(a), ref[0]),
                  f"{what}: singular values")
        # repeated, it is the same thing
        again = run(ctx, a.copy(), strat)
        for x, y in zip(res, again):
            ctx.expect(np.shape(x) == np.shape(y) and (x == y).all(),
                       f"{what}: not repeatable")
        # Hints
        k = min(m, n)
        for hint in sorted({1, 2, k // 2, k - 1, k, k + 1, 10 * k, k//4} - {0}):
            res = run(ctx, a, strat, hint)
            left = ref[hint:].max() if hint < k else 0.
            got = verify(ctx, a, res, eps, f"{what}, hint {hint}",
                         trunc=4 * np.sqrt(1. + 4 * k * max(m, n)) * left)
            if got is None:
                continue
            ctx.expect(got.size >= min(hint, (ref > 1e-14 * ref[0]).sum() if prec == "dd"
                                       else k), f"{what}, hint {hint}: {got.size} values")
            ctx.trace()
    ctx.sample(f"{strat} {prec}: structured {m} x {n}")


def degenerate(ctx):
    """Kernels of low rank, for which matrices are singular"""
    from .lib import sir
    s = sir()

    class Hints(s.kernel.AbstractSVEHints):
        segments_x = property(lambda self: np.linspace(-1, 1, 7))
        segments_y = property(lambda self: np.linspace(-1, 1, self.ny))
        ngauss = property(lambda self: 8)
        nsvals = property(lambda self: 10)

    class Kernel(s.kernel.AbstractKernel):
        xrange = yrange = property(lambda self: (-1, 1))
        is_centrosymmetric = property(lambda self: False)
        ypower = property(lambda self: 0)
        conv_radius = property(lambda self: 1)

        def __call__(self, x, y, x_plus=None, x_minus=None):
            return self.fn(x, y)

        def sve_hints(self, eps):
            hints = Hints()
            hints.ny = self.ny
            return hints

    # function, rank, singular values
    fns = {"one": (lambda x, y: 0*x*y + 1, [2.]),
           "product": (lambda x, y: x * y, [2/3]),
           "two": (lambda x, y: 1 + x * y, [2., 2/3]),
           "left": (lambda x, y: 3*x*x + 0*y, [np.sqrt(36/5)]),
           "three": (lambda x, y: 1 + x*y + (3*x*x - 1) * (3*y*y - 1), [2., 1.6, 2/3])}
    x = np.linspace(-1, 1, 9)
    for (name, (fn, sv)), ny in itertools.product(fns.items(), (3, 7, 12)):
        for prec in ("f8", "dd"):
            try:
                dt = dtype_of(prec)
            except Inapplicable as e:
                ctx.note(f"inapplicable: {e}")
                continue
            k = Kernel()
            k.fn, k.ny = fn, ny
            ctx.step(3)
            ctx.state(name, ny, prec)
            what = f"kernel {name}, {ny - 1} segments, {prec}"
            r = s.compute_sve(k, 1e-6, work_dtype=dt)
            part = r.s[r.s > 1e-8 * r.s[0]]
            ctx.close(part, sv, 1e-12, f"{what}: singular values")
            ctx.close((r.u(x).T * r.s) @ r.v(x), fn(x[:, None], x) + 0. * x, 1e-11,
                      f"{what}: expansion")
            ctx.trace()


def layouts(ctx):
    svd = modules()
    base = np.cos(np.arange(12.).reshape(4, 3)**2)
    wide = np.zeros((8, 9))
    wide[::2, ::3] = base
    rd = base.copy()
    rd.flags.writeable = False
    views = {"fortran": np.asfortranarray(base), "strided": wide[::2, ::3],
             "transposed": np.ascontiguousarray(base.T).T, "list": base.tolist(),
             "reversed": base[::-1, ::-1].copy()[::-1, ::-1], "readonly": rd,
             "swapped": base.astype(">f8")}
    ints = np.array([[1, 2], [3, 4], [0, 5]])
    for strat in ("fast", "default", "accurate"):
        for name, a in views.items():
            ctx.step()
            ctx.state(strat, name)
            u, s, v = svd.compute(a, strategy=strat)
            verify(ctx, base, (u, s, v), EPS, f"{strat} of {name}")
            ctx.trace()
        for dt in (int, np.int32, bool, np.uint8):
            ctx.step()
            a = ints.astype(dt)
            res = svd.compute(a, strategy=strat)
            verify(ctx, a.astype(float), res, EPS, f"{strat} of {np.dtype(dt)}")
            ctx.trace()
        ctx.raises(lambda: svd.compute(base[0], strategy=strat), f"{strat} of a vector")
        ctx.raises(lambda: svd.compute(np.zeros((2, 2, 2)), strategy=strat),
                   f"{strat} of a tensor")
    for bad in ("", "FAST", "jacobi", None, 3):
        ctx.raises(lambda: svd.compute(base, strategy=bad), f"strategy {bad!r}")


def histories(ctx, depth, first):
    """Result does not depend on what was decomposed before, nor on random state"""
    mats = [np.cos(np.arange(30.).reshape(6, 5)**2), 1. / (1 + np.add.outer(
        np.arange(4), np.arange(7))), np.array([[1., 2.], [2., 4.]])]
    letters = [(k, st) for k in range(3) for st in ("fast", "default", "accurate")]
    ref = {}
    for k, st in letters:
        ref[k, st] = run(ctx, mats[k], st)
    for tail in itertools.product(letters, repeat=depth - 1):
        np.random.seed(len(tail) + tail[-1][0] if tail else 0)
        for k, st in (letters[first],) + tail:
            res = run(ctx, mats[k], st)
            same = all((x == y).all() for x, y in zip(res, ref[k, st]))
            if not ctx.expect(same, f"{st} of matrix {k} differs after other "
                              f"decompositions: {letters[first]}, {tail}"):
                return
        ctx.state(first, tail)
        ctx.trace()


def tasks(tier):
    quick = tier == "quick"
    to = dict(timeout=400 if quick else 3600)
    out = [Task(layouts), Task(degenerate)]
    shapes = [(m, n) for m in range(1, 4) for n in range(1, 4)] + [
        (1, 4), (4, 1), (1, 5), (5, 1)]
    if not quick:
        shapes += [(2, 4), (4, 2), (2, 5), (5, 2)]
    for strat, prec in STRATS:
        for m, n in shapes:
            parts = {9: 8, 10: 16, 8: 4}.get(m*n, 1)
            for p in range(parts):
                out.append(Task(small, m, n, (-1, 0, 1), p, parts, strat, prec,
                                weight=m*n/parts, **to))
        if not quick:
            for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
                out.append(Task(small, m, n, (-2, -1, 0, 1, 2), 0, 1, strat, prec, **to))
        sizes = [(1, 1), (1, 7), (7, 1), (2, 3), (3, 2), (5, 5), (8, 8), (10, 4), (4, 10),
                 (20, 30), (30, 20), (40, 60)]
        if not quick:
            sizes += [(60, 40), (64, 64), (100, 150), (200, 100)]
        for m, n in sizes:
            if prec == "dd" and max(m, n) > (30 if quick else 100):
                continue
            out.append(Task(structured, m, n, strat, prec, weight=m*n/100, **to))
    for core in CORES:
        parts = 8 if core[:3] == "3x3" or core == "cauchy" else 2
        for p in range(parts):
            out.append(Task(graded, core, (1., 1e-6, 1e-12), p, parts, weight=5, **to))
            if core[3:] or not quick:
                out.append(Task(graded, core, (1., 1e-15, 1e-30), p, parts, weight=5, **to))
    for i in range(9):
        out.append(Task(histories, 3 if quick else 4, i, weight=3, **to))
    return out
