"""C01: kernels equal their closed form on the whole evaluation lattice.

Space: kernel x cutoff x (x-lattice x y-lattice, containing the edges, zero,
denormals and both neighbours of every branch point of the evaluation) x call
convention (array/scalar/broadcast/integer, distances given or not) x dtype x
symmetrisation.  Oracle: closed form in 80-bit arithmetic.
"""
import numpy as np
from .core import Task
from .lib import LD, EPS, LDEPS, REF, kernel, to_ld, ddouble, sir

BOUNDS = {"quick": "13 cutoffs, 33 x 60-point lattices, all call conventions",
          "thorough": "27 cutoffs, refined lattices (4x), all call conventions"}
ASSUMPTIONS = ["80-bit long double exp/expm1 are accurate to a few ulps",
               "rounding accuracy means relative error (8 + 4*exponent)*eps"]

LAMS_Q = [1e-3, .5, 1, 2, 10, 42., 170., 1e3, 1e4, 1e5, 1e6, 1e8, 10]
LAMS_T = sorted(set(LAMS_Q + [1e-6, .1, 3.5, 7, 20, 60, 85, 100, 169, 171, 400,
                              1e7, 1e10, 1e12]))


def x_lattice(tier):
    m = 8 if tier == "quick" else 32
    base = [i / m for i in range(m + 1)]
    base += [1 - 2.**-53, 1 - 2.**-30, 1 - 1e-5, .999, 1e-3, 1e-9, 1e-17, 1e-300]
    base = sorted(set(base))
    return np.array(sorted(set([-b for b in base] + base)))


def y_lattice(lam, tier):
    m = 6 if tier == "quick" else 24
    base = [i / m for i in range(m + 1)]
    base += [1 - 2.**-53, 1e-3, 1e-9, 1e-17, 1e-300]
    # neighbours of the points where evaluation may switch formula
    for v in (1e-200, 1e-16, 1e-8, 1., 2., 4., 36., 84., 170., 700., 745., 1400.):
        y0 = v / lam
        base += [y0, np.nextafter(y0, 0), np.nextafter(y0, 1)]
    base = sorted({float(b) for b in base if 0 <= b <= 1})
    return np.array(sorted(set([-b for b in base] + base)))


def tol(val, ex, eps):
    val = np.abs(np.asarray(val, LD))
    return (10 + 4 * np.asarray(ex, LD)) * eps * val + LD(1e-300)


def full(ctx, name, lam, tier):
    """Unsymmetrised kernel: arrays, scalars, distances, dtypes"""
    K = kernel(name, lam)
    ref = REF[name]
    x = x_lattice(tier)
    y = y_lattice(lam, tier)
    X, Y = x[:, None], y[None, :]
    up, um = (1 + LD(1) * X) / 2, (1 - LD(1) * X) / 2
    want, ex = ref(lam, up, um, Y)
    dd = ddouble()

    dtypes = [(np.float64, EPS)]
    if lam <= 1e6:
        dtypes += [(np.float32, float(np.finfo(np.float32).eps))]
    if dd is not None:
        dtypes += [(np.dtype(dd), 4 * LDEPS)]
    for dtype, eps in dtypes:
        with np.errstate(all="ignore"):
            xs, ys = X.astype(dtype), Y.astype(dtype)
        if dtype is np.float32:
            xl, yl = to_ld(xs), to_ld(ys)
            w, e = ref(lam, (1 + xl) / 2, (1 - xl) / 2, yl)
            extra = 1e-36
        else:
            w, e, extra = want, ex, 0
        # exponents are formed from rounded sums 1 +- x only if x is not
        # representable; all conventions below must agree with the closed form
        convs = {"plain": (None, None), "both": (1 + xs, 1 - xs),
                 "plus": (1 + xs, None), "minus": (None, 1 - xs)}
        for conv, (xp, xm) in convs.items():
            ctx.state(name, lam, str(dtype), conv, len(x), len(y))
            with np.errstate(all="ignore"):
                got = to_ld(K(xs, ys, xp, xm))
            ctx.step()
            ctx.trace(got.size)
            # forming 1-x in the working precision perturbs the exponent
            # by eps*Lambda*|y| at most
            slack = w * np.abs(LD(lam) * Y) * eps
            ctx.close(got, w, tol(w, e, eps) + slack + extra,
                      f"{name} L={lam:g} {np.dtype(dtype).name} {conv}")
            ctx.expect(np.isfinite(got).all(), f"{name} L={lam:g}: not finite")
    ctx.sample(f"K(x={x[3]!r}, y={y[5]!r}) = {want[3, 5]!r}")

    # Scalars, 0-d, lists, flat broadcasting: each point on its own
    xs = x[::3] if tier == "quick" else x[::2]
    ys = y[::4] if tier == "quick" else y[::3]
    for xi in list(xs) + [1., -1., 0.]:
        for yi in list(ys) + [1., -1., 0.]:
            w, e = ref(lam, (1 + LD(xi)) / 2, (1 - LD(xi)) / 2, LD(yi))
            t = tol(w, e, EPS) + w * abs(LD(lam) * LD(yi)) * EPS
            ctx.state(name, lam, "scalar", xi, yi)
            for what, a, b in [("float", float(xi), float(yi)),
                               ("0-d", np.array(xi), np.array(yi)),
                               ("list", [float(xi)], float(yi))]:
                got = K(a, b)
                ctx.step()
                ctx.trace()
                wt = np.broadcast_to(w, np.broadcast(a, b).shape)
                ctx.close(to_ld(got), wt, t, f"{name} L={lam:g} x={xi!r} "
                          f"y={yi!r} as {what}")
    for xi in (-1, 0, 1):
        for yi in (-1, 0, 1):
            w, e = ref(lam, (1 + LD(xi)) / 2, (1 - LD(xi)) / 2, LD(yi))
            ctx.state(name, lam, "int", xi, yi)
            for a, b in [(xi, yi), (np.array([xi, xi]), yi),
                         (np.array([[xi]]), np.array([yi, yi, yi]))]:
                got = K(a, b)
                ctx.step()
                ctx.trace()
                ctx.close(to_ld(got), np.broadcast_to(w, np.broadcast(a, b).shape),
                          tol(w, e, EPS), f"{name} L={lam:g} integers {xi},{yi}")
    # mixed shapes
    for sx, sy in [((2, 1, 3), (4, 1)), ((0,), (1,)), ((3,), ()), ((), (2, 2))]:
        a = np.resize(x[1::5], sx)
        b = np.resize(y[2::7], sy)
        got = to_ld(K(a, b))
        w, e = ref(lam, (1 + LD(1) * a) / 2, (1 - LD(1) * a) / 2, b)
        ctx.state(name, lam, "shape", sx, sy)
        ctx.step()
        ctx.trace()
        ctx.close(got, w, tol(w, e, EPS) + w * np.abs(LD(lam) * b) * EPS,
                  f"{name} L={lam:g} shapes {sx}x{sy}")


def distances(ctx, name, lam, tier):
    """Distances to the edge are honoured where x rounds to the edge"""
    K = kernel(name, lam)
    ref = REF[name]
    y = y_lattice(lam, tier)
    ds = [10.**(-k) for k in ((17, 19, 22, 30, 100) if tier == "quick"
                              else range(17, 60, 2))]
    dd = ddouble()
    dtypes = [np.float64] + ([np.dtype(dd)] if dd is not None else [])
    for d in ds:
        for edge in (-1., 1.):
            up = LD(d) / 2 if edge < 0 else LD(1)
            um = LD(d) / 2 if edge > 0 else LD(1)
            w, e = ref(lam, up, um, y)
            # at the other edge the exponent is fully resolved only through
            # the distance: closed form to rounding accuracy
            for dtype in dtypes:
                xs = np.full(1, edge).astype(dtype)
                xp = np.full(1, d if edge < 0 else 2.).astype(dtype)
                xm = np.full(1, d if edge > 0 else 2.).astype(dtype)
                ys = y.astype(dtype)
                got = to_ld(K(xs, ys, xp, xm))
                ctx.state(name, lam, "dist", d, edge, str(dtype))
                ctx.step()
                ctx.trace(y.size)
                eps = EPS if dtype is np.float64 else 8 * LDEPS
                ctx.close(got, w, tol(w, e, eps) + np.abs(w) * 4 * LDEPS,
                          f"{name} L={lam:g} distance {d:g} from {edge:g}")
    # distances must take precedence over the point: amplify so that double
    # precision can see the difference
    for d in (1e-3, 1e-5, 1e-8):
        for edge in (-1., 1.):
            x0 = edge - np.sign(edge) * d
            up = LD(d) / 2 if edge < 0 else (2 - LD(d)) / 2
            um = LD(d) / 2 if edge > 0 else (2 - LD(d)) / 2
            w, e = ref(lam, up, um, y)
            args = [(x0, d if edge < 0 else None, d if edge > 0 else None)]
            for xa, xp, xm in args:
                got = K(np.full(1, xa), y, None if xp is None else np.array([xp]),
                        None if xm is None else np.array([xm]))
                ctx.state(name, lam, "dist1", d, edge)
                ctx.step()
                ctx.trace(y.size)
                sgn = y > 0 if edge < 0 else y < 0
                ctx.close(to_ld(got)[sgn], w[sgn], tol(w, e, EPS)[sgn],
                          f"{name} L={lam:g} distance {d:g} only, edge {edge:g}")
    # the same for the symmetrised kernels: distance to the right edge
    for sign in (1, -1):
        R = K.get_symmetrized(sign)
        yp = y[y >= 0]
        for d in ds:
            for dtype in dtypes:
                one = np.ones(1).astype(dtype)
                xm = np.full(1, d).astype(dtype)
                got = to_ld(R(one, yp.astype(dtype), one, xm))
                w, sc = ref_reduced(name, lam, sign, LD(1), LD(d), yp)
                ctx.state(name, lam, "rdist", d, sign, str(dtype))
                ctx.step()
                ctx.trace(yp.size)
                eps = EPS if dtype is np.float64 else 32 * LDEPS
                vx = LD(lam) * yp * LD(d)
                ctx.close(got, w, (30 + 4 * vx) * eps * np.abs(w)
                          + 4 * eps * sc + LD(1e-300),
                          f"{name} L={lam:g} sign={sign} distance {d:g}")


def ref_reduced(name, lam, sign, x, xm, y):
    """K(x,y) + sign*K(x,-y) without cancellation; also |K+|+|K-|"""
    v = LD(lam) * np.asarray(y, LD)
    x = np.asarray(x, LD)
    big = np.exp(-v * xm / 2)                      # K(x,-y) numerator
    if sign == 1:
        num = big * (1 + np.exp(-v * x))
    else:
        num = big * np.expm1(-v * x)
    if name == "logistic":
        den = 1 + np.exp(-v)
        res = num / den
        scale = big * (1 + np.exp(-v * x)) / den
    else:
        safe = np.where(v == 0, LD(1), v)
        fac = np.where(v == 0, LD(1), safe / -np.expm1(-safe)) / LD(lam)
        res = num * fac
        scale = big * (1 + np.exp(-v * x)) * fac
    return res, scale


def reduced(ctx, name, lam, tier):
    K = kernel(name, lam)
    dd = ddouble()
    x = x_lattice(tier)
    y = y_lattice(lam, tier)
    x, y = x[x >= 0], y[y >= 0]
    # neighbours of x*v/2 == 1, where the odd kernels may switch formula
    xc = [2 / (lam * yi) for yi in y if yi > 0 and 2 / (lam * yi) < 1]
    x = np.array(sorted(set(x) | {float(f(c)) for c in xc[::5] for f in (
        lambda c: c, lambda c: np.nextafter(c, 0), lambda c: np.nextafter(c, 1))}))
    X, Y = x[:, None], y[None, :]
    v_half = LD(lam) * Y / 2
    for sign in (1, -1):
        R = K.get_symmetrized(sign)
        w, scale = ref_reduced(name, lam, sign, X, 1 - LD(1) * X, Y)
        dtypes = [(np.float64, EPS)]
        if dd is not None:
            dtypes.append((np.dtype(dd), 4 * LDEPS))
        for dtype, eps in dtypes:
            xs, ys = X.astype(dtype), Y.astype(dtype)
            ex = v_half * (1 - X) + v_half * X
            # relative accuracy, except that for huge exponents (where the
            # kernel is below 1e-36 of its maximum in the cancelling region)
            # only accuracy relative to both terms is promised
            t = (20 + 8 * ex) * eps * np.abs(w) + scale * LD(1e-100) + LD(1e-300)
            t = np.where(v_half >= 80, t + (10 + 8 * ex) * eps * scale, t)
            for conv, (xp, xm) in {"plain": (None, None), "both": (xs, 1 - xs),
                                   "plus": (xs, None),
                                   "minus": (None, 1 - xs)}.items():
                with np.errstate(all="ignore"):
                    got = to_ld(R(xs, ys, xp, xm))
                ctx.state(name, lam, sign, str(dtype), conv, len(x))
                ctx.step()
                ctx.trace(got.size)
                ctx.close(got, w, t, f"{name} L={lam:g} sign={sign} "
                          f"{np.dtype(dtype).name} {conv}")
        xs = x[::4]
        ys = y[::4]
        for xi in xs:
            for yi in ys:
                wi, sc = ref_reduced(name, lam, sign, LD(xi), 1 - LD(xi), LD(yi))
                ctx.state(name, lam, sign, "scalar", xi, yi)
                for conv in ("plain", "both"):
                    with np.errstate(all="ignore"):
                        got = R(float(xi), float(yi)) if conv == "plain" else \
                            R(float(xi), float(yi), float(xi), float(1 - xi))
                    ctx.step()
                    ctx.trace()
                    vh = LD(lam) * LD(yi) / 2
                    t = (20 + 8 * vh) * EPS * abs(wi) + sc * LD(1e-100) + LD(1e-300)
                    if vh >= 80:
                        t += (10 + 8 * vh) * EPS * sc
                    ctx.close(to_ld(got), wi, t, f"{name} L={lam:g} sign={sign} "
                              f"scalar {conv} x={xi!r} y={yi!r}")
        # consistency with the full kernel in extended precision
        if dd is not None:
            xs, ys = X.astype(dd), Y.astype(dd)
            a = to_ld(K(xs, ys)) + sign * to_ld(K(xs, -ys))
            ctx.step(2)
            ctx.close(to_ld(R(xs, ys, xs, 1 - xs)), a,
                      (30 + 16 * v_half) * 4 * LDEPS * scale + LD(1e-300),
                      f"{name} L={lam:g} sign={sign} against full kernel")


def weights(ctx, lam):
    s = sir()
    y = y_lattice(lam, "quick")
    y = y[np.abs(y) > 1e-290]
    ctx.state("weights", lam)
    K = s.LogisticKernel(lam)
    ctx.step(4)
    ctx.trace(4 * y.size)
    ctx.close(K.weight_func('F')(y), np.ones_like(y), 0, "logistic weight F")
    want = 1 / np.tanh(LD(lam) * y.astype(LD) / 2)
    # tanh(1e-300) etc. is not finite in double
    ok = np.abs(want) < 1e300
    with np.errstate(all="ignore"):
        ctx.close(to_ld(K.weight_func('B')(y))[ok], want[ok],
                  8 * EPS * np.abs(want)[ok], "logistic weight B")
    R = s.RegularizedBoseKernel(lam)
    ctx.close(R.weight_func('B')(y), 1 / y, 4 * EPS * np.abs(1 / y),
              "regularized weight B")
    ctx.raises(lambda: R.weight_func('F'), "regularized weight F", exc=ValueError)
    for k in (K, R):
        ctx.expect(tuple(k.xrange) == (-1, 1) and tuple(k.yrange) == (-1, 1),
                   "kernel ranges")
        ctx.expect(k.is_centrosymmetric, "kernel is centrosymmetric")
        for yi in (.25, -.5, 1.):
            for stat in ('F', 'B') if k is K else ('B',):
                f = k.weight_func(stat)
                want = f(np.array([yi]))[0]
                ctx.step(2)
                ctx.state("weights", lam, stat, yi, type(k).__name__)
                ctx.close(f(yi), want, 4 * EPS * abs(want), "scalar weight")
                ctx.close(f(np.array([[yi, yi]])), [[want, want]],
                          4 * EPS * abs(want), "array weight")
    ctx.expect(K.ypower == 0 and R.ypower == 1, "ypower")


def custom(ctx):
    """User-defined kernels inherit the generic symmetrisation"""
    s = sir()

    class Gaussish(s.kernel.AbstractKernel):
        lambda_ = 3.

        def __call__(self, x, y, x_plus=None, x_minus=None):
            x, y = np.asarray(x), np.asarray(y)
            return np.exp(-(x - y)**2) + .1 * x * y

        @property
        def is_centrosymmetric(self):
            return True

    K = Gaussish()
    g = np.linspace(0, 1, 17)
    for sign in (1, -1):
        R = K.get_symmetrized(sign)
        for xp in (None, g[:, None]):
            for xm in (None, 1 - g[:, None]):
                ctx.state("custom", sign, xp is None, xm is None)
                ctx.step()
                ctx.trace(g.size**2)
                ctx.close(R(g[:, None], g[None, :], xp, xm),
                          K(g[:, None], g[None, :]) + sign * K(g[:, None], -g[None, :]),
                          1e-15, f"custom kernel sign={sign}")
        ctx.raises(lambda: R.get_symmetrized(1), "symmetrising twice")
        ctx.expect(tuple(R.xrange) == (0, 1) and tuple(R.yrange) == (0, 1),
                   "reduced ranges")
    y = np.linspace(-1, 1, 7)
    for stat in 'FB':
        ctx.close(s.kernel.AbstractKernel.weight_func(K, stat)(y), np.ones(7), 0,
                  "default weight")


def tasks(tier):
    res = [Task(custom)]
    for lam in (LAMS_Q if tier == "quick" else LAMS_T):
        for name in ("logistic", "regbose"):
            res.append(Task(full, name, float(lam), tier))
            res.append(Task(reduced, name, float(lam), tier))
            res.append(Task(distances, name, float(lam), tier))
        res.append(Task(weights, float(lam)))
    res += [Task(full, n, 10, tier) for n in ("logistic", "regbose")]
    return res
