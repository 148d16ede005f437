"""C16: Discrete Lehmann representation is exact at its poles and round-trips.

All pole lists over a critical set (zero, next to zero, interior, band edges, repeated)
and all default pole sets for every basis size; every function at every critical time
and frequency against the closed form of its pole; the linear maps from and to IR on
all unit vectors, which decides them for every vector; all axes and array shapes.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis, LD, EPS

BOUNDS = {
    "quick": "{F, B} x beta in {0.5, 7, 200} x Lambda in {0.5, 10, 42}; all ordered pole "
             "lists of <= 2 with repetition, all subsets of 3..7 of a critical set of 7, in all "
             "orders for 3; "
             "default poles for sizes 1..L; 11 times, 29 frequencies; unit vectors; all "
             "axes of arrays up to three axes x {real, complex}",
    "thorough": "beta up to 1e4, Lambda up to 1e5, ordered lists of <= 3"}
ASSUMPTIONS = ["underlying basis correct (C04, C05)",
               "coefficients from IR are only demanded for resolved functions"]

CRIT = [-1., -.5, -1e-8, 0., 1e-300, .3, 1.]
TAUS = [0., 1e-300, 1e-9, .01, .3, .5, .77, .99, 1 - 1e-9, 1 - EPS/2, 1.]
NS = [0, 1, 2, 3, 4, 5, 6, 10, 11, 50, 1000, 10**6, 2**31, 2**40, 2**52]


def ref_tau(beta, w, tau):
    """-exp(-tau w)/(1 + exp(-beta w)) for (w, tau), stable, extended precision"""
    w = np.asarray(w, LD)[:, None]
    tau = np.asarray(tau, LD)[None, :]
    beta = LD(beta)
    return -np.exp(-np.abs(w) * np.where(w >= 0, tau, beta - tau)) / (
        1 + np.exp(-beta * np.abs(w)))


def ref_hat(stat, beta, w, n):
    w = np.asarray(w, LD)[:, None]
    iv = 1j * np.asarray(n, LD)[None, :] * LD(np.pi)/LD(beta)
    denom = iv - w
    with np.errstate(all="ignore"):
        if stat == "F":
            return (1/denom).astype(complex)
        weight = np.tanh(LD(beta)/2 * w) + 0 * denom
        return np.where(denom == 0, -LD(beta)/2, weight/denom).astype(complex)


def freqs(stat):
    n = np.array(sorted({s * k for k in NS for s in (1, -1)}), dtype=np.int64)
    n = n - n % 2
    return np.unique(n + (1 if stat == "F" else 0))


class _Ns:
    @property
    def DiscreteLehmannRepresentation(self):
        from sparse_ir import dlr
        return dlr.DiscreteLehmannRepresentation

    def __getattr__(self, name):
        return getattr(sir(), name)


ns = _Ns()


def functions(ctx, d, stat, beta, wmax, poles, what):
    """Every function is the propagator of its pole"""
    L = len(poles)
    lam = beta * wmax
    ctx.step(5)
    ok = ctx.expect(d.size == L and d.shape == (L,), f"{what}: size {d.size}")
    ctx.expect(np.array_equal(d.sampling_points, poles), f"{what}: poles")
    if not ok:
        return
    tau = beta * np.array(TAUS)
    want = ref_tau(beta, poles, tau).astype(float)
    tol = (10 + 10 * lam) * EPS * np.abs(want) + 1e-300
    got = d.u(tau)
    ctx.close(got, want, tol, f"{what}: u")
    n = freqs(stat)
    wanth = ref_hat(stat, beta, poles, n)
    tolh = 20 * EPS * np.abs(wanth) + 1e-300
    goth = d.uhat(n)
    ctx.close(goth, wanth, tolh, f"{what}: uhat")
    # other forms of arguments
    for j in (0, 4, 10):
        ctx.step(2)
        ctx.close(d.u(float(tau[j])), want[:, j], tol[:, j], f"{what}: u of number")
        ctx.close(d.uhat(int(n[j])), wanth[:, j], tolh[:, j], f"{what}: uhat of number")
    ctx.close(d.u(tau[:10].reshape(2, 5)), want[:, :10].reshape(L, 2, 5),
              tol[:, :10].reshape(L, 2, 5), f"{what}: u of 2-D")
    ctx.close(d.uhat(n[:6].reshape(3, 2)), wanth[:, :6].reshape(L, 3, 2),
              tolh[:, :6].reshape(L, 3, 2), f"{what}: uhat of 2-D")
    ctx.close(d.u(list(tau[:3])), want[:, :3], tol[:, :3], f"{what}: u of list")
    ctx.close(d.uhat(list(map(int, n[:3]))), wanth[:, :3], tolh[:, :3],
              f"{what}: uhat of list")
    ctx.trace()


def conversion(ctx, d, b, poles, what, full=False):
    """Conversion from and to IR on all unit vectors, which is a linear map"""
    L, P = b.size, len(poles)
    F = -b.s[:, None] * b.v(np.asarray(poles))
    ctx.step(3)
    sc = b.s[0] * (1 + np.abs(b.v(np.asarray(poles))).max())
    to = d.to_IR(np.eye(P))
    ctx.close(to, F, 1e-13 * sc, f"{what}: to_IR")
    fr = d.from_IR(np.eye(L))
    if not ctx.expect(fr.shape == (P, L) and np.isfinite(fr).all(),
                      f"{what}: from_IR {fr.shape}, finite {np.isfinite(fr).all()}"):
        return
    # pole sum -> IR -> poles -> IR is again the same; for (almost) repeated poles,
    # weights are large and cancel, which costs accuracy.
    rt = 3e-11 * sc
    if np.diff(np.sort(poles)).min(initial=1) < 1e-6 * b.wmax:
        rt = 1e-4 * sc
    back = d.to_IR(d.from_IR(F))
    ctx.close(back, F, rt, f"{what}: pole sum from IR again")
    for i in range(P):
        c = np.zeros(P)
        c[i] = 1
        ctx.close(d.to_IR(d.from_IR(d.to_IR(c))), F[:, i], rt,
                  f"{what}: vector of pole {i} from IR again")
    ctx.trace()


def attributes(ctx, d, b, what):
    ctx.step(6)
    ctx.expect(d.basis is b, f"{what}: basis")
    ctx.expect(d.statistics == b.statistics and d.beta == b.beta and d.wmax == b.wmax
               and d.lambda_ == b.lambda_ and d.accuracy == b.accuracy,
               f"{what}: parameters")
    ctx.expect(np.shape(d.significance) == (d.size,), f"{what}: significance")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in (None, 2, b.size):
            ctx.expect(np.array_equal(d.default_tau_sampling_points(npoints=k),
                                      b.default_tau_sampling_points(npoints=k)),
                       f"{what}: sampling times")
            for po in (False, True):
                ctx.expect(np.array_equal(
                    d.default_matsubara_sampling_points(npoints=k, positive_only=po),
                    b.default_matsubara_sampling_points(npoints=k, positive_only=po)),
                    f"{what}: sampling frequencies")


def pole_lists(ctx, stat, beta, lam, depth):
    s = ns
    wmax = lam / beta
    b = basis(stat, beta, wmax, 1e-8)
    lists = [p for k in range(1, depth + 1) for p in itertools.product(CRIT, repeat=k)]
    lists += [p for k in range(depth + 1, len(CRIT) + 1)
              for p in itertools.combinations(CRIT, k)]
    # poles in any order
    lists += [q for p in itertools.combinations(CRIT, 3)
              for q in itertools.permutations(p) if q != p and depth < 3]
    lists += [p[k:] + p[:k] for p in (tuple(CRIT), tuple(CRIT[::-1]))
              for k in range(len(CRIT)) if p[k:] + p[:k] != tuple(CRIT)]
    for p in lists:
        poles = np.clip(wmax * np.array(p), -b.wmax, b.wmax)
        what = f"poles {p}"
        ctx.state(stat, beta, lam, p)
        ctx.step()
        d = s.DiscreteLehmannRepresentation(b, poles)
        functions(ctx, d, stat, beta, wmax, poles, what)
        conversion(ctx, d, b, poles, what)
        if len(p) == 1:
            attributes(ctx, d, b, what)
            # list instead of array
            d = s.DiscreteLehmannRepresentation(b, list(map(float, poles)))
            functions(ctx, d, stat, beta, wmax, poles, what)
        if len(ctx.failures) > 15:
            return
    ctx.sample(f"{len(lists)} pole lists")


def default_poles(ctx, stat, beta, lam, eps):
    """Default poles for each size: IR -> DLR -> propagator"""
    s = ns
    wmax = lam / beta
    top = basis(stat, beta, wmax, eps)
    for size in range(1, top.size + 1):
        b = basis(stat, beta, wmax, eps, max_size=size)
        what = f"default poles, size {size}"
        ctx.state(stat, beta, lam, eps, size)
        ctx.step()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = s.DiscreteLehmannRepresentation(b)
            poles = b.default_omega_sampling_points()
        ctx.expect(poles.size == size, f"{what}: {poles.size} poles")
        functions(ctx, d, stat, beta, wmax, poles, what)
        conversion(ctx, d, b, poles, what)
        attributes(ctx, d, b, what)
        # Any other pole is represented to the accuracy of the basis
        w0 = wmax * np.array([-1, -.77, -.31, -1e-3, 0, .1, .5, .93, 1])
        gl = -b.s[:, None] * b.v(np.clip(w0, -b.wmax, b.wmax))
        c = d.from_IR(gl)
        ctx.step(3)
        tau = beta * np.linspace(0, 1, 41)
        want = ref_tau(beta, w0, tau).astype(float)
        acc = b.accuracy
        tol = (30 * acc + 1e-13) * np.sqrt(lam + 1) * np.abs(want).max() * size
        ctx.close(c.T @ d.u(tau), want, tol, f"{what}: propagators in time")
        n = freqs(stat)
        wanth = ref_hat(stat, beta, w0, n)
        tolh = (30 * acc + 1e-13) * np.sqrt(lam + 1) * beta * size
        ctx.close(c.T @ d.uhat(n), wanth, tolh, f"{what}: propagators in frequency")
        # IR -> DLR -> IR
        sv = np.linalg.svd(d.to_IR(np.eye(size)), compute_uv=False)
        ctx.close(d.to_IR(d.from_IR(gl)), gl, 1e-10 * b.s[0] * (1 + np.abs(
            b.v(w0)).max()), f"{what}: round trip")
        ctx.trace()


def axes(ctx, stat, beta, lam):
    """Conversion along each axis is conversion of each vector"""
    s = ns
    wmax = lam / beta
    b = basis(stat, beta, wmax, 1e-5)
    L = b.size
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = [s.DiscreteLehmannRepresentation(b),
              s.DiscreteLehmannRepresentation(b, wmax * np.array([-.9, 0, .4])),
              s.DiscreteLehmannRepresentation(b, wmax * np.linspace(-1, 1, L + 2))]
    for d in ds:
        P = d.size
        for fwd, nin, nout, name in ((d.to_IR, P, L, "to_IR"), (d.from_IR, L, P, "from_IR")):
            ref = fwd(np.eye(nin))
            sc = np.abs(ref).max()
            for ndim in (1, 2, 3, 4):
                for axis in range(-ndim, ndim):
                    for dtype in (float, complex, np.float32, int):
                        shape = [2, 3, 1, 2][:ndim]
                        shape[axis] = nin
                        a = (np.arange(np.prod(shape)).reshape(shape) % 5 + 1.)
                        if dtype is complex:
                            a = a * (1 + .5j)
                        a = a.astype(dtype)
                        ctx.state(P, name, ndim, axis, dtype)
                        ctx.step()
                        want = np.moveaxis(np.tensordot(ref, a, (1, axis)), 0, axis)
                        got = fwd(a, axis)
                        tol = 1e-13 * sc * 10 * nin if dtype is not np.float32 \
                            else 1e-6 * sc * 10 * nin
                        ctx.close(got, want, tol, f"{name}({ndim}-D, axis={axis})")
                        if axis == 0:
                            ctx.close(fwd(a), want, tol, f"{name}({ndim}-D)")
                        ctx.close(fwd(np.asfortranarray(a), axis=axis), want, tol,
                                  f"{name}({ndim}-D Fortran, axis={axis})")
                        ctx.trace()
                    for wrong in (nin - 1, nin + 1):
                        bad = [2, 3, 1, 2][:ndim]
                        bad[axis] = wrong
                        ctx.raises(lambda: fwd(np.ones(bad), axis),
                                   f"{name}, {wrong} instead of {nin} elements")


def samplings(ctx, stat, beta, lam):
    """Sparse sampling on pole representation"""
    s = ns
    wmax = lam / beta
    b = basis(stat, beta, wmax, 1e-6)
    for poles in (wmax * np.array([-.9, 0, .4]), wmax * np.array([0.]),
                  wmax * np.array([-1, -.5, .1, 1])):
        d = s.DiscreteLehmannRepresentation(b, poles)
        g = np.cos(1. + np.arange(poles.size))
        ctx.step(4)
        ctx.state(stat, beta, lam, poles.size)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tau = b.default_tau_sampling_points()
            st = s.TauSampling(d)
            ctx.expect(np.array_equal(st.sampling_points, tau), "default times")
            want = g @ ref_tau(beta, poles, tau).astype(float)
            ctx.close(st.evaluate(g), want, 1e-12, "evaluate in time")
            ctx.close(st.fit(want), g, 1e-9, "fit in time")
            wn = b.default_matsubara_sampling_points()
            sm = s.MatsubaraSampling(d)
            ctx.expect(np.array_equal(sm.sampling_points, wn), "default frequencies")
            want = g @ ref_hat(stat, beta, poles, wn)
            ctx.close(sm.evaluate(g), want, 1e-12 * beta, "evaluate in frequency")
            ctx.close(sm.fit(want), g, 1e-9, "fit in frequency")
            sp = s.MatsubaraSampling(d, positive_only=True)
            ctx.close(sp.fit(sp.evaluate(g)), g, 1e-9, "fit in positive frequencies")
        ctx.trace()


def restrictions(ctx):
    s = ns
    b = basis("B", 2., 5., 1e-6, "regbose")
    ctx.raises(lambda: s.DiscreteLehmannRepresentation(b), "regularized kernel")
    ctx.raises(lambda: s.DiscreteLehmannRepresentation(b, [.1]), "regularized kernel")
    for stat in "FB":
        b = basis(stat, 2., 5., 1e-6)
        d = s.DiscreteLehmannRepresentation(b, [.1, 1., -5.])
        for w in (5.1, -6, np.nan, np.inf):
            for pos in range(3):
                p = [.1, 1., -5.]
                p[pos] = w
                ctx.raises(lambda: s.DiscreteLehmannRepresentation(b, p), f"poles {p}")
        for tau in (-.1, 2.1, np.nan):
            for x in (tau, [1, tau], [[tau, 1]]):
                if tau == tau:
                    ctx.raises(lambda: d.u(x), f"u({x})")
        for n in (.5, 1 - (stat == "F"), np.nan):
            good = int(stat == "F")
            for x in (n, [good, n], [[n, good]]):
                ctx.raises(lambda: d.uhat(x), f"{stat}: uhat({x})")


def tasks(tier):
    quick = tier == "quick"
    out = [Task(restrictions)]
    to = 240 if quick else 3600
    for stat in "FB":
        for beta in ([.5, 7., 200.] if quick else [.01, .5, 1., 7., 200., 1e4]):
            for lam in ([.5, 10., 42.] if quick else [.5, 10., 42., 1e3, 1e5]):
                out.append(Task(pole_lists, stat, beta, lam, 2 if quick else 3,
                                weight=lam, timeout=to))
                for eps in (1e-4, 1e-8):
                    out.append(Task(default_poles, stat, beta, lam, eps, timeout=to,
                                    weight=lam))
            out.append(Task(axes, stat, beta, 10., timeout=to))
            out.append(Task(samplings, stat, beta, 10., timeout=to))
    return out
