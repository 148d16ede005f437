"""C02: the singular value expansion reproduces the kernel.

Space: kernel x cutoff x accuracy target x expansion strategy x SVD strategy x
working and result precision x quadrature order.  Each point of the lattice is
one execution of the real compute_sve, compared with the kernel, with integrals
done by an independent quadrature, and with all other points of the lattice for
the same kernel.
"""
import numpy as np
from .core import Task
from .lib import sir, kernel, composite_rule, ddouble, to_ld

BOUNDS = {
    "quick": "built-in kernels: cutoffs .1..1e5, 8 accuracy targets, all "
             "combinations of 2 expansion x 3 SVD strategies x work precisions "
             "at 2 cutoffs; 5 user-defined kernels (symmetric or not, other ranges)",
    "thorough": "quick plus full precision at cutoffs 1e3..1e5 and strategies at 6 "
                "cutoffs"}
ASSUMPTIONS = ["functions compared on a finite set of points dense in every segment"]


# ---- user-defined kernels ---------------------------------------------------

def custom(name):
    from sparse_ir.kernel import AbstractKernel, AbstractSVEHints

    class Hints(AbstractSVEHints):
        def __init__(self, xr, yr):
            self.xr, self.yr = xr, yr

        @property
        def segments_x(self):
            return np.linspace(*self.xr, 9)

        @property
        def segments_y(self):
            return np.linspace(*self.yr, 7)

        ngauss = 14
        nsvals = 40

    class Base(AbstractKernel):
        xr = -1., 1.
        yr = -1., 1.

        def sve_hints(self, eps):
            return Hints(self.xr, self.yr)

        @property
        def xrange(self): return self.xr

        @property
        def yrange(self): return self.yr

    class Gauss(Base):
        """centrosymmetric"""
        is_centrosymmetric = True

        def __call__(self, x, y, x_plus=None, x_minus=None):
            return np.exp(-2 * (x - y) * (x - y))

    class GaussPlain(Gauss):
        is_centrosymmetric = False

    class Tilted(Base):
        """exp(2xy + x - y/2), not centrosymmetric"""
        def __call__(self, x, y, x_plus=None, x_minus=None):
            return np.exp(2 * x * y + x - .5 * y)

    class Cauchy(Base):
        """1/(x + y + 1) for x, y in [0, 2] x [0, 1]"""
        xr = 0., 2.
        yr = 0., 1.

        def __call__(self, x, y, x_plus=None, x_minus=None):
            xp = x if x_plus is None else x_plus
            return 1. / (xp + y + 1)

    class Laplace(Base):
        """exp(-3xy) for x in [0, 1/2], y in [-1, 2]"""
        xr = 0., .5
        yr = -1., 2.

        def __call__(self, x, y, x_plus=None, x_minus=None):
            return np.exp(-3 * x * y)

    class HintsC(Hints):
        pass

    class GaussHints(Gauss):
        def sve_hints(self, eps):
            class H(Hints):
                segments_x = property(lambda self: np.array(
                    [-1, -.7, -.4, -.15, 0, .15, .4, .7, 1.]))
                segments_y = property(lambda self: np.array(
                    [-1, -.5, 0, .5, 1.]))
            return H((-1., 1.), (-1., 1.))

        def get_symmetrized(self, sign):
            red = super().get_symmetrized(sign)
            return red

    return {"gauss": GaussHints, "gauss-plain": GaussPlain, "tilted": Tilted,
            "cauchy": Cauchy, "laplace": Laplace}[name]()


def grids(K, res):
    """Points in every segment, ends, and closely at the ends"""
    def pts(knots, a, b):
        k = np.asarray(knots, float)
        c = (k[:-1, None] + np.diff(k)[:, None] * np.array([0, .13, .5, .86])).ravel()
        return np.unique(np.hstack([a, c, b, k]))
    x = pts(res.u.knots, *map(float, K.xrange))
    y = pts(res.v.knots, *map(float, K.yrange))
    if x.size > 300:
        x = np.unique(np.hstack([x[:60], x[60:-60:3], x[-60:]]))
    if y.size > 300:
        y = np.unique(np.hstack([y[:60], y[60:-60:3], y[-60:]]))
    return x, y


def kvals(K, x, y):
    xmin, xmax = map(float, K.xrange)
    # distances are exact differences here (Sterbenz) or correctly rounded
    return np.asarray(K(x[:, None], y[None, :]), float)


def verify(ctx, K, res, what, eps, noise, parity=None, count=None, edges_y=()):
    """All defining equations of the expansion.

    eps: accuracy to which the kernel must be reproduced; noise: relative (to
    s[0]) rounding level of the working precision
    """
    u, s, v = res
    s = np.asarray(s, float)
    N = s.size
    x, y = grids(K, res)
    ux, vy = u(x), v(y)
    ctx.step(3)
    ctx.trace()
    ctx.expect(u.size == v.size == N > 0, f"{what}: sizes {u.size} {N} {v.size}")
    ctx.expect((s > 0).all() and (np.diff(s) <= 0).all(),
               f"{what}: singular values not positive and non-increasing: {s}")
    if not np.isfinite(ux).all() or not np.isfinite(vy).all():
        ctx.fail(f"{what}: functions not finite")
        return
    # (1) reproduces the kernel
    kxy = kvals(K, x, y)
    amp = max(1., (np.abs(ux).max(1) * np.abs(vy).max(1)).max())
    rec = np.einsum('lx,l,ly->xy', ux, s, vy)
    kmax = np.abs(kxy).max()
    top = max(s[0], kmax)
    ctx.close(rec, kxy, 20 * top * (eps + noise) * amp, f"{what}: reconstruction")
    # (2) orthonormality, by quadrature exact for these polynomials
    order = u.data.shape[0] if hasattr(u, "data") else 32
    xq, wq = composite_rule(u.knots, order + 1)
    yq, vq = composite_rule(np.hstack([v.knots, edges_y]), order + 1)
    uq, vq_ = u(xq), v(yq)
    sig = s / s[0]
    good = sig > 100 * noise
    tol = 1e-13 + 30 * noise / np.minimum(sig[:, None], sig[None, :])
    tol = np.minimum(tol, 1e-6 if noise < 1e-12 else 1e-2)
    eye = np.eye(N)
    for nm, f, w in (("u", uq, wq), ("v", vq_, vq)):
        gram = (f * w) @ f.T
        # all functions are orthonormal to rounding, not just significant ones
        sel = np.ix_(good, good)
        ctx.close(gram[sel], eye[sel], np.minimum(tol[sel], 2e-11 if noise < 1e-12
                                                  else 1e-7),
                  f"{what}: orthonormality of {nm}")
    # (3) singular value equations
    xs, ys = x[::3], y[::3]
    kxq = kvals(K, xs, yq)
    lhs = kxq @ (vq_ * vq).T
    scale = top * np.maximum(1, np.abs(vq_).max(1))
    etol = 2e-12 + 50 * noise + 2e-17 * getattr(K, 'lambda_', 0)
    ctx.close(lhs, (s[:, None] * u(xs)).T, (scale * etol)[None, :],
              f"{what}: K v = s u")
    kqy = kvals(K, xq, ys)
    lhs = kqy.T @ (uq * wq).T
    scale = top * np.maximum(1, np.abs(uq).max(1))
    ctx.close(lhs, (s[:, None] * v(ys)).T, (scale * etol)[None, :],
              f"{what}: K' u = s v")
    # (4) gauge
    edge = u(float(K.xrange[1]))
    ctx.expect((edge[good] > 0).all(), f"{what}: u[l] not positive at right edge "
               f"for l={np.flatnonzero(edge <= 0)}")
    # (5) parity of all functions which are not noise
    if parity:
        keep = int(good.sum())
        sgn = (-1.)**np.arange(keep)
        for nm, f in (("u", u), ("v", v)):
            k = np.asarray(f.knots, float)
            g = np.hstack([k[:-1] + np.diff(k) * c for c in (.3, .55, .8)])
            a, b = f(g)[:keep], f(-g)[:keep]
            ctx.close(a, sgn[:, None] * b, 1e-11 * np.abs(a).max(), f"{what}: "
                      f"parity of {nm}")
            symm = np.broadcast_to(np.asarray(f.symm, float), N)[:keep]
            ctx.expect(np.array_equal(symm, sgn), f"{what}: declared parity of "
                       f"{nm} is {symm}")
    if count is not None:
        ctx.expect(N >= count, f"{what}: only {N} singular values of {count} above "
                   f"the accuracy target")


def compare(ctx, A, B, what, noise):
    """Same expansion from two strategies"""
    sa, sb = np.asarray(A.s, float), np.asarray(B.s, float)
    n = min(sa.size, sb.size)
    sig = sb[:n] / sb[0]
    keep = int((sig > 100 * noise).sum())
    ctx.expect(keep > 0, f"{what}: nothing to compare")
    ctx.expect(min(sa.size, sb.size) >= (max(sa / sa[0] > 1e3 * noise, key=int) and keep),
               f"{what}: sizes {sa.size} {sb.size}")
    ctx.close(sa[:keep], sb[:keep], 20 * noise * sb[0], f"{what}: singular values")
    sep = np.abs(np.diff(np.hstack([2 * sig[0], sig[:keep], 0])))
    gap = np.minimum(sep[:-1], sep[1:])
    x = np.linspace(float(A.u.xmin), float(A.u.xmax), 41)
    y = np.linspace(float(A.v.xmin), float(A.v.xmax), 41)
    ctx.step(2)
    ctx.trace()
    for nm, f, g, p in (("u", A.u, B.u, x), ("v", A.v, B.v, y)):
        a, b = f(p)[:keep], g(p)[:keep]
        amp = np.abs(b).max()
        tol = amp * np.minimum(200 * noise / gap, .3) + 1e-13 * amp
        ctx.close(a, b, np.broadcast_to(tol[:, None], a.shape), f"{what}: {nm}")


def noise_of(work, eps):
    dd = ddouble()
    if work is None:
        high = eps is None or eps < 1e-8
    else:
        high = dd is not None and np.dtype(work) == np.dtype(dd)
    # results are returned in double precision, functions hence to some ulps
    return 2e-15 if not high else 1e-16 * 2


def get(name, lam):
    return kernel(name, lam) if lam else custom(name)


def single(ctx, name, lam, epss):
    K = get(name, lam)
    compute = sir().compute_sve
    ref = None
    for eps in epss:
        res = compute(K, eps)
        ctx.state(name, lam, eps)
        what = f"{name} L={lam:g} eps={eps}"
        noise = noise_of(None, eps)
        edges = () if lam == 0 else np.hstack([
            -np.logspace(0, -np.log10(30 * max(lam, 1)), 20), 0,
            np.logspace(0, -np.log10(30 * max(lam, 1)), 20)])
        verify(ctx, K, res, what, 1e-14, noise,
               parity=K.is_centrosymmetric, edges_y=edges)
        # truncated to the accuracy asked for
        e = eps if eps is not None else 2.2e-16
        u, s, v = res.part(eps)
        ctx.step()
        cnt = (res.s >= e * res.s[0]).sum()
        ctx.expect(s.size >= 1 and (eps is None or s.size == cnt),
                   f"{what}: {s.size} kept, {cnt} above accuracy target")
        x, y = grids(K, res)
        ux, vy = u(x), v(y)
        amp = (np.abs(ux).max(1) * np.abs(vy).max(1)).max()
        # discarded part: s decays at least like its own last step
        rec = np.einsum('lx,l,ly->xy', ux, s, vy)
        rate = (s[-1] / s[0])**(1. / max(1, s.size - 1))
        tail = 3 * e / (1 - min(rate, .95))
        if s.size < res.s.size:
            kxy = kvals(K, x, y)
            top = max(res.s[0], np.abs(kxy).max())
            ctx.close(rec, kxy, (res.s[0] * tail + top * (100 * noise + 2e-17 * lam))
                      * 4 * amp,
                      f"{what}: truncated reconstruction")
        if ref is None:
            ref = res
        else:
            compare(ctx, res, ref, f"{what} against eps={epss[0]}",
                    max(noise, 3e-16))
    ctx.sample(f"{res.s.size} triples, s0={res.s[0]}")


def strategies(ctx, name, lam, istrat):
    """Cross product of strategies against one reference"""
    s = sir()
    K = get(name, lam)
    compute = s.compute_sve
    try:
        strats = [None, s.sve.SamplingSVE]
        if K.is_centrosymmetric:
            strats.append(s.sve.CentrosymmSVE)
    except AttributeError:
        strats = [None]
    if istrat >= len(strats):
        return
    ref = compute(K)
    works = [float, None]
    if ddouble() is not None:
        works.append(ddouble())
    for st in strats[istrat:istrat + 1]:
        for svd in (None, 'fast', 'default', 'accurate'):
            for w in works:
                for eps in (1e-6, None):
                    if w is float and eps is None:
                        continue
                    res = compute(K, eps, work_dtype=w, sve_strat=st, svd_strat=svd)
                    wn = None if w is None else np.dtype(w).name
                    what = (f"{name} L={lam:g} eps={eps} work={wn} svd={svd} "
                            f"sve={getattr(st, '__name__', None)}")
                    noise = noise_of(w, eps)
                    ctx.state(what)
                    verify(ctx, K, res, what, 1e-14, noise)
                    compare(ctx, res, ref, what, max(noise, 3e-16))
    for ng in (None, 12, 16, 20) if istrat == 0 else ():
        for dt in (float,) + ((ddouble(),) if ddouble() else ()):
            res = compute(K, None, n_gauss=ng, dtype=dt)
            ctx.state("ngauss", ng, str(dt))
            if dt is float:
                verify(ctx, K, res, f"{name} L={lam:g} n_gauss={ng}",
                       1e-14 if ng != 12 else 1e-11, 2e-16 if ng != 12 else 1e-12)
            ctx.expect(np.asarray(res.s).dtype == np.dtype(dt) and
                       res.u.data.dtype == np.dtype(dt),
                       f"{name}: result precision {res.s.dtype} {res.u.data.dtype}, "
                       f"requested {np.dtype(dt)}")
            ctx.close(to_ld(res.s).astype(float)[:20], ref.s[:20],
                      1e-11 * ref.s[0], f"n_gauss={ng} dtype={dt}: s")


def tasks(tier):
    T = tier == "thorough"
    res = []
    E = [None, 1e-2, 1e-4, 1e-6, 1e-8, 9e-9, 1e-10, 1e-12, 1e-15]
    for which in ("logistic", "regbose"):
        for lam in (.1, .5, 1., 2., 5., 10., 42.):
            res.append(Task(single, which, lam, E, weight=20))
        for lam in (100., 1e3) + ((1e4, 1e5) if T else ()):
            res.append(Task(single, which, lam, [None, 1e-6], weight=lam, timeout=600))
        for lam in (1e4, 1e5) + ((1e6,) if T else ()):
            res.append(Task(single, which, lam, [1e-8, 1e-6, 1e-3], weight=50))
        for lam in (2., 42.) if not T else (.3, 2., 10., 42., 100., 300.):
            res += [Task(strategies, which, lam, i, weight=30 * lam, timeout=800)
                    for i in range(3)]
    for name in ("gauss", "gauss-plain", "tilted", "cauchy", "laplace"):
        res.append(Task(single, name, 0, [None, 1e-2, 1e-6, 1e-9], weight=20))
        res += [Task(strategies, name, 0, i, weight=60) for i in range(3)]
    return res
