"""C09: Default sampling points are valid, complete and well-conditioned.

Exhausts, for every expansion in a grid of kernels x cutoffs x accuracies, every
number of points from one to the number of singular functions which the expansion
resolves, for times, real frequencies, all and non-negative Matsubara frequencies;
once on the full expansion (points are the roots of the next function) and once on
expansions cut to exactly that number (points are extrema of the last function).
"""
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis, sve, kernel

BOUNDS = {
    "quick": "logistic F/B and regularized B; cutoffs .1,.5,2,10,42,100,300(1e-6 only); accuracies "
             "default,1e-6; every number of points 1..resolved (<= 90) x 4 point kinds x "
             "{full, cut} expansion x 3 temperatures; augmented and DLR bases",
    "thorough": "cutoffs up to 1e5, accuracies also 1e-10"}
ASSUMPTIONS = ["resolved singular functions are those with s[l]/s[0] above the unit "
               "roundoff of what the expansion is stored in (2.2e-16) or above 1.5e-8 "
               "for expansions computed in double precision",
               "if the first discarded singular value exceeds 3e-3 times the largest, "
               "functions need not interleave: for expansions cut there (the library "
               "warns) only a lower bound on the number of points and no bound on the "
               "condition is claimed, for the regularized kernel no bound on the "
               "condition"]


def check_tau(ctx, t, n, lo, hi, what, lam, least=False):
    t = np.asarray(t)
    ctx.step()
    if least and t.ndim == 1 and t.size > n:
        n = t.size
    if not ctx.expect(t.shape == (n,), f"{what}: {t.shape} points instead of {n}"):
        return
    ctx.expect((t > lo).all() and (t < hi).all(), f"{what}: not inside of the interval")
    ctx.expect((np.diff(t) > 0).all(), f"{what}: not increasing")
    ctx.close(t + t[::-1], np.full(n, lo + hi), 3e-11 * (hi - lo), f"{what}: not symmetric")


def check_wn(ctx, w, n, zeta, what):
    w = np.asarray(w)
    ctx.step()
    if not ctx.expect(w.ndim == 1 and np.issubdtype(w.dtype, np.integer),
                      f"{what}: not an integer vector"):
        return
    ctx.expect((np.diff(w) > 0).all(), f"{what}: not distinct and ordered")
    ctx.expect((w % 2 == zeta).all(), f"{what}: wrong parity")
    ctx.expect((w == -w[::-1]).all(), f"{what}: not symmetric")
    if zeta == 0:
        ctx.expect(0 in w, f"{what}: zero frequency missing")
    ctx.expect(w.size >= n, f"{what}: {w.size} frequencies, {n} requested")


def points(ctx, b, n, what, lam, omega=True, explicit=True, exact=True,
           least=False):
    """All kinds of default points of basis b, n requested"""
    zeta = {'F': 1, 'B': 0}[b.statistics]
    kw = dict(npoints=n) if explicit else {}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        t = b.default_tau_sampling_points(**kw)
        w = b.default_matsubara_sampling_points(**kw)
        wp = b.default_matsubara_sampling_points(positive_only=True, **kw)
        wf = w if n % 5 else b.default_matsubara_sampling_points(positive_only=False,
                                                                 **kw)
        check_tau(ctx, t, n, 0, b.beta, what + " tau", lam, least)
        check_wn(ctx, w, n, zeta, what + " wn")
        if omega:
            o = b.default_omega_sampling_points(**kw)
            check_tau(ctx, o, n, -b.wmax, b.wmax, what + " omega", lam, least)
    ctx.expect(np.array_equal(w, wf), f"{what}: positive_only=False differs")
    ctx.expect(np.array_equal(wp, w[w >= 0]), f"{what}: positive_only is not the "
               "non-negative half")
    if exact:
        # The requested number may only be exceeded for reasons of parity
        ctx.expect(w.size <= n + 1, f"{what}: {w.size} frequencies for {n}")
        ctx.expect(not rec, f"{what}: warning {rec and str(rec[0].message)!r}")
    ctx.step(4)
    return t, w, wp


def condition(ctx, b, t, w, wp, what, n, which, rel, cut=False):
    """Sizes of the condition numbers of the fitting problems"""
    s = sir()
    # Slow growth, known for these bases; bounds have large safety margin.
    if rel > 3e-3 and (which == "regbose" or cut):
        return
    ct = np.linalg.cond(b.u(t).T)
    cw = np.linalg.cond(b.uhat(w).T)
    mp = b.uhat(wp).T
    cp = np.linalg.cond(np.vstack([mp.real, mp.imag[wp != 0]]))
    lim_t, lim_w, lim_p = 4 + n, 10 * (4 + n), 10 * (4 + n)
    ctx.expect(ct <= lim_t, f"{what}: tau sampling has condition {ct:.3g} (n={n})")
    ctx.expect(cw <= lim_w, f"{what}: wn sampling has condition {cw:.3g} (n={n})")
    ctx.expect(cp <= lim_p, f"{what}: wn>=0 sampling has condition {cp:.3g} (n={n})")
    # What the sampling objects made by default report
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st, sw = s.TauSampling(b), s.MatsubaraSampling(b)
        sp = s.MatsubaraSampling(b, positive_only=True)
    for smp, pts, c in ((st, t, ct), (sw, w, cw), (sp, wp, cp)):
        if ctx.expect(np.array_equal(smp.sampling_points, pts),
                      f"{what}: sampling uses other points"):
            ctx.close(smp.cond, c, 1e-6 * c, f"{what}: reported condition")
        ctx.step()


def resolved(res, eps):
    cut = 2.3e-16 if eps is None or eps < 1e-8 else 1.5e-8
    return int((res.s > cut * res.s[0]).sum())


def config(ctx, which, stat, lam, eps, beta, kind):
    s = sir()
    res = sve(which, lam, eps)
    K = kernel(which, lam)
    top = resolved(res, eps)
    wmax = lam / beta
    for n in range(1, top + 1):
        ctx.state(which, stat, lam, eps, beta, kind, n)
        rel = res.s[n] / res.s[0] if n < res.s.size else 0.
        what = f"{kind} {which} {stat} L={lam:g} beta={beta:g} eps={eps} n={n}"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "request":
                if n == 1:
                    b = s.FiniteTempBasis(stat, beta, wmax, eps, kernel=K, sve_result=res)
                points(ctx, b, n, what, lam)
            elif kind == "truncate":
                b = s.FiniteTempBasis(stat, beta, wmax, 0, kernel=K, sve_result=res,
                                      max_size=n)
                t, w, wp = points(ctx, b, n, what, lam, explicit=False)
                condition(ctx, b, t, w, wp, what, n, which, rel)
            elif kind == "cut":
                cut = s.SVEResult(res.u[:n], res.s[:n], res.v[:n], K, res.eps)
                b = s.FiniteTempBasis(stat, beta, wmax, 0, kernel=K, sve_result=cut)
                try:
                    for m in {1, n // 2, n - 1} - {0, n}:
                        points(ctx, b, m, f"{what}, {m} requested", lam, exact=False)
                    t, w, wp = points(ctx, b, n, what, lam, explicit=False, exact=False,
                                      least=rel > 3e-3)
                except IndexError as e:
                    ctx.fail(f"{what}: {e!r}")
                else:
                    condition(ctx, b, t, w, wp, what, n, which, rel, True)
    ctx.trace()
    ctx.sample(f"n = 1..{top}")


def others(ctx, lam, stat):
    """Bases which delegate to the points of an underlying one"""
    s = sir()
    from sparse_ir import augment, dlr
    b = basis(stat, 2., lam / 2., None)
    d = dlr.DiscreteLehmannRepresentation(b)
    top = resolved(b.sve_result, None)
    for n in range(1, top + 1):
        ctx.state(lam, stat, n)
        points(ctx, d, n, f"DLR {stat} L={lam:g} n={n}", lam, omega=False)
    points(ctx, d, b.size, f"DLR {stat} L={lam:g}", lam, omega=False, explicit=False)
    sets = [(augment.MatsubaraConst,)]
    if stat == 'B':
        sets += [(augment.TauConst,), (augment.TauConst, augment.TauLinear),
                 (augment.TauConst, augment.TauLinear, augment.MatsubaraConst)]
    for augs in sets:
        for m in range(1, b.size + 1, 1 if lam < 5 else 4):
            a = augment.AugmentedBasis(b[:m], *augs)
            what = f"augmented {stat} {len(augs)} L={lam:g} m={m}"
            ctx.state(lam, stat, len(augs), m)
            points(ctx, a, m + len(augs), what, lam, omega=False, explicit=False)
            if m == 1 and len(augs) == 1:
                for n in range(1, top + 1):
                    points(ctx, a, n, what, lam, omega=False)


def tasks(tier):
    T = tier == "thorough"
    res = []
    lams = (.1, .5, 2., 10., 42., 100., 300.)
    if T:
        lams += (.01, 1., 3., 5., 20., 1e3, 1e4, 1e5)
    for which, stats in (("logistic", "FB"), ("regbose", "B")):
        for stat in stats:
            for lam in lams:
                for eps in (None, 1e-6) + ((1e-10,) if T else ()):
                    if lam > 100 and eps is None and not T:
                        continue
                    for kind in ("request", "truncate", "cut"):
                        for beta in (1., 10., 1e3) if lam == 10. else (1.,):
                            if beta != 1. and (eps is None) != (kind == "request"):
                                continue
                            res.append(Task(config, which, stat, lam, eps, beta, kind,
                                            weight=lam + 10, timeout=1500))
    for lam in (1., 10.) + ((42.,) if T else ()):
        for stat in "FB":
            res.append(Task(others, lam, stat, weight=20))
    return res
