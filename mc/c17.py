"""C17: Basis sets are consistent with bases and samplings made one by one.

For each element of a configuration space, the pair and the set are made in every way
the constructors allow; each member is compared with the object one makes individually
with the same parameters, and each summary attribute with the members.
"""
import warnings
import numpy as np
from .core import Task
from .lib import sir, sve, EPS

BOUNDS = {
    "quick": "beta in {0.1, 1, 10, 37} x Lambda in {0.5, 4, 42} x accuracy in {default, "
             "1e-3, 1e-6, 1e-10} x expansion {none, same accuracy, full, coarser, positional/"
             "named} for pair and set; all members, all attributes",
    "thorough": "Lambda up to 1e4, beta in {1e-3, ..., 1e4}"}
ASSUMPTIONS = ["individually made bases and samplings correct (C04, C05, C11)"]


def quiet(fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kwargs)


def same_basis(ctx, b, r, what, shared=None):
    """b is the basis r"""
    ctx.step(8)
    ctx.expect(type(b) is type(r), f"{what}: type")
    ctx.expect(b.statistics == r.statistics, f"{what}: statistics {b.statistics}")
    ctx.expect(b.beta == r.beta and b.wmax == r.wmax, f"{what}: beta, wmax")
    ctx.close(b.lambda_, r.lambda_, 4 * EPS * r.lambda_, f"{what}: lambda")
    ctx.expect(type(b.kernel) is type(r.kernel), f"{what}: kernel {type(b.kernel)}")
    ctx.close(b.kernel.lambda_, r.kernel.lambda_, 4 * EPS * r.lambda_, f"{what}: kernel")
    ctx.close(b.accuracy, r.accuracy, 1e-10 * r.accuracy + 1e-16, f"{what}: accuracy")
    if shared is not None:
        ctx.expect(b.sve_result is shared, f"{what}: given expansion not used")
    if not ctx.expect(b.size == r.size and b.shape == r.shape,
                      f"{what}: size {b.size}, expected {r.size}"):
        return False
    ctx.close(b.s, r.s, 1e-12 * r.s[0], f"{what}: s")
    ctx.close(b.significance, r.significance, 1e-12, f"{what}: significance")
    beta, wmax = r.beta, r.wmax
    zeta = int(r.statistics == "F")
    tau = beta * np.array([0, .01, .3, .5, .86, 1.])
    w = wmax * np.array([-1, -.3, 0, .1, .77, 1.])
    n = np.array([-50, -2, -1, 0, 1, 5, 1000]) * 2 + zeta
    for name, f, g, x in (("u", b.u, r.u, tau), ("v", b.v, r.v, w),
                          ("uhat", b.uhat, r.uhat, n)):
        want = g(x)
        ctx.close(f(x), want, 1e-9 * (1 + np.abs(want)), f"{what}: {name}")
    ctx.trace()
    return True


def same_sampling(ctx, s, r, b, what):
    ctx.step(5)
    ctx.expect(type(s) is type(r), f"{what}: type {type(s)}")
    ctx.expect(s.basis is b, f"{what}: not of basis in the set")
    if not ctx.expect(np.shape(s.sampling_points) == np.shape(r.sampling_points),
                      f"{what}: {np.shape(s.sampling_points)} points, "
                      f"{np.shape(r.sampling_points)} expected"):
        return
    ctx.close(s.sampling_points, r.sampling_points,
              1e-9 * np.abs(r.sampling_points).max(), f"{what}: points")
    if hasattr(r, "positive_only"):
        ctx.expect(s.positive_only == r.positive_only, f"{what}: positive only")
    g = np.cos(np.arange(b.size) + .5)
    want = r.evaluate(g)
    ctx.close(s.evaluate(g), want, 1e-8 * (1 + np.abs(want).max()), f"{what}: evaluate")
    ctx.close(s.fit(want), g, 1e-6 * max(1, r.cond * 1e-4), f"{what}: fit")
    ctx.close(s.cond, r.cond, 1e-5 * r.cond, f"{what}: condition number")
    ctx.trace()


def config(ctx, beta, lam, eps, given):
    s = sir()
    wmax = lam / beta
    if given == "none":
        res = None
    elif given == "same":
        res = sve("logistic", lam, eps)
    elif given == "full":
        res = sve("logistic", lam, None)
    elif given == "coarse":
        res = sve("logistic", lam, 1e-4)
    ctx.state(beta, lam, eps, given)
    single = [quiet(s.FiniteTempBasis, stat, beta, wmax, eps, sve_result=res)
              for stat in "FB"]
    cls = s.FiniteTempBasisSet
    if given == "none":
        pairs = {"": lambda: s.finite_temp_bases(beta, wmax, eps),
                 " named": lambda: s.finite_temp_bases(beta=beta, wmax=wmax, eps=eps)}
        sets = {"": lambda: cls(beta, wmax, eps),
                " named": lambda: cls(beta=beta, wmax=wmax, eps=eps),
                " None": lambda: cls(beta, wmax, eps, None)}
        if eps is None:
            pairs[" default"] = lambda: s.finite_temp_bases(beta, wmax)
            sets[" default"] = lambda: cls(beta, wmax)
    else:
        pairs = {"": lambda: s.finite_temp_bases(beta, wmax, eps, res),
                 " named": lambda: s.finite_temp_bases(beta, wmax, eps=eps, sve_result=res)}
        sets = {"": lambda: cls(beta, wmax, eps, res),
                " named": lambda: cls(beta, wmax, eps=eps, sve_result=res)}
        if eps is None:
            pairs[" default"] = lambda: s.finite_temp_bases(beta, wmax, sve_result=res)
            sets[" default"] = lambda: cls(beta, wmax, sve_result=res)

    for form, make in pairs.items():
        ctx.step()
        pair = quiet(make)
        what = f"pair{form}"
        if ctx.expect(len(pair) == 2, f"{what}: {len(pair)} elements"):
            for b, r in zip(pair, single):
                same_basis(ctx, b, r, f"{what}, {r.statistics}", shared=res)
            ctx.expect(pair[0].sve_result is pair[1].sve_result,
                       f"{what}: expansion not shared")
    for form, make in sets.items():
        ctx.step()
        bset = quiet(make)
        what = f"set{form}"
        ok = True
        for name, r in zip("fb", single):
            b = getattr(bset, f"basis_{name}")
            ok &= same_basis(ctx, b, r, f"{what}, basis_{name}", shared=res)
            if ok:
                same_sampling(ctx, getattr(bset, f"smpl_tau_{name}"),
                              quiet(s.TauSampling, r), b, f"{what}, smpl_tau_{name}")
                same_sampling(ctx, getattr(bset, f"smpl_wn_{name}"),
                              quiet(s.MatsubaraSampling, r), b, f"{what}, smpl_wn_{name}")
        ctx.step(7)
        f, b = bset.basis_f, bset.basis_b
        ctx.expect(f.sve_result is b.sve_result is bset.sve_result,
                   f"{what}: expansion not shared")
        ctx.expect(np.array_equal(bset.smpl_tau_f.sampling_points,
                                  bset.smpl_tau_b.sampling_points),
                   f"{what}: different sampling times")
        for x in (f, b):
            ctx.expect(bset.beta == x.beta == beta and bset.wmax == x.wmax == wmax,
                       f"{what}: beta, wmax")
            ctx.expect(bset.lambda_ == x.lambda_ and bset.accuracy == x.accuracy,
                       f"{what}: lambda, accuracy")
        ctx.expect(np.array_equal(bset.tau, bset.smpl_tau_f.sampling_points)
                   and np.array_equal(bset.tau, bset.smpl_tau_b.sampling_points),
                   f"{what}: tau")
        ctx.expect(np.array_equal(bset.wn_f, bset.smpl_wn_f.sampling_points)
                   and (bset.wn_f % 2 == 1).all(), f"{what}: wn_f")
        ctx.expect(np.array_equal(bset.wn_b, bset.smpl_wn_b.sampling_points)
                   and (bset.wn_b % 2 == 0).all(), f"{what}: wn_b")
        ctx.trace()
    ctx.sample(f"{len(pairs)} pairs, {len(sets)} sets of sizes {single[0].size}")


def invalid(ctx):
    s = sir()
    res = sve("logistic", 4., 1e-6)
    for make in (s.finite_temp_bases, s.FiniteTempBasisSet):
        for r in (None, res):
            for beta, wmax in ((-1., -4.), (0., 4.), (-1., 4.), (1., -4.),
                               (float("nan"), 4.)):
                ctx.raises(lambda: make(beta, wmax, 1e-6, r),
                           f"{make.__name__}({beta}, {wmax})")


def tasks(tier):
    quick = tier == "quick"
    out = [Task(invalid)]
    for beta in ([.1, 1., 10, 37.] if quick else [1e-3, .1, 1., 10, 37., 1e4]):
        for lam in ([.5, 4., 42.] if quick else [.5, 4., 42., 1e3, 1e4]):
            for eps in (None, 1e-3, 1e-6, 1e-10):
                for given in ("none", "same", "full", "coarse"):
                    out.append(Task(config, beta, lam, eps, given, weight=lam,
                                    timeout=240 if quick else 1800))
    return out
