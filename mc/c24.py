"""C24: Poorly conditioned fits and missing sampling points are announced.

Exhausts subsets of pools of sampling points (with clusters of points so that the
condition numbers sweep the threshold) for all kinds of bases; condition numbers are
worked out from function values one by one.  Default sampling points are requested in
every number, also from expansions which do not resolve that many functions.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis, sve, kernel, EPS

BOUNDS = {
    "quick": "18 bases (IR of both statistics and kernels with 1..12 functions, augmented, "
             "discrete Lehmann, user-defined) x all subsets of 10 times with "
             "clusters of 1e-2..1e-13 x all subsets of 9 frequencies x all / "
             "non-negative only x default or explicit points; all numbers of default "
             "points up to 80 for 34 expansions, resolved or not",
    "thorough": "13 times, 12 frequencies; 60 expansions"}
ASSUMPTIONS = ["condition numbers within 1e-5 of the threshold are not judged",
               "matrices which are singular to rounding accuracy are not judged either: "
               "singular values which happen to be exactly zero are left out of the fit",
               "condition numbers are compared up to the rounding error of the smallest "
               "singular value"]
LIMIT = 1e8


def made_bases():
    """name -> basis, whether poor condition comes as a surprise"""
    s = sir()
    from sparse_ir import augment as aug, dlr
    out = {}
    for stat in "FB":
        for n in (1, 2, 4, 7):
            out[f"IR{stat}{n}"] = basis(stat, 2., 5., max_size=n), True
    out["IRF12"] = basis("F", 2., 5., max_size=12), True
    out["regbose"] = basis("B", 2., 5., which="regbose", max_size=4), True
    b, f = basis("B", 2., 5., max_size=3), basis("F", 2., 5., max_size=3)
    out["vertexB"] = aug.AugmentedBasis(b, aug.MatsubaraConst), True
    out["vertexF"] = aug.AugmentedBasis(f, aug.MatsubaraConst), True
    out["const"] = aug.AugmentedBasis(b, aug.TauConst), False
    out["linear"] = aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear), False
    out["all"] = aug.AugmentedBasis(b, aug.MatsubaraConst, aug.TauConst), False
    out["nested"] = aug.AugmentedBasis(out["const"][0], aug.MatsubaraConst), False
    out["dlrF"] = dlr.DiscreteLehmannRepresentation(f), False
    out["dlrB"] = dlr.DiscreteLehmannRepresentation(b), False

    class Monomials(s.abstract.AbstractBasis):
        """User-defined, inherits all the defaults"""
        statistics, beta, size, shape, lambda_, wmax = "F", 2., 4, (4,), None, None

        @property
        def u(self):
            return lambda t: np.asarray(t, float)**np.arange(4).reshape(
                (4,) + (1,) * np.ndim(t))

        @property
        def uhat(self):
            return lambda n: (1 / (1j * np.asarray(n) + .1))**np.arange(1, 5).reshape(
                (4,) + (1,) * np.ndim(n))
    out["user"] = Monomials(), True
    return out


def record(fn):
    s = sir()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = fn()
    return r, [w for w in rec if issubclass(w.category, s.sampling.ConditioningWarning)], \
        [w for w in rec]


def judge(ctx, what, smpl, mat, surprise, fits):
    """Compare condition and warnings with the ones expected of matrix"""
    sv = np.linalg.svd(mat, compute_uv=False)
    small = sv[-1] / sv[0]
    err = 4 * mat.shape[0] * EPS
    cond, _, rec = record(lambda: smpl.cond)
    ctx.step(2)
    ctx.expect(not rec, f"{what}: asking for condition warns")
    if small > 0 and cond > 0:
        ctx.expect(abs(1 / cond - small) <= err * (1 + small) + 1e-12 * small,
                   f"{what}: condition {cond:.6g} instead of {1/small:.6g}")
    # Whether rounding turns a singular matrix into a poorly conditioned one is chance
    ok, bad = small - err > 1.00001 / LIMIT, err < small < .99999 / LIMIT - err
    if not ok and not bad:
        return
    for label, fit in fits.items():
        _, cw, rec = record(fit)
        ctx.step()
        due = bad and surprise
        ctx.expect(bool(cw) == due, f"{what}: {label}: condition {1/max(small, 1e-99):.4g},"
                   f" {'no ' if due else ''}warning", key="")
        ctx.expect(len(rec) == len(cw), f"{what}: {label}: other warnings "
                   f"{[str(w.message)[:60] for w in rec]}")
    ctx.trace()


def subsets(pool, least=1):
    for k in range(least, len(pool) + 1):
        yield from itertools.combinations(pool, k)


def times(ctx, name, npool):
    """All subsets of pool of times"""
    s = sir()
    b, surprise = made_bases()[name]
    pool = b.beta * np.array([.1, .5, .9, .5 + 1e-2, .5 + 1e-5, .5 + 1e-7, .5 + 1e-9, .1 +
                              1e-8, .1 + 3e-13, .98, .3, .7, .02])[:npool]
    ctx.expect(b.is_well_conditioned is surprise or b.is_well_conditioned == surprise,
               f"{name}: is_well_conditioned is {b.is_well_conditioned}")
    columns = {p: np.array([b.u(p)]).reshape(-1) for p in pool}
    if not all(np.isfinite(c).all() for c in columns.values()):
        # Undefined in time; nothing can be sampled there
        return
    ref = s.TauSampling(b, sampling_points=pool[:3])
    for i, pts in enumerate(subsets(pool)):
        mat = np.array([columns[p] for p in pts])
        what = f"{name} tau {[float(p) for p in pts]}"
        ctx.state(name, pts)
        vals = np.cos(np.arange(len(pts)))
        smpl, _, rec = record(lambda: s.TauSampling(b, sampling_points=np.array(pts)))
        ctx.expect(not rec, f"{what}: making warns")
        fits = {"fit": lambda: smpl.fit(vals)}
        if i % 3 == 0:
            fits["fit axis"] = lambda: smpl.fit(vals[:, None] * np.ones(2), axis=0)
            fits["fit points"] = lambda: ref.fit(vals, points=np.array(pts))
            coef = np.ones(b.size)
            _, _, rec = record(lambda: (smpl.evaluate(coef),
                                        ref.evaluate(coef, points=np.array(pts))))
            ctx.step(2)
            ctx.expect(not rec, f"{what}: evaluating warns")
        judge(ctx, what, smpl, mat, surprise, fits)


def freqs(ctx, name, npool, positive):
    """All subsets of pool of frequencies"""
    s = sir()
    b, surprise = made_bases()[name]
    odd = b.statistics == "F"
    pool = 2 * np.array([0, 1, 4, 10**3, 10**4, 10**6, 7, 10**8, 2] if positive else
                        [0, -1, 3, 10**3, -10**4, 10**6, 2, 10**8, -3]) + odd
    pool = np.hstack([pool, 2 * np.array([12, 40, 300]) + odd])[:npool]
    cols = {n: np.array([b.uhat(n)]).reshape(-1) for n in pool.tolist()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = s.MatsubaraSampling(b, sampling_points=pool[:3], positive_only=positive)
    for i, pts in enumerate(subsets(pool.tolist())):
        mat = np.array([cols[p] for p in pts])
        if positive:
            mat = np.vstack([mat.real, mat.imag[np.array(pts) != 0]])
        what = f"{name} wn {list(pts)}{' positive' if positive else ''}"
        ctx.state(name, pts, positive)
        vals = np.cos(np.arange(len(pts))) + 0j
        arr = np.array(pts)
        smpl, _, rec = record(lambda: s.MatsubaraSampling(b, sampling_points=arr,
                                                          positive_only=positive))
        ctx.expect(not rec, f"{what}: making warns")
        fits = {"fit": lambda: smpl.fit(vals)}
        if i % 3 == 0:
            fits["fit axis"] = lambda: smpl.fit(vals[:, None] * np.ones(2), axis=0)
            fits["fit points"] = lambda: ref.fit(vals, points=arr)
            coef = np.ones(b.size)
            _, _, rec = record(lambda: (smpl.evaluate(coef),
                                        ref.evaluate(coef, points=arr)))
            ctx.step(2)
            ctx.expect(not rec, f"{what}: evaluating warns")
        judge(ctx, what, smpl, mat, surprise, fits)


def counts(ctx, which, lam, how):
    """Number of default points, and warning if it is not the one requested"""
    s = sir()
    K = kernel(which, lam)
    eps, work, strat = how
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = s.compute_sve(K, eps, work_dtype=work, svd_strat=strat,
                            cutoff=0 if strat else None)
    nmax = min(res.s.size, 80)
    for stat in ("FB" if which == "logistic" else "B"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = s.FiniteTempBasis(stat, 1., lam, 0, kernel=K, sve_result=res)
        for n in range(1, nmax + 1):
            what = f"{which} {stat} L={lam:g} {how} n={n} of {nmax}"
            ctx.state(which, stat, lam, how, n)
            even = n + (n % 2 == (stat == "F"))
            for label, fn, want in (
                    ("tau", lambda: b.default_tau_sampling_points(npoints=n), n),
                    ("omega", lambda: b.default_omega_sampling_points(npoints=n), n),
                    ("wn", lambda: b.default_matsubara_sampling_points(npoints=n), even),
                    ("wn>=0", lambda: b.default_matsubara_sampling_points(
                        npoints=n, positive_only=True), (even + 1) // 2)):
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    try:
                        pts = fn()
                    except ValueError:
                        # Noise instead of functions has been found out
                        continue
                ctx.step()
                due = pts.size != want
                ctx.expect(any(issubclass(w.category, UserWarning) for w in rec) == due,
                           f"{what}: {label}: {pts.size} of {want} points, "
                           f"{'no ' if due else ''}warning")
                if due:
                    ctx.note("some expansions return fewer points")
            ctx.trace()


def split(ctx):
    """Split form expects real coefficients"""
    s = sir()
    for stat, n in itertools.product("FB", (1, 2, 5, 9)):
        smpl = s.MatsubaraSampling(basis(stat, 2., 5., max_size=n), positive_only=True)
        mat = smpl.matrix
        for dt, extra in itertools.product((int, float, np.float32, complex, np.complex64),
                                           ((), (1,), (3,))):
            x = np.ones((n,) + extra, dt)
            ctx.state(stat, n, np.dtype(dt).name, extra)
            ctx.step()
            r, _, rec = record(lambda: mat @ x)
            due = np.dtype(dt).kind == "c"
            ctx.expect(bool(rec) == due, f"split {stat}{n} @ {np.dtype(dt).name}: "
                       f"{'no ' if due else ''}warning")
            ctx.close(r, np.array(smpl.matrix.a) @ x, 1e-6, "split product")
            ctx.trace()


def tasks(tier):
    quick = tier == "quick"
    out = [Task(split)]
    names = list(made_bases())
    for name in names:
        out.append(Task(times, name, 10 if quick else 13, weight=20))
        for positive in (False, True):
            if name in ("user",) and positive:
                continue
            out.append(Task(freqs, name, 9 if quick else 12, positive, weight=10))
    hows = [(None, None, None), (1e-6, None, None), (1e-4, None, None),
            (1e-6, float, "accurate"), (1e-6, float, "default"), (1e-6, float, "fast")]
    lams = (2., 10., 100.) if quick else (.5, 2., 10., 42., 100., 1000.)
    for which, lam, how in itertools.product(("logistic", "regbose"), lams, hows):
        if quick and lam == 100. and how[2] == "accurate":
            continue
        out.append(Task(counts, which, lam, how, weight=lam, timeout=1500))
    return out
