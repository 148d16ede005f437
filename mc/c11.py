"""C11: Sparse sampling evaluates on the points given and fitting inverts it.

Enumerates on the real classes every sequence (order and repetition included) of
points from a candidate set, for every basis in a list, given at construction and
given to the call, in several representations; evaluation is compared with a plain
loop over functions and points, fits with the coefficients put in.  Axes and shapes
are enumerated separately, default points on bases of every size.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis

BOUNDS = {
    "quick": "all sequences of length 1..3 (some: 4) from 5 times/6 frequencies x {constructor, "
             "points=} x 5 representations for IR F/B of 1..3 functions, regularized, "
             "augmented and DLR bases; all permutations of default points of 4-function "
             "bases; all sizes x default points; arrays up to 4 axes x all axes",
    "thorough": "sequences of length 5, more cutoffs"}
ASSUMPTIONS = ["fits are claimed to invert evaluation if the matrix has full column rank"]


def make(name):
    """Basis by name: IR-<stat>-<lam>-<size>, reg, aug, dlr"""
    s = sir()
    from sparse_ir import augment, dlr
    kind, stat, lam, size, *beta = name.split("-")
    lam = float(lam)
    beta = {"nano": 1e-9, "giga": 1e9}[beta[0]] if beta else 2.5
    b = basis(stat, beta, lam / beta, None, "regbose" if kind == "reg" else "logistic")
    if size != "full":
        b = b[:int(size)]
    if kind == "aug":
        return augment.AugmentedBasis(b, augment.TauConst, augment.TauLinear)
    if kind == "vertex":
        return augment.AugmentedBasis(b, augment.MatsubaraConst)
    if kind == "dlr":
        return dlr.DiscreteLehmannRepresentation(b)
    return b


def slow(f, b, pts):
    """Values of all functions, one by one"""
    if type(b).__name__.startswith("Discrete"):
        return np.array([f(np.array(p)) for p in pts]).T
    return np.array([[f[l](p) for p in pts] for l in range(b.size)])


def coeffs(b, cplx):
    g = np.array([(-1)**(l // 2) * (1. + l % 5) for l in range(b.size)])
    if cplx:
        g = g + 1j * np.array([(l * 3 % 7) - 2.5 for l in range(b.size)])
    return g


def check(ctx, smp, b, F, pts, what, cplx, call={}):
    """Evaluate and fit; F is the matrix function, point"""
    g = coeffs(b, cplx)
    want = sum(g[l] * F[l] for l in range(b.size))
    sc = np.abs(F).max() * np.abs(g).sum()
    got = smp.evaluate(g, **call)
    ctx.step(2)
    ctx.close(got, want, 1e-13 * sc, f"{what}: evaluate")
    A = F.T
    positive = getattr(smp, "positive_only", False)
    R = np.vstack([A.real, A.imag]) if positive else A
    sv = np.linalg.svd(R, compute_uv=False)
    if len(sv) < b.size or sv[-1] < 1e-11 * sv[0]:
        return
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        back = smp.fit(want, **call)
    cond = sv[0] / sv[-1]
    ctx.close(back, g, 1e-14 * cond * np.abs(g).sum() * 10, f"{what}: fit")
    if not 3e7 < cond < 3e8:
        bad = [r for r in rec if r.category.__name__ == "ConditioningWarning"]
        ctx.expect(bool(bad) == (cond > 1e8 and bool(b.is_well_conditioned)),
                   f"{what}: conditioning warning {len(bad)} for {cond:g}")


def represent(pts, domain):
    """Ways to write the same list of points"""
    arr = np.array(pts)
    yield "array", arr
    yield "list", list(pts)
    yield "tuple", tuple(pts)
    strided = np.zeros(2 * len(pts), arr.dtype)
    strided[::2] = pts
    yield "strided", strided[::2]
    if domain == "wn":
        yield "float", arr.astype(float)
        yield "int16", arr.astype(np.int16)
    else:
        ro = arr.copy()
        ro.flags.writeable = False
        yield "readonly", ro


def candidates(b, domain, positive):
    if domain == "tau":
        return [0., .11 * b.beta, .5 * b.beta, .83 * b.beta, b.beta]
    z = {'F': 1, 'B': 0}[b.statistics]
    if positive:
        return [z, z + 2, z + 4, z + 10, z + 44]
    return [-4 - z, -2 + z, z, 2 + z, 8 + z, 1000 + z]


def sequences(ctx, name, domain, positive, length):
    """All sequences of points"""
    s = sir()
    b = make(name)
    cand = candidates(b, domain, positive)
    f = b.u if domain == "tau" else b.uhat
    table = slow(f, b, cand)
    if domain == "tau":
        new = s.TauSampling
        default = new(b)
    else:
        def new(*a):
            return s.MatsubaraSampling(*a, positive_only=positive)
        default = new(b)
    cplx = domain == "wn" and not positive
    before = np.array(default.sampling_points)
    for idx in itertools.product(range(len(cand)), repeat=length):
        pts = [cand[i] for i in idx]
        ctx.state(name, domain, positive, idx)
        F = table[:, list(idx)]
        what = f"{name} {domain} positive={positive} points={pts}"
        reps = represent(pts, domain)
        if length > 2:
            reps = list(reps)
            reps = [reps[sum(idx) % len(reps)]]
        for rep, given in reps:
            smp = new(b, given)
            ctx.expect(np.array_equal(smp.sampling_points, pts), f"{what} {rep}: points "
                       f"are {smp.sampling_points}")
            p2 = smp.tau if domain == "tau" else smp.wn
            ctx.expect(np.array_equal(p2, pts), f"{what} {rep}: points are {p2}")
            ctx.expect(smp.basis is b, f"{what}: basis")
            ctx.close(smp.matrix.a, F.T, 1e-13 * np.abs(F).max(), f"{what} {rep}: matrix")
            check(ctx, smp, b, F, pts, f"{what} {rep}", cplx)
            # the same points passed to the calls of an object made for others
            check(ctx, default, b, F, pts, f"{what} {rep} points=", cplx,
                  dict(points=given))
            g = coeffs(b, cplx)
            ctx.close(default.evaluate(g, points=given), smp.evaluate(g),
                      1e-14 * np.abs(F).max() * np.abs(g).sum(), f"{what}: evaluate(points=)")
            v = smp.evaluate(g) + .25
            x, y = default.fit(v, points=given), smp.fit(v)
            ctx.close(x, y, 1e-10 * np.abs(y).max(), f"{what}: fit(points=)")
            ctx.step(6)
        ctx.trace()
    ctx.expect(np.array_equal(default.sampling_points, before), "default points changed")
    g = coeffs(b, cplx)
    F = slow(f, b, before)
    check(ctx, default, b, F, before, f"{name} default points afterwards", cplx)


def permutations(ctx, name, domain, positive):
    """All orders of the default points"""
    s = sir()
    b = make(name)
    if domain == "tau":
        smp = s.TauSampling(b)
    else:
        smp = s.MatsubaraSampling(b, positive_only=positive)
    f = b.u if domain == "tau" else b.uhat
    pts = np.array(smp.sampling_points)
    F = slow(f, b, pts)
    cplx = domain == "wn" and not positive
    for perm in itertools.permutations(range(pts.size)):
        perm = list(perm)
        ctx.state(name, domain, positive, tuple(perm))
        what = f"{name} {domain} positive={positive} order {perm}"
        check(ctx, smp, b, F[:, perm], pts[perm], what, cplx, dict(points=pts[perm]))
        if domain == "tau":
            other = s.TauSampling(b, pts[perm])
        else:
            other = s.MatsubaraSampling(b, pts[perm], positive_only=positive)
        check(ctx, other, b, F[:, perm], pts[perm], what + " (constructor)", cplx)
        ctx.trace()


def neighbours(ctx, name):
    """Points which differ little from those the object was made for"""
    s = sir()
    b = make(name)
    z = {'F': 1, 'B': 0}[b.statistics]
    taus = np.array(b.default_tau_sampling_points())
    for base, factor in itertools.product((taus, taus[::-1]), (1e-5, 1e-7, 1e-9, 1e-11)):
        smp = s.TauSampling(b, base)
        for which in list(range(base.size)) + [slice(None)]:
            pts = base.copy()
            pts[which] *= 1 - factor
            ctx.state(name, "tau", bool(base is taus), factor, str(which))
            what = f"{name} tau, point {which} times 1-{factor}"
            check(ctx, smp, b, slow(b.u, b, pts), pts, what, True, dict(points=pts))
            check(ctx, s.TauSampling(b, pts), b, slow(b.u, b, pts), pts, what, False)
        ctx.trace()
    for top in (2000, 10**6, 10**9):
        base = top + 2 * np.arange(b.size) + z
        for positive in (False, True):
            smp = s.MatsubaraSampling(b, base, positive_only=positive)
            for which, step in itertools.product([0, b.size - 1, slice(None)], (2, 6)):
                pts = base.copy()
                pts[which] += step
                ctx.state(name, "wn", top, positive, str(which), step)
                F = slow(b.uhat, b, pts)
                what = f"{name} frequency {which} of {base} shifted by {step}"
                check(ctx, smp, b, F, pts, what, not positive, dict(points=pts))
                g = coeffs(b, False)
                ctx.close(smp.evaluate(g, points=pts) - smp.evaluate(g), sum(
                    g[l] * (F[l] - smp.matrix.a[:, l]) for l in range(b.size)),
                    3e-15 * np.abs(F).max() * np.abs(g).sum(), f"{what}: change")
        ctx.trace()


def defaults(ctx, kind, stat, lam):
    """Default points for bases of every size; restriction to wn >= 0"""
    s = sir()
    full = make(f"{kind}-{stat}-{lam}-full")
    naug = 2 if kind == "aug" else 1 if kind == "vertex" else 0
    for n in range(1 + naug, full.size + 1):
        if kind == "dlr":
            b = make(f"{kind}-{stat}-{lam}-{n}")
        else:
            b = full[:n]
        what = f"{kind} {stat} L={lam} n={n}"
        ctx.state(kind, stat, lam, n)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # augmented bases may call for more points than there are functions
            st = None if kind == "vertex" else s.TauSampling(b)
            sw = s.MatsubaraSampling(b)
            sp = s.MatsubaraSampling(b, positive_only=True)
        ctx.step(3)
        if st is not None:
            check(ctx, st, b, slow(b.u, b, st.tau), st.tau, f"{what} tau", False)
            check(ctx, st, b, slow(b.u, b, st.tau), st.tau, f"{what} tau", True)
        F = slow(b.uhat, b, sw.wn)
        check(ctx, sw, b, F, sw.wn, f"{what} wn", True)
        check(ctx, sw, b, F, sw.wn, f"{what} wn", False)
        Fp = slow(b.uhat, b, sp.wn)
        check(ctx, sp, b, Fp, sp.wn, f"{what} wn>=0", False)
        ctx.expect(sp.positive_only is True and sw.positive_only is False,
                   f"{what}: positive_only")
        # both give the same coefficients for functions real in imaginary time
        if kind != "dlr":
            g = coeffs(b, False)
            both = sw.fit(sw.evaluate(g))
            c = max(sw.cond, sp.cond)
            if c < 1e10:
                ctx.close(sp.fit(sp.evaluate(g)), both, 1e-14 * c * 10 * np.abs(g).sum(),
                          f"{what}: non-negative frequencies only")
                ctx.expect(not np.iscomplexobj(sp.fit(sp.evaluate(g))), f"{what}: complex")
        ctx.trace()


def axes(ctx, name, domain, positive, call):
    """All array shapes and axes"""
    s = sir()
    b = make(name)
    z = {'F': 1, 'B': 0}[b.statistics]
    if domain == "tau":
        pts = np.linspace(.03, .96, b.size + 1) * b.beta
        default, new = s.TauSampling(b), s.TauSampling(b, pts)
        F = slow(b.u, b, pts)
    else:
        pts = 2 * np.array([5, 0, 1, 30, 2, -1, -2, -6][:b.size + 1]) + z
        if positive:
            pts = np.abs(pts)
        default = s.MatsubaraSampling(b, positive_only=positive)
        new = s.MatsubaraSampling(b, pts, positive_only=positive)
        F = slow(b.uhat, b, pts)
    smp, kw = (default, dict(points=pts)) if call else (new, {})
    cplx = domain == "wn" and not positive
    for ndim in (1, 2, 3, 4):
        for other in itertools.product((1, 2, 3, b.size), repeat=ndim - 1):
            for pos in range(ndim):
                shape = other[:pos] + (b.size,) + other[pos:]
                n = int(np.prod(shape))
                g = np.cos(np.arange(n) * 1.7).reshape(shape)
                if cplx:
                    g = g + 1j * np.sin(np.arange(n) * .3).reshape(shape)
                gm = np.moveaxis(g, pos, 0)
                want = sum(np.multiply.outer(F[l], gm[l]) for l in range(b.size))
                want = np.moveaxis(want, 0, pos)
                sc = np.abs(F).max() * b.size
                for ax in (pos, pos - ndim):
                    ctx.state(name, domain, positive, call, shape, ax)
                    what = f"{name} {domain} positive={positive} {shape} axis={ax} " \
                           f"points={bool(call)}"
                    ctx.close(smp.evaluate(g, axis=ax, **kw), want, 1e-13 * sc,
                              f"{what}: evaluate")
                    ctx.close(smp.evaluate(g, ax, **kw), want, 1e-13 * sc,
                              f"{what}: evaluate, positional")
                    ctx.close(smp.fit(want, axis=ax, **kw), g, 1e-12 * new.cond,
                              f"{what}: fit")
                    ctx.step(3)
        ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    res = []
    names = [f"IR-{st}-10-{n}" for st in "FB" for n in (1, 2, 3)] + [
        "reg-B-10-3", "aug-B-10-1", "vertex-F-10-2", "vertex-B-10-2", "dlr-F-10-2",
        "dlr-B-10-3"]
    if T:
        names += ["IR-F-42-4", "IR-B-1-4", "aug-B-42-2"]
    doms = [("tau", False), ("wn", False), ("wn", True)]
    for name in names:
        for dom, pos in doms:
            if name.startswith("vertex") and dom == "tau":
                continue        # undefined in imaginary time
            for length in (1, 2, 3, 4, 5):
                if length == 5 and not T or length == 4 and not (
                        T or name in ("IR-F-10-3", "IR-B-10-2", "reg-B-10-3")):
                    continue
                res.append(Task(sequences, name, dom, pos, length, weight=6**length))
            for call in (False, True):
                if name.split("-")[0] in ("IR", "reg"):
                    res.append(Task(axes, name, dom, pos, call, weight=1000))
    for name in ("IR-F-10-4", "IR-B-10-4", "reg-B-10-4", "IR-B-10-5", "IR-F-1-4"):
        for dom, pos in doms:
            res.append(Task(permutations, name, dom, pos, weight=100))
    for name in ("IR-F-10-4-nano", "IR-B-10-4-nano", "reg-B-10-4-giga", "IR-F-1-4-giga"):
        for dom, pos in doms:
            res.append(Task(permutations, name, dom, pos, weight=100))
            res.append(Task(sequences, name, dom, pos, 2, weight=100))
    for name in ("IR-F-10-4", "IR-B-10-5", "reg-B-10-4", "IR-F-10-6-nano", "IR-F-42-full",
                 "IR-B-10-6-giga", "aug-B-10-1-nano", "dlr-F-10-4-nano"):
        res.append(Task(neighbours, name, weight=400))
    for kind, stats in (("IR", "FB"), ("reg", "B"), ("aug", "B"), ("vertex", "FB"),
                        ("dlr", "FB")):
        for stat in stats:
            for lam in ("1", "10", "42") + (("300",) if T else ()):
                res.append(Task(defaults, kind, stat, lam, weight=500))
    return res
