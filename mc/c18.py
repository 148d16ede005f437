"""C18: The adapter answers every irbasis call as irbasis does.

irbasis itself is run side by side with the adapter: every call of its interface, for
every basis index, on critical points next to every section edge, in every argument
form, must give the same answer (up to axes of length one), and must be refused where
irbasis refuses it.
"""
import itertools
import warnings
import numpy as np
from .core import Task, Inapplicable
from .lib import sir, sve

BOUNDS = {
    "quick": "{F, B} x Lambda in {10, 100, 1000, 10000}; every index (5th for 10000; sampling "
             "points: each 3rd for 100, 9th for 1000, 27th for 10000); each section edge +- ulp, midpoints and mesh up to "
             "the ends; derivatives 0..4; |n| <= 300 and 10^2.5..10^8; 9 x 7 argument "
             "forms; Lambda in {0.5, 1, 42} against bases made directly",
    "thorough": "all indices for Lambda = 10^4, 10^5; Lambda = 10^6"}
ASSUMPTIONS = ["irbasis 2.2.3 with its database is right; its answers for omitted index "
               "and several points, which it does not support, are not compared",
               "extended precision package present (C22 for absence)"]

# Relative to the maximum of the function; what is reached is lower by 20 or more.  In
# the tails, high derivatives of the last functions limit the accuracy.
TOL_U = [5e-11, 5e-11, 1e-10, 3e-9, 5e-7]
TOL_V = [5e-11, 3e-9, 5e-7, 5e-5, 5e-3]


def pair(stat, lam):
    try:
        import irbasis
    except ImportError:
        raise Inapplicable("no irbasis")
    from sparse_ir import adapter
    if adapter.WARN_ACCURACY:
        raise Inapplicable("no extended precision")
    which = {"F": "logistic", "B": "regbose"}[stat]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if lam <= 1000:
            a = adapter.load(stat, lam)
        else:
            a = adapter.Basis(stat, lam, sve(which, float(lam), None))
        return a, irbasis.load(stat, lam)


def squeezed(ctx, got, want, tol, what):
    ctx.close(np.squeeze(np.asarray(got)), np.squeeze(np.asarray(want)), tol, what)


def mesh(edges):
    edges = np.asarray(edges)
    x = np.concatenate([edges, np.nextafter(edges, -2), np.nextafter(edges, 2),
                        .5 * (edges[1:] + edges[:-1]),
                        .9 * edges[1:] + .1 * edges[:-1],
                        .03 * edges[1:] + .97 * edges[:-1],
                        np.tanh(.5 * np.pi * np.sinh(np.linspace(-3, 3, 101)))])
    x = np.unique(x)
    return x[np.abs(x) <= 1]


def values(ctx, stat, lam, part, parts):
    """Every function and derivative, every index"""
    a, r = pair(stat, lam)
    L = min(a.dim(), r.dim())
    ctx.expect(a.dim() >= r.dim() - 1, f"dimension {a.dim()} < {r.dim()}")
    x = mesh(np.r_[a.section_edges_x, r.section_edges_x])
    y = mesh(np.r_[a.section_edges_y, r.section_edges_y])
    n = np.unique(np.r_[-300:301, [int(s * 10**k) for k in np.linspace(2.5, 8, 30)
                                   for s in (1, -1)]])
    for l in range(part, L, parts):
        ctx.state(stat, lam, l)
        for d in range(5):
            ctx.step(4)
            wu = r.d_ulx(l, x, d) if d else r.ulx(l, x)
            wv = r.d_vly(l, y, d) if d else r.vly(l, y)
            tu = TOL_U[d] * np.abs(wu).max()
            tv = TOL_V[d] * np.abs(wv).max()
            squeezed(ctx, a.d_ulx(l, x, d), wu, tu, f"d_ulx({l}, x, {d})")
            squeezed(ctx, a.d_vly(l, y, d), wv, tv, f"d_vly({l}, y, {d})")
            if d == 0:
                squeezed(ctx, a.ulx(l, x), wu, tu, f"ulx({l}, x)")
                squeezed(ctx, a.vly(l, y), wv, tv, f"vly({l}, y)")
        wn = np.asarray(r.compute_unl(n, l)).ravel()
        squeezed(ctx, a.compute_unl(n, l), wn, 3e-12 + 1e-24 * r.sl(0)/r.sl(l),
                 f"compute_unl(n, {l})")
        hf = np.abs(n) > 50 * lam
        if hf.any():
            # tails are accurate relative to themselves
            wn = wn[hf]
            squeezed(ctx, a.compute_unl(n[hf], l), wn, 1e-9 * np.abs(wn) + 1e-24,
                     f"compute_unl(large n, {l})")
        ctx.close(a.sl(l), r.sl(l), 1e-10 * r.sl(l) + 1e-15 * r.sl(0), f"sl({l})")
        ctx.trace()
    ctx.sample(f"{x.size} points x, {y.size} y, {n.size} frequencies, {L} functions")


def forms(ctx, stat, lam):
    """Argument forms: same answer, same shape, same refusals"""
    a, r = pair(stat, lam)
    L = min(a.dim(), r.dim())
    if a.dim() != r.dim():
        ctx.note(f"dimensions {a.dim()} and {r.dim()} for {stat}, {lam}")
    for name in dir(r):
        if not name.startswith("_"):
            ctx.expect(hasattr(a, name), f"no {name}")
            if hasattr(a, name):
                ctx.expect(callable(getattr(a, name)) == callable(getattr(r, name)),
                           f"{name} is method or not")
    ctx.expect(a.statistics == r.statistics == stat, "statistics")
    ctx.expect(a.Lambda == r.Lambda == lam, "Lambda")
    for o in (a, r):
        for ax in "xy":
            e = np.asarray(getattr(o, f"section_edges_{ax}"))
            ctx.expect(e.ndim == 1 and e.size == getattr(o, f"num_sections_{ax}")() + 1
                       and e[0] == -1 and e[-1] == 1 and (np.diff(e) > 0).all(),
                       f"sections in {ax}")
    x = np.array([-.99, -.3, .2, 1.])
    ls = [0, 3, np.int64(2), -1, L - 1, [0, 2, 1, 4], np.array([3, 0, 1, 1]), [1],
          np.array([[1], [4]]), np.array(2)]
    if a.dim() != r.dim():
        ls.remove(-1)
    xs = [.3, -1, 1, np.float64(.2), np.array(.1), list(x), x, x[None, :], x[:, None],
          [.25], x.reshape(2, 2), x.astype(np.float32)]
    calls = {"ulx": (), "vly": (), "d_ulx": (0, 1, 2), "d_vly": (0, 1, 2)}
    for name, orders in calls.items():
        fa, fr = getattr(a, name), getattr(r, name)
        for extra in ([(d,) for d in orders] or [()]):
            tol = (TOL_U if "u" in name else TOL_V)[extra[0] if extra else 0]
            scale = np.abs([fr(l, q, *extra) for l in range(L) for q in (-1, 0., .5, 1.)])
            tol = tol * scale.max()
            for l, xx in itertools.product(ls + [None], xs):
                what = f"{name}({_r(l)}, {_r(xx)}{', ' + str(extra[0]) if extra else ''})"
                ctx.step(2)
                ctx.state(name, extra, _r(l), _r(xx))
                if l is None:
                    if np.size(xx) > 1 or np.ndim(xx) > 1:
                        continue
                    want = np.asarray(fr(None, xx, *extra))[..., :L]
                    got = np.asarray(fa(None, xx, *extra))[:L]
                    squeezed(ctx, got, want, tol, what)
                    continue
                try:
                    want = fr(l, xx, *extra)
                except Exception:
                    ctx.raises(lambda: fa(l, xx, *extra), what)
                    continue
                try:
                    got = fa(l, xx, *extra)
                except Exception as e:
                    ctx.fail(f"{what}: raised {type(e).__name__}: {e}")
                    continue
                ctx.close(got, want, tol, what)
                ctx.trace()
            for l, xx in ((a.dim(), .1), (-a.dim() - 1, .1), ([0, a.dim()], .1),
                          (0, 1.0001), (0, -1.5), (0, [0, 2.]), (1, [[-3., .1]]),
                          (None, 1.2)):
                ctx.raises(lambda: fa(l, xx, *extra), f"{name}({_r(l)}, {_r(xx)})")
            # named as in irbasis
            arg = {"l": 1, ("x" if "u" in name else "y"): .3}
            if extra:
                arg["order"] = extra[0]
            ctx.close(fa(**arg), fr(**arg), tol, f"{name}(**{arg})")
    # Singular values
    ctx.expect(np.shape(a.sl()) == (a.dim(),), "sl()")
    for l in ls + [slice(None, L), slice(2, 7, 2)]:
        ctx.step(2)
        ctx.close(a.sl(l), r.sl(l), 1e-13 * r.sl(0), f"sl({_r(l)})")
    ctx.close(a.sl()[:L], r.sl()[:L], 1e-13 * r.sl(0), "sl()")
    ctx.raises(lambda: a.sl(a.dim()), "sl(dim)")
    # Matsubara frequencies
    nn = np.array([-100, -3, -1, 0, 1, 2, 50, 10**5])
    for n in (0, 5, -7, np.int64(3), np.array(2), [0], [3, 1], list(map(int, nn)), nn,
              nn[::-1], nn.astype(np.int32), nn[:0]):
        for l in ls + [None]:
            ctx.step(2)
            ctx.state("unl", _r(n), _r(l))
            what = f"compute_unl({_r(n)}, {_r(l)})"
            if np.ndim(l) > 1:
                continue
            if np.size(n) == 0:
                continue
            want = np.asarray(r.compute_unl(n, l))
            got = np.asarray(a.compute_unl(n, l))
            if l is None:
                want, got = want[..., :L], got[..., :L]
            squeezed(ctx, got, want, 3e-12, what)
            ctx.expect(np.iscomplexobj(got), f"{what}: type {got.dtype}")
            ctx.trace()
    ctx.close(a.compute_unl(n=nn, whichl=1), np.squeeze(r.compute_unl(n=nn, whichl=1)),
              3e-12, "compute_unl by name")
    for l in (a.dim(), [0, a.dim()]):
        ctx.raises(lambda: a.compute_unl(nn, l), f"compute_unl(n, {l})")


def _r(x):
    return repr(x).replace("\n", "")


def roots(fn, lo=-1., hi=1.):
    """Roots of a function in (-1, 1) by vectorised bisection"""
    t = np.linspace(-3, 3, 10000)
    x = np.tanh(.5 * np.pi * np.sinh(t))
    f = fn(x)
    a, b = x[:-1][f[:-1] * f[1:] < 0], x[1:][f[:-1] * f[1:] < 0]
    if not a.size:
        return a
    fa = fn(a)
    for _ in range(70):
        m = .5 * (a + b)
        fm = fn(m)
        left = fm * fa > 0
        a, b = np.where(left, m, a), np.where(left, b, m)
    return .5 * (a + b)


def between(edges):
    return .5 * (edges[1:] + edges[:-1])


def points(ctx, stat, lam, part, parts, start=0):
    """Sampling points for every index"""
    from sparse_ir import adapter
    a, r = pair(stat, lam)
    L = min(a.dim(), r.dim())
    for l in range(start + part, L, parts):
        ctx.state(stat, lam, l)
        ctx.step(4)
        rx = between(np.hstack([-1, roots(lambda x: r.ulx(l, x)), 1]))
        ry = roots(lambda y: r.vly(l, (y + 1)/2))/2 + .5
        ry = between(np.sort(np.hstack([-1, -ry, [0] * (l % 2), ry, 1])))
        x, y = a.sampling_points_x(l), a.sampling_points_y(l)
        for name, p, q in (("x", x, rx), ("y", y, ry)):
            p = np.asarray(p)
            ctx.close(p, q, 1e-8, f"sampling_points_{name}({l})")
            ctx.expect(p.shape == (l + 1,) and (np.diff(p) > 0).all()
                       and (np.abs(p) < 1).all(),
                       f"sampling_points_{name}({l}): {p.size} points")
        n, m = a.sampling_points_matsubara(l), r.sampling_points_matsubara(l)
        ok = (n.ndim == 1 and np.issubdtype(n.dtype, np.integer)
              and (np.diff(n) > 0).all() and n.size >= l + 1
              and np.array_equal(n, -n[::-1] - (stat == "F"))
              and (stat == "F" or 0 in n))
        ctx.expect(ok, f"sampling_points_matsubara({l}): {n.size} points")
        if ctx.expect(n.size == m.size, f"sampling_points_matsubara({l}): {n.size} points"
                      f" instead of {m.size}"):
            # extrema may be flat, but must be as extreme
            fn = np.abs(np.squeeze(r.compute_unl(n, l)))
            fm = np.abs(np.squeeze(r.compute_unl(m, l)))
            ctx.close(fn, fm, 1e-7 * fm + 1e-11, f"sampling_points_matsubara({l})")
        if l < 4 or l == L - 1:
            for name in ("x", "y", "matsubara"):
                fn = getattr(adapter, f"sampling_points_{name}")
                p = getattr(a, f"sampling_points_{name}")(whichl=l)
                ctx.expect(np.array_equal(fn(a, l), p) and np.array_equal(
                    fn(b=a, whichl=l), p), f"function sampling_points_{name}({l})")
        ctx.trace()
    if part == 0:
        for l in (a.dim(), a.dim() + 3):
            ctx.raises(lambda: a.sampling_points_matsubara(l), f"points for {l}")
            ctx.raises(lambda: a.sampling_points_x(l), f"points for {l}")
            ctx.raises(lambda: a.sampling_points_y(l), f"points for {l}")


def elsewhere(ctx, stat, lam):
    """Cutoffs which irbasis does not have"""
    from sparse_ir import adapter
    pair(stat, 10)
    s = sir()
    zeta = int(stat == "F")
    which = {"F": s.LogisticKernel, "B": s.RegularizedBoseKernel}[stat]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = adapter.load(stat, lam)
        a2 = adapter.load(statistics=stat, Lambda=lam, h5file="nowhere.h5")
        b = s.FiniteTempBasis(stat, 2., lam/2, kernel=which(lam))
    ctx.step(4)
    ctx.state(stat, lam)
    L = b.size
    ctx.expect(a.dim() == L == a2.dim(), f"dimension {a.dim()}, {L}")
    x = np.array([-1, -.999, -.4, 0, .3, .8, 1])
    n = np.array([-10**6, -50, -2, -1, 0, 1, 7, 1000])
    yp = b.kernel.ypower
    sc = np.sqrt(lam/2) * (lam/2)**-yp
    for o in (a, a2):
        ctx.close(o.sl(), b.s / sc, 1e-13 * b.s[0] / sc, "sl")
        for l in range(L):
            ctx.step(3)
            ctx.close(o.ulx(l, x), b.u[l](x + 1), 1e-11, f"ulx({l})")
            ctx.close(o.vly(l, x), b.v[l](lam/2 * x) * np.sqrt(lam/2), 1e-9,
                      f"vly({l})")
            ctx.close(np.squeeze(o.compute_unl(n, l)), b.uhat[l](2*n + zeta) / np.sqrt(2),
                      1e-12, f"compute_unl({l})")
            ctx.trace()
    for bad in ("X", "", None, "f", "barB"):
        ctx.raises(lambda: adapter.load(bad, lam), f"load({bad})")


def tasks(tier):
    quick = tier == "quick"
    out = []
    to = dict(timeout=400 if quick else 3600)
    for stat in "FB":
        for lam, parts in ((10, 1), (100, 2), (1000, 4)):
            out.append(Task(forms, stat, lam, weight=lam / 100, **to))
            for p in range(parts):
                out.append(Task(values, stat, lam, p, parts, weight=lam / 100, **to))
            # with parts being odd, each part has indices of either parity
            m = 9 if lam == 1000 else 3
            for p in range((3 if lam == 10 else 1) if quick else m):
                out.append(Task(points, stat, lam, p, m, weight=lam, **to))
        for p in ((4,) if quick else range(5)):
            out.append(Task(values, stat, 10000, p, 5, weight=3000, **to))
        if quick:
            out.append(Task(points, stat, 10000, 0, 27, 13, weight=3000, **to))
        else:
            for lam in (10**4, 10**5, 10**6):
                if lam > 10**4:
                    out.append(Task(values, stat, lam, 0, 1, weight=lam, **to))
                if lam < 10**6:
                    out += [Task(points, stat, lam, p, 9, weight=lam, **to)
                            for p in range(9)]
        for lam in (.5, 1, 42):
            out.append(Task(elsewhere, stat, lam, **to))
    return out
