"""C21: Invalid arguments are always rejected and never give numbers.

A table of entry points (evaluation in time, frequency and real frequency, constructors,
selections, quadrature) is crossed with all kinds of invalid argument and all positions
at which one can hide in arrays of several shapes and types.  The boundary of each
domain and the valid neighbours must be accepted, so that the table cannot be satisfied
by rejecting everything.
"""
import itertools
import warnings
from fractions import Fraction
import numpy as np
from .core import Task, Inapplicable
from .lib import sir, basis, kernel, ddouble

BOUNDS = {
    "quick": "33 entry points in time, 21 in frequency, 10 in real frequency, 8 kernels x "
             "all kinds of invalid value x all positions in shapes (), (1,), (3,), (2, 2), "
             "(2, 1, 2), lists; 150 constructors and selections",
    "thorough": "also shape (7,), (3, 3), more bases, pairs of invalid values"}
ASSUMPTIONS = ["rejection means any exception, not a particular type"]

SHAPES = [(), (1,), (3,), (2, 2), (2, 1, 2)]


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


# ---- evaluation points --------------------------------------------------------

def dlr(b, **kw):
    try:
        from sparse_ir.dlr import DiscreteLehmannRepresentation
    except ImportError:
        raise Inapplicable("no DLR")
    return DiscreteLehmannRepresentation(b, **kw)


def tau_entries(beta, wmax):
    """name -> (function, beta)"""
    s = sir()
    from sparse_ir import augment as aug, dlr as _dlr
    f = basis("F", beta, wmax, 1e-6)
    b = basis("B", beta, wmax, 1e-6)
    ab = aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear)
    af = aug.AugmentedBasis(f, aug.MatsubaraConst)
    n = 4 * f.size
    out = {
        "F.u": f.u, "B.u": b.u, "u[0]": f.u[0], "u[-1]": f.u[-1], "u[1:3]": f.u[1:3],
        "u.deriv": f.u.deriv(), "u.deriv(2)": f.u.deriv(2), "u[2].deriv": f.u[2].deriv(),
        "basis[:3].u": f[:3].u, "rescale.u": f.rescale(2*beta).rescale(beta).u,
        "u.value": lambda x: f.u.value(0, x),
        "u.value(l)": lambda x: f.u.value(np.ones(np.shape(x), int), x),
        "aug.u": ab.u, "aug.u[0]": ab.u[0], "aug.u[1]": ab.u[1], "aug.u[3]": ab.u[3],
        "aug.u[:4]": ab.u[:4], "aug.deriv": ab.u.deriv(), "aug.deriv[0]": ab.u.deriv()[0],
        "aug.deriv[1]": ab.u.deriv()[1], "aug.deriv(2)[1]": ab.u.deriv(2)[1],
        "augF.u[1]": af.u[1], "augF.u[0]": af.u[0],
        "TauConst": aug.TauConst(beta), "TauLinear": aug.TauLinear(beta),
        "TauConst.deriv": aug.TauConst(beta).deriv(),
        "TauLinear.deriv": aug.TauLinear(beta).deriv(),
        "TauLinear.deriv(2)": aug.TauLinear(beta).deriv(2),
        "MatsubaraConst": aug.MatsubaraConst(beta),
        "DLR F": dlr(f).u, "DLR B": dlr(b).u,
        "TauPoles": _dlr.TauPoles("F", beta, np.array([-.5, .1])),
        "TauPoles 0": _dlr.TauPoles("B", beta, np.array([0.])),
    }
    for cls, bb in (("F", f), ("B", b), ("aug", ab)):
        out[f"TauSampling {cls}"] = lambda x, bb=bb: s.TauSampling(
            bb, np.ravel(np.asarray(x))).matrix
    return out, 0., beta


def x_entries():
    s = sir()
    r = quiet(lambda: s.compute_sve(s.LogisticKernel(10.), 1e-6))
    out = {"sve.u": r.u, "sve.v": r.v, "sve.u[1]": r.u[1],
           "poly": s.poly.PiecewiseLegendrePoly(np.ones((3, 2, 2)), [-1, .3, 1])}
    try:
        from sparse_ir import adapter
        b = quiet(lambda: adapter.load("F", 10.))
        out["adapter.ulx"] = lambda x: b.ulx(1, x)
        out["adapter.vly"] = lambda x: b.vly(0, x)
        out["adapter.ulx(None)"] = lambda x: b.ulx(None, x)
        out["adapter.d_ulx"] = lambda x: b.d_ulx(1, x, 1)
        out["adapter.d_vly"] = lambda x: b.d_vly(1, x, 2)
    except ImportError:
        pass
    return out, -1., 1.


def omega_entries(beta, wmax):
    f = basis("F", beta, wmax, 1e-6)
    return {"v": f.v, "v[0]": f.v[0], "v.deriv": f.v.deriv(), "basis[:3].v": f[:3].v,
            "v.value": lambda x: f.v.value(1, x),
            "DLR": lambda x: dlr(f, sampling_points=np.ravel(np.asarray(x))).to_IR(
                np.ones(np.size(x)))}, -wmax, wmax


def arrays(valid, bad, shapes):
    """All arrays with the value at one position, the rest valid; also as list"""
    for shape in shapes:
        size = int(np.prod(shape))
        for pos in range(size):
            vals = [valid[i % len(valid)] for i in range(size)]
            vals[pos] = bad
            a = np.array(vals, dtype=np.result_type(*[np.asarray(v) for v in vals]))
            yield shape, pos, a.reshape(shape)
            if shape == (3,):
                yield shape, pos, vals
    yield "scalar", 0, bad


def bad_points(lo, hi):
    """Kinds of points outside of the domain"""
    w = hi - lo
    eps = np.finfo(float).eps
    return [np.nextafter(lo, -np.inf) if lo else -5e-324, np.nextafter(hi, np.inf),
            lo - 1e-10 * w, hi + 1e-10 * w, lo - w, hi + w, hi + 1e300, -1e300,
            np.nan, np.inf, -np.inf, np.float32(np.nan), hi * (1 + 4 * eps)]


def points(ctx, which, args, shapes):
    """Evaluation outside of the domain"""
    entries, lo, hi = {"tau": tau_entries, "omega": omega_entries, "x": x_entries}[
        which](*args)
    inner = lo + (hi - lo) * np.array([.3, .77, 0., 1., .5])
    for name, fn in entries.items():
        # boundary and everything within is fine
        for good in [lo, hi, np.nextafter(lo, hi), np.nextafter(hi, lo), .5*(lo + hi)]:
            for a in (good, np.array(good), np.array([good]), [good, inner[0]],
                      np.full((2, 2), good), np.array([[good], [inner[1]]])):
                ctx.step()
                ctx.state(which, args, name, "good", good, np.shape(a))
                try:
                    quiet(lambda: fn(a))
                except Exception as e:
                    ctx.fail(f"{name}({a!r}): valid, but {type(e).__name__}: {e}")
        # nothing at all
        ctx.step()
        try:
            quiet(lambda: fn(np.zeros(0)))
        except Exception as e:
            if "Sampling" not in name and "DLR" != name:
                ctx.fail(f"{name}(empty array): {type(e).__name__}: {e}")
        for bad in bad_points(lo, hi):
            for shape, pos, a in arrays(inner, bad, shapes):
                ctx.state(which, args, name, repr(bad), shape, pos, type(a).__name__)
                ctx.raises(lambda: quiet(lambda: fn(a)),
                           f"{name} on [{lo}, {hi}]: {bad!r} at {pos} of {shape}")
                ctx.trace()
            if len(ctx.failures) > 15:
                return
    ctx.sample(f"{which}: {len(entries)} entry points")


# ---- frequencies ----------------------------------------------------------------

def freq_entries(beta, wmax):
    """name -> (function, parity or None)"""
    s = sir()
    from sparse_ir import augment as aug, dlr as _dlr
    f = basis("F", beta, wmax, 1e-6)
    b = basis("B", beta, wmax, 1e-6)
    ab = aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear)
    af = aug.AugmentedBasis(f, aug.MatsubaraConst)
    poles = np.array([-.5, .1])
    out = {
        "F.uhat": (f.uhat, 1), "B.uhat": (b.uhat, 0), "uhat[1]": (f.uhat[1], 1),
        "uhat[:2]": (b.uhat[:2], 0), "basis[:3].uhat": (f[:3].uhat, 1),
        "rescale.uhat": (b.rescale(2.).uhat, 0),
        "aug.uhat": (ab.uhat, 0), "aug.uhat[0]": (ab.uhat[0], 0),
        "aug.uhat[1]": (ab.uhat[1], 0), "aug.uhat[4]": (ab.uhat[4], 0),
        "augF.uhat": (af.uhat, 1), "augF.uhat[0]": (af.uhat[0], None),
        "TauConst.hat": (aug.TauConst(beta).hat, 0),
        "TauLinear.hat": (aug.TauLinear(beta).hat, 0),
        "MatsubaraConst.hat": (aug.MatsubaraConst(beta).hat, None),
        "DLR F": (dlr(f).uhat, 1), "DLR B": (dlr(b).uhat, 0),
        "MatsubaraPoles": (_dlr.MatsubaraPoles("F", beta, poles), 1),
        "MatsubaraPoles B": (_dlr.MatsubaraPoles("B", beta, poles), 0),
        "any": (s.poly.PiecewiseLegendreFT(quiet(lambda: s.compute_sve(
            s.LogisticKernel(10.), 1e-6)).u, "any"), None),
    }
    for cls, bb, p in (("F", f, 1), ("B", b, 0), ("aug", ab, 0)):
        out[f"MatsubaraSampling {cls}"] = (lambda x, bb=bb: s.MatsubaraSampling(
            bb, np.ravel(np.asarray(x))).matrix, p)
        out[f"MatsubaraSampling {cls} +"] = (lambda x, bb=bb: s.MatsubaraSampling(
            bb, np.ravel(np.asarray(x)), positive_only=True).matrix, p)
    return out


def frequencies(ctx, beta, wmax, shapes):
    for name, (fn, parity) in freq_entries(beta, wmax).items():
        p = parity or 0
        plus = name.endswith("+")
        good = [p, 2 + p, 10 + p, 1000 + p, 2**20 + p] + (
            [] if plus else [p - 2, -100 + p])
        for g in good:
            for a in (g, np.array(g), [g, 4 + p], np.full((2, 2), g), float(g),
                      np.array([g], np.int32), np.array([g, p], float)):
                ctx.step()
                ctx.state(beta, wmax, name, "good", g, repr(np.asarray(a).dtype))
                try:
                    quiet(lambda: fn(a))
                except Exception as e:
                    ctx.fail(f"{name}({a!r}): valid, but {type(e).__name__}: {e}")
        bad = [.5, p + 1e-9, p + .1, np.nan, np.inf, -np.inf, 1e300, 1j * (p + 2),
               p + 2 + 1e-3j, 2**53 + .0 if parity == 1 else np.nan, float(p) + 2**-30]
        if parity is not None:
            bad += [p + 1, -p - 1 + 2 * p, 1001 - p, 3. - p, np.int8(1 - p),
                    np.uint16(1 - p), -7 + p - 2 * p * 0, True if p == 0 else False]
            bad = [x for x in bad if not (np.isrealobj(x) and np.isfinite(x)
                                          and x == np.floor(x) and x % 2 == p)]
        if plus:
            bad += [p - 2, -10 + p, -1000. + p]
        for x in bad:
            for shape, pos, a in arrays([p, 2 + p, 8 + p], x, shapes):
                ctx.state(beta, wmax, name, repr(x), shape, pos, type(a).__name__)
                ctx.raises(lambda: quiet(lambda: fn(a)),
                           f"{name}: {x!r} at {pos} of {shape}")
                ctx.trace()
            if len(ctx.failures) > 15:
                return
        for x in ("1", None, "a", [None, p], object(), b"1", [[p], [p, p]]):
            if x == "1" and parity == 0 and not plus:
                continue
            ctx.state(beta, wmax, name, repr(x)[:10])
            ctx.raises(lambda: quiet(lambda: fn(x)), f"{name}: {x!r}")
    ctx.sample(f"frequencies for {beta}, {wmax}")


# ---- kernels ------------------------------------------------------------------

def kernels(ctx, lam, shapes):
    s = sir()
    out = {}
    for name in ("logistic", "regbose"):
        k = kernel(name, lam)
        out[name] = k
        for sign in (1, -1):
            out[f"{name} {sign:+}"] = k.get_symmetrized(sign)
    for name, k in out.items():
        (xlo, xhi), (ylo, yhi) = k.xrange, k.yrange
        xs = xlo + (xhi - xlo) * np.array([.2, .5, 0, 1.])
        ys = ylo + (yhi - ylo) * np.array([.4, 1., .9, 0])
        for x, y in itertools.product((xlo, xhi, .5*(xlo + xhi)), (ylo, yhi)):
            for conv in (float, np.array, lambda v: np.array([v]),
                         lambda v: np.full((2, 2), v)):
                ctx.step()
                try:
                    v = quiet(lambda: k(conv(x), conv(y)))
                    ctx.expect(np.isfinite(v).all(), f"{name}({x}, {y}) = {v}")
                except Exception as e:
                    ctx.fail(f"{name}({x}, {y}): valid, but {type(e).__name__}: {e}")
        for which, lo, hi in (("x", xlo, xhi), ("y", ylo, yhi)):
            valid = xs if which == "x" else ys
            other = ys if which == "x" else xs
            for bad in bad_points(lo, hi):
                for shape, pos, a in arrays(valid, bad, shapes):
                    o = np.resize(other, np.shape(a))
                    call = (lambda: k(a, o)) if which == "x" else (lambda: k(o, a))
                    ctx.state(lam, name, which, repr(bad), shape, pos)
                    ctx.raises(lambda: quiet(call),
                               f"{name}: {which} = {bad!r} at {pos} of {shape}")
                    # grid
                    if shape == (3,):
                        g = np.asarray(a)[:, None]
                        call = (lambda: k(g, ys)) if which == "x" else (lambda: k(
                            xs[:, None], np.asarray(a)))
                        ctx.raises(lambda: quiet(call), f"{name}: {which} = {bad!r} on grid")
                    ctx.trace()
                if len(ctx.failures) > 15:
                    return


# ---- everything else -------------------------------------------------------------

def constructors(ctx):
    s = sir()
    from sparse_ir import augment as aug, dlr as _dlr
    FT = s.FiniteTempBasis
    r10 = quiet(lambda: s.compute_sve(s.LogisticKernel(10.), 1e-6))
    f = basis("F", 5., 2., 1e-6)
    b = basis("B", 5., 2., 1e-6)
    stats = ["", "X", "f", "b", "FB", "BF", "F ", None, 0, 1, "fermion", b"F", ("F",)]
    nonpos = [0, -1, -1e-300, np.nan, -np.inf, -5., 0., "1", None, [1., 2.]]
    good = [
        ("F", lambda: FT("F", 5., 2., 1e-6)),
        ("B with kernel", lambda: FT("B", 5., 2., 1e-6, kernel=s.LogisticKernel(10.))),
        ("B with bose kernel", lambda: FT("B", 5., 2., 1e-6,
                                          kernel=s.RegularizedBoseKernel(10.))),
        ("tiny beta", lambda: FT("F", 1e-3, 1000., 1e-6, sve_result=sve_of(1.))),
        ("large beta", lambda: FT("F", 1e6, 1e-6, 1e-6, sve_result=sve_of(1.))),
        ("zero cutoff", lambda: s.LogisticKernel(0)),
        ("integers", lambda: FT("F", 5, 2, 1e-6)),
        ("poly", lambda: s.poly.PiecewiseLegendrePoly(np.ones((1, 1)), [0, 1])),
        ("symm", lambda: s.poly.PiecewiseLegendrePoly(np.ones((1, 1)), [0, 1], symm=1)),
        ("n_sv", lambda: s.compute_sve(s.LogisticKernel(1.), 1e-4, n_sv=3)),
        ("n_sv 0", lambda: s.compute_sve(s.LogisticKernel(1.), 1e-4, n_sv=1)),
        ("cutoff", lambda: s.compute_sve(s.LogisticKernel(1.), 1e-4, cutoff=0)),
        ("cutoff .5", lambda: s.compute_sve(s.LogisticKernel(1.), 1e-4, cutoff=.5)),
        ("TauConst", lambda: aug.TauConst(1e-3)),
        ("max_size", lambda: FT("F", 5., 2., 1e-6, max_size=3)),
    ]
    for name, fn in good:
        ctx.step()
        ctx.state("good", name)
        try:
            quiet(fn)
        except Exception as e:
            ctx.fail(f"{name}: valid, but {type(e).__name__}: {e}")

    bad = []
    for st in stats:
        bad += [(f"FiniteTempBasis({st!r})", lambda st=st: FT(st, 5., 2., 1e-6)),
                (f"FiniteTempBasis({st!r}, sve)",
                 lambda st=st: FT(st, 5., 2., sve_result=r10)),
                (f"logistic.weight_func({st!r})",
                 lambda st=st: s.LogisticKernel(1.).weight_func(st)),
                (f"regbose.weight_func({st!r})",
                 lambda st=st: s.RegularizedBoseKernel(1.).weight_func(st)),
                (f"MatsubaraPoles({st!r})", lambda st=st: _dlr.MatsubaraPoles(
                    st, 1., np.array([.5]))([0 if st in (0, 'b', 'B') else 1])),
                (f"TauPoles({st!r})", lambda st=st: _dlr.TauPoles(
                    st, 1., np.array([.5]))([.5]))]
        try:
            from sparse_ir import adapter
            bad += [(f"adapter.load({st!r})", lambda st=st: adapter.load(st, 1.))]
        except ImportError:
            pass
    bad += [("regbose.weight_func(F)", lambda: s.RegularizedBoseKernel(1.).weight_func("F"))]
    for x in nonpos:
        bad += [(f"FiniteTempBasis(beta={x!r})", lambda x=x: FT("F", x, 2., 1e-6)),
                (f"FiniteTempBasis(beta={x!r}, sve)",
                 lambda x=x: FT("F", x, 2., sve_result=r10)),
                (f"FiniteTempBasisSet(beta={x!r})",
                 lambda x=x: s.FiniteTempBasisSet(x, 2., 1e-6)),
                (f"finite_temp_bases(beta={x!r})",
                 lambda x=x: s.finite_temp_bases(x, 2., 1e-6)),
                (f"rescale({x!r})", lambda x=x: f.rescale(x)),
                (f"TauConst({x!r})", lambda x=x: aug.TauConst(x)),
                (f"TauLinear({x!r})", lambda x=x: aug.TauLinear(x)),
                (f"MatsubaraConst({x!r})", lambda x=x: aug.MatsubaraConst(x)),
                (f"TauPoles(beta={x!r})", lambda x=x: _dlr.TauPoles(
                    "F", x, np.array([.5]))([0.])),
                (f"MatsubaraPoles(beta={x!r})", lambda x=x: _dlr.MatsubaraPoles(
                    "F", x, np.array([.5]))([1]))]
    for x in (-1, -1e-300, np.nan, -np.inf, "1", None):
        bad += [(f"FiniteTempBasis(wmax={x!r})", lambda x=x: FT("F", 2., x, 1e-6)),
                (f"LogisticKernel({x!r})", lambda x=x: s.LogisticKernel(x)),
                (f"RegularizedBoseKernel({x!r})", lambda x=x: s.RegularizedBoseKernel(x)),
                (f"FiniteTempBasisSet(wmax={x!r})",
                 lambda x=x: s.FiniteTempBasisSet(2., x, 1e-6))]
    for lam in (9.999, 10.001, 1., 20., 0., 10 * (1 + 1e-12)):
        for name in ("logistic", "regbose"):
            bad += [(f"kernel {name}({lam}) for cutoff 10", lambda lam=lam, name=name: FT(
                "B", 5., 2., 1e-6, kernel=kernel(name, lam)))]
    for st in ("F",):
        for a in (aug.TauConst, aug.TauLinear):
            bad += [(f"{a.__name__} for fermions", lambda a=a: aug.AugmentedBasis(f, a))]
    bad += [("augmentation none", lambda: aug.AugmentedBasis(b, 3)),
            ("DLR of bose kernel", lambda: dlr(basis("B", 5., 2., 1e-6, "regbose"))),
            ("DLR out of range", lambda: dlr(f, sampling_points=[0., 2.1])),
            ("symmetrised twice", lambda: s.LogisticKernel(1.).get_symmetrized(
                1).get_symmetrized(1)),
            ("symmetrised 0", lambda: s.LogisticKernel(1.).get_symmetrized(0)),
            ("symmetrised 2", lambda: s.LogisticKernel(1.).get_symmetrized(2))]
    for x in (-1, 1.5, -.1, np.nan, "a"):
        bad += [(f"n_sv={x!r}", lambda x=x: s.compute_sve(s.LogisticKernel(1.), 1e-4,
                                                           n_sv=x))]
    for x in (-1., 1.1, np.nan, -1e-20, np.inf):
        bad += [(f"cutoff={x!r}", lambda x=x: s.compute_sve(s.LogisticKernel(1.), 1e-4,
                                                             cutoff=x))]
    # Polynomials
    P = s.poly.PiecewiseLegendrePoly
    one = np.ones((2, 2))
    for k in ([0, 1], [0, 1, 2, 3], [0, 2, 1], [2, 1, 0], [0, np.nan, 1], [np.nan, 0, 1],
              [0, 1, np.nan], [[0, 1, 2]], [0, 0, 1], [0, 1, 1], [1, 1, 1], [], 1.):
        bad += [(f"knots {k!r}", lambda k=k: P(one, k))]
    for pos in range(4):
        d = one.copy()
        d.flat[pos] = np.nan
        bad += [(f"NaN data at {pos}", lambda d=d: P(d, [0, 1, 2]))]
    bad += [("symm", lambda: P(one, [0, 1, 2], symm=[1, 1])),
            ("dx", lambda: P(one, [0, 1, 2], dx=[1, 2])),
            ("dx NaN", lambda: P(one, [0, 1, 2], dx=[1, np.nan])),
            ("value of scalar", lambda: P(one, [0, 1, 2]).value(0, .5)),
            ("value", lambda: f.u.value(f.size, .5)),
            ("value -", lambda: f.u.value(-f.size - 1, .5)),
            ("value 1.5", lambda: f.u.value(1.5, .5)),
            ("value list", lambda: f.u.value([0, f.size], .5)),
            ("roots of vector", lambda: f.u.roots()),
            ("sign changes of vector", lambda: f.uhat.sign_changes()),
            ("extrema of vector", lambda: f.uhat.extrema()),
            ("part", lambda: f.uhat[0].extrema(part="abs")),
            ("freq", lambda: s.poly.PiecewiseLegendreFT(r10.u, "half")),
            ("freq None", lambda: s.poly.PiecewiseLegendreFT(r10.u, None)),
            ("interval", lambda: s.poly.PiecewiseLegendreFT(f.u, "odd"))]
    for sel in (slice(0, 1), slice(1, 2), slice(-1, None), slice(0, 2), slice(0, 0), [2], []):
        bad += [(f"{m} of vector of functions [{sel}]", lambda o=o, m=m, sel=sel: getattr(
            o[sel], m)()) for o, m in ((f.u, "roots"), (b.v, "roots"), (f.uhat, "extrema"),
                                       (b.uhat, "extrema"), (b.uhat, "sign_changes"),
                                       (f.uhat, "sign_changes"))]
    # Selections
    for what, o, n in (("basis", f, f.size), ("aug", aug.AugmentedBasis(
            b, aug.TauConst), b.size + 1)):
        for i in (0, -1, n, 1.5, "a", slice(1, None), slice(None, None, 2),
                  slice(None, None, -1), slice(2, 3), slice(-2, None), None, (0,), [0, 1],
                  slice(0, 2.5), slice("a", None), ..., (slice(None), 0)):
            bad += [(f"{what}[{i}]", lambda o=o, i=i: o[i])]
    bad += [("aug[:1]", lambda: aug.AugmentedBasis(b, aug.TauConst)[:1])]
    au = aug.AugmentedBasis(b, aug.TauConst, aug.TauLinear)
    for what, o, n in (("u", f.u, f.size), ("uhat", f.uhat, f.size),
                       ("aug.u", au.u, au.size), ("aug.uhat", au.uhat, au.size)):
        for i in (n, -n - 1, 1.5, "1", "a", n + 100, 1., None if "aug" in what else "b"):
            bad += [(f"{what}[{i!r}]", lambda o=o, i=i: o[i])]
        bad += [(f"{what}[0][0]", lambda o=o: o[2][0]), (f"{what}[0, 0]",
                                                         lambda o=o: o[0, 0])]
    # Decompositions
    D, S = None, None
    try:
        from sparse_ir.sampling import DecomposedMatrix as D, SplitDecomposedMatrix as S
    except ImportError:
        ctx.note("inapplicable: no DecomposedMatrix")
    if D is not None:
        a = np.cos(np.arange(12.)).reshape(4, 3)
        u, sv, vh = np.linalg.svd(a, full_matrices=False)
        ctx.step()
        D(a, (u, sv, vh))
        for name, t in (("u", (u[:, :2], sv, vh)), ("s", (u, sv[:2], vh)),
                        ("vh", (u, sv, vh[:2])), ("rows", (u[:3], sv, vh)),
                        ("columns", (u, sv, vh[:, :2])), ("transposed", (vh.T, sv, u.T)),
                        ("s matrix", (u, np.diag(sv), vh)), ("two", (u, sv)),
                        ("vector", (u[0], sv, vh)), ("four", (u, sv, vh, vh))):
            bad += [(f"decomposition {name}", lambda t=t: D(a, t))]
        for m in (a[0], a[None], 1., [[[1.]]]):
            bad += [(f"matrix of shape {np.shape(m)}", lambda m=m: D(m))]
        bad += [("split of real", lambda: S(a, (u, sv, vh))),
                ("split complex v", lambda: S(a + 0j, (u + 0j, sv, vh + 1j))),
                ("split shape", lambda: S(a + 0j, (u[:3] + 0j, sv, vh))),
                ("split s", lambda: S(a + 0j, (u + 0j, sv[:2], vh)))]
    # Transformations of arrays of the wrong size
    smpls = {"tau": s.TauSampling(f), "wn": s.MatsubaraSampling(f),
             "+": s.MatsubaraSampling(f, positive_only=True)}
    for name, sm in smpls.items():
        n, m = f.size, sm.sampling_points.size
        for k in (0, 1, n - 1, n + 1):
            bad += [(f"{name}.evaluate({k})", lambda sm=sm, k=k: sm.evaluate(np.ones(k)))]
            bad += [(f"{name}.evaluate axis ({k})",
                     lambda sm=sm, k=k: sm.evaluate(np.ones((n, k + (k == n), n)), axis=1))]
        for k in (0, 1, m - 1, m + 1):
            bad += [(f"{name}.fit({k})", lambda sm=sm, k=k: sm.fit(np.ones(k)))]
            bad += [(f"{name}.fit axis ({k})",
                     lambda sm=sm, k=k: sm.fit(np.ones((m, k, m)), axis=1))]
        for ax in (1, -2, 2.5, "a"):
            bad += [(f"{name}.evaluate(axis={ax})",
                     lambda sm=sm, ax=ax: sm.evaluate(np.ones(n), axis=ax)),
                    (f"{name}.fit(axis={ax})",
                     lambda sm=sm, ax=ax: sm.fit(np.ones(m), axis=ax))]
    for k in (1, 3):
        bad += [(f"to_IR({k})", lambda k=k: dlr(f).to_IR(np.ones(k))),
                (f"from_IR({k})", lambda k=k: dlr(f).from_IR(np.ones(k)))]
    bad += [("tau points 2d", lambda: s.TauSampling(f, [[.1, .2]])),
            ("tau points scalar", lambda: s.TauSampling(f, .1)),
            ("wn points 2d", lambda: s.MatsubaraSampling(f, [[1, 3]])),
            ("wn points scalar", lambda: s.MatsubaraSampling(f, 1))]
    for name, fn in bad:
        ctx.state("bad", name)
        ctx.raises(lambda: quiet(fn), name)
        ctx.trace()


def sve_of(lam):
    s = sir()
    return quiet(lambda: s.compute_sve(s.LogisticKernel(lam), 1e-6))


def quadrature(ctx):
    """Improper intervals hidden among proper ones"""
    try:
        from sparse_ir import _gauss as g
    except ImportError:
        raise Inapplicable("no module _gauss")
    r = g.legendre(3)
    nan = np.nan
    for n in (2, 3, 5):
        edges = np.linspace(-1, 2, n)
        ctx.step()
        r.piecewise(edges)
        for i in range(n):
            for v in (nan, -5. if i else 5., 5. if i < n - 1 else -5.,
                      edges[i - 1] if i else edges[1]):
                e = edges.copy()
                e[i] = v
                ctx.state(n, i, repr(v))
                ctx.raises(lambda: r.piecewise(e), f"piecewise({e})")
                ctx.trace()
    parts = [r.reseat(0, 1), r.reseat(1, 3), r.reseat(3, 4)]
    ctx.step()
    g.Rule.join(*parts)
    for perm in itertools.permutations(range(3)):
        if perm == (0, 1, 2):
            continue
        ctx.state("join", perm)
        ctx.raises(lambda: g.Rule.join(*[parts[i] for i in perm]), f"join {perm}")
    for i in range(3):
        q = list(parts)
        q[i] = r.reseat(7, 8)
        ctx.raises(lambda: g.Rule.join(*q), f"join with part {i} elsewhere")


def sizes(tier):
    return [(5., 2.), (1., 60.)] if tier == "quick" else [
        (5., 2.), (1., 60.), (100., .1), (1e-3, 1e4)]


def tasks(tier):
    quick = tier == "quick"
    to = dict(timeout=400 if quick else 3600)
    shapes = SHAPES if quick else SHAPES + [(7,), (3, 3)]
    out = [Task(constructors, **to), Task(quadrature), Task(points, "x", (), shapes, **to)]
    for args in sizes(tier):
        out += [Task(points, "tau", args, shapes, weight=5, **to),
                Task(points, "omega", args, shapes, weight=5, **to),
                Task(frequencies, *args, shapes, weight=5, **to)]
    for lam in (10., 1e4) if quick else (.1, 10., 1e4, 1e6):
        out.append(Task(kernels, lam, shapes, weight=3, **to))
    return out
