"""C23: Overlap integrals are correct for every integrand shape and fault.

All combinations of function sets, integrands, shapes of their values, break points and
tolerances are compared with a composite rule of high order which has all break points
among its edges; for every integrand, every call of it is made to fail with exceptions
of several types.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis, leggauss

BOUNDS = {
    "quick": "17 function sets (bases, single functions, constructed polynomials of shape "
             "(), (3,), (2, 2)) x 19 integrands x 3 of 8 value shapes x 3 of 8 ways of "
             "giving break points; every call index (up to 2000, then every 7th) x 6 "
             "exception types; nested and inconsistent integrands; 6 function sets x 1, 3 or "
             "2000 jumps x tolerances which cannot be met",
    "thorough": "all value shapes, all ways of giving break points, every call index"}
ASSUMPTIONS = ["break points lie within the interval",
               "integrands vary on the scale of segments between knots and break points"]


def functions(quick):
    """Name -> function set"""
    s = sir()
    P = s.poly.PiecewiseLegendrePoly
    out = {}
    b = basis("F", 5., 2., 1e-10)
    out["u"] = b.u
    out["u[0]"] = b.u[0]
    out["u[-1]"] = b.u[-1]
    out["v"] = b.v
    big = basis("B", 1., 200., 1e-6)
    out["u200"] = big.u[::4]
    c = np.cos(1. + np.arange(24.)).reshape(4, 3, 2)
    out["one"] = P(c[:, :, 0], np.array([-1., -.5, .25, 1.]))
    out["three"] = P(np.cos(np.arange(30.)).reshape(5, 2, 3), np.array([0., .5, 3.]))
    out["matrix"] = P(np.sin(1 + np.arange(32.)).reshape(4, 2, 2, 2),
                      np.array([-1., 0., 2.]))
    out["const"] = P(np.ones((1, 1)), np.array([-1., 1.]))
    if not quick:
        out["v200"] = big.v[::5]
        out["u200[1]"] = big.u[1]
        out["deriv"] = b.u.deriv()
        out["slice"] = b.u[2:4]
        out["row"] = P(c[:, :, :1], np.array([-1., -.5, .25, 1.]))
        out["tiny"] = P(c, 1e-6 * np.array([-1., -.5, .25, 1.]))
        out["far"] = P(c, 100 + np.array([-1., -.5, .25, 1.]))
        out["cube"] = P(np.sin(1 + np.arange(64.)).reshape(4, 2, 2, 2, 2),
                        np.array([-1., 0., 2.]))
    return out


def integrands():
    """Name -> (function of coordinate in [0, 1], break points)"""
    return {
        "one": (lambda t: 1., ()),
        "zero": (lambda t: 0., ()),
        "linear": (lambda t: 3 * t - 1, ()),
        "power": (lambda t: t**5, ()),
        "exp": (lambda t: np.exp(-3 * t), ()),
        "osc": (lambda t: np.cos(25 * t + .3), ()),
        "complex": (lambda t: np.exp(4j * t), ()),
        "imaginary": (lambda t: 1j * t, ()),
        "imaginary peak": (lambda t: 1j / (1 + 400 * (t - .6)**2), ()),
        "complex peak": (lambda t: t + 1j / (1 + 400 * (t - .2)**2), ()),
        "peak": (lambda t: 1 / (1 + 100 * (t - .3)**2), ()),
        "kink": (lambda t: abs(t - .37), (.37,)),
        "step": (lambda t: 1. if t > .37 else 0., (.37,)),
        "last": (lambda t: 1. if t > .999 else 0., (.999,)),
        "first": (lambda t: 1. if t < 1e-3 else 0., (1e-3,)),
        "window": (lambda t: np.exp(t) if .2 < t < .6 else 0., (.2, .6)),
        "steps": (lambda t: float(int(5 * t)), (.2, .4, .6, .8)),
        "small": (lambda t: 1e-200 * np.cos(t), ()),
        "large": (lambda t: 1e+150 * np.cos(t), ()),
    }


SHAPES = {
    "scalar": lambda z: z,
    "array0": lambda z: np.array(z),
    "(1,)": lambda z: np.array([z]),
    "list": lambda z: [z, 2 * z, 0 * z],
    "(2,)": lambda z: np.array([z, -1j * z]),
    "(2,3)": lambda z: z * np.arange(6.).reshape(2, 3),
    "(1,2,1)": lambda z: np.array([[[z], [.5 * z]]]),
    "mixed": lambda z: np.array([1e-8 * z, z]),
}

POINTS = {
    "none": lambda c, p: None if not len(c) else c,
    "array": lambda c, p: np.array(c),
    "reverse": lambda c, p: list(c[::-1]),
    "double": lambda c, p: tuple(c) + tuple(c),
    "knots": lambda c, p: np.hstack([p.knots, c]),
    "ends": lambda c, p: [p.xmin, *c, p.xmax],
    "extra": lambda c, p: [*c, p.xmin + .1234 * (p.xmax - p.xmin),
                           p.xmin + .77 * (p.xmax - p.xmin)],
    "only extra": lambda c, p: [*c, .5 * (p.xmin + p.xmax)],
}


def reference(p, g, cuts):
    """Integral by composite rule of high order, also of the magnitude

    The latter includes what rounding of a break point contributes.
    """
    edges = np.unique(np.hstack([p.knots, cuts]))
    edges = np.unique(np.hstack([np.linspace(a, b, 9)
                                 for a, b in zip(edges[:-1], edges[1:])]))
    x0, w0 = leggauss(24)
    a, b = edges[:-1, None], edges[1:, None]
    x = (.5 * (a + b) + .5 * (b - a) * x0).ravel()
    w = (.5 * (b - a) * w0).ravel()
    fx = np.array([g(xi) for xi in x])
    px = p(x)
    return (np.tensordot(px * w, fx, (-1, 0)),
            np.tensordot(np.abs(px) * w, np.abs(fx), (-1, 0))
            + 1e-2 * max(abs(edges[0]), abs(edges[-1]))
            * np.multiply.outer(np.abs(px).max(-1), np.abs(fx).max(0)))


def integrate(ctx, name, fname, shapes, pnames, rtols):
    quick_sets = functions(False)
    p = quick_sets[name]
    f, breaks = integrands()[fname]
    lo, hi = p.xmin, p.xmax
    cuts = [lo + t * (hi - lo) for t in breaks]

    def g0(x):
        return f((x - lo) / (hi - lo))

    keep = p.data.copy(), p.knots.copy()
    for sh in shapes:
        conv = SHAPES[sh]

        def g(x):
            return conv(g0(x))

        want, magn = reference(p, g, cuts)
        fshape = np.shape(g(.5 * (lo + hi)))
        for pn, rtol in itertools.product(pnames, rtols):
            what = f"{name}: overlap({fname} as {sh}, points={pn}, rtol={rtol})"
            pts = POINTS[pn](cuts, p)
            orig = np.array(pts, copy=True) if pts is not None else None
            kw = {} if rtol is None else dict(rtol=rtol)
            if pts is not None:
                kw["points"] = pts
            ctx.state(name, fname, sh, pn, rtol)
            ctx.step(2)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                got, err = p.overlap(g, return_error=True, **kw)
                plain = p.overlap(g, **kw)
            if not ctx.expect(np.shape(got) == p.shape + fshape
                              and np.shape(err) == p.shape + fshape,
                              f"{what}: shapes {np.shape(got)}, {np.shape(err)}"):
                continue
            ctx.expect(not any("complex" in str(w.message).lower() for w in rec),
                       f"{what}: {rec and rec[0].message}")
            same = np.array_equal(plain, got)
            ctx.expect(same, f"{what}: value depends on whether error is returned")
            # Convergence is relative to the largest component of the integrand and of
            # the sum over segments
            top = magn.reshape(p.shape + (-1,)).max(-1) if fshape else magn
            top = top.reshape(p.shape + (1,) * len(fshape))
            tol = max(2e-13, 2 * (rtol or 0.)) * top + 0. * magn
            ctx.close(got, want, tol, what)
            ctx.expect((np.abs(got - want) <= err + 2e-13 * top).all(),
                       f"{what}: error estimate too small")
            ctx.expect((err >= 0).all() and (err <= tol * 20).all(),
                       f"{what}: error estimate {err.max():.3g}")
            if pts is not None:
                ctx.expect(np.array_equal(orig, pts), f"{what}: points changed")
            ctx.trace()
    ctx.expect((p.data == keep[0]).all() and (p.knots == keep[1]).all(),
               f"{name}: polynomial changed")
    ctx.sample(f"{name}: {fname} as {shapes} with {pnames}")


class Custom(Exception):
    pass


class Fatal(BaseException):
    pass


EXC = (ValueError, Custom, KeyError, StopIteration, ZeroDivisionError, Fatal)


def faults(ctx, name, fname, sh, stride):
    """Integrand fails at each of its calls"""
    p = functions(False)[name]
    f, breaks = integrands()[fname]
    lo, hi = p.xmin, p.xmax
    pts = [lo + t * (hi - lo) for t in breaks]
    conv = SHAPES[sh]

    def run(k=-1, exc=None):
        count = [0]

        def g(x):
            if count[0] == k:
                raise exc
            count[0] += 1
            return conv(f((x - lo) / (hi - lo)))
        return p.overlap(g, points=pts, return_error=True), count[0]

    (want, err), calls = run()
    state = p.data.copy(), p.knots.copy()
    top = min(calls, 2000 if stride > 1 else calls)
    for k in list(range(top)) + list(range(top, calls, stride)):
        kinds = EXC if k < 70 or k % 31 in (0, 30) or stride == 1 else EXC[k % 6:][:1]
        for kind in kinds:
            exc = kind(f"call {k}")
            ctx.state(name, fname, sh, k, kind.__name__)
            ctx.step()
            what = f"{name}: {fname} as {sh} raising {kind.__name__} at call {k}"
            try:
                r = run(k, exc)
            except BaseException as e:
                if e is not exc:
                    ctx.fail(f"{what}: got {type(e).__name__}: {e}")
            else:
                ctx.fail(f"{what}: returned {np.shape(r[0][0])} values")
            ctx.trace()
        if len(ctx.failures) > 10:
            return
    ctx.expect((p.data == state[0]).all() and (p.knots == state[1]).all(),
               "polynomial changed by failure")
    (again, err2), n = run()
    ctx.expect(np.array_equal(again, want) and np.array_equal(err, err2) and n == calls,
               f"{name}: overlap differs after failures")


def special(ctx):
    """Integrands which change or call back"""
    sets = functions(True)
    for name in ("u", "one", "three", "matrix"):
        p = sets[name]
        lo, hi = p.xmin, p.xmax
        # integrand integrating itself
        q = sets["const"]
        inner = q.overlap(lambda y: y * y)
        got = p.overlap(lambda x: x * q.overlap(lambda y: y * y))
        ctx.step(3)
        ctx.close(got, inner * p.overlap(lambda x: x), 1e-13 * (1 + hi**2), f"{name}: nested")
        got = p.overlap(lambda x: p.overlap(lambda y: y)) if name == "one" else None
        if got is not None:
            ctx.close(got, p.overlap(lambda y: y) * p.overlap(lambda x: 1.), 1e-13,
                      "nested in itself")
        # with other functions as integrand: orthonormality of constructed pieces
        if name == "u":
            ctx.close(p.overlap(p), np.eye(p.size), 2e-13, "orthonormal")
            ctx.expect(p.overlap(p[:2]).shape == (p.size, 2), "function as integrand")
        ctx.trace()
        # changing shape
        for k in (1, 30, 31, 40):
            count = [0]

            def g(x):
                count[0] += 1
                return np.ones(2 if count[0] <= k else 3)
            ctx.raises(lambda: p.overlap(g), f"{name}: shape changing at call {k}")
            # changing between scalar and array
            count[0] = 0

            def g2(x):
                count[0] += 1
                return np.ones(2) if count[0] <= k else 1.
            ctx.raises(lambda: p.overlap(g2), f"{name}: array, then scalar at {k}")
        # shape changes on refinement only
        total = 31 * (p.knots.size - 1)
        count = [0]

        def g3(x):
            count[0] += 1
            z = 1. if x > lo + .371 * (hi - lo) else 0.
            return z * np.ones(2 if count[0] <= total else 3)
        ctx.raises(lambda: p.overlap(g3), f"{name}: shape changing on refinement")
        # break points outside
        for pts in ([lo - .1], [hi + .1], [lo, hi + 1e-3], [np.nan]):
            ctx.raises(lambda: p.overlap(lambda x: 1., points=pts), f"{name}: break {pts}")
        # a value which is not a number is not swallowed
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = p.overlap(lambda x: np.nan if x > .5 * (lo + hi) else 1.)
        ctx.expect(np.isnan(got).all(), f"{name}: NaN integrand gives {got}")
    ctx.raises(lambda: sets["one"].overlap(None), "no integrand")
    # steps at unknown places are found by refinement
    for c in (.1, .37, .5, .723, .99):
        for name in ("one", "three", "u[0]"):
            p = sets[name]
            x0 = p.xmin + c * (p.xmax - p.xmin)
            for unit in (1., 1j, 1 - 1j):
                def g(x):
                    return unit if x > x0 else 0. * unit
                got = p.overlap(g)
                want, magn = reference(p, g, [x0])
                ctx.step()
                ctx.state("step", c, name, unit)
                ctx.close(got, want, 1e-11 * (p.xmax - p.xmin + 1),
                          f"{name}: step of {unit} at {c}")
                ctx.trace()


def unresolved(ctx, name):
    """Integrals which are given up: announced, and off by about the error returned"""
    sets = functions(True)
    for waves, rtol, unit in itertools.product(
            (1, 3, 2000),
            (None, 0., 1e-30), (1., 1j, -2 + 1j, "vector")):
        if waves < 10 and rtol is None or waves > 10 and rtol == 0. or (
                waves > 10 and unit == 1j) or name == "u" and unit != "vector":
            continue
        p = sets[name]
        lo, hi = p.xmin, p.xmax
        vec = np.array([1., 0., -3.]) if unit == "vector" else np.asarray(unit)
        # jumps between -1/2 and 1, not at points obtained by dividing the interval
        edges = lo + (hi - lo) * (np.arange(waves) + .3137) / waves

        def g(x):
            return (1. if np.searchsorted(edges, x) % 2 else -.5) * vec
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            kw = {} if rtol is None else dict(rtol=rtol)
            got, err = p.overlap(g, return_error=True, **kw)
            plain = p.overlap(g, **kw)
        ctx.step(2)
        ctx.state("unresolved", name, waves, rtol, str(unit))
        what = f"{name} times wave of {waves} jumps, rtol={rtol}, {unit}"
        all_edges = np.unique(np.hstack([p.knots, edges]))
        a, b = all_edges[:-1, None], all_edges[1:, None]
        x0, w0 = leggauss(16)
        x = (.5 * (a + b) + .5 * (b - a) * x0).ravel()
        w = (.5 * (b - a) * w0).ravel() * np.where(
            np.searchsorted(edges, x) % 2, 1., -.5)
        want = np.multiply.outer(p(x) @ w, vec)
        magn = np.abs(p(x)).max() * (hi - lo) * np.abs(vec).max()
        if not ctx.expect(got.shape == want.shape == np.shape(err), f"{what}: shapes"):
            continue
        ctx.expect(len(rec) == 2, f"{what}: {len(rec)} warnings")
        ctx.expect(np.array_equal(got, plain), f"{what}: depends on return_error")
        ctx.expect((np.asarray(err) >= 0).all() and (err <= 3 * magn).all(),
                   f"{what}: error estimate {err}")
        ctx.expect((np.abs(got - want) <= 10 * err + 1e-13 * magn).all(),
                   f"{what}: got {got}, expected {want}, error estimate {err}")
        ctx.trace()


def tasks(tier):
    quick = tier == "quick"
    to = dict(timeout=400 if quick else 3600)
    out = [Task(special, **to)]
    out += [Task(unresolved, name, weight=9, **to)
            for name in ("one", "three", "const", "u[0]", "matrix", "u")]
    shapes, points = list(SHAPES), list(POINTS)
    for i, name in enumerate(functions(False)):
        for j, fname in enumerate(integrands()):
            if quick:
                sh = [shapes[(i + j + k) % 8] for k in (0, 3, 6)]
                pn = [points[(i + 2*j + k) % 8] for k in (0, 3, 5)]
                out.append(Task(integrate, name, fname, sh, pn,
                                (None, 1e-8) if j % 3 == 0 else (None,), **to))
            else:
                out.append(Task(integrate, name, fname, shapes, points, (None, 1e-8), **to))
    for name, fname, sh in (("one", "exp", "scalar"), ("one", "step", "(2,)"),
                            ("three", "kink", "list"), ("matrix", "osc", "(2,3)"),
                            ("u[0]", "peak", "scalar"), ("u", "window", "scalar"),
                            ("const", "complex", "(1,)"), ("const", "zero", "scalar")):
        out.append(Task(faults, name, fname, sh, 7 if quick else 1, weight=3, **to))
    return out
