"""C06: piecewise polynomial evaluation and differentiation are exact.

Space: every polynomial with coefficients in {-1,0,1} for the listed (order,
segments, knots) geometries, evaluated at every segment boundary, its two
floating-point neighbours, and interior points; derivatives of all orders
reached along every composition (one step, repeated, mixed).  Oracle: exact
power-basis arithmetic in rationals/80-bit.
"""
import itertools
from fractions import Fraction
import numpy as np
from .core import Task
from .lib import LD, EPS, sir

BOUNDS = {
    "quick": "all coefficient vectors over {-1,0,1} with order*segments <= 6 "
             "plus unit vectors up to order 17, 9 knot geometries, derivative "
             "compositions up to depth 3",
    "thorough": "as quick with order*segments <= 9 and 16 geometries"}
ASSUMPTIONS = ["at an interior boundary the value of either adjoining segment "
               "is accepted (a point on it belongs to both)"]

KNOTS = {
    1: [(-1., 1.), (0., 2.5), (-3.25, -1e-3), (1e-8, 3e-8)],
    2: [(-1., 0., 1.), (-1., .3, 1.), (0., 1e-6, 10.)],
    3: [(-1., -.5, .5, 1.), (-1., -.999, .25, 1.), (5., 6., 6.5, 9.)],
    4: [(-1., -.9, 0., .9, 1.)],
    6: [(-1., -.75, -.1, 0., .1, .75, 1.)],
}


def legendre_power(k):
    """Coefficients of P_k in powers of x (exact)"""
    p0, p1 = [Fraction(1)], [Fraction(0), Fraction(1)]
    if k == 0:
        return p0
    for j in range(1, k):
        p2 = [Fraction(0)] * (j + 2)
        for i, c in enumerate(p1):
            p2[i + 1] += Fraction(2 * j + 1, j + 1) * c
        for i, c in enumerate(p0):
            p2[i] -= Fraction(j, j + 1) * c
        p0, p1 = p1, p2
    return p1


def power_deriv(p, n):
    for _ in range(n):
        p = [i * c for i, c in enumerate(p)][1:]
    return p


def table(order, n, xt):
    """d^n P_k / dxt^n at the points xt (in LD), for k < order"""
    res = np.zeros((order, len(xt)), LD)
    for k in range(order):
        p = power_deriv(legendre_power(k), n)
        # exact Horner in rationals at the LD points is too slow for large
        # sets; split the point into a rational
        for i, x in enumerate(xt):
            x = Fraction(*x.as_integer_ratio())
            acc = Fraction(0)
            for c in reversed(p):
                acc = acc * x + c
            res[k, i] = LD(acc.numerator) / LD(acc.denominator) \
                if acc.denominator < 10**4000 else LD(float(acc))
    return res


def points(knots):
    pts = set()
    for a, b in zip(knots[:-1], knots[1:]):
        for f in (0, .125, .3, .5, .77, 1):
            pts.add(a + f * (b - a))
    for k in knots:
        for q in (np.nextafter(k, -np.inf), k, np.nextafter(k, np.inf)):
            pts.add(float(q))
    return np.array(sorted(float(p) for p in pts if knots[0] <= p <= knots[-1]))


def reference(data, knots, dx, n, x):
    """Values for each candidate segment: list over x of [values...]"""
    order = data.shape[0]
    out = []
    for xi in x:
        cand = []
        for s, (a, b) in enumerate(zip(knots[:-1], knots[1:])):
            if not a <= xi <= b:
                continue
            xm = .5 * (Fraction(*float(a).as_integer_ratio())
                       + Fraction(*float(b).as_integer_ratio()))
            xm = (Fraction(*float(a).as_integer_ratio())
                  + Fraction(*float(b).as_integer_ratio())) / 2
            xt = (Fraction(*float(xi).as_integer_ratio()) - xm) * 2 \
                / Fraction(*float(dx[s]).as_integer_ratio())
            tab = np.zeros(order, LD)
            mag = np.zeros(order, LD)
            for k in range(order):
                p = power_deriv(legendre_power(k), n)
                acc = Fraction(0)
                for c in reversed(p):
                    acc = acc * xt + c
                tab[k] = LD(acc.numerator) / LD(acc.denominator)
                # magnitude bound: |P_k^(n)| <= P_k^(n)(1), attained growth
                # of rounding errors in x amplified by the next derivative
                q = power_deriv(legendre_power(k), n + 1)
                mag[k] = LD(float(sum(p))) * (k + 1) + 2 * LD(float(sum(q)))
            fac = np.sqrt(2 / LD(dx[s])) * (2 / LD(dx[s]))**n
            val = np.tensordot(tab, data[:, s].astype(LD), 1) * fac
            # rounding of x itself relative to the segment
            slop = 1 + (abs(LD(a)) + abs(LD(b))) / LD(dx[s])
            err = np.tensordot(mag, np.abs(data[:, s]).astype(LD), 1) * fac * slop
            cand.append((val, err))
        out.append(cand)
    return out


def compare(ctx, poly, data, knots, dx, n, x, what):
    got = poly(x)
    ctx.step()
    if np.iscomplexobj(data):
        ctx.expect(np.iscomplexobj(got), f"{what}: real values")
        for part in np.real, np.imag:
            compare(ctx, lambda x: part(got), part(data), knots, dx, n, x, what)
        return
    if not ctx.expect(got.shape == data.shape[2:] + x.shape,
                      f"{what}: shape {got.shape}"):
        return
    ref = reference(data, knots, dx, n, x)
    for i, cand in enumerate(ref):
        g = got[..., i].astype(LD)
        ok = np.zeros(g.shape, bool)
        for val, err in cand:
            ok |= np.abs(g - val) <= 40 * EPS * err + LD(1e-300)
        ctx.comparisons += g.size
        if not ok.all():
            pos = tuple(int(j) for j in np.argwhere(~ok)[0])
            ctx.fail(f"{what}: derivative {n} at x={x[i]!r}: got {g[pos]!r}, "
                     f"expected {[v[pos] for v, _ in cand]!r}",
                     coefficients=str(data[(slice(None), slice(None)) + pos]),
                     knots=list(map(float, knots)))
            return
    ctx.trace(got.size)


def same_shapes(ctx, p, x, what):
    """Points one by one and in arrays of any shape have the same values"""
    flat = p(x)
    m = x.size // 2 * 2
    tol = 1e-13 * np.abs(flat).max(initial=1.)
    for shape in ((m // 2, 2), (2, m // 2), (2, 1, m // 2), (m, 1)):
        for off in {0, x.size - m}:
            y = x[off:off + m].reshape(shape)
            got = p(y)
            ctx.step()
            if ctx.expect(got.shape == p.shape + shape, f"{what}: shape {got.shape} "
                          f"for points of shape {shape}"):
                ctx.close(got, flat[..., off:off + m].reshape(got.shape), tol,
                          f"{what}: points of shape {shape}")
    for i, xi in enumerate(x):
        got = p(float(xi))
        ctx.step()
        if not ctx.expect(np.shape(got) == p.shape and (np.abs(
                got - flat[..., i]) <= tol).all(), f"{what}: single point {xi}: {got}"):
            break


def compositions(n, depth):
    """All ways to write n as ordered sum of at most depth positive steps"""
    for d in range(1, depth + 1):
        for c in itertools.product(range(1, n + 1), repeat=d):
            if sum(c) == n:
                yield c


def explore(ctx, order, nseg, igeo, full):
    s = sir()
    PLP = s.poly.PiecewiseLegendrePoly if hasattr(s, "poly") else None
    knots = np.array(KNOTS[nseg][igeo])
    dx = np.diff(knots)
    if full:
        combos = np.array(list(itertools.product((-1., 0., 1.), repeat=order * nseg)))
    else:
        combos = np.concatenate([np.eye(order * nseg),
                                 np.ones((1, order * nseg)),
                                 [[(-1.)**i / (i + 1) for i in range(order * nseg)]]])
    data = combos.T.reshape(order, nseg, -1).copy()
    keep = data.copy()
    x = points(knots)
    for c in combos:
        ctx.state(order, nseg, igeo, tuple(c))
    poly = PLP(data, knots)
    sets = [("vector", poly, data)]
    if data.shape[2] >= 6:
        d2 = data[:, :, :6].reshape(order, nseg, 2, 3)
        sets.append(("2x3 set", PLP(d2, knots), d2))
    sets.append(("scalar", PLP(data[:, :, -1], knots), data[:, :, -1]))
    sets.append(("with dx", PLP(data, knots, dx), data))
    if full and np.all(data == np.round(data)):
        # Coefficients of other types, knots as list
        sets.append(("integers", PLP(data.astype(int), KNOTS[nseg][igeo]), data))
        sets.append(("complex", PLP(data * (1 - 2j), knots), data * (1 - 2j)))
        few = data[:, :, ::7]
        sets.append(("nested lists", PLP(few.tolist(), KNOTS[nseg][igeo]), few))
    maxn = order + 1
    for what, p, d in sets:
        what = f"order {order}, knots {knots.tolist()}, {what}"
        ctx.expect(p.shape == d.shape[2:] and p.ndim == d.ndim - 2
                   and p.size == int(np.prod(d.shape[2:])), f"{what}: shape/size")
        ctx.expect(p.xmin == knots[0] and p.xmax == knots[-1]
                   and p.polyorder == order and p.nsegments == nseg,
                   f"{what}: attributes")
        compare(ctx, p, d, knots, dx, 0, x, what)
        same_shapes(ctx, p, x, what)
        for n in range(0, maxn + 1):
            dn = p.deriv(n)
            ctx.step()
            compare(ctx, dn, d, knots, dx, n, x, what)
            check_fullfledged(ctx, p, dn, n, what)
        # the derivative along every path of the composition lattice
        for n in range(1, maxn + 1):
            base = p.deriv(n)(x)
            for comp in compositions(n, 3 if d.ndim == 3 else 2):
                q = p
                for stp in comp:
                    q = q.deriv(stp)
                    ctx.step()
                ctx.state(order, nseg, igeo, what, comp)
                scale = np.abs(base).max(initial=0) + np.prod(
                    [order**2 * 2 / dx.min()] * n)
                ctx.close(q(x), base, 1e-13 * scale, f"{what}: path {comp}")
                ctx.trace()
    ctx.expect(np.array_equal(keep, data), "input modified")
    ctx.sample(f"coefficients {combos[len(combos)//2].tolist()} on knots "
               f"{knots.tolist()}")


def check_fullfledged(ctx, p, dn, n, what):
    """A derivative behaves as any other function of its kind"""
    ctx.expect(type(dn) is type(p), f"{what}: type of derivative {n}")
    ctx.expect(dn.shape == p.shape and dn.size == p.size and dn.ndim == p.ndim
               and dn.xmin == p.xmin and dn.xmax == p.xmax
               and dn.nsegments == p.nsegments
               and np.array_equal(dn.knots, p.knots),
               f"{what}: geometry of derivative {n}")
    ctx.expect(dn.polyorder == dn.data.shape[0], f"{what}: polyorder of "
               f"derivative {n} is {dn.polyorder} for {dn.data.shape[0]} terms")
    ctx.close(dn.symm, (-1)**n * p.symm, 0, f"{what}: symm of derivative {n}")


def parity(ctx, order, nhalf):
    """Functions of declared parity: derivative flips the parity"""
    s = sir()
    half = {1: (0., 1.), 2: (0., .3, 1.)}[nhalf]
    knots = np.array([-k for k in half[:0:-1]] + list(half))
    flip = (-1.)**np.arange(order)[:, None]
    combos = np.array(list(itertools.product((-1., 0., 1.), repeat=order * nhalf)))
    for sign in (1, -1):
        right = combos.T.reshape(order, nhalf, -1)
        left = right[:, ::-1] * flip[:, :, None] * sign
        data = np.concatenate([left, right], 1)
        p = s.poly.PiecewiseLegendrePoly(data, knots,
                                         symm=np.full(data.shape[2], sign))
        x = points(knots)
        x = x[(x > 0) & ~np.isin(x, knots)]
        for n in range(order + 2):
            d = p.deriv(n)
            ctx.state("parity", order, nhalf, sign, n)
            ctx.step(2)
            ctx.trace(x.size)
            ctx.close(d.symm, np.full(data.shape[2], sign * (-1)**n), 0, "symm")
            v = d(x)
            ctx.close(d(-x), v * d.symm[:, None],
                      1e-12 * (1 + np.abs(v).max(initial=0)),
                      f"parity of derivative {n}, order {order}, sign {sign}")


def ft_of_derivative(ctx, order, freq, asymp):
    """Derivatives can be transformed: FT(p') from integration by parts"""
    s = sir()
    knots = np.array([-1., -.25, 1.])
    rng = np.array(list(itertools.product((-1., 1.), repeat=order)))
    # globally smooth polynomial, represented on two segments
    import numpy.polynomial.legendre as L
    data = np.zeros((order, 2, len(rng)))
    for i, c in enumerate(rng):
        f = L.legval
        for sgm in range(2):
            a, b = knots[sgm], knots[sgm + 1]
            xt, w = L.leggauss(order)
            x = .5 * (a + b) + .5 * (b - a) * xt
            vals = f(x, c) / np.sqrt(2 / (b - a))
            for k in range(order):
                data[k, sgm, i] = (2*k+1)/2 * np.sum(
                    w * vals * L.legval(xt, np.eye(order)[k]))
    p = s.poly.PiecewiseLegendrePoly(data, knots)
    z = {'even': 0, 'odd': 1}[freq]
    n = 2 * np.array([-30, -3, 1, 2, 5, 40]) + z
    for nd in range(order):
        q = p.deriv(nd)
        F = s.poly.PiecewiseLegendreFT(q, freq, asymp)
        G = s.poly.PiecewiseLegendreFT(p.deriv(nd + 1), freq, asymp)
        ctx.state(order, freq, asymp, nd)
        ctx.step(4)
        ctx.trace(n.size * len(rng))
        # int e^{iw(x+1)} q' = [e^{iw(x+1)} q] - iw int e^{iw(x+1)} q
        iw = .5j * np.pi * n
        edge = (np.exp(1j * np.pi * n) * q(1)[:, None] - q(-1)[:, None]) / np.sqrt(2)
        scale = np.abs(q(1)).max() + np.abs(q(-1)).max() + 1
        ctx.close(G(n), edge - iw * F(n), 1e-12 * scale * order**2 * (1 + np.abs(iw)),
                  f"transform of derivative {nd+1}, order {order}, {freq}, "
                  f"n_asymp={asymp}")


def tasks(tier):
    res = []
    lim = 6 if tier == "quick" else 9
    for nseg, geos in KNOTS.items():
        for igeo in range(len(geos)):
            for order in range(1, 10):
                if order * nseg <= lim and 3**(order * nseg) <= 3**lim:
                    res.append(Task(explore, order, nseg, igeo, True,
                                    weight=3**(order*nseg)))
            for order in (3, 6, 10, 17):
                if order <= 10 or tier == "thorough":
                    res.append(Task(explore, order, nseg, igeo, False, weight=200))
    for order in range(1, 5):
        for nhalf in (1, 2):
            if order * nhalf <= 6:
                res.append(Task(parity, order, nhalf))
    for order in range(1, 6):
        for freq in ("even", "odd"):
            for asymp in (None, 4):
                res.append(Task(ft_of_derivative, order, freq, asymp))
    return res
