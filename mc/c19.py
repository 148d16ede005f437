"""C19: Quadrature rules integrate exactly under every composition of operations.

 - every order up to a bound, in each precision: the rule is checked in integer (fixed
   point) arithmetic with 200 bits to integrate all Legendre polynomials up to 2n-1;
 - every sequence of operations on rules up to a depth is replayed on the real objects
   and on a model, which is the list of pieces in rational arithmetic, and nodes,
   weights and distances to both ends are compared, the latter in relative terms;
 - collocation and nested rule by their defining equations.
"""
import itertools
import warnings
from fractions import Fraction as Q
import numpy as np
from .core import Task, Inapplicable
from .lib import ddouble, leggauss

BOUNDS = {
    "quick": "orders 1..80, 100, 150, 300, 600 (double), 1..40, 64, 100 (double-double), "
             "all degrees <= 2n-1 (<= 200 for n > 100); all sequences of <= 3 operations "
             "(22 letters) from 3 rules x 2 precisions; collocation n <= 40; nested rule "
             "under all sequences of <= 3 of reseat, scale, change of precision",
    "thorough": "orders 1..400, 1000 (double), 1..150 (double-double); sequences <= 4"}
ASSUMPTIONS = ["intervals for which nodes can be told apart in the precision used"]

BITS = 220
ONE = 1 << BITS


def gauss():
    try:
        from sparse_ir import _gauss
    except ImportError:
        raise Inapplicable("no module _gauss")
    return _gauss


def dtype_of(name):
    if name == "dd":
        if ddouble() is None:
            raise Inapplicable("no extended precision")
        return np.dtype(ddouble())
    return np.dtype({"float": float, "long": np.longdouble}[name])


def eps_of(name):
    return {"float": 2.**-52, "dd": 2.**-102, "long": 2.**-63}[name]


def exact(x):
    """Exact rational value of a number of any precision"""
    if isinstance(x, (int, np.integer)):
        return Q(int(x))
    if isinstance(x, (float, np.float32)):
        return Q(float(x))
    if isinstance(x, np.longdouble):
        hi = float(x)
        return Q(hi) + Q(float(x - np.longdouble(hi)))
    dd = ddouble()
    if dd is not None and np.asarray(x).dtype == np.dtype(dd):
        hi = float(x)
        return Q(hi) + Q(float(x - np.array(hi).astype(dd)[()]))
    return Q(float(x))


def exacts(a):
    return [exact(x) for x in np.asarray(a).ravel()]


def fixed(q):
    return (q.numerator << BITS) // q.denominator


def basic(ctx, n, name):
    """One Gauss-Legendre rule"""
    g = gauss()
    dt, eps = dtype_of(name), eps_of(name)
    what = f"legendre({n}, {name})"
    ctx.state(n, name)
    ctx.step()
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = g.legendre(n, dt) if name != "float" else g.legendre(n)
    ctx.expect(not rec, f"{what}: warning {rec and rec[0].message}")
    if not ctx.expect(r.x.shape == (n,) and r.w.shape == (n,)
                      and r.x.dtype == dt and r.w.dtype == dt
                      and r.x_forward.shape == (n,) and r.x_backward.shape == (n,),
                      f"{what}: shapes or types"):
        return
    if not ctx.expect(np.isfinite(r.w.astype(float)).all()
                      and np.isfinite(r.x.astype(float)).all(), f"{what}: not finite"):
        return
    ctx.expect(exact(r.a) == -1 and exact(r.b) == 1, f"{what}: interval")
    x, w = exacts(r.x), exacts(r.w)
    ctx.expect(all(p < q for p, q in zip([Q(-1)] + x, x + [Q(1)])),
               f"{what}: nodes not increasing in (-1, 1)")
    ctx.expect(all(q > 0 for q in w), f"{what}: weights not positive")
    for i in range(n):
        f, b = exact(r.x_forward[i]), exact(r.x_backward[i])
        ctx.expect(abs(f - (x[i] + 1)) <= 4 * eps * (x[i] + 1)
                   and abs(b - (1 - x[i])) <= 4 * eps * (1 - x[i]),
                   f"{what}: distances of node {i}")
    # Moments in fixed-point arithmetic
    X = np.array([fixed(q) for q in x], dtype=object)
    W = np.array([fixed(q) for q in w], dtype=object)
    p0 = np.array([ONE] * n, dtype=object)
    p1 = X.copy()
    top = 2*n - 1 if n <= 100 else 199
    tol = 100 * (10 + n) * eps
    for k in range(top + 1):
        mom = float(Q(int((W * p0).sum()), ONE * ONE))
        ctx.comparisons += 1
        want = 2. if k == 0 else 0.
        if abs(Q(int((W * p0).sum()), ONE * ONE) - (2 if k == 0 else 0)) > tol:
            ctx.fail(f"{what}: integral of P_{k} is {mom}, not {want}")
            break
        p0, p1 = p1, ((2*k + 3) * (X * p1 // ONE) - (k + 1) * p0) // (k + 2)
    # it is not exact any more for degree 2n: P_n(x_i) = 0
    ctx.trace()


def basics(ctx, ns, name):
    for n in ns:
        basic(ctx, n, name)


# ---- sequences of operations ---------------------------------------------------

class Model:
    """List of pieces (lo, hi, t, v) with nodes at lo + (hi-lo)*t, weights (hi-lo)*v

    Both distances of a node from the ends are known to relative accuracy; t is the
    pair (t, 1-t) of exact rationals as found in the rule we start from.
    """
    def __init__(self, pieces, err=0):
        self.pieces = pieces
        # bound on absolute error of nodes in units of the precision: what is lost for
        # an interval narrow compared to its ends stays lost when it is widened again
        self.err = err + 10 * max(abs(self.a), abs(self.b))

    @property
    def a(self):
        return self.pieces[0][0]

    @property
    def b(self):
        return self.pieces[-1][1]

    def reseat(self, a, b):
        s = (b - a) / (self.b - self.a)
        return Model([(a + (lo - self.a) * s, b - (self.b - hi) * s, t, v)
                      for lo, hi, t, v in self.pieces], self.err * s)

    def scale(self, f):
        return Model([(lo, hi, t, [f * vi for vi in v])
                      for lo, hi, t, v in self.pieces], self.err)

    def piecewise(self, edges):
        return self.reseat(*edges[:2]).join(*(
            self.reseat(a, b) for a, b in zip(edges[1:-1], edges[2:])))

    def join(self, *others):
        return Model(sum((o.pieces for o in others), self.pieces[:]),
                     max(o.err for o in (self,) + others))

    def table(self):
        """x, w, forward, backward"""
        rows = []
        for lo, hi, t, v in self.pieces:
            h = hi - lo
            for (tf, tb), vi in zip(t, v):
                rows.append((lo + h * tf, h * vi, lo - self.a + h * tf,
                             self.b - hi + h * tb))
        return [list(c) for c in zip(*rows)]


def base_model(r):
    h = exact(r.b) - exact(r.a)
    t = [(exact(f)/h, exact(b)/h) for f, b in zip(r.x_forward, r.x_backward)]
    return Model([(exact(r.a), exact(r.b), t, [exact(w)/h for w in r.w])])


def compare(ctx, r, m, eps, what, nops):
    x, w, f, b = m.table()
    n = len(x)
    ctx.step(4)
    if not ctx.expect(np.shape(r.x) == (n,) and np.shape(r.w) == (n,)
                      and np.shape(r.x_forward) == (n,)
                      and np.shape(r.x_backward) == (n,), f"{what}: shapes"):
        return False
    u = (8 + 12 * nops) * eps
    A, B = m.a, m.b
    ends = max(abs(A), abs(B))
    ok = ctx.expect(abs(exact(r.a) - A) <= u * ends and abs(exact(r.b) - B) <= u * ends,
                    f"{what}: interval {r.a}, {r.b}")
    rx, rw, rf, rb = map(exacts, (r.x, r.w, r.x_forward, r.x_backward))
    ctx.comparisons += 4 * n
    for i in range(n):
        for name, got, want, tol in (("x", rx[i], x[i], m.err * eps),
                                     ("w", rw[i], w[i], u * abs(w[i])),
                                     ("x_forward", rf[i], f[i], u * f[i]),
                                     ("x_backward", rb[i], b[i], u * b[i])):
            if abs(got - want) > tol:
                ctx.fail(f"{what}: {name}[{i}] = {float(got)!r}, expected "
                         f"{float(want)!r} (error {float(abs(got - want)):.3g}, allowed "
                         f"{float(tol):.3g})")
                return False
    if (B - A) > 1e-6 * ends:
        ctx.expect(all(p < q for p, q in zip(rx[:-1], rx[1:])),
                   f"{what}: nodes not increasing")
        ctx.expect(all(exact(r.a) <= q <= exact(r.b) for q in rx),
                   f"{what}: nodes outside")
    return ok


REATS = [(0, 1), (-3., 2.), (1., 1.001), (-1e-8, 1e-8), (-1, 1), (100., 1e4)]
EDGES = [(-1, 1), [-1., -.9, 0., 1.], (0., 1e-6, 1e-3, 1.), np.array([0, 1, 3])]


def alphabet(name):
    """Operations: (name, real, model)"""
    dt = dtype_of(name)
    ops = []
    for a, b in REATS:
        ops.append((f"reseat({a},{b})", lambda r, a=a, b=b: r.reseat(a, b),
                    lambda m, a=a, b=b: m.reseat(Q(a), Q(b))))
    c = np.array(2).astype(dt)[()] / np.array(3).astype(dt)[()]
    ops.append(("reseat(-2/3, 2/3)", lambda r: r.reseat(-c, c),
                lambda m: m.reseat(-exact(c), exact(c))))
    for f in (2, .5, 1e-3):
        ops.append((f"scale({f})", lambda r, f=f: r.scale(f),
                    lambda m, f=f: m.scale(Q(f))))
    for e in EDGES:
        q = [Q(float(x)) for x in e]
        ops.append((f"piecewise({list(e)})", lambda r, e=e: r.piecewise(e),
                    lambda m, q=q: m.piecewise(q)))
    ops.append((f"piecewise(array)", lambda r: r.piecewise(
        np.array([-.5, .25, .5]).astype(dt)),
        lambda m: m.piecewise([Q(-1, 2), Q(1, 4), Q(1, 2)])))
    ops.append(("join()", lambda r: r.join(r), lambda m: m.join()))
    ops.append(("join(left)", lambda r: r.join(r.reseat(r.a - 3, r.a), r),
                lambda m: m.reseat(m.a - 3, m.a).join(m)))
    ops.append(("join(right)", lambda r: type(r).join(r, r.reseat(r.b, r.b + 2).scale(3)),
                lambda m: m.join(m.reseat(m.b, m.b + 2).scale(3))))
    ops.append(("join(three)", lambda r: r.join(
        r, r.reseat(r.b, r.b + 2), r.reseat(r.b + 2, r.b + 3)),
        lambda m: m.join(m.reseat(m.b, m.b + 2), m.reseat(m.b + 2, m.b + 3))))
    ops.append(("astype(same)", lambda r: r.astype(dt), lambda m: m))
    ops.append(("astype(long)", lambda r: r.astype(np.longdouble).astype(dt)
                if name == "float" else r.astype(dt), lambda m: m))
    return ops


def sequences(ctx, name, n, depth, first):
    g = gauss()
    dt, eps = dtype_of(name), eps_of(name)
    ops = alphabet(name)
    r0 = g.legendre(n, dt)
    m0 = base_model(r0)

    def recurse(r, m, path):
        for i, (op, real, model) in enumerate(ops):
            if not path and i != first:
                continue
            what = f"legendre({n}, {name})." + ".".join(path + (op,))
            m1 = model(m)
            if len(m1.pieces) > 8 or (m1.b - m1.a) < Q(1, 10**7) * max(abs(m1.a),
                                                                      abs(m1.b)):
                continue
            ctx.step()
            ctx.state(name, n, path + (op,))
            try:
                r1 = real(r)
            except Exception as e:
                # Ends need not meet exactly after rounding
                if "ascending" in str(e) and "join" in "".join(path + (op,)) + "join" \
                        and _inexact(m1):
                    continue
                ctx.fail(f"{what}: raised {type(e).__name__}: {e}")
                continue
            if not compare(ctx, r1, m1, eps, what, len(path) + 1):
                if len(ctx.failures) > 10:
                    return
                continue
            ctx.trace()
            if len(path) + 1 < depth:
                recurse(r1, m1, path + (op,))
        if not path:
            ctx.sample(f"legendre({n}).{ops[first][0]}...")

    recurse(r0, m0, ())
    # source is as it was
    compare(ctx, r0, m0, eps, "source after all operations", 0)


def _inexact(m):
    """Whether ends of pieces are not representable"""
    return any(Q(float(e)) != e for p in m.pieces for e in p[:2])


# ---- others ---------------------------------------------------------------------

def nested(ctx, depth):
    """Nested rule: two orders, also after operations"""
    g = gauss()
    r = g.kronrod_31_15()
    x, w, v = exacts(r.x), exacts(r.w), exacts(r.v)
    ctx.expect(len(x) == 31 and len(v) == 15, "sizes of nested rule")
    xs, ws = leggauss(15)
    ctx.close(r.x[r.vsel], xs, 5e-16, "nodes of the smaller rule")
    ctx.close(r.v, ws, 2e-14, "weights of the smaller rule")
    ctx.expect(all(p < q for p, q in zip([Q(-1)] + x, x + [Q(1)])), "nodes in order")
    ctx.expect(min(w + v) > 0, "weights positive")
    ctx.expect(all(p == -q for p, q in zip(x, x[::-1])), "symmetric nodes")

    def integrate(rule, deg, small, a, b):
        """Integrals of Legendre polynomials on the interval"""
        xx = rule.x[rule.vsel] if small else rule.x
        ww = rule.v if small else rule.w
        t = 2 * (np.asarray(xx, np.longdouble) - np.longdouble(a)) / (
            np.longdouble(b) - np.longdouble(a)) - 1
        c = np.zeros(deg + 1)
        c[deg] = 1
        return float((np.polynomial.legendre.legval(t, c) * ww).sum())

    ops = [(f"reseat({a},{b})", lambda r, a=a, b=b: r.reseat(a, b), (a, b), 1.)
           for a, b in ((0, 1), (-3., 2.), (-1, 1), (1e-3, 4.), (-1e-8, 1e-8))]
    ops += [(f"scale({f})", lambda r, f=f: r.scale(f), None, f) for f in (2, .25)]
    ops += [("astype(float)", lambda r: r.astype(float), None, 1.),
            ("astype(long)", lambda r: r.astype(np.longdouble), None, 1.)]

    def check(rule, a, b, f, what):
        ctx.step()
        ctx.state(what)
        h = (b - a) * f
        if not ctx.expect(hasattr(rule, "v") and hasattr(rule, "vsel"),
                          f"{what}: not a nested rule any more"):
            return False
        ctx.expect(np.all(rule.x[1:] > rule.x[:-1]) and rule.x[0] > a and rule.x[-1] < b,
                   f"{what}: nodes")
        ctx.close(np.asarray(rule.x_forward, float), np.asarray(rule.x - a, float),
                  4e-16 * max(abs(a), abs(b), b - a), f"{what}: x_forward")
        ctx.close(np.asarray(rule.x_backward, float), np.asarray(b - rule.x, float),
                  4e-16 * max(abs(a), abs(b), b - a), f"{what}: x_backward")
        for small, top in ((False, 46), (True, 29)):
            for deg in range(top + 1):
                got = integrate(rule, deg, small, a, b)
                ctx.close(got, h if deg == 0 else 0., 2e-13 * abs(h) * (
                    1 + 1e-2 * max(abs(a), abs(b)) / (b - a)),
                    f"{what}: integral of P_{deg} ({'small' if small else 'large'} rule)")
        ctx.trace()
        return True

    def recurse(rule, a, b, f, path):
        if path and not check(rule, a, b, f, ".".join(path)):
            return
        if len(path) == depth or len(ctx.failures) > 10:
            return
        for name, op, iv, fac in ops:
            a1, b1 = iv or (a, b)
            try:
                r1 = op(rule)
            except Exception as e:
                ctx.fail(f"{'.'.join(path)}.{name}: raised {type(e).__name__}: {e}")
                continue
            recurse(r1, a1, b1, f * fac, path + (name,))
    check(r, -1, 1, 1., "kronrod")
    # conversions reach all parts of the rule, and are exact or correctly rounded
    for t, u in itertools.product((np.float32, float, np.longdouble, "f4", "f8"), repeat=2):
        for op in (lambda r: r, lambda r: r.reseat(0, 4), lambda r: r.scale(2)):
            s, c = op(r), op(r).astype(t).astype(u)
            ctx.step()
            for k in ("x", "w", "v", "x_forward", "x_backward"):
                p, q = getattr(s, k), getattr(c, k)
                ctx.expect(q.dtype == np.dtype(u), f"{k} of type {q.dtype} after "
                           f"conversions to {t} and {u}")
                ctx.expect(np.array_equal(q, p.astype(t).astype(u)),
                           f"{k} after conversions to {t} and {u}")
    recurse(r, -1, 1, 1., ())


def collocation(ctx, top):
    """Collocation inverts evaluation"""
    g = gauss()
    for name in ("float", "dd", "long"):
        try:
            dt, eps = dtype_of(name), eps_of(name)
        except Inapplicable as e:
            ctx.note(f"inapplicable: {e}")
            continue
        for N in range(1, top + 1):
            r = g.legendre(N, dt)
            for n in sorted({N, 1, N//2 + 1, N - 1} - {0}):
                ctx.step()
                ctx.state(name, N, n)
                cmat = g.legendre_collocation(r, n) if n != N else \
                    g.legendre_collocation(r)
                if not ctx.expect(cmat.shape == (n, N) and cmat.dtype == dt,
                                  f"collocation({N}, {n}): {cmat.shape}"):
                    continue
                # evaluation of P_l by recurrence
                x = r.x
                P = [np.ones_like(x), x]
                for k in range(1, n):
                    P.append(((2*k + 1) * x * P[k] - k * P[k-1]) / (k + 1))
                V = np.array(P[:n])
                prod = (cmat[:, None, :] * V[None, :, :]).sum(-1)
                err = (prod - np.eye(n).astype(dt)).astype(float)
                ctx.close(err, np.zeros((n, n)), 30 * (N + 10) * eps,
                          f"collocation({name}, {N}, {n})")
            ctx.trace()


def recurrences(ctx):
    """Other intervals and weights through their recurrence coefficients"""
    g = gauss()
    fn = getattr(g, "rule_from_recurrence", None)
    if fn is None:
        raise Inapplicable("no rule_from_recurrence")
    for n in range(1, 31):
        k = np.arange(n, dtype=float)
        for a, b in ((0., 1.), (-1., 1.), (-2., 6.), (10., 10.5)):
            h = (b - a) / 2
            alpha = np.full(n, (a + b)/2)
            beta = h**2 * k**2 / (4 * k**2 - 1)
            beta[0] = b - a
            keep = alpha.copy(), beta.copy()
            ctx.step()
            ctx.state(n, a, b)
            r = fn(alpha, beta, a, b)
            ctx.expect((alpha == keep[0]).all() and (beta == keep[1]).all(),
                       "arguments changed")
            x, w = leggauss(n)
            ctx.close(r.x, (a + b)/2 + h*x, 1e-14 * max(abs(a), abs(b)),
                      f"shifted nodes {n}, ({a}, {b})")
            ctx.close(r.w, h * w, 1e-11 * h, f"shifted weights {n}, ({a}, {b})")
            ctx.trace()


def batch(ctx):
    """Reseating to many intervals at once, as adaptive integration does"""
    g = gauss()
    for rule in (g.kronrod_31_15(), g.legendre(5)):
        for iv in (((0., 1.),), ((0., 1.), (1., 4.), (4., 4.5)), ((-1e-3, 2.), (2., 3.))):
            a = np.array([i[0] for i in iv])[:, None]
            b = np.array([i[1] for i in iv])[:, None]
            ctx.step(1 + len(iv))
            ctx.state(type(rule).__name__, iv)
            r = rule.reseat(a, b)
            for i, (ai, bi) in enumerate(iv):
                one = rule.reseat(ai, bi)
                for name in ("x", "w", "x_forward", "x_backward") + (
                        ("v",) if hasattr(rule, "v") else ()):
                    ctx.close(getattr(r, name)[i], getattr(one, name), 1e-15 * (
                        abs(ai) + abs(bi)), f"reseat to {len(iv)} intervals: {name}")
            ctx.trace()


def errors(ctx):
    g = gauss()
    for n in (1, 3):
        for name in ("float", "dd"):
            try:
                r = g.legendre(n, dtype_of(name))
            except Inapplicable:
                continue
            for e in ([0, 0, 1], [0, 1, .5], [1, 0], [0, np.nan, 1], [0, 1, np.nan],
                      [2, 1, 3], [0, 1, 2, 2]):
                ctx.raises(lambda: r.piecewise(e), f"piecewise({e})")
            ctx.raises(lambda: r.join(r, r), "join with itself")
            ctx.raises(lambda: r.join(r, r.reseat(2, 3)), "join with gap")
            ctx.raises(lambda: r.join(r, r.reseat(.5, 3)), "join overlapping")
            ctx.raises(lambda: r.join(r.reseat(1, 2), r), "join in wrong order")
            ctx.raises(lambda: r.join(r, r.reseat(1, 2), r.reseat(1, 2)), "join in wrong order")
    empty = g.Rule.join()
    ctx.expect(np.size(empty.x) == 0 and np.size(empty.w) == 0, "empty join")
    # made from given points
    for a, b in ((-1, 1), (0, 2), (-3., .5)):
        x = np.linspace(a, b, 5)[1:-1]
        r = g.Rule(x, [1, 2, 1], a=a, b=b)
        ctx.close(r.x_forward, x - a, 1e-15, "forward")
        ctx.close(r.x_backward, b - x, 1e-15, "backward")
        ctx.expect(r.a == a and r.b == b, "interval")
    r = g.Rule([-.5, 0, .75], [1, 2, 1])
    ctx.expect(r.a == -1 and r.b == 1, "default interval")
    ctx.close(r.x_forward, [.5, 1, 1.75], 1e-15, "forward, default interval")
    ctx.close(r.x_backward, [1.5, 1, .25], 1e-15, "backward, default interval")
    ctx.close(r.reseat(0, 4).x, [1, 2, 3.5], 1e-15, "reseated, default interval")


def tasks(tier):
    quick = tier == "quick"
    to = dict(timeout=400 if quick else 3600)
    out = [Task(errors), Task(batch), Task(recurrences), Task(nested, 3 if quick else 4, **to),
           Task(collocation, 40 if quick else 80, weight=5, **to)]
    ns = list(range(1, 81)) + [100, 150, 300, 600] if quick else \
        list(range(1, 401)) + [600, 1000]
    nd = list(range(1, 41)) + [64, 100] if quick else list(range(1, 151))
    for i in range(8):
        out.append(Task(basics, ns[i::8], "float", weight=5, **to))
        out.append(Task(basics, nd[i::8], "dd", weight=5, **to))
    for name in ("float", "dd"):
        for n in (1, 2, 5):
            # for n = 1, 2, everything; larger ones with one operation less
            d = (3 if n == 2 or name == "float" and n == 1 else 2) + (not quick)
            try:
                count = len(alphabet(name))
            except Inapplicable:
                continue
            for i in range(count):
                out.append(Task(sequences, name, n, d, i, weight=3 * d, **to))
    return out
