"""Table of library calls on a common set of objects, shared by C12 and C13.

A call has a name, a function making fresh arguments, and a function performing the
call on the set of objects ("environment") with these arguments.
"""
import copy
import warnings
import numpy as np
from .lib import sir

LAM = 4.
EPS6 = 1e-6


class Env:
    pass


def make_env():
    """Fresh set of objects, made by calling nothing but constructors"""
    s = sir()
    from sparse_ir import augment, dlr, adapter, sampling, _gauss
    e = Env()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e.K = s.LogisticKernel(LAM)
        e.R = s.RegularizedBoseKernel(LAM)
        e.sK = s.compute_sve(e.K, EPS6)
        e.sR = s.compute_sve(e.R, EPS6)
        e.F = s.FiniteTempBasis('F', 2., 2., EPS6, kernel=e.K, sve_result=e.sK)
        e.B = s.FiniteTempBasis('B', 2., 2., EPS6, kernel=e.K, sve_result=e.sK)
        e.F5 = s.FiniteTempBasis('F', 4., 1., EPS6, max_size=5, kernel=e.K,
                                 sve_result=e.sK)
        e.RB = s.FiniteTempBasis('B', 2., 2., EPS6, kernel=e.R, sve_result=e.sR)
        e.tau = s.TauSampling(e.F)
        e.tauB = s.TauSampling(e.B)
        e.wn = s.MatsubaraSampling(e.F)
        e.wnB = s.MatsubaraSampling(e.B)
        e.wnp = s.MatsubaraSampling(e.B, positive_only=True)
        e.dlr = dlr.DiscreteLehmannRepresentation(e.F)
        e.dlrB = dlr.DiscreteLehmannRepresentation(e.B)
        e.aug = augment.AugmentedBasis(e.B, augment.TauConst, augment.TauLinear)
        e.vert = augment.AugmentedBasis(e.F, augment.MatsubaraConst)
        e.ad = adapter.Basis('F', LAM, e.sK)
        e.adB = adapter.Basis('B', LAM, e.sR)
        e.rule = _gauss.legendre(5)
        e.kron = _gauss.kronrod_31_15()
        e.mat = sampling.DecomposedMatrix(np.array([[1., 2], [0, 1], [3, -1]]))
        e.u1 = e.F.u[1]
        e.h1 = e.F.uhat[1]
        e.du = e.F.u.deriv()
        e.u3 = e.F.u[3]
        e.v2 = e.F.v[2]
        e.hB3 = e.B.uhat[3]
        # polynomial without parity, two roots between neighbouring knots
        e.p2 = sir().poly.PiecewiseLegendrePoly(
            np.array([[.3, .12], [.05, -.3], [1., .1]]), [-1., .4, 1.])
    # bound methods kept for later
    e.kept = dict(F=e.F.uhat.__call__, B=e.B.uhat.__call__, R=e.RB.uhat.__call__,
                  du=e.dlr.u.__call__, duB=e.dlrB.u.__call__,
                  dh=e.dlr.uhat.__call__, dhB=e.dlrB.uhat.__call__,
                  u=e.F.u.__call__, h1=e.h1.__call__, ev=e.tau.evaluate,
                  fit=e.wnB.fit, w=e.K.weight_func('B'), rw=e.R.weight_func('B'))
    return e


def arr(*v):
    return np.array(v)


def boom(x):
    raise ArithmeticError("integrand failed")


TAU = (0., .3, 1., 1.7, 2.)
OPS = {}


def op(name, mk, fn):
    assert name not in OPS
    OPS[name] = (mk, fn)


def _table():
    A = arr
    s = sir()
    from sparse_ir import augment, dlr, sampling, svd, _gauss
    x = lambda: (A(-1., -.4, 0., .9), A(.2, -1., .6, 1.))
    tau = lambda: (A(*TAU),)
    odd, even = lambda: (A(-3, 1, 5, 301),), lambda: (A(-4, 0, 2, 600),)
    none = lambda: ()
    vec = lambda n: np.cos(np.arange(n) * 1.3) * 2.

    # kernels
    op("K", x, lambda e, x, y: e.K(x, y))
    op("K plus minus", lambda: x() + (A(0., .6, 1., 1.9), A(2., 1.4, 1., .1)),
       lambda e, x, y, p, m: e.K(x, y, p, m))
    op("K bad x", lambda: (A(0., 2.), A(0., .1)), lambda e, x, y: e.K(x, y))
    op("K NaN", lambda: (A(0., np.nan), A(0., .1)), lambda e, x, y: e.K(x, y))
    op("R", x, lambda e, x, y: e.R(x, y))
    op("K even", lambda: (A(0., .4, 1.), A(.1, .5, 1.)),
       lambda e, x, y: e.K.get_symmetrized(1)(x, y))
    op("R odd", lambda: (A(0., .4, 1.), A(.1, .5, 1.)),
       lambda e, x, y: e.R.get_symmetrized(-1)(x, y))
    op("K weight", lambda: (A(.1, -.5),), lambda e, y: (e.K.weight_func('F')(y),
                                                       e.K.weight_func('B')(y)))
    op("K hints", none, lambda e: (lambda h: (h.segments_x, h.segments_y, h.ngauss,
                                              h.nsvals))(e.K.sve_hints(EPS6)))
    op("R hints", none, lambda e: (lambda h: (h.segments_x, h.segments_y, h.ngauss,
                                              h.nsvals))(e.R.sve_hints(EPS6)))
    # expansions
    op("sve K", none, lambda e: s.compute_sve(e.K, EPS6))
    op("sve R", none, lambda e: s.compute_sve(e.R, EPS6))
    op("sve K default", none, lambda e: s.compute_sve(e.K, EPS6, svd_strat='default'))
    op("sve K accurate", none, lambda e: s.compute_sve(e.K, EPS6, svd_strat='accurate'))
    op("sve bad", none, lambda e: s.compute_sve(e.K, EPS6, svd_strat='nonsense'))
    op("part", none, lambda e: e.sK.part(1e-3, 4))
    # bases
    op("basis F", none, lambda e: s.FiniteTempBasis('F', 2., 2., EPS6))
    op("basis B sve", none, lambda e: s.FiniteTempBasis('B', 2., 2., EPS6, kernel=e.K,
                                                        sve_result=e.sK))
    op("basis bad", none, lambda e: s.FiniteTempBasis('X', 2., 2., EPS6))
    op("basis mismatch", none, lambda e: s.FiniteTempBasis('F', 2., 9., EPS6, kernel=e.K))
    op("pair", none, lambda e: s.finite_temp_bases(2., 2., EPS6))
    op("set", none, lambda e: s.FiniteTempBasisSet(2., 2., EPS6, sve_result=e.sK))
    op("slice", none, lambda e: e.F[:3])
    op("slice bad", none, lambda e: e.F[1:3])
    op("rescale", none, lambda e: e.B.rescale(5.))
    op("attributes", none, lambda e: (e.F.s.copy(), e.F.significance, e.F.accuracy,
                                      e.F.size, e.F.beta, e.F.wmax, e.F.lambda_))
    op("tau points", none, lambda e: e.F.default_tau_sampling_points())
    op("tau points n", none, lambda e: e.B.default_tau_sampling_points(npoints=4))
    op("wn points", none, lambda e: e.F.default_matsubara_sampling_points())
    op("wn points B", none, lambda e: e.B.default_matsubara_sampling_points(
        npoints=4, positive_only=True))
    op("omega points", none, lambda e: e.F.default_omega_sampling_points())
    # functions
    op("u", tau, lambda e, t: e.F.u(t))
    op("u scalar", none, lambda e: e.F.u(.7))
    op("u 2d", lambda: (np.linspace(0, 2, 6).reshape(2, 3),), lambda e, t: e.B.u(t))
    op("u bad", lambda: (A(.1, 2.1),), lambda e, t: e.F.u(t))
    op("u[1]", tau, lambda e, t: e.u1(t))
    op("u[1:3]", tau, lambda e, t: e.F.u[1:3](t))
    op("u list", lambda: (A(*TAU), A(0, 2)), lambda e, t, l: e.F.u[l](t))
    op("u value", lambda: (A(0, 1, 2, 3, 1), A(*TAU)), lambda e, l, t: e.F.u.value(l, t))
    op("u deriv", tau, lambda e, t: e.F.u.deriv()(t))
    op("u deriv 2", tau, lambda e, t: e.du.deriv()[2](t))
    op("u roots", none, lambda e: e.F.u[3].roots())
    op("v roots", none, lambda e: e.F.v[2].roots())
    op("overlap", lambda: (A(.5, 1.),), lambda e, p: e.F.u.overlap(np.cos, points=p))
    op("overlap err", none, lambda e: e.F.u[:2].overlap(
        lambda t: np.array([t, 1j * t**2]), return_error=True))
    op("overlap raise", none, lambda e: e.F.u.overlap(boom))
    op("v", lambda: (A(-2., .1, 2.),), lambda e, w: e.F.v(w))
    op("v bad", lambda: (A(-2.1, .1),), lambda e, w: e.F.v(w))
    op("uhat F", odd, lambda e, n: e.F.uhat(n))
    op("uhat B", even, lambda e, n: e.B.uhat(n))
    op("uhat R", even, lambda e, n: e.RB.uhat(n))
    op("uhat F5", odd, lambda e, n: e.F5.uhat(n))
    op("uhat float", lambda: (A(1., 3.),), lambda e, n: e.F.uhat(n))
    op("uhat parity", lambda: (A(1, 2),), lambda e, n: e.F.uhat(n))
    op("uhat half", lambda: (A(1., 2.5),), lambda e, n: e.B.uhat(n))
    op("uhat[1]", odd, lambda e, n: e.h1(n))
    op("uhat[:2]", odd, lambda e, n: e.F.uhat[:2](n))
    op("extrema", none, lambda e: e.F.uhat[2].extrema())
    op("sign changes", none, lambda e: e.B.uhat[3].sign_changes(positive_only=True))
    op("extrema bad", none, lambda e: e.F.uhat.extrema())
    # sampling
    n = 7
    op("tau evaluate", lambda: (vec(e_size()),), lambda e, g: e.tau.evaluate(g))
    op("tau evaluate axis", lambda: (np.outer([1., 2.], vec(e_size())),),
       lambda e, g: e.tau.evaluate(g, axis=1))
    op("tau evaluate points", lambda: (vec(e_size()), A(1.1, .2)),
       lambda e, g, p: e.tau.evaluate(g, points=p))
    op("tau fit", lambda: (vec(e_size()),), lambda e, g: e.tau.fit(g))
    op("tau fit bad", lambda: (vec(3),), lambda e, g: e.tau.fit(g))
    op("tau points bad", lambda: (vec(e_size()), A(1., 5.)),
       lambda e, g, p: e.tau.evaluate(g, points=p))
    op("wn evaluate", lambda: (vec(e_size()),), lambda e, g: e.wn.evaluate(g))
    op("wn fit points", lambda: (vec(9) + 1j, np.arange(-9, 9, 2)),
       lambda e, g, p: e.wn.fit(g, points=p))
    op("wnB fit", lambda: (vec(e_wn()) * (1 + 1j),), lambda e, g: e.wnB.fit(g))
    op("wnp fit", lambda: (vec(e_wnp()) * (1 + 1j),), lambda e, g: e.wnp.fit(g))
    op("wnp evaluate", lambda: (vec(e_size('B')),), lambda e, g: e.wnp.evaluate(g))
    op("new tau", lambda: (A(.1, .5, 1.9),), lambda e, p: keep(s.TauSampling(e.F5, p)))
    op("new wn", lambda: (A(1, -3, 7),), lambda e, p: keep(s.MatsubaraSampling(e.F5, p)))
    op("new wnp", lambda: (A(0, 4, 2),),
       lambda e, p: keep(s.MatsubaraSampling(e.B, p, positive_only=True)))
    op("matrix", lambda: (A([1., 2], [0, 1], [3, -1]), A(1., 2, 3)),
       lambda e, a, b: (e.mat.lstsq(b), keep(sampling.DecomposedMatrix(a))))
    # other bases
    op("dlr from", lambda: (vec(e_size()),), lambda e, g: e.dlr.from_IR(g))
    op("dlr to", lambda: (vec(e_size()),), lambda e, g: e.dlr.to_IR(g))
    op("dlr u", tau, lambda e, t: e.dlr.u(t))
    op("dlr uhat", odd, lambda e, n: e.dlr.uhat(n))
    op("dlrB u", tau, lambda e, t: e.dlrB.u(t))
    op("dlrB uhat", even, lambda e, n: e.dlrB.uhat(n))
    op("dlr uhat bad", even, lambda e, n: e.dlr.uhat(n))
    op("new dlr", lambda: (A(-1., 0., 1.5),),
       lambda e, p: keep(dlr.DiscreteLehmannRepresentation(e.B, p)))
    op("aug u", tau, lambda e, t: e.aug.u(t))
    op("aug uhat", even, lambda e, n: e.aug.uhat(n))
    op("aug deriv", tau, lambda e, t: e.aug.u.deriv()(t))
    op("aug slice", none, lambda e: e.aug[:4])
    op("aug slice bad", none, lambda e: e.aug[:1])
    op("aug u[1]", tau, lambda e, t: e.aug.u[1](t))
    op("aug uhat[0]", even, lambda e, n: e.aug.uhat[0](n))
    op("vertex uhat", odd, lambda e, n: e.vert.uhat(n))
    op("new aug", none, lambda e: augment.AugmentedBasis(
        e.F, augment.MatsubaraConst(2.)))
    op("aug F bad", none, lambda e: augment.AugmentedBasis(e.F, augment.TauConst))
    # adapter
    op("ad ulx", lambda: (A(-1., .2, 1.),), lambda e, x: e.ad.ulx(2, x))
    op("ad d_ulx", lambda: (A(-1., .2, 1.),), lambda e, x: e.ad.d_ulx(2, x, 1))
    op("ad vly", lambda: (A(-1., .2, 1.),), lambda e, x: e.adB.vly(1, x))
    op("ad unl", lambda: (A(-1, 0, 7),), lambda e, n: e.ad.compute_unl(n))
    op("ad unl B", lambda: (A(-1, 0, 7),), lambda e, n: e.adB.compute_unl(n, 2))
    op("ad sl", none, lambda e: (e.ad.sl(1), e.ad.dim()))
    op("ad bad", lambda: (A(-1., 1.2),), lambda e, x: e.ad.ulx(2, x))
    op("ad wn points", none, lambda e: e.ad.sampling_points_matsubara(3))
    # quadrature
    op("rule", none, lambda e: _gauss.legendre(5))
    op("reseat", none, lambda e: e.rule.reseat(2., 5.))
    op("scale", none, lambda e: e.rule.scale(3.))
    op("piecewise", lambda: (A(-1., 0., 3.),), lambda e, x: e.rule.piecewise(x))
    op("piecewise bad", lambda: (A(-1., 0., -3.),), lambda e, x: e.rule.piecewise(x))
    op("astype", none, lambda e: e.rule.astype(np.float32))
    op("join", none, lambda e: e.rule.join(e.rule, e.rule.reseat(1, 2)))
    op("kronrod", none, lambda e: e.kron.reseat(0., 1.))
    op("collocation", none, lambda e: _gauss.legendre_collocation(e.rule))
    # decompositions
    M = lambda: (np.array([[1., 2, 3], [4, 5, 6], [7, 8, 10], [1e-9, 2e-9, 0]]),)
    for st in ("fast", "default", "accurate"):
        op(f"svd {st}", M, lambda e, a, st=st: svd.compute(a, None, st))
    op("svd fast product", M,
       lambda e, a: (lambda u, sv, v: (sv, (u * sv) @ v.T))(*svd.compute(a, None, 'fast')))
    op("svd bad", M, lambda e, a: svd.compute(a, None, "none"))
    # bound methods kept since before
    op("kept uhat F", odd, lambda e, n: e.kept["F"](n))
    op("kept uhat B", even, lambda e, n: e.kept["B"](n))
    op("kept uhat R", even, lambda e, n: e.kept["R"](n))
    op("kept uhat[1]", odd, lambda e, n: e.kept["h1"](n))
    op("kept dlr u", tau, lambda e, t: e.kept["du"](t))
    op("kept dlrB u", tau, lambda e, t: e.kept["duB"](t))
    op("kept dlr uhat", odd, lambda e, n: e.kept["dh"](n))
    op("kept dlrB uhat", even, lambda e, n: e.kept["dhB"](n))
    op("kept u", tau, lambda e, t: e.kept["u"](t))
    op("kept evaluate", lambda: (vec(e_size()),), lambda e, g: e.kept["ev"](g))
    op("kept fit", lambda: (vec(e_wn()) * (1 - 2j),), lambda e, g: e.kept["fit"](g))
    op("kept roots", none, lambda e: e.u3.roots())
    op("kept roots alpha", none, lambda e: e.u3.roots(1))
    op("plain roots", none, lambda e: e.p2.roots())
    op("plain roots alpha", none, lambda e: e.p2.roots(1))
    op("plain deriv", none, lambda e: e.p2.deriv())
    op("plain overlap", none, lambda e: e.p2.overlap(np.cos))
    op("kept v roots", none, lambda e: e.v2.roots())
    op("kept extrema", none, lambda e: e.hB3.extrema(grid=np.arange(200)))
    op("kept extrema positive", none,
       lambda e: e.hB3.extrema(grid=np.arange(100), positive_only=True))
    op("kept sign changes", none, lambda e: e.hB3.sign_changes(grid=np.arange(200)))
    op("kept deriv", none, lambda e: e.u3.deriv())
    op("kept deriv 2", none, lambda e: e.u3.deriv(2))
    op("kept overlap", none, lambda e: e.u3.overlap(np.cos))
    op("kept overlap sin", none, lambda e: e.u3.overlap(np.sin))
    op("kept weights", lambda: (A(.1, -.5),),
       lambda e, y: (e.kept["w"](y), e.kept["rw"](y)))


class keep:
    """Result which has been made from arrays of the caller.

    The object stays alive while the caller overwrites the arguments, and is looked
    at only afterwards.
    """
    def __init__(self, obj):
        self.obj = obj


_SIZES = {}


def e_size(which='F'):
    return _SIZES[which]


def e_wn():
    return _SIZES['wnB']


def e_wnp():
    return _SIZES['wnp']


def table(env):
    """All calls; env is used to find the sizes of things only"""
    if not OPS:
        _SIZES.update(F=env.F.size, B=env.B.size, wnB=env.wnB.wn.size,
                      wnp=env.wnp.wn.size)
        _table()
    return OPS


def fresh(pristine):
    """Copy of a set of objects, or a new one if it cannot be copied"""
    try:
        return copy.deepcopy(pristine)
    except Exception:
        return make_env()


def attempt(fn, *args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn(*args)
        except Exception as ex:
            return ex


def canon(r, depth=0):
    """Value of a result as nested tuples and arrays"""
    s = sir()
    name = type(r).__name__
    if isinstance(r, keep):
        return canon(r.obj)
    if isinstance(r, BaseException):
        return ("raises", type(r).__name__, str(r))
    if isinstance(r, np.ndarray):
        return np.array(r)
    if isinstance(r, (tuple, list)):
        return tuple(canon(x) for x in r)
    if r is None or isinstance(r, (str, bool, int, float, complex, np.generic)):
        return r
    if name == "FiniteTempBasis":
        return (name, r.statistics, r.beta, r.wmax, r.size, canon(r.s), canon(r.accuracy),
                canon(r.u), canon(r.v), canon(r.uhat))
    if name == "AugmentedBasis":
        n = 2 * np.arange(-2, 3) + (r.statistics == 'F')
        return (name, r.size, r.u(np.array([.3, 1.7])), r.uhat(n))
    if name == "PiecewiseLegendrePoly":
        t = np.linspace(r.xmin, r.xmax, 5)
        return (name, r.shape, r.xmin, r.xmax, r(t))
    if name == "PiecewiseLegendreFT":
        return (name, r.shape, r(2 * np.arange(-2, 3) + r.zeta), r(900 + r.zeta))
    if name == "SVEResult":
        # the sign of noise beyond the accuracy is not meaningful
        k = int((r.s > 1e-5 * r.s[0]).sum())
        return (name, r.s[:k], canon(r.u[:k]), canon(r.v[:k]))
    if name == "FiniteTempBasisSet":
        return (name, canon(r.basis_f), canon(r.basis_b), canon(r.tau), canon(r.wn_f),
                canon(r.wn_b), canon(r.smpl_tau_b.matrix.a), canon(r.smpl_wn_b.matrix.a))
    if name in ("TauSampling", "MatsubaraSampling"):
        return (name, canon(r.sampling_points), canon(r.matrix))
    if name in ("DecomposedMatrix", "SplitDecomposedMatrix"):
        return (name, canon(r.a), canon(r.s), canon(r.lstsq(np.ones(r.a.shape[0]))))
    if name == "DiscreteLehmannRepresentation":
        n = 2 * np.arange(-2, 3) + (r.statistics == 'F')
        return (name, canon(r.sampling_points), r.u(np.array([.3, 1.7])), r.uhat(n),
                canon(r.matrix))
    if name in ("Rule", "NestedRule"):
        return (name, r.a, r.b) + tuple(np.array(getattr(r, k)) for k in
                                        ("x", "w", "x_forward", "x_backward"))
    return (name,)


def same(a, b, rtol=1e-10):
    """Compare two canonical values"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
                and all(same(x, y, rtol) for x, y in zip(a, b)))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        fin = np.isfinite(b)
        if not np.array_equal(np.isfinite(a), fin):
            return False
        big = np.abs(b[fin]).max() if fin.any() else 0.
        ok = np.abs(a - b) <= rtol * big
    return bool((ok | ~fin).all())


def arrays_in(r, seen=None):
    """Plain arrays among the result, for the caller to write to"""
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (tuple, list)):
        for x in r:
            yield from arrays_in(x)


def scribble(a):
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = 17 if a.dtype.kind in "iu" else 1e3
