"""Oracles and helpers shared by the checks (independent of sparse_ir code)."""
import itertools
import warnings
import functools
import numpy as np

LD = np.longdouble
EPS = np.finfo(float).eps
LDEPS = float(np.finfo(LD).eps)


def sir():
    import sparse_ir
    return sparse_ir


def ddouble():
    try:
        import xprec
        return xprec.ddouble
    except ImportError:
        return None


def to_ld(a):
    """Convert (also ddouble) array to long double exactly"""
    a = np.asarray(a)
    dd = ddouble()
    if dd is not None and a.dtype == np.dtype(dd):
        hi = a.astype(float)
        lo = (a - hi.astype(dd)).astype(float)
        return hi.astype(LD) + lo.astype(LD)
    return a.astype(LD)


@functools.lru_cache(None)
def leggauss(n):
    return np.polynomial.legendre.leggauss(n)


def composite_rule(edges, n):
    """Independent composite Gauss-Legendre rule; returns x, w"""
    x0, w0 = leggauss(n)
    edges = np.unique(np.asarray(edges, float))
    a, b = edges[:-1, None], edges[1:, None]
    x = (.5 * (a + b) + .5 * (b - a) * x0)
    w = .5 * (b - a) * w0
    return x.ravel(), w.ravel()


# ---- kernels in closed form -------------------------------------------------

def ref_logistic(lam, u_plus, u_minus, y):
    """exp(-v u+)/(1+exp(-v)) in long double, returns (value, exponent)"""
    v = LD(lam) * np.asarray(y, LD)
    av = np.abs(v)
    ex = av * np.where(v > 0, np.asarray(u_plus, LD), np.asarray(u_minus, LD))
    return np.exp(-ex) / (1 + np.exp(-av)), ex


def ref_regbose(lam, u_plus, u_minus, y):
    v = LD(lam) * np.asarray(y, LD)
    av = np.abs(v)
    ex = av * np.where(v > 0, np.asarray(u_plus, LD), np.asarray(u_minus, LD))
    safe = np.where(av == 0, LD(1), av)
    fac = np.where(av == 0, LD(1), safe / -np.expm1(-safe))
    return np.exp(-ex) * fac / LD(lam), ex


REF = {"logistic": ref_logistic, "regbose": ref_regbose}


def kernel(name, lam):
    s = sir()
    return {"logistic": s.LogisticKernel,
            "regbose": s.RegularizedBoseKernel}[name](lam)


@functools.lru_cache(None)
def sve(name, lam, eps=None):
    s = sir()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return s.compute_sve(kernel(name, lam), eps)


def kname(stat, which="logistic"):
    return which


@functools.lru_cache(None)
def basis(stat, beta, wmax, eps=None, which="logistic", max_size=None):
    """Basis with shared, cached expansion"""
    s = sir()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lam = beta * wmax
        k = kernel(which, lam)
        return s.FiniteTempBasis(stat, beta, wmax, eps, kernel=k,
                                 max_size=max_size,
                                 sve_result=sve(which, lam, eps))


def product(**axes):
    names = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(names, vals))


def legval(c, x):
    """Plain Legendre sum by explicit recurrence in long double.

    c: (order, ...) coefficients; x: scalar.  Returns shape (...)
    """
    c = np.asarray(c, LD)
    x = LD(x)
    res = c[0] * LD(1)
    p0, p1 = LD(1), x
    for k in range(1, c.shape[0]):
        res = res + c[k] * p1
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / LD(k + 1)
    return res
