"""C05: functions on the Matsubara axis are Fourier transforms.

Space: statistics x kernel x cutoff x accuracy x every l x frequencies of both
signs on both sides of the switch to the high-frequency expansion x selections,
derivatives and user-made polynomials.  Reference: Gauss-Legendre quadrature of
the time function resolving the phase up to a bound, and integration by parts
with the function's own boundary derivatives beyond it.
"""
import itertools
import numpy as np
from .core import Task
from .lib import LD, sir, basis, sve, leggauss
from . import c02

BOUNDS = {
    "quick": "cutoffs .1..1e3, all l; frequencies +-{0..40, every 13th up to 2.2 times "
             "the switch-over for the smaller cutoffs, 11 on either side of it, up "
             "to 1e9}; all derivatives; 60 polynomial families of order <= 4",
    "thorough": "cutoffs up to 1e4, full precision for all"}
ASSUMPTIONS = ["beyond 200 times the switch-over frequency the reference uses three "
               "terms of integration by parts"]


def quad_ft(f, knots, ns, lo, hi, nodes=20, chunk=60000):
    """int_lo^hi exp(i pi n (t-lo)/(hi-lo)) f(t) dt by composite quadrature"""
    x0, w0 = leggauss(nodes)
    knots = np.asarray(knots, float)
    out = []
    for n in ns:
        # panels with at most ~ 3 half turns each
        dk = np.diff(knots)
        cnt = np.maximum(1, np.ceil(abs(n) * dk / (hi - lo) / 3)).astype(int)
        acc = 0
        # group panels by segment, evaluated in one go
        a = np.repeat(knots[:-1], cnt)
        hstep = np.repeat(dk / cnt, cnt)
        idx = np.concatenate([np.arange(c) for c in cnt])
        left = a + idx * hstep
        for k in range(0, left.size, max(1, chunk // nodes)):
            sl = slice(k, k + max(1, chunk // nodes))
            t = (left[sl, None] + hstep[sl, None] * (x0 + 1) / 2).ravel()
            w = (hstep[sl, None] / 2 * w0).ravel()
            # phase in long double to keep digits for large n
            ph = LD(n) * (t.astype(LD) - lo) / LD(hi - lo)
            ph = np.asarray(ph - 2 * np.round(ph / 2), float)
            acc = acc + f(t.clip(lo, hi)) @ (np.exp(1j * np.pi * ph) * w)
        out.append(acc)
    return np.array(out).T


def parts_ft(f, derivs, ns, lo, hi):
    """Boundary terms of integration by parts"""
    ns = np.asarray(ns)
    z = (1j * np.pi * ns / (hi - lo))
    ph = np.where(ns % 2 == 0, 1., -1.)
    res = 0
    for k, g in enumerate(derivs):
        b, a = np.asarray(g(hi)), np.asarray(g(lo))
        res = res + (-1.)**k * (b[..., None] * ph - a[..., None]) / z**(k + 1)
    return res


def freqs(radius, zeta, dense, tail):
    n = list(range(0, 21))
    r = int(radius) // 2
    n += list(range(r - 6, r + 6))
    if dense:
        n += list(range(21, int(1.1 * radius), dense))
    n += [int(1.5 * r), 2 * r + 3]
    n = np.unique([2 * x + zeta for x in n if x >= 0])
    t = np.array([2 * int(x * r) + zeta for x in tail])
    return n, np.unique(t)


def check_ft(ctx, fhat, u, n, nt, knots, lo, hi, what, scale, noise, norm=1., derivs=None,
             relax=None):
    """Compare fhat with the transform of u for all frequencies"""
    got = fhat(n)
    gotm = fhat(-n)
    ctx.step(2)
    ctx.trace()
    want = norm * quad_ft(u, knots, n, lo, hi)
    amp = np.abs(u(np.linspace(lo, hi, 65))).max(-1)
    env = np.minimum(1., 40 / np.maximum(1, np.abs(n)))
    tol = noise * scale * (env if relax is None else np.ones_like(env))
    ctx.close(got, want, np.broadcast_to(tol, got.shape), f"{what}: transform")
    ctx.close(gotm, got.conj(), np.broadcast_to(1e-14 * np.abs(got) + 1e-16 * scale * env,
                                               got.shape),
              f"{what}: conjugate symmetry")
    if nt.size and derivs is not None:
        got = fhat(nt)
        ctx.step()
        want = norm * parts_ft(u, derivs, nt, lo, hi)
        lead = norm * 2 * np.abs(np.asarray(derivs[0](np.array([lo, hi])))).max()
        tol = (1e-12 + noise) * lead * (hi - lo) / (np.pi * np.abs(nt)) * 50
        ctx.close(got, want, np.broadcast_to(tol, got.shape), f"{what}: high frequency")
        ctx.close(fhat(-nt), got.conj(), np.broadcast_to(
            1e-14 * np.abs(got) + 1e-30, got.shape),
            f"{what}: conjugate symmetry at high frequency")
    # one call with all kinds of frequencies, in any order, gives the same
    if nt.size:
        inner = np.hstack([n[:3], n[-3:]])
        outer = np.hstack([nt[:2], nt[-2:]])
        for parts in ([inner, outer], [outer, -inner], [-outer[:1], inner[1:2], outer[1:]],
                      [inner[:1], -outer[-1:], -inner[-1:], outer[:1]]):
            got = fhat(np.hstack(parts))
            want = np.concatenate([fhat(p) for p in parts], -1)
            ctx.step()
            ctx.close(got, want, 1e-13 * np.abs(want) + 1e-15 * scale / np.maximum(
                1, np.abs(np.hstack(parts)) / 40), f"{what}: mixed frequencies")
            for shape in ((1, -1), (-1, 1)):
                ctx.close(fhat(np.hstack(parts).reshape(shape)).reshape(want.shape), want,
                          1e-13 * np.abs(want) + 1e-15 * scale / np.maximum(
                              1, np.abs(np.hstack(parts)) / 40),
                          f"{what}: mixed frequencies as matrix")


def purity(ctx, f, symm, zeta, n, what):
    """Even/odd functions are real/imaginary"""
    v = f(n)
    big = np.abs(v).max(-1, keepdims=True)
    symm = np.broadcast_to(np.asarray(symm), v.shape[:-1])
    real = (symm == 1) if zeta == 0 else (symm == -1)
    wrong = np.where(real[..., None], v.imag, v.real)
    ctx.close(wrong, np.zeros_like(wrong), np.broadcast_to(
        np.maximum(1e-13 * np.abs(v), 3e-14 * big / np.maximum(1, np.abs(n) / 40)),
        v.shape), f"{what}: purely real or imaginary")


def real(ctx, stat, which, lam, beta, eps, dense, tail):
    wmax = lam / beta
    b = basis(stat, beta, wmax, eps, which)
    zeta = {'F': 1, 'B': 0}[stat]
    radius = 40 * max(lam, 10)
    n, nt = freqs(radius, zeta, dense, tail)
    if dense == 0 and lam > 300:
        # keep quadrature affordable
        r = int(radius) // 2
        n = np.unique([2 * k + zeta for k in (0, 1, 2, 5, 40, 333, r // 7, r - 1, r,
                                              r + 1)])
    for l in range(b.size):
        ctx.state(stat, which, lam, beta, eps, l)
    what = f"uhat {stat} {which} L={lam:g} beta={beta:g} eps={eps}"
    high = eps is None or eps < 1e-8
    nz = 1e-12 * (1 + lam / 10) + (0 if high else 6e-8 * (1 + lam / 100))
    d = [b.u, b.u.deriv(1), b.u.deriv(2), b.u.deriv(3)]
    check_ft(ctx, b.uhat, b.u, n, nt, b.u.knots, 0., beta, what, np.sqrt(beta) * 10,
             nz, derivs=d)
    purity(ctx, b.uhat, b.u.symm, zeta, np.hstack([n, nt, -n]), what)
    # direct evaluation and high-frequency expansion agree where they meet
    # (values next to the switch-over vary smoothly)
    r = int(radius) // 2
    near = 2 * np.arange(r - 8, r + 8) + zeta
    v = b.uhat(near)
    ctx.step()
    sm = v * near**1.
    # second difference of n*uhat is tiny for a smooth function
    d2 = np.abs(sm[:, 2:] - 2 * sm[:, 1:-1] + sm[:, :-2])
    big = np.abs(sm).max(1, keepdims=True)
    ctx.expect((d2 <= (1e-3 + 30. / r**2 * lam + nz * 1e4) * big + 1e-12).all(), f"{what}: not "
               f"smooth at the switch-over: {(d2 / (big + 1e-300)).max()}")
    # single functions and selections give the same numbers
    nn = np.hstack([n[::9], nt[:2], -n[1::11]])
    full = b.uhat(nn)
    for l in range(0, b.size, 1 if b.size < 40 else 5):
        ctx.close(b.uhat[l](nn), full[l], 1e-13 * np.abs(full[l]) + 1e-15 * np.sqrt(beta)
                  / np.maximum(1, np.abs(nn) / 40), f"{what}: function {l}")
        ctx.step()
    for sel in (slice(1, None, 2), slice(None, None, -1), [0, b.size - 1],
                slice(b.size // 2, None)):
        ctx.close(b.uhat[sel](nn), full[sel], 1e-13 * np.abs(full[sel]) + 1e-15 *
                  np.sqrt(beta) / np.maximum(1, np.abs(nn) / 40), f"{what}: selection {sel}")
        ctx.step()
    ctx.sample(f"L={b.size}, {n.size} frequencies by quadrature, {nt.size} beyond")


def derivatives(ctx, which, lam, stat):
    """Transforms of derivatives, by the class itself"""
    s = sir()
    res = sve(which, lam, None)
    n_max = int((res.s > 1e-10 * res.s[0]).sum())
    u = res.u[:n_max]
    freq = {'F': 'odd', 'B': 'even'}[stat]
    zeta = {'F': 1, 'B': 0}[stat]
    radius = 40 * max(lam, 10)
    n, nt = freqs(radius, zeta, 37, (4, 100))
    n, nt = n[n > 0], nt[nt > 0]
    for order in range(0, 4):
        p = u.deriv(order) if order else u
        for l in [slice(None)] + list(range(0, n_max, 3)):
            q = p[l]
            for asym in (None, radius):
                f = s.poly.PiecewiseLegendreFT(q, freq, asym)
                what = f"transform of derivative {order} of u[{l}] {which} L={lam:g} {stat} " \
                       f"n_asymp={asym}"
                ctx.state(which, lam, stat, order, str(l), asym)
                amp = np.abs(q(np.linspace(-1, 1, 301))).max()
                check_ft(ctx, f, q, n if isinstance(l, slice) else n[::5], nt[:0],
                         q.knots, -1., 1., what, amp, 1e-11 * 30**order,
                         norm=np.sqrt(.5), relax=True)
                sy = np.asarray(res.u.symm)[:n_max][l] * (-1)**order
                got = f(n)
                ctx.step()
                big = np.abs(got).max()
                want_real = (sy == 1) if zeta == 0 else (sy == -1)
                wrong = np.where(np.asarray(want_real)[..., None], got.imag, got.real)
                ctx.close(wrong, 0 * wrong, 1e-11 * 30**order * amp,
                          f"{what}: purely real or imaginary")


def families(ctx, order, nseg, first):
    """All small piecewise polynomials, no parity, discontinuous or not"""
    s = sir()
    layouts = {1: [[-1, 1]], 2: [[-1, 0, 1], [-1, -.75, 1], [-1, 1 - 2.**-20, 1]],
               3: [[-1, -.5, .5, 1], [-1, -.9, -.875, 1]]}[nseg]
    cf = [-1, 0, 2]
    n_even = np.array([0, 2, 4, 10, 46, 1000, 2 * 10**4])
    for knots in layouts:
        knots = np.array(knots, float)
        dx = np.diff(knots)
        per = list(itertools.product(cf, repeat=order))
        datas = []
        for rest in itertools.product(per, repeat=nseg - 1):
            datas.append(np.array((first,) + rest, float).T)
        data = np.array(datas).transpose(1, 2, 0)      # order, nseg, functions
        p = s.poly.PiecewiseLegendrePoly(data, knots)
        for freq, z in (("even", 0), ("odd", 1), ("any", None)):
            n = n_even + (z or 0)
            if z is None:
                n = np.array([0, 1, 2, 3, 7, 10, 45, 1001])
            f = s.poly.PiecewiseLegendreFT(p, freq)
            got = f(n)
            ctx.step()
            ctx.trace()
            # exact: moments of Legendre polynomials by recurrence in 80 bit
            want = exact_ft(data, knots, n)
            ctx.close(got, want, 3e-13 * (1 + np.abs(n) / 5000), f"transform of "
                      f"polynomials on {knots.tolist()}, order {order}, {freq}")
            ctx.close(f(-n), got.conj(), 1e-14, f"conjugation {knots.tolist()}")
            ctx.state("family", order, tuple(knots), freq, first)


def exact_ft(data, knots, n):
    """(1/sqrt 2) int exp(i pi n (x+1)/2) p(x), quadrature resolving the phase"""
    norm = np.sqrt(2 / np.diff(knots))
    out = np.zeros((data.shape[2], len(n)), complex)
    x0, w0 = leggauss(24)
    for j, nn in enumerate(n):
        for i, (a, b) in enumerate(zip(knots[:-1], knots[1:])):
            m = max(1, int(np.ceil(abs(int(nn)) * (b - a) / 8)))
            e = a + (b - a) * np.arange(m + 1) / m
            x = (e[:-1, None] + (e[1:] - e[:-1])[:, None] * (x0 + 1) / 2).ravel()
            w = ((e[1:] - e[:-1])[:, None] / 2 * w0).ravel()
            t = (2 * x - (a + b)) / (b - a)
            P = np.polynomial.legendre.legvander(t, data.shape[0] - 1)
            ph = LD(int(nn)) * (x.astype(LD) + 1) / 2
            ph = np.asarray(ph - 2 * np.round(ph / 2), float)
            out[:, j] += norm[i] * (data[:, i, :].T @ (P.T @ (w * np.exp(1j * np.pi * ph))))
    return out / np.sqrt(2)


def userkernel(ctx, name, stat):
    """Kernel without a convergence radius: no expansion is used"""
    s = sir()
    K = c02.custom(name)
    for eps in (None, 1e-6):
        b = s.FiniteTempBasis(stat, 3., 1., eps, kernel=K)
        zeta = {'F': 1, 'B': 0}[stat]
        n = 2 * np.unique(np.hstack([np.arange(12), 100, 399, 2000])) + zeta
        what = f"uhat {name} {stat} eps={eps}"
        ctx.state(name, stat, eps)
        check_ft(ctx, b.uhat, b.u, n, n[:0], b.u.knots, 0., 3., what, np.sqrt(3.) * 10,
                 1e-11 if eps is None else 1e-7)


def tasks(tier):
    T = tier == "thorough"
    res = []
    tail = (2.5, 10, 500, 1e4, 1e6)
    for which, stats in (("logistic", "FB"), ("regbose", "B")):
        for stat in stats:
            for lam in (.1, 1., 3., 10., 42.):
                for eps in (None, 1e-6, 1e-10):
                    res.append(Task(real, stat, which, lam, lam if eps else 2., eps,
                                    13 if lam < 42 else 97, (), weight=lam))
                    res.append(Task(real, stat, which, lam, lam, eps, 0,
                                    (300, 1e4, 1e6), weight=1))
            for lam in (300., 1e3) + ((1e4,) if T else ()):
                res.append(Task(real, stat, which, lam, lam, 1e-6, 0, (500, 1e4),
                                weight=lam, timeout=600))
            for lam in (300., 1e3, 1e4) if T else ():
                res.append(Task(real, stat, which, lam, lam, None, 0, (500, 1e4),
                                weight=lam, timeout=900))
            for lam in (1., 10.) + ((42.,) if T else ()):
                res.append(Task(derivatives, which, lam, stat, weight=30, timeout=900))
    for nseg, order in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1),
                        (3, 2)):
        for first in itertools.product([-1, 0, 2], repeat=order):
            res.append(Task(families, order, nseg, first, weight=3))
    for name in ("gauss", "tilted"):
        for stat in "FB":
            res.append(Task(userkernel, name, stat))
    return res
