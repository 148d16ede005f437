"""C04: expanding a pole gives the analytic propagator.

Space: statistics x kernel x temperature x bandwidth x accuracy x pole position
x imaginary times x Matsubara frequencies of both signs.  Closed forms in 80-bit
arithmetic are the reference.
"""
import numpy as np
from .core import Task
from .lib import LD, basis

BOUNDS = {
    "quick": "beta*wmax in {.1, 1, 10, 42, 1e3, 1e4} x 3 splittings in beta and "
             "wmax, 4 accuracies, 17 poles, 19 times, 34 frequencies up to 1e7",
    "thorough": "cutoffs up to 1e6 and full precision up to 1e5"}
ASSUMPTIONS = ["propagator compared to the accuracy the basis reports, times the "
               "magnitude of its functions"]


def pole_set(wmax):
    f = [0., 1e-300, 1e-12, 1e-4, .01, .3, .7, .999, 1.]
    return np.array([-x * wmax for x in f[:0:-1]] + [x * wmax for x in f])


def tau_set(beta, lam):
    t = [0., 1e-10 / lam, .1 / lam, 1. / lam, .03, .1, .25, .4, .5]
    t = np.unique(np.hstack([t, 1 - np.array(t)]).clip(0, 1))
    return t * beta


def freq_set(lam, zeta):
    n = np.unique(np.hstack([[0, 1, 2, 5, 13], np.array(
        [.3, 3, 19, 19.99, 20, 20.01, 25, 100, 1e3]) * max(lam, 1), 1e5, 5e6])).astype(int)
    n = 2 * n + zeta
    return np.unique(np.hstack([n, -n]))


def exact(kind, stat, beta, wmax, tau, w, n):
    """K(tau, w) and its Fourier transform, in physical units"""
    t, o = np.asarray(tau, LD)[:, None], np.asarray(w, LD)[None, :]
    x = beta * np.abs(o)
    # exp(-tau w) / (1 +- exp(-beta w)), written for |w|
    ex = np.where(o > 0, t, LD(beta) - t) * np.abs(o)
    nu = 1j * (np.pi / LD(beta) * np.asarray(n, LD))[:, None]
    den = o - nu
    safe = np.where(den == 0, 1, den)
    if kind == "logistic":
        k = np.exp(-ex) / (1 + np.exp(-x))
        if stat == "F":
            kw = 1 / safe
        else:
            kw = np.where(den == 0, LD(beta) / 2, np.tanh(x / 2) * np.sign(o) / safe)
    else:
        tiny = np.where(x == 0, 1, x)
        k = np.exp(-ex) * np.where(x == 0, 1, tiny / -np.expm1(-tiny)) / LD(beta)
        kw = np.where(den == 0, LD(1), o / safe)
        # o - nu with o -> 0 at zero frequency
        kw = np.where((np.asarray(n)[:, None] == 0), LD(1), kw)
    return k.astype(float), kw.astype(complex)


def propagator(ctx, which, stat, beta, wmax, eps):
    lam = beta * wmax
    b = basis(stat, beta, wmax, eps, which)
    acc = max(b.accuracy, 0)
    high = eps is None or eps < 1e-8
    tau, w = tau_set(beta, lam), pole_set(wmax)
    n = freq_set(lam, {'F': 1, 'B': 0}[stat])
    ut, vw, uw = b.u(tau), b.v(w), b.uhat(n)
    ctx.step(3)
    k, kw = exact(which, stat, beta, wmax, tau, w, n)
    sv = b.s[:, None] * vw
    gt, gw = ut.T @ sv, uw.T @ sv
    ctx.trace(w.size)
    for x in w:
        ctx.state(which, stat, beta, wmax, eps, float(x))
    what = f"{which} {stat} beta={beta:g} wmax={wmax:g} eps={eps}"
    ampu = max(np.abs(ut).max(), 1 / np.sqrt(beta))
    ampv = max(np.abs(vw).max(), 1 / np.sqrt(wmax))
    floor = 1e-13 * (1 if high else 3) + 1e-17 * lam
    err = (20 * acc + 20 * floor) * b.s[0] * ampv
    # A function of this magnitude and variation has at most this transform
    env = np.minimum(np.sqrt(beta), 60 * ampu * beta / (np.pi * np.maximum(1, np.abs(n))))
    tolt, tolw = err * ampu, err * env[:, None]
    scale = 1.
    if which == "regbose" and wmax != 1:
        # Documented finding: singular values carry a factor wmax**(-2) with
        # respect to the kernel in physical units
        f = wmax**-2.
        if np.abs(gt - f * k).max() <= tolt and np.abs(gt - k).max() > tolt:
            ctx.fail(f"{what}: expansion is {f:g} times the kernel",
                     key="regbose-wmax-scale")
            scale = f
    ctx.close(gt, scale * k, tolt, f"{what}: imaginary time")
    ctx.close(gw, scale * kw, np.broadcast_to(tolw, gw.shape),
              f"{what}: Matsubara frequency")
    # one pole at a time, one function at a time (scalar interface)
    for i in (0, w.size // 2, w.size - 1):
        gl = b.s * b.v(float(w[i]))
        for j in (0, tau.size // 2, tau.size - 1):
            ctx.close(gl @ b.u(float(tau[j])), scale * k[j, i], tolt,
                      f"{what}: pole {w[i]} at tau={tau[j]}")
            ctx.step(2)
        for j in range(0, n.size, 7):
            ctx.close(gl @ b.uhat(int(n[j])), scale * kw[j, i], tolw[j, 0],
                      f"{what}: pole {w[i]} at n={n[j]}")
            ctx.step()
    # spectral weight in front of the pole: both statistics give 1/(w - iv)
    if which == "logistic":
        for i, x in enumerate(w):
            if abs(x) < 1e-6 * wmax:
                continue
            wt = b.kernel.weight_func(stat)(np.array([x / wmax]))
            ctx.step()
            exp = {'F': 1., 'B': 1. / np.tanh(beta * x / 2)}[stat]
            ctx.close(wt, [exp], 1e-12 * abs(exp), f"{what}: weight of {x}")
            g = gw[:, i] * wt[0]
            nu = np.pi / beta * n
            ctx.close(g, 1 / (x - 1j * nu), abs(exp) * tolw[:, 0] +
                      1e-13 / np.abs(x - 1j * nu), f"{what}: weighted pole {x}")
    elif wmax == 1:
        for i, x in enumerate(w):
            if abs(x) < 1e-6:
                continue
            wt = b.kernel.weight_func(stat)(np.array([x]))
            nu = np.pi / beta * n
            ctx.close(gw[:, i] * wt[0], 1 / (x - 1j * nu), tolw[:, 0] / abs(x) +
                      1e-13 / np.abs(x - 1j * nu), f"{what}: weighted pole {x}")
    ctx.sample(f"L={b.size}, accuracy {b.accuracy:.2g}, |error| in tau "
               f"{np.abs(gt - scale * k).max():.2g}")


def tasks(tier):
    T = tier == "thorough"
    res = []
    for which, stats in (("logistic", "FB"), ("regbose", "B")):
        for lam in (.1, 1., 10., 42., 1e3, 1e4) + ((1e5, 1e6) if T else ()):
            for beta in (lam, .5, 1e3, 1.) if lam <= 42 or T else (lam, 7.):
                for eps in (None, 1e-3, 1e-6, 1e-8, 1e-11):
                    high = eps is None or eps < 1e-8
                    if high and (lam > (1e5 if T else 1e3) or lam > 42 and
                                 (beta != lam or eps is None and not T)):
                        continue
                    for stat in stats:
                        wmax = lam / beta
                        if beta * wmax != lam and abs(beta * wmax / lam - 1) > 3e-16:
                            continue
                        res.append(Task(propagator, which, stat, beta, wmax, eps,
                                        weight=lam * (10 if high else 1)))
    return res
