"""C22: Missing optional accelerators degrade accuracy only as announced.

Environments are all combinations of the optional components present or missing (the
extended-precision package absent or broken half-way, the accurate SVD routine absent);
for each, the library is imported afresh and every combination of kernel, cutoff,
accuracy, working precision and SVD strategy is run.  Warnings are compared with a
decision table which is derived from the documented accuracies, numbers with those of
the complete environment.
"""
import itertools
import sys
import warnings
import numpy as np
from .core import Task

BOUNDS = {
    "quick": "8 environments x 2 kernels x cutoffs 1, 10, 100 (1000 for one) x accuracies "
             "None, 1e-4, 1e-7, 1e-8, 1e-9, 1e-12, 1e-15 x working precisions default, "
             "double, double-double x strategies default, all three; bases, basis sets, "
             "Lehmann representation and adapter in each; warnings as table of "
             "(environment, accuracy, precision, strategy); accurate SVD with and "
             "without its routine for 24 matrices x all size hints",
    "thorough": "also cutoffs 1e3, 1e4, all accuracies 1e-3..1e-15"}
ASSUMPTIONS = ["absence is modelled by making the import fail",
               "warnings are told apart by presence, not text"]

# xprec, dgejsv
ENVS = {"full": (None, True), "no xprec": ("xprec", True), "no dgejsv": (None, False),
        "neither": ("xprec", False), "no xprec.linalg": ("xprec.linalg", True),
        "neither linalg": ("xprec.linalg", False), "no irbasis": ("irbasis", True),
        "no h5py": ("h5py", True)}


def reimport(env):
    """Import library again with something missing"""
    missing, gejsv = ENVS[env]
    for name in list(sys.modules):
        if name.split(".")[0] == "sparse_ir":
            del sys.modules[name]
    if missing:
        for name in list(sys.modules):
            if name == missing or name.startswith(missing + "."):
                del sys.modules[name]
        sys.modules[missing] = None
    if not gejsv:
        import scipy.linalg.lapack as lapack
        if hasattr(lapack, "dgejsv"):
            del lapack.dgejsv
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        import sparse_ir
        import sparse_ir.adapter
        import sparse_ir.dlr
    return sparse_ir, [str(w.message) for w in rec]


def has_xprec(env):
    return not (ENVS[env][0] or "").startswith("xprec")


def has_dgejsv(env):
    return ENVS[env][1]


def record(fn):
    """Result and warnings"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        res = fn()
    return res, [f"{w.category.__name__}: {str(w.message).strip()[:60]}" for w in rec]


def kernels(s, which, lam):
    return {"logistic": s.LogisticKernel, "regbose": s.RegularizedBoseKernel}[which](lam)


GRID = np.array([-1, -.999, -.99, -.9, -.5, -.1, 0, .03, .3, .7, .95, .995, 1.])


def expect_warning(env, eps, work, strat):
    """Decision table; returns (whether a warning is due, accuracy to be expected)"""
    if work is None:
        work = "dd" if (eps is None or eps < 1e-8) and has_xprec(env) else "f8"
    safe = 1e-8 if work == "f8" else 2.3e-16
    warn = strat is None and eps is not None and eps < safe * .9
    used = strat or ("accurate" if warn else "fast")
    if used == "accurate" and work == "f8" and not has_dgejsv(env):
        warn = True
    return warn, safe, used


def sves(ctx, env, which, lam, epss, strats):
    """Singular value expansions"""
    s, msgs = reimport("full")
    ref = s.compute_sve(kernels(s, which, lam))
    ref_s, ref_u, ref_v = ref.s, ref.u(GRID), ref.v(GRID)
    s, msgs = reimport(env)
    ctx.expect(not msgs, f"{env}: warnings on import {msgs}")
    k = kernels(s, which, lam)
    kmat = k(GRID[:, None], GRID[None, :])
    for eps, work, strat in itertools.product(epss, (None, "f8", "dd"), strats):
        what = f"{env}: compute_sve({which}({lam}), {eps}, {work}, {strat})"
        if work == "dd":
            if not has_xprec(env):
                continue
            from xprec import ddouble
            dt = np.dtype(ddouble)
        else:
            dt = None if work is None else np.dtype(work)
        ctx.state(env, which, lam, eps, work, strat)
        ctx.step()
        r, msgs = record(lambda: s.compute_sve(k, eps, work_dtype=dt, svd_strat=strat))
        warn, safe, used = expect_warning(env, eps, work, strat)
        if warn:
            ctx.expect(any("UserWarning" in m for m in msgs), f"{what}: no warning")
        else:
            ctx.expect(not msgs, f"{what}: warning {msgs}")
        ctx.expect(r.s.dtype == np.float64 and np.isfinite(r.s).all(),
                   f"{what}: singular values")
        # accuracy that has been reached must be the one announced: the one of the
        # working precision
        rel = ref_s / ref_s[0]
        n = min((rel >= 1.01 * max(eps or 0., safe)).sum(), rel.size)
        if not ctx.expect(r.s.size >= n, f"{what}: only {r.s.size} of {n} functions"):
            continue
        ctx.close(r.s[:n], ref_s[:n], (1e-13 if safe > 1e-9 else 2e-15) * ref_s[0],
                  f"{what}: singular values")
        u, v = r.u(GRID), r.v(GRID)
        err = np.abs((u[:n].T * r.s[:n]) @ v[:n] - (ref_u[:n].T * ref_s[:n]) @ ref_v[:n])
        ctx.expect(err.max() <= (5e-12 if safe > 1e-9 else 1e-12) * np.abs(kmat).max(),
                   f"{what}: kernel deviates by {err.max():.3g}")
        if which == "logistic" or lam < 40:
            amp = 1 / rel[:n, None]
            unit = 2.3e-16 if safe > 1e-9 else 1e-17
            big = np.maximum(1, np.abs(ref_u[:n]).max(1, keepdims=True))
            ctx.close(u[:n], ref_u[:n], 1e3 * unit * amp * big + 1e-11, f"{what}: u")
        ctx.trace()
    ctx.sample(f"{env}: {which} {lam}")


def bases(ctx, env, which, beta, wmax, epss):
    """Bases built on top, and what they are used for"""
    from .lib import EPS
    s, _ = reimport("full")
    ref = {st: s.FiniteTempBasis(st, beta, wmax, kernel=kernels(s, which, beta*wmax))
           for st in "FB" if not (st == "F" and which == "regbose")}
    taus = beta * np.array([0, 1e-4, .01, .3, .5, .8, 1.])
    ref_u = {st: (b.u(taus), b.s, b.v(wmax * np.array([-1, -.2, 0, .5, 1])))
             for st, b in ref.items()}
    freqs = {st: np.array([-101, -1, 1, 3, 21, 1001]) + (st == "B") for st in ref}
    ref_uh = {st: b.uhat(freqs[st]) for st, b in ref.items()}

    s, _ = reimport(env)
    for st, eps in itertools.product(ref, epss):
        k = kernels(s, which, beta * wmax)
        what = f"{env}: FiniteTempBasis({st}, {beta}, {wmax}, {eps}, {which})"
        ctx.state(env, st, which, beta, wmax, eps)
        ctx.step()
        b, msgs = record(lambda: s.FiniteTempBasis(st, beta, wmax, eps, kernel=k))
        warn, safe, used = expect_warning(env, eps, None, None)
        warn = warn or (eps is None and not has_xprec(env))
        if warn:
            ctx.expect(any("UserWarning" in m for m in msgs), f"{what}: no warning")
        else:
            ctx.expect(not msgs, f"{what}: warning {msgs}")
        ru, rs, rv = ref_u[st]
        target = safe if eps is None else eps
        n = (rs / rs[0] >= 1.05 * max(target, safe)).sum()
        if not ctx.expect(b.size >= n, f"{what}: size {b.size} < {n}"):
            continue
        top = (rs / rs[0] >= .95 * target).sum()
        if target >= safe * .99:
            ctx.expect(b.size <= top, f"{what}: size {b.size} > {top}")
        ctx.expect(b.accuracy <= 2 * max(target, safe), f"{what}: accuracy {b.accuracy}")
        unit = 1e3 * EPS * rs[0] / rs[:n, None] + 1e-11
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if which == "logistic" or beta * wmax < 40:
                for got, want, name in (
                        (b.u(taus), ru, "u"), (b.v(wmax * np.array([-1, -.2, 0, .5, 1])),
                                               rv, "v"),
                        (b.uhat(freqs[st]), ref_uh[st], "uhat")):
                    ctx.close(got[:n], want[:n], unit * max(1, np.abs(want).max()),
                              f"{what}: {name}")
            # sampling still transforms back and forth
            for cls, pts in ((s.TauSampling, None), (s.MatsubaraSampling, None)):
                smpl = cls(b)
                gl = (1. / (1 + np.arange(b.size)))
                back = smpl.fit(smpl.evaluate(gl))
                ctx.step(3)
                ctx.close(back, gl, 1e-13 * max(10, smpl.cond), f"{what}: {cls.__name__}")
        ctx.trace()


def others(ctx, env):
    """Basis sets, Lehmann representation, adapter"""
    s, _ = reimport(env)
    for eps in (None, 1e-6, 1e-12):
        bs, msgs = record(lambda: s.FiniteTempBasisSet(5., 2., eps))
        warn, _, _ = expect_warning(env, eps, None, None)
        warn = warn or (eps is None and not has_xprec(env))
        ctx.state(env, "set", eps)
        ctx.step()
        if warn:
            ctx.expect(any("UserWarning" in m for m in msgs), f"{env}: set({eps}): no "
                       "warning")
        else:
            ctx.expect(not msgs, f"{env}: set({eps}): warning {msgs}")
        gl = 1. / (1 + np.arange(bs.basis_f.size))
        ctx.close(bs.smpl_tau_f.fit(bs.smpl_tau_f.evaluate(gl)), gl, 1e-12, "set: tau")
        dlr, msgs = record(lambda: s.dlr.DiscreteLehmannRepresentation(bs.basis_f))
        ctx.step()
        ctx.expect(has_dgejsv(env) <= (not msgs), f"{env}: DLR({eps}): warning {msgs}")
        gl = bs.basis_f.v(np.array([.5]))[:, 0] * bs.basis_f.s
        ctx.close(dlr.to_IR(dlr.from_IR(gl)), gl, 1e-4 * np.abs(gl).max() if eps is None
                  and not has_xprec(env) else 1e-5 * np.abs(gl).max(),
                  f"{env}: DLR({eps})")
        ctx.trace()
    ad = sys.modules["sparse_ir.adapter"]
    for stat, lam in (("F", 10.), ("B", 10.), ("F", 200.)):
        b, msgs = record(lambda: ad.load(stat, lam))
        ctx.state(env, "adapter", stat, lam)
        ctx.step()
        if has_xprec(env) or ENVS[env][0] == "xprec.linalg":
            pass
        else:
            ctx.expect(msgs, f"{env}: adapter.load({stat}, {lam}): no warning")
        if has_xprec(env):
            ctx.expect(not msgs, f"{env}: adapter.load({stat}, {lam}): warning {msgs}")
        small = b.sl(b.dim() - 1) / b.sl(0)
        ctx.note(f"{env}: {b.dim()} functions, down to {small:.2g}")
        if not has_xprec(env):
            ctx.expect(small >= 1e-10, f"{env}: adapter keeps inaccurate functions")
        if has_xprec(env):
            ctx.expect(small <= 1e-14, f"{env}: adapter lacks functions")
        x = np.array([-1, -.3, 0, .6, 1.])
        ad_ref = np.array([b.ulx(l, x) for l in range(b.dim())])
        ctx.expect(np.isfinite(ad_ref).all(), "adapter: finite")
        ctx.trace()


def squelch(ctx):
    """Documented way to silence adapter"""
    s, _ = reimport("no xprec")
    ad = sys.modules["sparse_ir.adapter"]
    ctx.step()
    ctx.expect(ad.WARN_ACCURACY is True, "WARN_ACCURACY")
    ad.WARN_ACCURACY = False
    _, msgs = record(lambda: ad.load("F", 10.))
    ctx.expect(not msgs, f"adapter with WARN_ACCURACY off: {msgs}")
    ctx.trace()


def fallback(ctx, env):
    """What stands in for the accurate routine is the default one, as announced"""
    from .lib import EPS
    s, _ = reimport(env)
    svd = s.svd
    lams = (1., 10., 1e3, 1e5)
    mats = {}
    for (m, n), grade in itertools.product(((1, 1), (3, 3), (8, 5), (5, 8), (40, 24)),
                                           (0, 4, 12, 20)):
        i, j = np.arange(m)[:, None], np.arange(n)[None, :]
        a = np.cos(1. + i * (j + .3)) + .1 * i / (1. + j)
        mats[m, n, grade] = a * 10.**(-grade * j / n)
    for lam in lams:
        x = np.cos(np.pi * (np.arange(30) + .5) / 30)
        mats["kernel", lam] = s.LogisticKernel(lam)(x[:, None], x[None, :])
    for key, a in mats.items():
        full = min(a.shape)
        ref = np.linalg.svd(a)[1]
        for hint in sorted({1, 2, 3, full // 2, full} - {0}) + [None, full + 5]:
            what = f"{env}: svd.compute({key}, {hint}, 'accurate')"
            ctx.state(env, key, hint)
            ctx.step()
            (u, sv, v), msgs = record(lambda: svd.compute(a, hint, strategy="accurate"))
            if has_dgejsv(env):
                ctx.expect(not msgs, f"{what}: warning {msgs}")
            else:
                ctx.expect(any("UserWarning" in m for m in msgs), f"{what}: no warning")
            if not ctx.expect(sv.size == full, f"{what}: {sv.size} of {full} values"):
                continue
            ctx.close(sv, ref, 20 * EPS * ref[0], f"{what}: values")
            ctx.close((u * sv) @ v.T, a, 40 * EPS * ref[0], f"{what}: product")
            ctx.close(u.T @ u, np.eye(full), 1e-13, f"{what}: u")
            ctx.close(v.T @ v, np.eye(full), 1e-13, f"{what}: v")
            ctx.trace()


def tasks(tier):
    quick = tier == "quick"
    to = dict(timeout=400 if quick else 3600)
    epss = (None, 1e-4, 1e-7, 1e-8, 1e-9, 1e-12, 1e-15) if quick else \
        (None,) + tuple(10.**-k for k in range(3, 16))
    strats = (None, "fast", "default", "accurate")
    out = [Task(squelch)]
    out += [Task(fallback, e) for e in ("full", "no dgejsv", "neither", "neither linalg")]
    for env in ENVS:
        if ENVS[env][0] in ("irbasis", "h5py"):
            out.append(Task(bases, env, "logistic", 5., 2., (None, 1e-6)))
            out.append(Task(others, env))
            continue
        for which, lam in itertools.product(("logistic", "regbose"), (1., 10., 100.)):
            out.append(Task(sves, env, which, lam, epss, strats if lam == 10. or not quick
                            else (None,), weight=lam, **to))
        out.append(Task(sves, env, "logistic", 1000., (1e-7, 1e-9) if quick else epss,
                        (None,), weight=200, **to))
        if not quick:
            for which in ("logistic", "regbose"):
                out.append(Task(sves, env, which, 1e4, epss, (None,), weight=500, **to))
        out.append(Task(bases, env, "logistic", 5., 2., epss, weight=20, **to))
        out.append(Task(bases, env, "logistic", 1., 60., epss[::2], weight=20, **to))
        out.append(Task(bases, env, "regbose", 5., 2., epss, weight=20, **to))
        out.append(Task(others, env, weight=20, **to))
    return out
