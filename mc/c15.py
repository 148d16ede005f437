"""C15: Augmented bases prepend the added functions consistently everywhere.

The model of an augmented basis is a list of added functions followed by the number of
functions left from the underlying basis.  All ordered lists up to three functions,
given as class or as instance, are made, and all selections, truncations (repeated to
fixpoint), derivatives and argument forms replayed on the real objects, which must show
the concatenation of closed forms with what the underlying basis gives.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, basis, leggauss

BOUNDS = {
    "quick": "all ordered lists of <= 3 of {constant, linear, Matsubara constant, user-"
             "defined} as class/instance in every combination, {F, B logistic, B regular"
             "ized} x beta in {1, 7.3} x {accuracy, size 2} bases; all indices -L-1..L, "
             "all leading slices, repeated truncation to fixpoint, derivatives 0..3, 9 "
             "argument forms; all splits of the lists into nested augmentations; "
             "|n| <= 40 and 10^2..10^6 for closed forms",
    "thorough": "beta in {0.01, 1, 7.3, 1000}, Lambda in {0.5, 10, 42}; lists of <= 4"}
ASSUMPTIONS = ["functions of underlying basis correct (C04, C05, C07)",
               "terms only defined for bosons are not forced upon fermions"]


def user_class():
    from sparse_ir import augment

    class UserTerm(augment.AbstractAugmentation):
        """User-defined term: exp(-tau/beta)"""
        made = []

        @classmethod
        def create(cls, basis):
            cls.made.append(basis)
            return cls(basis.beta, basis.statistics)

        def __init__(self, beta, statistics):
            self.beta = beta
            self.stat = statistics

        def __call__(self, tau):
            return np.exp(-np.asarray(tau) / self.beta)

        def deriv(self, n=1):
            return lambda tau: (-1/self.beta)**n * np.exp(-np.asarray(tau) / self.beta)

        def hat(self, n):
            w = np.pi/self.beta * np.asarray(n)
            z = -1 if self.stat == "F" else 1
            return (z * np.exp(-1.) - 1) / (1j * w - 1/self.beta)
    return UserTerm


# ---- model: closed forms ------------------------------------------------------

def closed_tau(name, beta, stat, tau, d):
    """d'th derivative at tau"""
    tau = np.asarray(tau, float)
    if name == "C":
        return np.full(tau.shape, 1/np.sqrt(beta) if d == 0 else 0.)
    if name == "L":
        c = np.sqrt(3/beta)
        return c * (2*tau/beta - 1) if d == 0 else np.full(
            tau.shape, c * 2/beta if d == 1 else 0.)
    if name == "M":
        return np.full(tau.shape, np.nan)
    if name == "X":
        return (-1/beta)**d * np.exp(-tau/beta)


def closed_hat(name, beta, stat, n):
    n = np.asarray(n)
    w = np.pi/beta * n
    if name == "C":
        return np.where(n == 0, np.sqrt(beta), 0) + 0j
    if name == "L":
        return np.where(n == 0, 0, np.sqrt(3/beta) * 2/(1j * np.where(n == 0, 1, w)))
    if name == "M":
        return np.ones(n.shape, complex)
    if name == "X":
        z = -1 if stat == "F" else 1
        return (z * np.exp(-1.) - 1) / (1j * w - 1/beta)


NAMES = {"C": "TauConst", "L": "TauLinear", "M": "MatsubaraConst"}


def klass(name, user):
    from sparse_ir import augment
    return user if name == "X" else getattr(augment, NAMES[name])


def instance(name, user, b):
    cls = klass(name, user)
    return cls(b.beta, b.statistics) if name == "X" else cls(b.beta)


class Model:
    def __init__(self, names, b):
        self.names = names      # tuple of letters
        self.b = b              # underlying, plain basis

    @property
    def size(self):
        return len(self.names) + self.b.size

    def u(self, tau, d=0):
        b = self.b
        low = [closed_tau(x, b.beta, b.statistics, tau, d)[None] for x in self.names]
        f = b.u if d == 0 else b.u.deriv(d)
        return np.concatenate(low + [f(np.asarray(tau, float))])

    def uhat(self, n):
        b = self.b
        low = [closed_hat(x, b.beta, b.statistics, n)[None] for x in self.names]
        return np.concatenate(low + [b.uhat(np.asarray(n))])

    def cut(self, k):
        return Model(self.names, self.b[:k - len(self.names)])


def argforms(tau):
    """Spellings of arguments: scalar, 0-d, list, 2-D, integer, empty"""
    yield "array", tau
    yield "float", float(tau[1])
    yield "0-d", np.array(tau[2])
    yield "list", list(map(float, tau[:3]))
    yield "2-D", tau[:6].reshape(2, 3)
    yield "strided", np.repeat(tau, 2)[::2]
    yield "F-order", np.asfortranarray(tau[:6].reshape(3, 2))
    yield "empty", tau[:0]
    yield "one", tau[:1]


def same(ctx, got, want, tol, what):
    want = np.asarray(want)
    got = np.asarray(got)
    nan = np.isnan(want)
    if nan.any():
        ctx.expect(got.shape == want.shape and np.array_equal(np.isnan(got), nan),
                   f"{what}: undefined values")
        if got.shape != want.shape:
            return
        got, want = got[~nan], want[~nan]
        tol = np.broadcast_to(tol, nan.shape)[~nan]
    ctx.close(got, want, tol, what)


def observe(ctx, a, m, what, level=2):
    """Compare augmented basis with model"""
    b = m.b
    naug = len(m.names)
    L = m.size
    beta = b.beta
    ctx.step(12)
    ctx.state(m.names, b.statistics, b.size, beta, what)
    if not ctx.expect(a.size == L and a.shape == (L,) and a.u.size == L
                      and a.u.shape == (L,) and a.u.ndim == 1 and a.uhat.size == L
                      and a.uhat.shape == (L,) and a.uhat.ndim == 1,
                      f"{what}: sizes, expected {L}"):
        return
    ctx.expect(a.statistics == b.statistics, f"{what}: statistics")
    ctx.expect(a.beta == b.beta and a.wmax == b.wmax and a.lambda_ == b.lambda_
               and a.accuracy == b.accuracy, f"{what}: parameters")
    ctx.expect(a.u.xmin == b.u.xmin and a.u.xmax == b.u.xmax, f"{what}: range")
    zeta = 1 if b.statistics == "F" else 0
    ctx.expect(a.uhat.zeta == zeta, f"{what}: zeta")
    sig = np.asarray(a.significance)
    if ctx.expect(sig.shape == (L,), f"{what}: shape of significance {sig.shape}"):
        ctx.expect((sig[:naug] == 1).all(), f"{what}: significance of added functions")
        ctx.close(sig[naug:], b.significance, 0, f"{what}: significance")
    if m.names:
        ctx.expect(bool(a.is_well_conditioned) == (m.names == ("M",)),
                   f"{what}: claims about conditioning")

    tau = beta * np.array([0, 1e-7, .13, .5, .77, 1 - 1e-9, 1])
    n = np.array([0, 1, -1, 2, 7, -33, 400]) * 2 + zeta
    for d in range(0, (1, 2, 4, 1)[level]):
        f = a.u if d == 0 else a.u.deriv(d)
        ctx.step()
        if d == 1:
            f1 = a.u.deriv()
            same(ctx, f1(tau), m.u(tau, 1), 1e-9 * np.abs(b.u.deriv()(tau)).max(),
                 f"{what}: deriv()")
        want = m.u(tau, d)
        # C06 for tolerance; here it is only required that both are the same function
        tol = 1e-12 * (1 + np.nanmax(np.abs(want), initial=0))
        for form, x in (argforms(tau) if level == 2 else [("array", tau)]):
            ctx.step()
            y = f(x)
            same(ctx, y, m.u(x, d), tol, f"{what}: u.deriv({d}) of {form}")
            if form == "array":
                ctx.trace()
        if level <= 0:
            continue
        for l in range(-L, L):
            ctx.step()
            fl = f[l if l % 2 else np.int64(l)]
            same(ctx, fl(tau), want[l], tol, f"{what}: u.deriv({d})[{l}]")
            if d == 0:
                same(ctx, np.asarray(fl(float(tau[3]))), want[l, 3], tol,
                     f"{what}: u[{l}] of number")
        if L - naug > 1:
            k = L - 1
            same(ctx, f[:k](tau), want[:k], tol, f"{what}: u.deriv({d})[:{k}]")
            same(ctx, a.u[:k].deriv(d)(tau), want[:k], tol,
                 f"{what}: u[:{k}].deriv({d})")
    want = m.uhat(n)
    tol = 1e-12 * (1 + np.abs(want).max())
    for form, x in (argforms(n) if level == 2 else [("array", n)]):
        ctx.step()
        if form == "float":
            x = int(n[1])
        if form == "list":
            x = list(map(int, n[:3]))
        same(ctx, a.uhat(x), m.uhat(x), tol, f"{what}: uhat of {form}")
    if level < 0:
        return
    for l in range(-L, L):
        ctx.step()
        fl = a.uhat[l if l % 2 else np.int64(l)]
        same(ctx, fl(n), want[l], tol, f"{what}: uhat[{l}]")
        if level:
            same(ctx, np.asarray(fl(int(n[0]))), want[l, 0], tol,
                 f"{what}: uhat[{l}] of number")
    for l in (L, L + 1, -L - 1, -L - 3):
        ctx.raises(lambda: a.u[l], f"{what}: u[{l}]", exc=IndexError)
        ctx.raises(lambda: a.uhat[l], f"{what}: uhat[{l}]", exc=IndexError)
    for k in range(naug + 1, L + 2):
        ctx.step(2)
        for sl in (slice(None, k), slice(0, k), slice(None, k, 1)):
            uk, hk = a.u[sl], a.uhat[sl]
            ctx.expect(uk.size == min(k, L) and hk.size == min(k, L),
                       f"{what}: size of leading {k}")
            if level == 2 or sl.start is None:
                same(ctx, uk(tau), m.u(tau)[:k], 1e-12 * (1 + np.nanmax(np.abs(m.u(tau)))),
                     f"{what}: u[:{k}]")
                same(ctx, hk(n), want[:k], tol, f"{what}: uhat[:{k}]")
    for k in range(1 - L, 0):
        if L + k > naug:
            same(ctx, a.uhat[:k](n), want[:k], tol, f"{what}: uhat[:{k}]")
            ctx.expect(a.u[:k].size == L + k, f"{what}: size of u[:{k}]")
    for bad in (slice(1, None), slice(None, None, 2), slice(1, 3)):
        ctx.raises(lambda: a.u[bad], f"{what}: u[{bad}]")
        ctx.raises(lambda: a.uhat[bad], f"{what}: uhat[{bad}]")
        ctx.raises(lambda: a[bad], f"{what}: basis[{bad}]")


def truncations(ctx, a, m, what, seen, nested=0):
    """All truncations, repeated, to fixpoint; states are sizes"""
    naug = len(m.names)
    todo = [(a, m)]
    while todo:
        a, m = todo.pop()
        L = m.size
        for k in list(range(naug + 1, L + 2)) + list(range(-1, naug - L, -1)):
            size = min(k, L) if k > 0 else L + k
            if size < naug + 1:
                continue
            ctx.step()
            t = a[:k]
            mt = m if size == L else m.cut(size)
            new = (m.names, what, size) not in seen
            ctx.expect(t.size == size, f"{what}[:{k}]: size {t.size}, expected {size}")
            observe(ctx, t, mt, f"{what}[:{k}] of {L}", level=0 if new else -1)
            if new:
                seen.add((m.names, what, size))
                todo.append((t, mt))
        for k in range(1, naug + 1):
            ctx.raises(lambda: a[:k], f"{what}[:{k}] with {naug} added functions")


def get_basis(stat, which, lam, beta, kind):
    if kind == "size":
        return basis(stat, beta, lam / beta, 1e-6, which, max_size=2)
    return basis(stat, beta, lam / beta, 1e-3 if kind == "coarse" else 1e-6, which)


def lists(ctx, stat, which, lam, beta, kind, maxlen, first):
    from sparse_ir import augment
    b = get_basis(stat, which, lam, beta, kind)
    letters = "MX" if stat == "F" else "CLMX"
    user = user_class()
    for length in range(0, maxlen + 1):
        for names in itertools.product(letters, repeat=length):
            if names[:1] != tuple(first):
                continue
            m = Model(names, b)
            for inst in itertools.product([0, 1], repeat=length):
                if length > 2 and inst not in ((0, 0, 0), (1, 1, 1), (0, 1, 0), (1, 0, 1)):
                    continue
                user.made.clear()
                args = [instance(x, user, b) if i else klass(x, user)
                        for x, i in zip(names, inst)]
                ctx.step()
                a = augment.AugmentedBasis(b, *args)
                what = f"{''.join(names) or '-'}{''.join('ci'[i] for i in inst)}"
                nmade = sum(x == "X" and not i for x, i in zip(names, inst))
                ctx.expect(len(user.made) == nmade and all(x is b for x in user.made),
                           f"{what}: factory called {len(user.made)} times")
                observe(ctx, a, m, what, level=2 if length < 3 and not any(inst)
                        else 1 if not any(inst) else 0)
                if not any(inst) and (length < 3 or kind == "size"
                                      or len(set(names)) == 3):
                    truncations(ctx, a, m, what, set())
                if len(ctx.failures) > 15:
                    return


def nested(ctx, stat, which, lam, beta, kind, maxlen):
    """Augmenting in several steps: last come, first served"""
    from sparse_ir import augment
    b = get_basis(stat, which, lam, beta, kind)
    letters = "MX" if stat == "F" else "CLMX"
    user = user_class()
    for names in itertools.product(letters, repeat=maxlen):
        for cut in range(1, maxlen):
            outer, inner = names[:cut], names[cut:]
            a0 = augment.AugmentedBasis(b, *[klass(x, user) for x in inner])
            a = augment.AugmentedBasis(a0, *[klass(x, user) for x in outer])
            what = f"{''.join(outer)}({''.join(inner)})"
            ctx.step(2)
            m = Model(names, b)
            L = m.size
            beta_ = b.beta
            zeta = int(stat == "F")
            tau = beta_ * np.array([0, .2, .9, 1])
            n = np.array([0, 1, -7, 100]) * 2 + zeta
            ctx.state(what, stat, which, kind)
            ctx.expect(a.size == L and a.shape == (L,), f"{what}: size")
            ctx.expect(a.statistics == stat and a.beta == b.beta, f"{what}: parameters")
            ctx.expect(np.shape(a.significance) == (L,), f"{what}: significance")
            ctx.expect(a.u.xmin == 0 and a.u.xmax == b.u.xmax, f"{what}: range")
            ctx.expect(a.uhat.zeta == zeta, f"{what}: zeta")
            for d in range(3):
                want = m.u(tau, d)
                tol = 1e-12 * (1 + np.nanmax(np.abs(want)))
                f = a.u.deriv(d) if d else a.u
                same(ctx, f(tau), want, tol, f"{what}: u.deriv({d})")
                for l in range(-L, L):
                    same(ctx, f[l](tau), want[l], tol, f"{what}: u.deriv({d})[{l}]")
            want = m.uhat(n)
            tol = 1e-12 * (1 + np.abs(want).max())
            same(ctx, a.uhat(n), want, tol, f"{what}: uhat")
            for l in range(-L, L):
                same(ctx, a.uhat[l](n), want[l], tol, f"{what}: uhat[{l}]")
            for k in range(maxlen + 1, L + 1):
                t = a[:k]
                ctx.step(2)
                ctx.expect(t.size == k, f"{what}[:{k}]: size")
                same(ctx, t.uhat(n), want[:k], tol, f"{what}[:{k}]: uhat")
                same(ctx, t.u(tau), m.u(tau)[:k], 1e-10, f"{what}[:{k}]: u")
            ctx.trace()


def closed_forms(ctx, beta):
    """Added functions: closed form, norm, Fourier transform, derivative"""
    from sparse_ir import augment
    x, w = leggauss(100)
    tau = beta/2 * (x + 1)
    w = beta/2 * w
    ns = np.unique(np.r_[-40:41, [k for e in range(2, 7) for k in (10**e, -10**e)]])
    objs = {"C": augment.TauConst(beta), "L": augment.TauLinear(beta),
            "M": augment.MatsubaraConst(beta)}
    for name, f in objs.items():
        for stat in "FB":
            zeta = int(stat == "F")
            if name != "M" and zeta:
                for n in (1, -1, 7):
                    ctx.raises(lambda: f.hat(n), f"{NAMES[name]}.hat({n})")
                    ctx.raises(lambda: f.hat([0, n]), f"{NAMES[name]}.hat([0,{n}])")
                continue
            n = 2 * ns + zeta
            got = f.hat(n)
            ctx.step()
            want = closed_hat(name, beta, stat, n)
            ctx.close(got, want, 1e-14 * (1 + np.abs(want)), f"{NAMES[name]}.hat")
            for ni, wi in zip(n, want):
                ctx.state(name, stat, ni)
                ctx.step(3)
                tol = 1e-14 * (1 + abs(wi))
                for form, arg in (("int", int(ni)), ("np.int64", np.int64(ni)),
                                  ("0-d", np.array(ni)), ("float", float(ni))):
                    if form == "float":
                        try:
                            r = f.hat(arg)
                        except ValueError:
                            continue
                    else:
                        r = f.hat(arg)
                    ctx.close(np.asarray(r), wi, tol, f"{NAMES[name]}.hat({form} {ni})")
                for form, arg in (("list", [int(ni)]), ("array", np.array([ni])),
                                  ("2-D", np.array([[ni, n[0]]]))):
                    r = f.hat(arg)
                    ctx.close(r, closed_hat(name, beta, stat, np.array(arg)), tol + 1e-14
                              * (1 + abs(want[0])), f"{NAMES[name]}.hat({form} {ni})")
        for d in range(4):
            g = f if d == 0 else f.deriv(d)
            want = closed_tau(name, beta, "B", tau, d)
            same(ctx, g(tau), want, 1e-13 * (1 + np.nanmax(np.abs(want), initial=0)),
                 f"{NAMES[name]}.deriv({d})")
            if d == 0:
                same(ctx, f.deriv(0)(tau), want, 1e-13 * (1 + np.nanmax(
                    np.abs(want), initial=0)), f"{NAMES[name]}.deriv(0)")
            if d == 1:
                same(ctx, f.deriv()(tau), want, 1e-13 * (1 + np.nanmax(
                    np.abs(want), initial=0)), f"{NAMES[name]}.deriv()")
            for form, t in argforms(tau):
                same(ctx, g(t), closed_tau(name, beta, "B", t, d),
                     1e-13 * (1 + np.nanmax(np.abs(want), initial=0)),
                     f"{NAMES[name]}.deriv({d}) of {form}")
        if name == "M":
            continue
        # Norm and transform by quadrature
        y = f(tau)
        ctx.close((w * y * y).sum(), 1., 1e-12, f"{NAMES[name]}: norm")
        for n in range(-40, 41, 2):
            t = (w * y * np.exp(1j * np.pi/beta * n * tau)).sum()
            ctx.close(np.asarray(f.hat(n)), t, 1e-11 * (1 + np.sqrt(beta)), f"{NAMES[name]}: transform at {n}")
        ctx.trace()
    for cls in (augment.TauConst, augment.TauLinear, augment.MatsubaraConst):
        for bad in (0, -1, -beta):
            ctx.raises(lambda: cls(bad), f"{cls.__name__}({bad})")
    ctx.sample(f"closed forms at {2 * ns.size} frequencies")


def sampling(ctx, which, stat, lam, beta, kind):
    """Sampling on augmented bases uses the same functions"""
    from sparse_ir import augment
    s = sir()
    b = get_basis(stat, which, lam, beta, kind)
    user = user_class()
    for names in ([("M",), ("X",), ("M", "X")] if stat == "F" else
                  [("M",), ("C",), ("L",), ("C", "L"), ("L", "C", "M"), ("M", "X")]):
        a = augment.AugmentedBasis(b, *[klass(x, user) for x in names])
        m = Model(names, b)
        L = m.size
        zeta = int(stat == "F")
        n = np.arange(-4*L, 4*L) * 2 + zeta
        what = "".join(names)
        ctx.state(what, stat, which, kind)
        ctx.step(6)
        smpl = s.MatsubaraSampling(a, n)
        want = m.uhat(n).T
        ctx.close(np.asarray(smpl.matrix.a if hasattr(smpl.matrix, "a") else smpl.matrix),
                  want, 1e-12 * (1 + np.abs(want).max()), f"{what}: Matsubara matrix")
        g = np.cos(np.arange(L) + 1.)
        ctx.close(smpl.evaluate(g), want @ g, 1e-11 * (1 + np.abs(want).max()) * L,
                  f"{what}: evaluate")
        cond = np.linalg.cond(want)
        if cond < 1e8:
            ctx.close(smpl.fit(want @ g), g, 1e-13 * cond * L + 1e-12, f"{what}: fit")
        pos = s.MatsubaraSampling(a, n[n >= 0], positive_only=True)
        ctx.close(pos.evaluate(g), want[n >= 0] @ g,
                  1e-11 * (1 + np.abs(want).max()) * L, f"{what}: evaluate (positive)")
        # default points are those of the underlying basis for that many functions
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for po in (False, True):
                ctx.expect(np.array_equal(
                    a.default_matsubara_sampling_points(positive_only=po),
                    b.default_matsubara_sampling_points(npoints=L, positive_only=po)),
                    f"{what}: default Matsubara points")
            ctx.expect(np.array_equal(a.default_tau_sampling_points(),
                                      b.default_tau_sampling_points(npoints=L)),
                       f"{what}: default sampling times")
            for npts in (2, L - 1):
                ctx.expect(np.array_equal(
                    a.default_tau_sampling_points(npoints=npts),
                    b.default_tau_sampling_points(npoints=npts)), f"{what}: npoints")
                ctx.expect(np.array_equal(
                    a.default_matsubara_sampling_points(npoints=npts),
                    b.default_matsubara_sampling_points(npoints=npts)),
                    f"{what}: npoints")
        if "M" not in names:
            tau = np.linspace(0, b.beta, 3 * L)
            smpl = s.TauSampling(a, tau)
            want = m.u(tau).T
            ctx.close(smpl.evaluate(g), want @ g, 1e-11 * (1 + np.abs(want).max()) * L,
                      f"{what}: evaluate in tau")
            cond = np.linalg.cond(want)
            if cond < 1e8:
                ctx.close(smpl.fit(want @ g), g, 1e-13 * cond * L + 1e-12,
                          f"{what}: fit in tau")
        ctx.trace()


def restrictions(ctx):
    """Terms defined only for bosons"""
    from sparse_ir import augment
    b = get_basis("F", "logistic", 10., 1., "accuracy")
    for cls in (augment.TauConst, augment.TauLinear):
        ctx.raises(lambda: augment.AugmentedBasis(b, cls), f"{cls.__name__} for fermions")
        ctx.raises(lambda: augment.AugmentedBasis(b, augment.MatsubaraConst, cls),
                   f"{cls.__name__} for fermions")
        ctx.raises(lambda: cls.create(b), f"{cls.__name__}.create for fermions")


def tasks(tier):
    quick = tier == "quick"
    out = [Task(restrictions)]
    for beta in ([1., 7.3] if quick else [.01, 1., 7.3, 1000.]):
        out.append(Task(closed_forms, beta))
        for stat, which in [("F", "logistic"), ("B", "logistic"), ("B", "regbose")]:
            for lam in ([10.] if quick else [.5, 10., 42.]):
                for kind in ("coarse" if quick else "accuracy", "size"):
                    kw = dict(timeout=240 if quick else 3600)
                    for first in ("", "M", "X") + (("C", "L") if stat == "B" else ()):
                        out.append(Task(lists, stat, which, lam, beta, kind,
                                        3 if quick else 4, first, weight=50 if first
                                        and stat == "B" else 5, **kw))
                    out.append(Task(nested, stat, which, lam, beta, kind, 3, weight=10,
                                    **kw))
                    out.append(Task(sampling, which, stat, lam, beta, kind, **kw))
    return out
