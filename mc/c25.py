"""C25: Every path through the representations gives the exact propagator.

The representations of a propagator (IR coefficients, values on sampled times, on all
or non-negative sampled frequencies, discrete Lehmann coefficients) form a graph with
the transformations of the library as edges.  All walks up to some length are taken on
the real objects and each node visited is compared with the closed form.  Diagrams
(products in time, Dyson's equation in frequency, separation of static parts) are
inserted at every node where they can be written down.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir

BOUNDS = {
    "quick": "walks of up to 5 edges over 5 representations from each of them, for "
             "F/B x 6 (beta, wmax) x 3 accuracies x 13 poles at once on each axis of "
             "an array, with real or complex amplitudes; products of all pairs of 13 poles for FF, FB, BF, BB with "
             "each of 3 x 2 routes; Dyson's equation for 5 x 5 x 4 parameters; static "
             "parts for 3 augmentations x 13 poles",
    "thorough": "walks of up to 7 edges, 12 (beta, wmax)"}
ASSUMPTIONS = ["errors are allowed to grow by the condition number of each fit"]

FRAC = np.array([-1., -.8, -.5, -.31, -.1, -.01, 0., 1e-3, .05, .2, .49, .5, 1.])


def g_tau(beta, w, tau):
    """Propagator of pole in time; same for both statistics (logistic weight)"""
    w = np.asarray(w)[..., None]
    tau = np.asarray(tau)
    return -np.exp(-np.where(w > 0, tau, tau - beta) * w
                   - np.log1p(np.exp(-np.abs(w) * beta)))


def g_wn(stat, beta, w, n):
    w = np.asarray(w)[..., None]
    iv = 1j * np.pi / beta * np.asarray(n)
    if stat == "F":
        return 1 / (iv - w)
    den = np.where((iv == 0) & (w == 0), 1, iv - w)
    return np.where((iv == 0) & (w == 0), -beta / 2, np.tanh(beta * w / 2) / den)


class World:
    """Objects for one set of parameters"""
    def __init__(self, beta, wmax, eps):
        s = sir()
        from sparse_ir import dlr
        self.beta, self.wmax, self.eps = beta, wmax, eps
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.set = s.FiniteTempBasisSet(beta, wmax, eps)
            self.basis = {"F": self.set.basis_f, "B": self.set.basis_b}
            self.tau = {"F": self.set.smpl_tau_f, "B": self.set.smpl_tau_b}
            self.wn = {"F": self.set.smpl_wn_f, "B": self.set.smpl_wn_b}
            self.pos = {st: s.MatsubaraSampling(b, positive_only=True)
                        for st, b in self.basis.items()}
            self.dlr = {st: dlr.DiscreteLehmannRepresentation(b)
                        for st, b in self.basis.items()}
        self.acc = max(self.basis["F"].accuracy, eps or 0, 2.3e-16)

    def tol(self, stat, steps):
        cond = max(x[stat].cond for x in (self.tau, self.wn, self.pos))
        return (100 * self.acc + 4e-15) * max(cond, 5) * (1 + steps)

    def exact(self, node, stat, w):
        """Values at a node, poles first; for 'dlr' in form of times"""
        b = self.basis[stat]
        if node == "ir":
            return -b.s * b.v(w).T
        if node == "tau":
            return g_tau(self.beta, w, self.tau[stat].tau)
        if node == "wn":
            return g_wn(stat, self.beta, w, self.wn[stat].wn)
        if node == "pos":
            return g_wn(stat, self.beta, w, self.pos[stat].wn)
        raise ValueError(node)


EDGES = {"ir": ("tau", "wn", "pos", "dlr"), "tau": ("ir",), "wn": ("ir",),
         "pos": ("ir",), "dlr": ("ir", "tau", "wn")}


def move(world, stat, src, dst, x, axis):
    """Follow an edge of the graph"""
    if src == "ir":
        if dst == "dlr":
            return world.dlr[stat].from_IR(x, axis)
        return getattr(world, dst)[stat].evaluate(x, axis)
    if dst == "ir":
        if src == "dlr":
            return world.dlr[stat].to_IR(x, axis)
        return getattr(world, src)[stat].fit(x, axis)
    d = world.dlr[stat]
    fun = d.u(world.tau[stat].tau) if dst == "tau" else d.uhat(world.wn[stat].wn)
    return np.moveaxis(np.tensordot(fun, x, (0, axis)), 0, axis)


def walks(ctx, beta, wmax, eps, stat, depth, axis):
    world = World(beta, wmax, eps)
    w = wmax * FRAC
    shape = {0: (0, 1), 1: (1, 0), -1: (1, 0)}[axis]
    scale = {}

    def look(node, x, path):
        """Compare with closed form"""
        ctx.step()
        if node == "dlr":
            d = world.dlr[stat]
            val = np.moveaxis(np.tensordot(d.u(world.tau[stat].tau), x, (0, axis)),
                              0, axis)
            node = "tau"
        else:
            val = x
        want = (world.exact(node, stat, w).T * amp).transpose(shape)
        big = np.abs(want).max(axis, keepdims=True)
        ctx.close(val / big, want / big, world.tol(stat, len(path)),
                  f"{stat} beta={beta} wmax={wmax} eps={eps} axis={axis}: "
                  f"{'-'.join(path)}")

    def go(node, x, path):
        ctx.state(beta, wmax, eps, stat, axis, *path)
        look(node, x, path)
        if len(path) > depth:
            ctx.trace()
            return
        for nxt in edges[node]:
            go(nxt, move(world, stat, node, nxt, x, axis), path + [nxt])

    # Amplitudes, complex unless only non-negative frequencies are looked at
    amp = (1 + np.arange(w.size) % 3) * (-1.)**(np.arange(w.size) // 2)
    edges = EDGES
    if axis < 0:
        amp = amp * np.exp(1j * np.arange(w.size))
        edges = {k: tuple(x for x in v if x != "pos") for k, v in EDGES.items()
                 if k != "pos"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for start in edges:
            if start != "dlr":
                go(start, (world.exact(start, stat, w).T * amp).transpose(shape), [start])
    ctx.sample(f"{len(ctx.states)} walks")


def products(ctx, beta, wmax, eps):
    """Products in time are convolutions in frequency"""
    world = World(beta, wmax, eps)
    w = wmax * FRAC
    other_n = {"F": np.array([-10001, -1, 1, 3, 77, 12345]),
               "B": np.array([-10000, -2, 0, 2, 4, 78, 12346])}
    for s1, s2 in itertools.product("FB", repeat=2):
        st = "F" if s1 != s2 else "B"
        for r1, r2 in itertools.product(("ir", "wn", "pos"), ("ir", "dlr")):
            # Get to values in time in different ways
            def to_tau(stat, route):
                x = world.exact("ir" if route == "dlr" else route, stat, w)
                if route in ("wn", "pos"):
                    x = move(world, stat, route, "ir", x, -1)
                elif route == "dlr":
                    x = move(world, stat, "ir", "dlr", x, -1)
                    return move(world, stat, "dlr", "tau", x, -1)
                return world.tau[stat].evaluate(x, -1)

            t1, t2 = to_tau(s1, r1), to_tau(s2, r2)
            i, j = np.nonzero(np.abs(w[:, None] + w[None, :]) <= wmax * (1 + 1e-14))
            big = w[i] + w[j]
            # Product of two decays is one decay
            lg = lambda v: np.log1p(np.exp(-np.abs(v) * beta)) + np.maximum(-v * beta, 0)
            amp = -np.exp(lg(big) - lg(w[i]) - lg(w[j]))
            ptau = t1[i] * t2[j]
            pl = world.tau[st].fit(ptau, -1)
            tol = world.tol(st, 4)
            what = f"{s1}({r1}) x {s2}({r2}) beta={beta} wmax={wmax} eps={eps}"
            ctx.state(beta, wmax, eps, s1, s2, r1, r2)
            ctx.step(4)
            ctx.close(ptau, amp[:, None] * g_tau(beta, big, world.set.tau), tol,
                      f"{what}: product in time")
            for label, n, got in (
                    ("sampled", world.wn[st].wn, world.wn[st].evaluate(pl, -1)),
                    ("other", other_n[st], pl @ world.basis[st].uhat(other_n[st]))):
                want = amp[:, None] * g_wn(st, beta, big, n)
                top = np.abs(want).max(1, keepdims=True)
                # Errors are relative to the factors, which may be much larger than
                # their product
                size = np.maximum(top, .1 * beta)
                ctx.close(got / size, want / size, tol * 10, f"{what}: {label}")
            ctx.trace(i.size)
    ctx.sample(f"{i.size} pairs of poles")


def dyson(ctx, beta, wmax, eps):
    """Level with bath level: two poles"""
    world = World(beta, wmax, eps)
    b = world.basis["F"]
    taus = beta * np.array([0., 1e-3, .1, .5, .77, 1.])
    for e, bath, v in itertools.product((-.6, -.2, 0., .3, .7), (-.5, -.01, 0., .2, .6),
                                        (0., .03, .2, .4)):
        mean, half = (e + bath) / 2, np.sqrt((e - bath)**2 / 4 + v**2)
        lo, hi = mean - half, mean + half
        if lo < -1 or hi > 1:
            continue
        if half == 0:
            rlo, rhi = 1., 0.
        else:
            # Residues at poles
            rhi = .5 + (e - bath) / (4 * half)
            rlo = 1 - rhi
        poles = wmax * np.array([lo, hi])
        resid = np.array([rlo, rhi])
        for kind in ("wn", "pos", "reversed", "more"):
            smpl = world.pos["F"] if kind == "pos" else world.wn["F"]
            n = smpl.wn
            kw = {}
            if kind == "reversed":
                n = n[::-1]
                kw = dict(points=n)
            elif kind == "more":
                n = np.unique(np.hstack([n, np.arange(-21, 22, 2), n[-1] + 20]))
                kw = dict(points=n)
            iv = 1j * np.pi / beta * n
            delta_l = (v * wmax)**2 * world.exact("ir", "F", np.array([bath * wmax]))[0]
            delta = smpl.evaluate(delta_l, **kw)
            g = 1 / (iv - e * wmax - delta)
            gl = smpl.fit(g, **kw)
            ctx.state(beta, wmax, eps, e, bath, v, kind)
            ctx.step(2)
            what = f"Dyson e={e} bath={bath} v={v} {kind} beta={beta} wmax={wmax} eps={eps}"
            tol = world.tol("F", 4) * (1 + v**2 * beta * wmax)
            ctx.close(gl @ b.u(taus), resid @ g_tau(beta, poles, taus), tol,
                      f"{what}: in time")
            ctx.close(gl, resid @ world.exact("ir", "F", poles), tol * np.sqrt(beta),
                      f"{what}: coefficients")
            ctx.trace()
    ctx.sample(f"{len(ctx.states)} levels")


def static(ctx, beta, wmax, eps):
    """Static parts of self-energies and susceptibilities"""
    s = sir()
    from sparse_ir import augment as aug
    world = World(beta, wmax, eps)
    w = wmax * FRAC
    for st in "FB":
        b = world.basis[st]
        vert = aug.AugmentedBasis(b, aug.MatsubaraConst)
        for positive in (False, True):
            smpl = s.MatsubaraSampling(vert, positive_only=positive)
            for const in (0., 1., -3.5, 1e-6):
                val = const / wmax + g_wn(st, beta, w, smpl.wn)
                gl = smpl.fit(val, -1)
                size = np.abs(val).max(1, keepdims=True)
                tol = (100 * world.acc + 4e-15) * smpl.cond * 5
                ctx.state(beta, wmax, eps, st, positive, const)
                ctx.step(2)
                what = f"vertex {st} beta={beta} wmax={wmax} eps={eps} const={const}"
                ctx.close(gl[:, 0] / size[:, 0], const / wmax / size[:, 0] + 0 * w, tol,
                          f"{what}: constant")
                n = np.array([1, 3, 101, 10001]) - (st == "B")
                got = gl @ vert.uhat(n)
                ctx.close(got / size, (const / wmax + g_wn(st, beta, w, n)) / size, tol,
                          f"{what}: values")
                ctx.trace(w.size)
    b = world.basis["B"]
    for augs in ((aug.TauConst,), (aug.TauConst, aug.TauLinear)):
        a = aug.AugmentedBasis(b, *augs)
        smpl = s.TauSampling(a)
        wsmpl = s.MatsubaraSampling(a)
        for const in (0., 1., -.3):
            val = const + g_tau(beta, w, smpl.tau)
            gl = smpl.fit(val, -1)
            n = np.array([0, 2, 4, 100])
            want = const * beta * (n == 0) + g_wn("B", beta, w, n)
            size = np.maximum(np.abs(want).max(1, keepdims=True), beta * abs(const) + beta)
            tol = (100 * world.acc + 4e-15) * 5 * smpl.cond
            ctx.state(beta, wmax, eps, len(augs), const)
            ctx.step(2)
            what = f"static part, {len(augs)} functions, beta={beta} wmax={wmax} eps={eps}"
            if tol < 1e-2:
                ctx.close(gl @ a.uhat(n) / size, want / size, tol, f"{what}: frequencies")
            # Fit is exact where it was made
            ctx.close(smpl.evaluate(gl, -1), val, tol * np.abs(val).max(), f"{what}: times")
            wtol = (100 * world.acc + 4e-15) * 5 * wsmpl.cond
            if wtol < 1e-2:
                n = wsmpl.wn
                wval = const * beta * (n == 0) + g_wn("B", beta, w, n)
                hl = wsmpl.fit(wval, -1)
                t = beta * np.array([0., .2, .5, 1.])
                want = const + g_tau(beta, w, t)
                top = np.abs(wval).max(1, keepdims=True) * (1 + wmax)
                ctx.close(hl @ a.u(t) / top, want / top, wtol, f"{what}: from frequencies")
            ctx.trace(w.size)


def tasks(tier):
    quick = tier == "quick"
    params = [(1., 1.), (2., 5.), (10., 1.), (.5, 84.), (100., 1.), (1000., .3)]
    if not quick:
        params += [(10., 100.), (1e4, 1.), (1e5, .1), (.1, .1), (3., 2000.), (1e3, 10.)]
    out = []
    for (beta, wmax), eps in itertools.product(params, (None, 1e-10, 1e-5)):
        for stat, axis in itertools.product("FB", (0, 1, -1)):
            out.append(Task(walks, beta, wmax, eps, stat, 5 if quick else 7, axis,
                            weight=beta * wmax, timeout=1500))
        out.append(Task(products, beta, wmax, eps, weight=beta * wmax))
        out.append(Task(dyson, beta, wmax, eps, weight=beta * wmax))
        out.append(Task(static, beta, wmax, eps, weight=beta * wmax))
    return out
