"""C14: Truncating and rescaling a basis commute with its definition.

The state of a basis under truncation and temperature change is, by definition, the
pair (size, beta) - statistics, kernel, expansion and Lambda never change.  A breadth-
first search over slices and rescalings replays every transition of this model on the
real objects, from the object which reached the state first, and demands that the
successor has the predicted size and beta, and is the scaled restriction of the
expansion.  All sequences up to a depth are run in addition without merging states.
"""
import warnings
import numpy as np
from .core import Task
from .lib import sir, sve, kernel, EPS

BOUNDS = {
    "quick": "fixpoint of (size <= 30) x (4 temperatures) from 5 kinds of bases x {F, B "
             "logistic, B regularized} x Lambda in {0.5, 10, 42}; all slices `[:k]` with "
             "k=-L+1..L+2 in 5 spellings from the start, `[:k]`, k=1..L+1, thereafter, "
             "nine k for other temperatures; all 8-letter sequences of length 3",
    "thorough": "Lambda up to 1e4, sequences of length 4"}
ASSUMPTIONS = [
    "expansion correct (C02) and bases made directly correct (C04, C05)",
    "slices which leave no function at all may be refused or give an empty basis",
    "state of a basis is what its public attributes and functions show"]

KINDS = ["plain", "accuracy", "size", "full", "pair"]


def start(kind, stat, which, lam, beta):
    s = sir()
    K = kernel(which, lam)
    wmax = lam / beta
    if kind == "plain":
        # Own expansion to the given accuracy
        return s.FiniteTempBasis(stat, beta, wmax, 1e-6, kernel=K)
    full = sve(which, lam, None)
    if kind == "accuracy":
        return s.FiniteTempBasis(stat, beta, wmax, 1e-5, kernel=K, sve_result=full)
    if kind == "size":
        return s.FiniteTempBasis(stat, beta, wmax, max_size=4, kernel=K,
                                 sve_result=full)
    if kind == "full":
        return s.FiniteTempBasis(stat, beta, wmax, 0, kernel=K, sve_result=full)
    if kind == "pair":
        pair = s.finite_temp_bases(beta, wmax, 1e-7)
        return pair[stat == "B"]
    raise ValueError(kind)


class Reference:
    """Scaled restriction of the expansion"""
    def __init__(self, b):
        self.stat = b.statistics
        self.kernel = b.kernel
        self.res = b.sve_result
        self.lam = b.beta * b.wmax
        self.ypower = b.kernel.ypower
        self.x = np.array([-1, -.97, -.4, 0, .31, .88, 1.])
        self.y = np.array([-1, -.93, -.2, 0, .45, .77, 1.])
        self.n = np.array([-31, -3, -1, 1, 5, 101]) - (self.stat == "B")
        self.u = self.res.u(self.x)
        self.v = self.res.v(self.y)
        self.s = self.res.s
        self.cache = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.direct1 = sir().FiniteTempBasis(
                self.stat, 2., self.lam/2, 0, kernel=self.kernel,
                sve_result=self.res)
        # transform for beta = 2, i.e., unscaled; C05 decides whether it is right
        self.uhat = self.direct1.uhat(self.n)

    def points(self, size):
        """Sampling points on unit interval and frequencies for size"""
        if size not in self.cache:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b = sir().FiniteTempBasis(
                    self.stat, 2., self.lam/2, 0, max_size=size, kernel=self.kernel,
                    sve_result=self.res)
                self.cache[size] = (
                    b.default_tau_sampling_points() - 1,
                    b.default_omega_sampling_points() / (self.lam/2),
                    b.default_matsubara_sampling_points(),
                    b.default_matsubara_sampling_points(positive_only=True))
        return self.cache[size]


def observe(ctx, b, ref, size, beta, what, points=True):
    """Compare everything basis shows with model state (size, beta)"""
    n = len(ctx.failures)
    ctx.step(8)
    wmax = ref.lam / beta
    k = slice(None, size)
    ok = ctx.expect(b.size == size and b.shape == (size,)
                    and b.u.size == size and b.v.size == size
                    and b.uhat.size == size and b.s.shape == (size,),
                    f"{what}: size {b.size}, {b.u.size}, expected {size}")
    if not ok:
        return False
    ctx.expect(b.statistics == ref.stat, f"{what}: statistics {b.statistics}")
    ctx.expect(b.kernel is ref.kernel, f"{what}: different kernel")
    ctx.expect(b.sve_result is ref.res, f"{what}: different expansion")
    ctx.close(b.beta, beta, 4 * EPS * beta, f"{what}: beta")
    ctx.close(b.wmax, wmax, 4 * EPS * wmax, f"{what}: wmax")
    ctx.close(b.lambda_, ref.lam, 8 * EPS * ref.lam, f"{what}: lambda")
    s = np.sqrt(beta/2 * wmax) * wmax**(-ref.ypower) * ref.s[k]
    ctx.close(b.s, s, 30 * EPS * s, f"{what}: s")
    ctx.close(b.significance, ref.s[k] / ref.s[0], 10 * EPS * ref.s[k] / ref.s[0],
              f"{what}: significance")
    acc = (ref.s[size] if size < ref.s.size else ref.s[-1]) / ref.s[0]
    ctx.close(b.accuracy, acc, 10 * EPS * acc, f"{what}: accuracy")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tau = np.clip(beta/2 * (ref.x + 1), 0, b.beta)
        w = np.clip(wmax * ref.y, -b.wmax, b.wmax)
        # change of points by rounding is amplified by slope of highest function
        tol = 1e-10 * (1 + np.abs(ref.u[k]).max(1, keepdims=True))
        ctx.close(b.u(tau) * np.sqrt(beta/2), ref.u[k], tol, f"{what}: u")
        tol = 1e-10 * (1 + np.abs(ref.v[k]).max(1, keepdims=True))
        ctx.close(b.v(w) * np.sqrt(wmax), ref.v[k], tol, f"{what}: v")
        ctx.close(b.uhat(ref.n) * np.sqrt(2/beta), ref.uhat[k], 1e-10, f"{what}: uhat")
        ctx.expect(b.u.xmin == 0 and abs(b.u.xmax - beta) <= 8 * EPS * beta
                   and abs(b.v.xmax - wmax) <= 8 * EPS * wmax, f"{what}: ranges")
        if points:
            # for functions which are resolved in double precision
            points = ref.s[min(size, ref.s.size - 1)] > 1e-11 * ref.s[0]
        if points:
            x, y, wn, wnp = ref.points(size)
            ctx.step(4)
            ctx.close(b.default_tau_sampling_points() / (beta/2) - 1, x, 1e-10,
                      f"{what}: sampling times")
            ctx.close(b.default_omega_sampling_points() / wmax, y, 1e-10,
                      f"{what}: sampling frequencies")
            ctx.expect(np.array_equal(b.default_matsubara_sampling_points(), wn),
                       f"{what}: Matsubara points")
            ctx.expect(np.array_equal(b.default_matsubara_sampling_points(
                       positive_only=True), wnp), f"{what}: positive Matsubara points")
    ctx.trace()
    return len(ctx.failures) == n


def slices(L):
    """All slices leaving leading functions, in several spellings"""
    yield slice(None)
    yield slice(0, None)
    yield slice(None, None, 1)
    for k in range(-L + 1, L + 3):
        if k == 0:
            continue
        yield slice(None, k)
        if k in (1, 2, L - 1, L, L + 1, -1, -L + 1):
            yield slice(0, k)
            yield slice(None, k, 1)
            yield slice(0, np.int64(k), None)
    yield slice(None, 10**6)


BETAS = [7, 0.125, np.float64(300)]


def slice_size(sl, size):
    return len(range(size)[sl])


def search(ctx, kind, stat, which, lam):
    """Breadth-first search to fixpoint"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b0 = start(kind, stat, which, lam, 3.)
    ref = Reference(b0)
    n0 = b0.size
    ctx.expect(1 <= n0 <= ref.s.size, f"initial size {n0}")
    if kind == "size":
        ctx.expect(n0 == min(4, ref.s.size), f"initial size {n0}")
    if kind == "full":
        ctx.expect(n0 == ref.s.size, f"initial size {n0}")
    observe(ctx, b0, ref, n0, 3., "initial basis")
    todo = [((n0, 3.), b0, ())]
    seen = {(n0, 3.)}
    while todo:
        (size, beta), b, path = todo.pop(0)
        ctx.state(kind, stat, which, lam, size, beta)
        # all spellings where we start, otherwise `[:k]` for all or for some k
        allowed = slices(size) if beta == 3. and size == n0 else map(
            slice, range(1, size + 2) if beta == 3. else
            {1, 2, size//2 + 1, size - 1, size, size + 1, 2 - size, 1 - size, -1} - {0})
        allowed = [sl for sl in allowed if slice_size(sl, size)]
        succ = [(f"[{sl.start}:{sl.stop}:{sl.step}]", (slice_size(sl, size), beta),
                 lambda sl=sl: b[sl]) for sl in allowed]
        succ += [(f".rescale({nb})", (size, float(nb)), lambda nb=nb: b.rescale(nb))
                 for nb in BETAS + [beta]]
        for name, (size1, beta1), op in succ:
            ctx.step()
            what = "".join(path) + name
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    b1 = op()
            except Exception as e:
                ctx.fail(f"{what}: raised {type(e).__name__}: {e}")
                continue
            new = (size1, beta1) not in seen
            # points are as if made directly, whichever path has led here
            points = new and (size1 + len(seen)) % 3 == 0
            observe(ctx, b1, ref, size1, beta1, what, points=points)
            if new:
                seen.add((size1, beta1))
                todo.append(((size1, beta1), b1, path + (name,)))
                ctx.sample(what)
        # nothing is left: refused, or an empty basis, but never anything else
        for k in {0, -size, -size - 1, -size - 2, -2 * size + 1, -10**6}:
            ctx.step()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    left = b[:k].size
            except Exception:
                left = 0
            ctx.expect(left == 0, f"{''.join(path)}[:{k}]: {left} functions left")
        # source is what it was before
        observe(ctx, b, ref, size, beta, "".join(path) + " (afterwards)", points=False)
        if len(ctx.failures) > 10:
            break
    ctx.note("search ran to fixpoint")


def sequences(ctx, kind, stat, which, lam, depth):
    """All sequences, states not merged"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b0 = start(kind, stat, which, lam, 3.)
    ref = Reference(b0)
    ops = [(f"[{a}:{k}]", lambda b, a=a, k=k: b[a:k],
            lambda st, k=k: (slice_size(slice(None, k), st[0]), st[1]))
           for a, k in [(None, -1), (None, 5), (0, 2), (None, 3), (None, None)]]
    ops += [(f".rescale({nb})", lambda b, nb=nb: b.rescale(nb),
             lambda st, nb=nb: (st[0], float(nb))) for nb in (0.125, 300, 3)]

    def recurse(b, st, path):
        if len(path) == depth or len(ctx.failures) > 10:
            return
        for name, op, model in ops:
            st1 = model(st)
            if st1[0] == 0:
                continue
            ctx.step()
            try:
                b1 = op(b)
            except Exception as e:
                ctx.fail(f"{''.join(path)}{name}: raised {type(e).__name__}: {e}")
                continue
            ctx.state("seq", kind, stat, which, lam, path + (name,))
            observe(ctx, b1, ref, *st1, "".join(path) + name, points=False)
            recurse(b1, st1, path + (name,))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        recurse(b0, (b0.size, 3.), ())


def tasks(tier):
    lams = [.5, 10, 42] if tier == "quick" else [.1, .5, 1, 10, 42, 1e3, 1e4]
    out = []
    for lam in lams:
        for stat, which in [("F", "logistic"), ("B", "logistic"), ("B", "regbose")]:
            for kind in KINDS:
                if kind == "pair" and which != "logistic":
                    continue
                w = 1 + lam
                out.append(Task(search, kind, stat, which, float(lam), weight=w,
                                timeout=240 if tier == "quick" else 1800))
                if lam in (.5, 10):
                    out.append(Task(sequences, kind, stat, which, float(lam),
                                    3 if tier == "quick" else 4, weight=w,
                                    timeout=240 if tier == "quick" else 1800))
    return out
