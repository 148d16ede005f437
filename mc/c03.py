"""C03: truncation keeps exactly the triples it should.

Spaces: (a) all small block spectra (with degenerate values) pushed through the
real truncation code by a user-defined expansion strategy, for every cutoff and
every maximum number; (b) every maximum number and cutoffs between any two
singular values of real kernels; (c) all synthetic spectra, accuracies on, below
and above each value, and maximum sizes for `part` and for bases.
"""
import itertools
import numpy as np
from .core import Task
from .lib import EPS, sir, kernel, sve

BOUNDS = {
    "quick": "block spectra: 1-2 blocks, up to 4 values from {1, 1/2, 1/4, 1/64} "
             "each, 7 cutoffs, n_sv 0..9; 8 kernels x all n_sv x cutoffs around "
             "every value; synthetic spectra of length <= 5",
    "thorough": "3 blocks, spectra of length <= 6, 14 kernels"}
ASSUMPTIONS = ["ties of singular value and cutoff are decided for exactly "
               "representable numbers only"]


def fake_strategy(blocks, log):
    from sparse_ir.sve import AbstractSVE

    class Fake(AbstractSVE):
        nsvals_hint = 50

        def __init__(self, K, eps, *, n_gauss=None, dtype=float):
            pass

        @property
        def matrices(self):
            return tuple(np.diag(np.array(b, float)) for b in blocks)

        def postprocess(self, u, s, v, dtype=None):
            return u, s, v
    return Fake


def expected_blocks(blocks, cutoff, n_sv):
    allv = sorted((v for b in blocks for v in b), reverse=True)
    thr = cutoff * allv[0]
    if n_sv is not None and n_sv < len(allv):
        # at most n_sv values, never splitting a set of equal values
        thr = max(thr, allv[n_sv])
    return [sum(1 for v in b if v > thr) for b in blocks]


def block_spectra(ctx, shape, vals):
    s = sir()
    K = kernel("logistic", 1.)
    per_block = [list(itertools.combinations_with_replacement(vals, n)) for n in shape]
    for blocks in itertools.product(*per_block):
        strat = fake_strategy(blocks, None)
        total = sum(shape)
        for cutoff in (None, 0., 2.**-40, 1/64., 1/4., .3, .5, 1.):
            for n_sv in (None,) + tuple(range(total + 2)):
                u, sv, v = s.compute_sve(K, 1e-6, cutoff=cutoff, n_sv=n_sv,
                                         sve_strat=strat, svd_strat='default')
                ctx.step()
                ctx.trace()
                ctx.state("block", blocks, cutoff, n_sv)
                c = 2 * EPS if cutoff is None else cutoff
                want = expected_blocks(blocks, c, n_sv)
                what = f"blocks {blocks} cutoff={cutoff} n_sv={n_sv}"
                got = [len(x) for x in sv]
                if not ctx.expect(got == want, f"{what}: kept {got}, expected {want}"):
                    continue
                for b, ub, sb, vb in zip(blocks, u, sv, v):
                    k = len(sb)
                    ctx.expect(np.array_equal(sb, b[:k]), f"{what}: kept {sb} of {b}")
                    ctx.expect(ub.shape == (len(b), k) and vb.shape == (len(b), k),
                               f"{what}: vectors {ub.shape} {vb.shape}")
                    ctx.close((ub * sb) @ vb.T, np.diag(np.where(
                        np.arange(len(b)) < k, b, 0)), 1e-14, f"{what}: triples")
    ctx.sample(f"{blocks}")


def same_functions(ctx, f, g, n, what, tol=0):
    """First n functions of g are functions f"""
    x = np.linspace(f.xmin, f.xmax, 9)
    a, b = f(x), g(x)
    ctx.step(2)
    ctx.expect(f.size == n, f"{what}: {f.size} functions, expected {n}")
    ctx.close(a, b[:n], tol, f"{what}: functions")


def real_nsv(ctx, which, lam, eps, part, nparts):
    """Every maximum number, every interval of cutoffs"""
    s = sir()
    K = kernel(which, lam)
    ref = s.compute_sve(K, eps)
    N = ref.s.size
    sig = ref.s / ref.s[0]
    floor = 1e-9 if eps is not None and eps >= 1e-8 else 1e-28
    for n in range(1 + part, N + 3, nparts):
        r = s.compute_sve(K, eps, n_sv=n)
        ctx.state("nsv", which, lam, eps, n)
        ctx.trace()
        ctx.step()
        what = f"{which} L={lam:g} eps={eps} n_sv={n}"
        want = min(n, N)
        if not ctx.expect(r.s.size == want, f"{what}: {r.s.size} values"):
            continue
        ctx.close(r.s, ref.s[:want], 1e-14 * ref.s[:want] + 1e-16 * ref.s[0],
                  f"{what}: values")
        same_functions(ctx, r.u, ref.u, want, what + " u", 1e-12 * 50)
        same_functions(ctx, r.v, ref.v, want, what + " v", 1e-12 * 50)
    for n in (-1, 2.5, -3):
        ctx.raises(lambda: s.compute_sve(K, eps, n_sv=n), f"n_sv={n}")
    for c in (-.1, 1.5, np.nan):
        ctx.raises(lambda: s.compute_sve(K, eps, cutoff=c), f"cutoff={c}")
    cuts = []
    for l in range(N):
        if sig[l] < floor:
            break
        nxt = sig[l + 1] if l + 1 < N else sig[l] / 2
        if nxt > sig[l] * (1 - 1e-7):
            continue            # degenerate pair (large cutoffs)
        cuts += [(sig[l] * (1 - 1e-9), l + 1), (np.sqrt(sig[l] * nxt), l + 1)]
        if l and sig[l] < (1 - 1e-7) * sig[l - 1]:
            cuts.append((sig[l] * (1 + 1e-9), l))
    for c, want in cuts[part::nparts]:
        for n in (None, max(1, want - 1), want, want + 1):
            if n is not None and (lam > 42 or eps is None and n == want):
                continue
            r = s.compute_sve(K, eps, cutoff=c, n_sv=n)
            ctx.state("cut", which, lam, eps, c, n)
            ctx.trace()
            ctx.step()
            w = want if n is None else min(n, want)
            ctx.expect(r.s.size == w and r.u.size == w and r.v.size == w,
                       f"{which} L={lam:g} eps={eps} cutoff={c:.17g} n_sv={n}: "
                       f"{r.s.size} values, expected {w} (significances {sig[:w+2]})")
    ctx.sample(f"{N} values, {len(cuts)} cutoffs")


def spectra(length, base):
    """All non-increasing spectra of powers of two up to given length"""
    for n in range(1, length + 1):
        for steps in itertools.product((0, 1, 3), repeat=n - 1):
            yield base * 2.**-np.cumsum((0,) + steps)


def synthetic(ctx, length, base, stats):
    """part() and bases on spectra where ties are exact"""
    s = sir()
    lam = 2.
    K = kernel("logistic", lam)
    full = s.compute_sve(K, 1e-6)
    for sv in spectra(length, base):
        n = sv.size
        res = s.SVEResult(full.u[:n], sv, full.v[:n], K, 2.**-2)
        epss = [None] + sorted({float(x) for x in sv / sv[0]} |
                               {float(x) * 1.01 for x in sv / sv[0]} |
                               {float(x) * .99 for x in sv / sv[0]} | {0., 1e-300})
        for eps in epss:
            e = 2.**-2 if eps is None else eps
            if e > 1:
                continue
            for mx in (None,) + tuple(range(0, n + 2)):
                want = int(sum(1 for x in sv if x >= e * sv[0]))
                if mx is not None:
                    want = min(want, mx)
                u, s_, v = res.part(eps, mx)
                ctx.step()
                ctx.trace()
                ctx.state("part", tuple(sv), eps, mx)
                what = f"spectrum {sv.tolist()} eps={eps} max_size={mx}"
                ctx.expect(u.size == v.size == s_.size == want and
                           np.array_equal(s_, sv[:want]),
                           f"{what}: part kept {s_}, expected {sv[:want]}")
                if want == 0:
                    continue
                for stat in stats:
                    b = s.FiniteTempBasis(stat, 4., lam / 4., eps, max_size=mx,
                                          kernel=K, sve_result=res)
                    ctx.step()
                    w = f"{what} {stat}"
                    if not ctx.expect(b.size == want == b.s.size == b.u.size ==
                                      b.v.size == b.uhat.size and
                                      tuple(b.shape) == (want,), f"{w}: basis size "
                                      f"{b.size}, expected {want}"):
                        continue
                    ctx.close(b.significance, sv[:want] / sv[0], 1e-15,
                              f"{w}: significance")
                    ctx.close(b.s, np.sqrt(2 * lam / 4) * sv[:want], 1e-15 * sv[0] * 4,
                              f"{w}: values")
                    acc = sv[want] / sv[0] if want < n else sv[-1] / sv[0]
                    ctx.expect(abs(b.accuracy - acc) <= 1e-15 * acc,
                               f"{w}: accuracy {b.accuracy}, expected {acc}")
    ctx.sample(f"last spectrum {sv.tolist()}")


def real_basis(ctx, which, stat, beta, wmax, eps0):
    """Bases from one expansion, all accuracies and sizes"""
    s = sir()
    lam = beta * wmax
    K = kernel(which, lam)
    res = sve(which, lam, eps0)
    sig = res.s / res.s[0]
    N = sig.size
    cand = [(None, int((sig >= (2.2204460492503131e-16 if eps0 is None else 1e-8)).sum()))]
    if eps0 is None:
        # documented default is the square root of the ddouble epsilon
        lo, hi = (sig >= 5e-16).sum(), (sig >= 5e-17).sum()
    for l in range(N):
        nxt = sig[l + 1] if l + 1 < N else sig[l] / 4
        cand += [(np.sqrt(sig[l] * nxt), l + 1), (sig[l] * (1 - 1e-12), l + 1),
                 (sig[l] * (1 + 1e-12), l) if l else (1., 1)]
    refu, refv = res.u, res.v
    for eps, want0 in cand:
        for mx in (None, 1, max(1, want0 - 1), want0, want0 + 1):
            b = s.FiniteTempBasis(stat, beta, wmax, eps, max_size=mx, kernel=K,
                                  sve_result=res)
            ctx.step()
            ctx.trace()
            ctx.state("basis", which, stat, beta, eps, mx)
            what = f"{which} {stat} beta={beta} wmax={wmax} eps={eps} max_size={mx}"
            if eps is None:
                ok = b.size == min(mx or N, b.size) <= N
                if mx is None and eps0 is None:
                    ok &= lo <= b.size <= hi
                ctx.expect(ok, f"{what}: size {b.size}")
                n = b.size
            else:
                n = want0 if mx is None else min(want0, mx)
                if not ctx.expect(b.size == n, f"{what}: size {b.size}, expected {n}"):
                    continue
            ctx.close(b.significance, sig[:n], 1e-14 * sig[:n], f"{what}: significance")
            acc = sig[n] if n < N else sig[-1]
            ctx.expect(abs(b.accuracy - acc) <= 1e-14 * acc,
                       f"{what}: accuracy {b.accuracy}, expected {acc}")
            x = np.array([-1, -.77, -.2, .01, .5, 1.])
            su = np.sqrt(2 / beta)
            ctx.close(b.u(beta / 2 * (x + 1)), su * refu(x)[:n], 1e-10 * su * 20,
                      f"{what}: u")
            ctx.close(b.v(wmax * x), refv(x)[:n] / np.sqrt(wmax),
                      1e-10 / np.sqrt(wmax) * 20, f"{what}: v")
            ctx.expect(b.u.size == b.v.size == b.uhat.size == n and
                       b.sve_result.s.size == N, f"{what}: sizes")


def direct(ctx, which, stat, beta, wmax):
    """Bases which compute their own expansion agree with a given one"""
    s = sir()
    lam = beta * wmax
    ref = sve(which, lam, None)
    sig = ref.s / ref.s[0]
    for eps in (None, 1e-1, 1e-3, 1e-5, 1e-7, 1e-8, 1e-10, 1e-13):
        for mx in (None, 1, 3, 50):
            b = s.FiniteTempBasis(stat, beta, wmax, eps, max_size=mx,
                                  kernel=kernel(which, lam))
            ctx.step()
            ctx.trace()
            ctx.state("direct", which, stat, beta, wmax, eps, mx)
            e = 2.3e-16 if eps is None else eps
            lo, hi = (sig >= e * 1.1).sum(), (sig >= e / 1.1).sum()
            if mx:
                lo, hi = min(lo, mx), min(hi, mx)
            what = f"{which} {stat} beta={beta} wmax={wmax} eps={eps} max_size={mx}"
            ctx.expect(lo <= b.size <= hi, f"{what}: size {b.size} not in {lo}..{hi}")
            noise = 1e-8 if eps and eps >= 1e-8 else 1e-13
            n = min(b.size, hi)
            ctx.close(b.significance[:n], sig[:n], noise * sig[:n] + 1e-14,
                      f"{what}: significance")
            nxt = sig[b.size]
            ctx.expect(abs(b.accuracy - nxt) <= noise * nxt + 1e-14, f"{what}: "
                       f"accuracy {b.accuracy}, expected {nxt}")


def tasks(tier):
    T = tier == "thorough"
    res = []
    vals = (1., .5, .25, 1/64.)
    for shape in [(n,) for n in (1, 2, 3, 4)] + list(itertools.product((1, 2, 3), repeat=2)):
        res.append(Task(block_spectra, shape, vals, weight=sum(shape)**4, timeout=600))
    if T:
        for shape in ((4, 2), (4, 4), (2, 2, 2), (1, 3, 2)):
            res.append(Task(block_spectra, shape, vals, weight=3000, timeout=2000))
    for which, lam, eps in (("logistic", 1., 1e-6), ("logistic", 10., 1e-6),
                            ("regbose", 10., 1e-6), ("logistic", 10., None),
                            ("regbose", 5., None), ("logistic", 1e3, 1e-6)) + (
                            (("logistic", 42., None), ("regbose", 42., None),
                             ("logistic", 1e4, 1e-6), ("regbose", 1e4, 1e-6))
                            if T else ()):
        res += [Task(real_nsv, which, lam, eps, i, 6, weight=1000, timeout=800)
                for i in range(6)]
    for base in (1., 3., .7):
        for stats in ("F", "B"):
            res.append(Task(synthetic, 6 if T else 4, base, stats, weight=500,
                            timeout=800))
    for which, stat in (("logistic", "F"), ("logistic", "B"), ("regbose", "B")):
        for beta, wmax in ((10., 1.), (2., 21.), (42., 1.)) + (((1e3, 1.),) if T else ()):
            res.append(Task(real_basis, which, stat, beta, wmax, None, weight=200))
            res.append(Task(real_basis, which, stat, beta, wmax, 1e-6, weight=200))
            if beta * wmax <= 42:
                res.append(Task(direct, which, stat, beta, wmax, weight=200))
    return res
