"""C10: Decomposed matrices multiply and least-squares fit along any axis.

Two exhaustive enumerations on the real classes:

 - all full-rank matrices with entries from a small alphabet, up to 3x3; multiplying
   and fitting are linear (for the split form: real-linear), so their action on all
   unit vectors decides all vectors.  The oracle is the (minimum-norm) pseudo-inverse
   through integer adjugates, which is exact;
 - for a set of matrices of all shapes, every array shape up to four axes, every axis
   counted from either side, every dtype and memory layout.
"""
import itertools
import warnings
import numpy as np
from .core import Task
from .lib import sir, EPS

BOUNDS = {
    "quick": "all full-rank m x n matrices: real, m*n<=4 over {-1,0,1,2}, m*n=6 over "
             "{-1,0,2}, 3x3 over {0,1}; complex, m*n<=3 over {0,1,i,-1+2i}, 2x2, 2x3, 3x2 "
             "over {0,1,i}; split form over the same complex ones, with and without zero "
             "frequency; given, zero-padded decompositions; 1..4 axes of 1..3 x all axes "
             "x 8 dtypes x 6 layouts for 12 matrices",
    "thorough": "real m*n=6 over {-1,0,1,2}, 3x3 over {-1,0,1}; complex 2x3, 3x2 over "
                "{0,1,i,-1+2i}"}
ASSUMPTIONS = ["full rank; the imaginary part of a row at zero frequency vanishes"]


def adjugate(G):
    n = G.shape[0]
    if n == 1:
        return np.ones((1, 1), G.dtype), G[0, 0]
    if n == 2:
        return (np.array([[G[1, 1], -G[0, 1]], [-G[1, 0], G[0, 0]]]),
                G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0])
    adj = np.empty((n, n), G.dtype)
    for i in range(n):
        for j in range(n):
            r = [k for k in range(n) if k != j]
            c = [k for k in range(n) if k != i]
            M = G[np.ix_(r, c)]
            d = adjugate(M)[1]
            adj[i, j] = (-1)**(i + j) * d
    return adj, (G[0] * adj[:, 0]).sum()


def pinv(A):
    """Exact pseudo-inverse of a full-rank matrix of small integers, or None"""
    m, n = A.shape
    AH = A.conj().T
    G = A @ AH if m <= n else AH @ A
    adj, det = adjugate(G)
    if det == 0:
        return None
    inv = adj / det
    return AH @ inv if m <= n else inv @ AH


def factors(ctx, D, A, what, split=False):
    """Reported factors, condition number, conversion"""
    ctx.step(6)
    sc = np.abs(A).max()
    ctx.expect(np.array_equal(D.a, A), f"{what}: a")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            arr, arr2, arr3 = np.asarray(D), np.array(D), np.asarray(D, A.dtype)
            arr4 = np.asarray(D, complex)
        rec = [r for r in rec if not issubclass(r.category, DeprecationWarning)]
        ctx.expect(not rec, f"{what}: warning on array conversion {rec and rec[0].message}")
    for r in (arr, arr2, arr3):
        ctx.expect(np.array_equal(r, A) and r.dtype == A.dtype,
                   f"{what}: array conversion {r.dtype}")
    ctx.expect(np.array_equal(arr4, A) and arr4.dtype == complex, f"{what}: conversion")
    k = min(2 * A.shape[0] if split else A.shape[0], A.shape[1])
    u, s, vH = D.u, D.s, D.vH
    if split:
        k = s.size
    if not ctx.expect(u.shape == (A.shape[0], k) and s.shape == (k,)
                      and vH.shape == (k, A.shape[1]), f"{what}: shapes of factors"):
        return
    ctx.expect((s > 0).all() and (np.diff(s) <= 0).all(), f"{what}: singular values {s}")
    ctx.close((u * s) @ vH, A, 30 * EPS * sc * k, f"{what}: u*s@vH")
    gram = u.conj().T @ u
    ctx.close(gram.real if split else gram, np.eye(k), 30 * EPS, f"{what}: u")
    ctx.close(vH @ vH.conj().T, np.eye(k), 30 * EPS, f"{what}: vH")
    ctx.close(D.cond, s.max() / s.min(), 10 * EPS * s.max() / s.min(), f"{what}: cond")


def check_plain(ctx, D, A, P, what):
    m, n = A.shape
    ctx.step(8)
    sc = np.abs(A).max()
    tol = 200 * EPS * max(1., np.abs(P).max()**2 * sc**2) * max(1., 1 / sc)
    factors(ctx, D, A, what)
    for f in (1, 1j) if np.iscomplexobj(A) else (1,):
        ctx.close(D @ (f * np.eye(n)), f * A, 4 * EPS * sc, f"{what}: @")
        ctx.close(D.matmul(f * np.eye(n)), f * A, 4 * EPS * sc, f"{what}: matmul")
        ctx.close(D.lstsq(f * np.eye(m)), f * P, tol, f"{what}: lstsq")
    for i in range(m):
        ctx.close(D.lstsq(np.eye(m)[i]), P[:, i], tol, f"{what}: lstsq of unit vector")
    for i in range(n):
        ctx.close(D.matmul(np.eye(n)[i]), A[:, i], 4 * EPS * sc, f"{what}: matmul")


def matrices(m, n, alphabet, first, dtype):
    for rest in itertools.product(alphabet, repeat=m * n - len(first)):
        yield np.array(first + rest, dtype).reshape(m, n)


def plain(ctx, m, n, alphabet, first, dtype):
    """All matrices: decompose, multiply, fit"""
    from sparse_ir.sampling import DecomposedMatrix
    count = 0
    for A in matrices(m, n, alphabet, first, dtype):
        P = pinv(A)
        if P is None:
            continue
        count += 1
        ctx.state("plain", m, n, A.tobytes())
        check_plain(ctx, DecomposedMatrix(A), A, P, f"{A.tolist()}")
        if count % 7 == 0:
            # given decomposition, padded by zero singular values
            u, s, vH = np.linalg.svd(A, full_matrices=False)
            for pos in range(s.size + 1):
                u2 = np.insert(u, pos, 0.5, axis=1)
                s2 = np.insert(s, pos, 0)
                v2 = np.insert(vH, pos, 0.5, axis=0)
                check_plain(ctx, DecomposedMatrix(A, (u2, s2, v2)), A, P,
                            f"{A.tolist()} padded at {pos}")
            check_plain(ctx, DecomposedMatrix(A, (u, s, vH)), A, P, f"{A.tolist()} given")
        ctx.trace()
    ctx.sample(f"{count} full-rank matrices {m}x{n}")


class FakeBasis:
    """Basis with prescribed values on the frequencies"""
    is_well_conditioned = False

    def __init__(self, matrix):
        self.matrix = matrix

    def uhat(self, n):
        return self.matrix.T


def split(ctx, m, n, alphabet, first):
    """Fits by real vectors"""
    s = sir()
    from sparse_ir.sampling import SplitDecomposedMatrix
    count = 0
    for A in matrices(m, n, alphabet, first, complex):
        for zero in (False, True):
            if zero and A[0].imag.any():
                continue
            R = np.vstack([A.real, A.imag])
            P = pinv(R if not zero else np.delete(R, m, axis=0))
            if P is None:
                continue
            count += 1
            ctx.state("split", m, n, A.tobytes(), zero)
            if zero:
                P = np.insert(P, m, 0, axis=1)
            what = f"split {A.tolist()} zero={zero}"
            wn = 2 * np.arange(m) + (0 if zero else 1)
            D = [s.MatsubaraSampling(FakeBasis(A), wn, positive_only=True).matrix]
            if not zero:
                ur, sv, vT = np.linalg.svd(R, full_matrices=False)
                D.append(SplitDecomposedMatrix(A, (ur[:m] + 1j * ur[m:], sv, vT)))
                D.append(SplitDecomposedMatrix(A, (
                    np.hstack([ur[:m] + 1j * ur[m:], np.ones((m, 1))]),
                    np.hstack([sv, 0]), np.vstack([vT, np.ones(n)]))))
            tol = 200 * EPS * max(1., np.abs(P).max()**2 * 5)
            for d in D:
                ctx.step(8)
                factors(ctx, d, A, what, True)
                ctx.close(d @ np.eye(n), A, 1e-15, f"{what}: @")
                ctx.close(d.matmul(np.eye(n)), A, 1e-15, f"{what}: matmul")
                got = d.lstsq(np.eye(m))
                ctx.expect(not np.iscomplexobj(got), f"{what}: complex result")
                ctx.close(got, P[:, :m], tol, f"{what}: lstsq, real part")
                ctx.close(d.lstsq(1j * np.eye(m)), P[:, m:], tol, f"{what}: lstsq, imag")
                for i in range(m):
                    b = np.zeros(m, complex)
                    b[i] = 2 - 3j
                    ctx.close(d.lstsq(b), 2 * P[:, i] - 3 * P[:, m + i], 5 * tol,
                              f"{what}: lstsq of a vector")
            ctx.trace()
    ctx.sample(f"{count} matrices {m}x{n}")


def hard(ctx, k):
    """Badly conditioned and badly scaled matrices: backward stable fits"""
    from fractions import Fraction as F
    from sparse_ir.sampling import DecomposedMatrix
    d = 2.**-k
    for scale in (1., 2.**-300, 2.**300):
        A = np.array([[1, 1], [1, 1 + d], [1, 1 - d]])
        for rows in ((0, 1), (0, 1, 2), (1, 2)):
            M = A[list(rows)]
            ctx.state("hard", k, scale, rows)
            D = DecomposedMatrix(M * scale)
            G = [[sum(F(r[i]) * F(r[j]) for r in M) for j in (0, 1)] for i in (0, 1)]
            det = G[0][0] * G[1][1] - G[0][1] * G[1][0]
            for e in np.eye(len(M)):
                b = [sum(F(r[i]) * F(x) for r, x in zip(M, e)) for i in (0, 1)]
                want = np.array([float((G[1][1] * b[0] - G[0][1] * b[1]) / det),
                                 float((G[0][0] * b[1] - G[1][0] * b[0]) / det)])
                got = D.lstsq(e) * scale
                cond = 4 / d
                ctx.close(got, want, 20 * EPS * (cond * max(1, np.abs(want).max())
                                       + (cond**2 if len(M) == 3 else 0)),
                          f"fit with condition {cond:g}")
                ctx.step()
            ctx.close(D.cond, np.linalg.cond(M), 1e-13 * np.linalg.cond(M)**2, "cond")
            ctx.trace()


DTYPES = ("f8", "c16", "i8", "f4", "c8", "g", "b1", "i2")
LAYOUTS = ("C", "F", "reversed", "strided", "broadcast", "readonly")


def fill(shape, dtype, layout):
    n = int(np.prod(shape))
    val = (np.arange(n) * 7 % 11 - 5.).reshape(shape)
    if np.dtype(dtype).kind == "c":
        val = val + 1j * (np.arange(n) * 5 % 13 - 6.).reshape(shape)
    if np.dtype(dtype).kind == "b":
        val = val > 0
    val = val.astype(dtype)
    if layout == "F":
        return np.asfortranarray(val)
    if layout == "reversed":
        return np.array(val[::-1])[::-1]
    if layout == "strided":
        big = np.zeros(tuple(2 * d for d in shape), dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = val
        return view
    if layout == "broadcast":
        return np.broadcast_to(val[..., :1], shape)
    val.flags.writeable = layout != "readonly"
    return val


def along(M, x, axis):
    """Product along axis by explicit summation"""
    x = np.moveaxis(x, axis, 0)
    r = sum(np.multiply.outer(M[:, i], x[i]) for i in range(M.shape[1]))
    return np.moveaxis(r, 0, axis)


def axes(ctx, m, n, kind):
    """All array shapes, axes, dtypes and layouts"""
    s = sir()
    from sparse_ir.sampling import DecomposedMatrix
    A = np.array([[2., -1, 1], [1, 1, 0], [0, 3, -2]])[:m, :n]
    if kind != "real":
        A = A + 1j * np.array([[0, 1, -1], [2, 0, 1], [1, 1, 0]])[:m, :n]
    if kind == "split":
        D = s.MatsubaraSampling(FakeBasis(A), 2 * np.arange(m) + 1,
                                positive_only=True).matrix
        P = pinv(np.vstack([A.real, A.imag]))
        if P is None:
            P = np.linalg.pinv(np.vstack([A.real, A.imag]))
    else:
        D = DecomposedMatrix(A)
        P = pinv(A)
    for ndim in (1, 2, 3, 4):
        for other in itertools.product((1, 2, 3) if ndim < 4 else (1, 3), repeat=ndim - 1):
            for pos in range(ndim):
                for dtype in DTYPES:
                    for layout in LAYOUTS if ndim < 4 else ("C", "strided"):
                        for size, op in ((n, "matmul"), (m, "lstsq")):
                            shape = other[:pos] + (size,) + other[pos:]
                            x = fill(shape, dtype, layout)
                            xx = x.astype(complex if x.dtype.kind == "c" else float)
                            if op == "matmul":
                                want = along(A, xx, pos)
                            elif kind == "split":
                                want = along(P, np.concatenate([xx.real, xx.imag], pos), pos)
                            else:
                                want = along(P, xx, pos)
                            ctx.state(m, n, kind, shape, pos, dtype, layout, op)
                            fn = getattr(D, op)
                            calls = [dict(axis=pos), dict(axis=pos - ndim)]
                            if (ndim == 1) or (ndim == 2 and pos == 0):
                                calls.append({})
                                calls.append(dict(axis=None))
                            for kw in calls:
                                keep = x.copy()
                                with warnings.catch_warnings():
                                    warnings.simplefilter("ignore")
                                    got = fn(x, **kw)
                                ctx.step()
                                # 32-bit input may be kept in single precision
                                tol = 1e-12
                                if not ctx.close(got, want, tol * 30,
                                                 f"{kind} {m}x{n} {op} {shape} {dtype} "
                                                 f"{layout} {kw}"):
                                    break
                                ctx.expect(np.array_equal(x, keep), "input changed")
            ctx.trace()
    # nested lists and empty arrays are arrays, too
    for op, M, size in (("matmul", A, n), ("lstsq", None, m)):
        x = fill((size, 2), "f8", "C")
        fn = getattr(D, op)
        for lst in (x.tolist(), x[:, 0].tolist(), tuple(x[:, 1])):
            for kw in ({}, dict(axis=0), dict(axis=-np.ndim(lst))):
                ctx.close(fn(lst, **kw), fn(np.array(lst), **kw), 1e-14, f"{op} of list")
                ctx.step()
        for ax, shape in ((0, (size, 0)), (1, (0, size)), (-1, (2, 0, size))):
            want = list(shape)
            want[ax] = m if op == "matmul" else n
            ctx.expect(fn(np.zeros(shape), ax).shape == tuple(want), f"{op} of empty array")
            ctx.step()


def tasks(tier):
    T = tier == "thorough"
    res = []
    big, mid, small = (-1, 0, 1, 2), (-1, 0, 2), (0, 1)
    for m, n in itertools.product((1, 2, 3), repeat=2):
        if m * n == 9:
            alph = (-1, 0, 1) if T else small
        else:
            alph = big if m * n <= 4 or T else mid
        for first in itertools.product(alph, repeat=2 if m * n >= 6 else 0):
            res.append(Task(plain, m, n, alph, first, "f8", weight=len(alph)**(m * n)))
        if m * n < 9:
            calph = (0, 1, 1j, -1 + 2j) if m * n <= 3 or (T and m * n <= 6) else (0, 1, 1j)
            for first in itertools.product(calph, repeat=2 if m * n >= 6 else 0):
                w = len(calph)**(m * n)
                res.append(Task(plain, m, n, calph, first, "c16", weight=w))
                res.append(Task(split, m, n, calph, first, weight=w))
        for kind in ("real", "complex", "split"):
            res.append(Task(axes, m, n, kind, weight=3000))
    for k in range(0, 50, 3):
        res.append(Task(hard, k))
    return res
