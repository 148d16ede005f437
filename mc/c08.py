"""C08: root, sign-change and extremum searches.

Spaces: (a) all sign tables {-1,0,1}^m on all sub-grids of the integers, and
the same tables as continuous piecewise linear functions; (b) all continuous
piecewise quadratics with small integer Legendre coefficients, with and without
declared symmetry; (c) all alternating-lobe functions on the integers with all
unimodal profiles; (d) every function of real bases, compared with a brute
force scan of all frequencies up to a bound.
"""
import itertools
import numpy as np
from .core import Task, Inapplicable
from .lib import LD, EPS, sir, basis, sve

BOUNDS = {
    "quick": "sign tables of length 7 on all 32 sub-grids; quadratics with "
             "coefficients -2..2 on 2-4 segments; lobe functions of length <= 9; "
             "Legendre polynomials of order 1..17 on 1..3 segments at 5 places x 13 values of alpha x declared symmetry; real and imaginary parts on 3 grids; all functions of 8 bases against a scan of 3000 frequencies",
    "thorough": "sign tables of length 9, quadratics -3..3, lobe functions of "
                "length 11, all functions of 14 bases, scan of 20000 frequencies"}
ASSUMPTIONS = ["functions whose roots are not separated by the search grid are "
               "outside of the property and not explored"]


def find_all():
    try:
        from sparse_ir import _roots
        return _roots.find_all
    except (ImportError, AttributeError):
        raise Inapplicable("sparse_ir._roots.find_all not present")


def discrete_extrema():
    try:
        from sparse_ir import _roots
        return _roots.discrete_extrema
    except (ImportError, AttributeError):
        raise Inapplicable("sparse_ir._roots.discrete_extrema not present")


def discrete_signs(ctx, m, first):
    fn = find_all()
    grids = []
    for r in range(m - 1):
        for sub in itertools.combinations(range(1, m - 1), r):
            grids.append(np.array((0,) + sub + (m - 1,)))
    for rest in itertools.product((-1, 0, 1), repeat=m - len(first)):
        table = np.array(first + rest, float)
        sb = np.signbit(table)
        for grid in grids:
            got = np.asarray(fn(lambda n: table[n], grid, type='discrete'))
            ctx.step()
            ctx.trace()
            fx = table[grid]
            want_hits = [int(g) for g, v in zip(grid, fx) if v == 0]
            cells = [(int(a), int(b)) for a, b, fa, fb in
                     zip(grid[:-1], grid[1:], fx[:-1], fx[1:])
                     if fa * fb < 0]
            lst = [int(g) for g in got]
            ok = lst == sorted(lst) and len(lst) == len(want_hits) + len(cells)
            rest_ = list(lst)
            for z in want_hits:
                if z in rest_:
                    rest_.remove(z)
                else:
                    ok = False
            for a, b in cells:
                c = [x for x in rest_ if a <= x < b and sb[x] != sb[x + 1]]
                if len(c) >= 1:
                    rest_.remove(c[0])
                else:
                    ok = False
            ok = ok and not rest_
            ctx.expect(ok, f"sign changes of {table.tolist()} on grid "
                       f"{grid.tolist()}: got {lst}, expected zeros {want_hits} "
                       f"and one bracketing point in each of {cells}",
                       table=table.tolist(), grid=grid.tolist())
        ctx.state("discrete", tuple(table))
    ctx.sample(f"table {table.tolist()} on grids {[g.tolist() for g in grids[:3]]}...")


def continuous_signs(ctx, m, offset, scale):
    fn = find_all()
    nodes = offset + scale * np.arange(m)
    for table in itertools.product((-1., 0., 1., 3.), repeat=m):
        t = np.array(table)
        got = np.asarray(fn(lambda x: np.interp(x, nodes, t), nodes))
        want = []
        for i in range(m):
            if t[i] == 0:
                want.append(nodes[i])
            if i + 1 < m and t[i] * t[i + 1] < 0:
                want.append(nodes[i] + scale * t[i] / (t[i] - t[i + 1]))
        ctx.state("cont", m, offset, table)
        ctx.step()
        ctx.trace()
        ctx.close(got, sorted(want), 8 * EPS * np.abs(nodes).max(),
                  f"roots of piecewise linear function {table} on {nodes.tolist()}")


# ---- piecewise quadratics ---------------------------------------------------

def chains(nseg, cmax, start=None, mid=None):
    """Continuous chains of integer Legendre coefficients (c0,c1,c2)"""
    rng = range(-cmax, cmax + 1)
    segs = [c for c in itertools.product(rng, repeat=3) if any(c)]
    by_left = {}
    for c in segs:
        by_left.setdefault(c[0] - c[1] + c[2], []).append(c)

    def rec(prefix):
        if len(prefix) == nseg:
            yield tuple(prefix)
            return
        end = sum(prefix[-1])
        for c in by_left.get(end, ()):
            yield from rec(prefix + [c])

    for c in segs:
        if start is not None and c[0] - c[1] + c[2] != start:
            continue
        yield from rec([c])


def exact_roots(chain, knots):
    """Roots of chain; None if not separated by the halves of segments"""
    roots = []
    for (c0, c1, c2), a, b in zip(chain, knots[:-1], knots[1:]):
        # c0 + c1 t + c2 (3t^2-1)/2
        A, B, C = 1.5 * c2, float(c1), c0 - .5 * c2
        cand = []
        if A == 0:
            if B != 0:
                cand = [(LD(-C) / B, False)]
        else:
            disc = B * B - 4 * A * C
            if disc == 0:
                cand = [(LD(-B) / (2 * A), True)]
            elif disc > 0:
                q = np.sqrt(LD(disc))
                cand = [((-B - q) / (2 * LD(A)), False), ((-B + q) / (2 * LD(A)), False)]
        for t, double in cand:
            if -1 <= t <= 1:
                ongrid = t in (-1, 0, 1)
                if double and not ongrid:
                    return None
                slope = abs(2 * A * t + B)
                roots.append((a + (b - a) * (t + 1) / 2, ongrid, float(slope), t))
        # separated: at most one root in each (closed) half
        for lo, hi in ((-1, 0), (0, 1)):
            if sum(1 for t, _ in cand if lo <= t <= hi) > 1:
                return None
    # unify roots on knots
    roots.sort(key=lambda r: r[0])
    out = []
    for r in roots:
        if out and abs(r[0] - out[-1][0]) < 1e-12:
            continue
        out.append(r)
    return out


def quad(ctx, chain_iter, knots, symm, tag):
    s = sir()
    knots = np.array(knots, float)
    for chain in chain_iter:
        want = exact_roots(chain, knots)
        if want is None:
            continue
        data = np.array(chain, float).T
        p = s.poly.PiecewiseLegendrePoly(data, knots,
                                         symm=None if symm is None else np.array(symm))
        got = p.roots()
        ctx.state(tag, symm, chain)
        ctx.step()
        ctx.trace()
        w = np.array([float(r[0]) for r in want])
        L = knots[-1] - knots[0]
        h = np.diff(knots).min()
        tol = np.array([16 * EPS * (np.abs(knots).max() + L) + (0 if r[1] else
                        40 * EPS * 8 * h / max(r[2], 1e-3)) for r in want])
        if not ctx.expect(len(got) == len(w), f"roots of {chain} on "
                          f"{knots.tolist()}, symm={symm}: got {list(got)}, "
                          f"expected {w.tolist()}"):
            continue
        ctx.close(got, w, tol, f"roots of {chain} on {knots.tolist()}, symm={symm}")
        if len(got) > 1:
            ctx.expect((np.diff(got) > 0).all(), f"roots of {chain} not increasing: "
                       f"{list(got)}")


def quad_plain(ctx, nseg, cmax, a, h, first):
    knots = a + h * np.arange(nseg + 1)
    it = (c for c in chains(nseg, cmax) if c[0][0] == first)
    quad(ctx, it, knots, None, f"quad{nseg},{a},{h}")
    ctx.sample(f"piecewise quadratics on {knots.tolist()} starting with c0={first}")


def quad_symm(ctx, nhalf, cmax, mid, sign, a, h):
    """Declared parity; mid: a segment straddles the midpoint"""
    n = 2 * nhalf + (1 if mid else 0)
    knots = a + h * np.arange(n + 1)
    flip = np.array([1, -1, 1])

    def gen():
        if mid:
            rng = range(-cmax, cmax + 1)
            for c in itertools.product(rng, repeat=3):
                c = np.array(c)
                if not c.any() or not np.array_equal(sign * flip * c, c):
                    continue
                mids = [tuple(int(v) for v in c)]
                if nhalf == 0:
                    yield (mids[0],)
                    continue
                for right in chains(nhalf, cmax, start=sum(mids[0])):
                    left = [tuple(int(v) for v in sign * flip * np.array(r))
                            for r in right[::-1]]
                    yield tuple(left + mids + list(right))
        else:
            for right in chains(nhalf, cmax, start=0 if sign == -1 else None):
                left = [tuple(int(v) for v in sign * flip * np.array(r))
                        for r in right[::-1]]
                yield tuple(left + list(right))

    quad(ctx, gen(), knots, sign, f"symm{nhalf},{mid},{a},{h}")


# ---- extrema ----------------------------------------------------------------

def profiles(m):
    """Strictly unimodal magnitude profiles of length m (all relative orders)"""
    for rising in itertools.product((0, 1), repeat=m - 1):
        # choose which of the lower values go to the left of the peak
        left = [v + 1 for v, r in enumerate(rising) if r]
        right = [v + 1 for v, r in enumerate(rising) if not r]
        yield left + [m] + right[::-1]


def compositions(n, maxpart):
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, maxpart) + 1):
        for r in compositions(n - k, maxpart):
            yield (k,) + r


def lobes(ctx, total, first):
    fn = discrete_extrema()
    for comp in compositions(total, total):
        if comp[0] != first:
            continue
        for profs in itertools.product(*[list(profiles(k)) for k in comp]):
            for sign0 in (1, -1):
                f, want, sg, pos = [], [], sign0, 0
                for pr in profs:
                    f += [sg * v for v in pr]
                    want.append(pos + int(np.argmax(pr)))
                    pos += len(pr)
                    sg = -sg
                table = np.array(f, float)
                got = [int(g) for g in fn(lambda n: table[n], np.arange(total))]
                ctx.step()
                ctx.trace()
                ctx.expect(sorted(got) == want and got == sorted(got),
                           f"extrema of {table.tolist()}: got {got}, expected "
                           f"lobe maxima {want}", table=table.tolist())
            ctx.state("lobes", tuple(f))
    ctx.sample(f"lobe function {f}, maxima {want}")


def coarse(ctx, width, peaks, ngrid):
    """Wide lobes on coarse grids: peak found by bisection, all placements"""
    fn = discrete_extrema()
    nl = len(peaks)
    f, want, sg = [], [], 1
    for k, pk in enumerate(peaks):
        mag = [width + 5 - abs(i - pk) + (0.25 if i > pk else 0) for i in range(width)]
        f += [sg * v for v in mag]
        want.append(k * width + pk)
        sg = -sg
    table = np.array(f)
    total = nl * width
    # all regular grids with the given stride and offset, both ends included
    for stride in ngrid:
        for off in range(1, stride + 1):
            grid = np.unique(np.hstack([0, np.arange(off, total - 1, stride), total - 1]))
            fx = table[grid]
            g = np.signbit(np.diff(fx))
            win = [(grid[i], grid[i + 2]) for i in range(len(g) - 1) if g[i] != g[i + 1]]
            # the search must be able to resolve every lobe on this grid
            sb = np.signbit(table)
            good = all(sb[a:b + 1].all() or not sb[a:b + 1].any() for a, b in win)
            inner = [w for w in want if 0 < w < total - 1]
            good &= len(win) == len(inner) and all(
                a < w < b for (a, b), w in zip(win, inner))
            if not good:
                continue
            got = sorted(int(x) for x in fn(lambda n: table[n], grid))
            ctx.state("coarse", width, peaks, stride, off)
            ctx.step()
            ctx.trace()
            exp = list(inner)
            a = np.abs(fx)
            if a[0] > a[1] or np.signbit(fx[0]) != np.signbit(fx[1]):
                exp = [0] + exp
            if a[-1] > a[-2] or np.signbit(fx[-1]) != np.signbit(fx[-2]):
                exp = exp + [total - 1]
            ctx.expect(got == exp, f"extrema of lobes {peaks} of width {width} on "
                       f"grid {grid.tolist()}: got {got}, expected {exp}")


# ---- real bases -------------------------------------------------------------

def real_roots(ctx, which, lam, eps):
    """u[l], v[l] have exactly l simple roots, interlacing, symmetric"""
    res = sve(which, lam, eps)
    for name in ("u", "v"):
        f = getattr(res, name)
        prev = None
        for l in range(f.size):
            if res.s[l] < (1e-13 if eps is None else 1e-7) * res.s[0]:
                break
            p = f[l]
            r = p.roots()
            ctx.state(which, lam, eps, name, l)
            ctx.step()
            ctx.trace()
            what = f"roots of {name}[{l}], {which} L={lam:g} eps={eps}"
            if not ctx.expect(len(r) == l, f"{what}: {len(r)} found"):
                continue
            if l == 0:
                prev = r
                continue
            ctx.expect((np.diff(r) > 0).all() and r[0] > -1 and r[-1] < 1,
                       f"{what}: not increasing inside: {r}")
            ctx.close(r, -r[::-1], 1e-14, f"{what}: symmetry")
            # sign alternates between the roots
            edges = np.hstack([-1, r, 1])
            sgn = np.sign(p(.5 * (edges[1:] + edges[:-1])))
            ctx.expect((sgn[1:] * sgn[:-1] == -1).all(), f"{what}: signs between roots")
            # each is a root: value small compared with slope times spacing
            d = np.abs(p.deriv()(r))
            ctx.expect((np.abs(p(r)) <= 1e-14 * d + (1e-12 if eps is None else 1e-7)).all(), f"{what}: residual")
            if prev is not None and len(prev) == l - 1 and l > 1:
                ctx.expect(((r[:-1] < prev) & (prev < r[1:])).all(),
                           f"{what}: interlacing")
            prev = r
            # Rolle: derivative vanishes between consecutive roots
            e = p.deriv().roots()
            ctx.step()
            cnt = [int(((e > a) & (e < b)).sum()) for a, b in zip(r[:-1], r[1:])]
            ctx.expect(all(c >= 1 for c in cnt), f"{what}: derivative roots {e} "
                       f"do not separate {r}")


def real_matsubara(ctx, stat, which, lam, eps, nscan):
    b = basis(stat, 1., lam, eps, which)
    z = {'F': 1, 'B': 0}[stat]
    n = np.arange(nscan)
    full = b.uhat(2 * n + z)
    size = b.size
    for l in range(size):
        f = b.uhat[l]
        vals = full[l]
        re, im = np.abs(vals.real).max(), np.abs(vals.imag).max()
        v = vals.real if re > im else vals.imag
        part = 'real' if re > im else 'imag'
        big = np.abs(v).max()
        for method in ("sign_changes", "extrema"):
            pos = getattr(f, method)(positive_only=True)
            al = getattr(f, method)()
            ex = getattr(f, method)(part=part, positive_only=True)
            ctx.step(3)
            ctx.trace()
            ctx.state(stat, which, lam, eps, l, method)
            what = f"{method} of uhat[{l}], {stat} {which} L={lam:g}"
            ctx.expect(np.array_equal(pos, ex), f"{what}: explicit part differs")
            ctx.expect((pos >= 0).all() and (np.diff(pos) > 0).all()
                       and (pos % 2 == z).all(), f"{what}: {pos}")
            mirror = np.unique(np.hstack([-pos, pos]))
            ctx.expect(np.array_equal(al, mirror), f"{what}: full set {al} is not the "
                       f"mirror image of {pos}")
            idx = (pos - z) // 2
            idx = idx[idx < nscan - 2]
            if method == "sign_changes":
                sb = np.signbit(v)
                true = {int(i) for i in np.flatnonzero(v[:-1] * v[1:] < 0)}
                # an exact zero (bosonic zero frequency) counts as such
                zeros = {int(i) for i in np.flatnonzero(v[:-1] == 0)}
                want = sorted(i for i in true | zeros if i < nscan - 2)
                noise = 1e-13 * big
                sure = all(abs(v[i]) > noise and abs(v[i + 1]) > noise for i in true)
                if not sure:
                    ctx.note("functions with sign changes at rounding level skipped")
                    continue
                ctx.expect(sorted(idx) == want, f"{what}: got n={sorted(idx)}, "
                           f"scan gives {want}")
            else:
                # one extremum per lobe: maximum of magnitude between changes
                sb = np.signbit(v)
                cuts = np.flatnonzero(sb[1:] != sb[:-1]) + 1
                lob = np.split(np.arange(nscan), cuts)
                ok = True
                for k, seg in enumerate(lob[:-1]):
                    if np.abs(v[seg]).max() < 1e-11 * big:
                        continue
                    m = [i for i in idx if seg[0] <= i <= seg[-1]]
                    a = np.abs(v[seg])
                    best = int(seg[a.argmax()])
                    tie = len(m) == 1 and abs(abs(v[m[0]]) - a.max()) <= 1e-12 * big
                    ok &= m == [best] or tie
                ctx.expect(ok, f"{what}: got n={sorted(idx)}, lobes start at "
                           f"{cuts[:20].tolist()}")
                # last lobe: position of the maximum, if within the scan
                seg = lob[-1]
                a = np.abs(v[seg])
                best = int(seg[a.argmax()])
                if best < nscan - 2 and len(lob) > 1:
                    m = [i for i in idx if i >= seg[0]]
                    ctx.expect(m == [best] or (len(m) == 1 and abs(
                        abs(v[m[0]]) - a.max()) <= 1e-12 * big),
                        f"{what}: last lobe got {m}, maximum at {best}")


def custom_grids(ctx, stat, lam):
    """Searches restricted to a grid of ones own"""
    b = basis(stat, 1., lam, 1e-6)
    z = {'F': 1, 'B': 0}[stat]
    for l in range(b.size):
        base = b.uhat[l].sign_changes(positive_only=True)
        for grid in (np.arange(3000), np.unique(np.hstack([np.arange(128),
                     (2**np.linspace(7, 20, 400)).astype(int)]))):
            got = b.uhat[l].sign_changes(grid=grid, positive_only=True)
            ctx.state("grid", stat, lam, l, grid.size)
            ctx.step()
            ctx.trace()
            lim = 2 * grid[-1]
            ctx.expect(np.array_equal(got[got < lim], base[base < lim]),
                       f"sign changes of uhat[{l}] depend on the grid: {got} {base}")


def high_orders(ctx, nseg, a, h, alphas, orders):
    """Legendre polynomials of every order on 1.. segments, every ``alpha``"""
    s = sir()
    knots = a + h * np.arange(nseg + 1)
    mid, L = (knots[0] + knots[-1]) / 2, knots[-1] - knots[0]
    for m in orders:
        nodes = np.polynomial.legendre.leggauss(m)[0]
        if m % 2:
            nodes[m // 2] = 0
        want = np.hstack([k + h / 2 * (nodes + 1) for k in knots[:-1]])
        data = np.zeros((m + 1, nseg))
        data[m] = (-1.) ** (m * np.arange(nseg))
        parity = int((-1) ** m * data[m, -1] * data[m, 0])
        for alpha in alphas:
            for symm in (None, parity):
                start = knots
                if symm:
                    start = np.unique(np.hstack([mid, knots[knots > mid]]))
                cells = np.unique(np.hstack([np.linspace(p, q, alpha + 1) for p, q in
                                             zip(start[:-1], start[1:])]))
                # At most one root in each closed cell
                if any(((want >= p - 1e-9 * h) & (want <= q + 1e-9 * h)).sum() > 1
                       for p, q in zip(cells[:-1], cells[1:])):
                    continue
                poly = s.poly.PiecewiseLegendrePoly(
                    data, knots, symm=None if symm is None else np.array(symm))
                got = poly.roots(alpha)
                ctx.state("order", nseg, a, h, m, alpha, symm)
                ctx.step()
                ctx.trace()
                what = f"roots({alpha}) of P_{m} on {knots.tolist()}, symm={symm}"
                if not ctx.expect(len(got) == len(want), f"{what}: got {list(got)}, "
                                  f"expected {want.tolist()}"):
                    continue
                ctx.expect((np.diff(got) > 0).all(), f"{what}: not increasing")
                ctx.close(got, want, 64 * EPS * (np.abs(knots).max() + L), what)
                if alpha == 4:
                    ctx.expect(np.array_equal(got, poly.roots()), f"{what}: default")


def parts(ctx, stat, lam):
    """Both parts of all functions, also of ones without parity, on given grids"""
    s = sir()
    b = basis(stat, 1., lam, 1e-6)
    z = {'F': 1, 'B': 0}[stat]
    x = b.sve_result.u
    mixed = s.poly.PiecewiseLegendrePoly(
        (x.data[..., :6] + .5 * x.data[..., 1:7]), x.knots)
    top = 300
    n = np.arange(top)
    for tag, ft in (("uhat", b.uhat), ("mixed", s.poly.PiecewiseLegendreFT(
            mixed, {'F': 'odd', 'B': 'even'}[stat]))):
        full = ft(2 * n + z)
        for l in range(ft.size):
            for part in ('real', 'imag'):
                v = getattr(full[l], part)
                big = np.abs(full).max()
                if np.abs(v).max() < 1e-9 * big:
                    continue
                # Trustworthy up to the first value at noise level
                small = np.flatnonzero((np.abs(v) < 1e-12 * big) & (v != 0))
                end = small[0] if small.size else top
                for grid in (n[:end], n[:end:3], n[5:end]):
                    if grid.size < 4:
                        continue
                    ctx.state("part", stat, lam, tag, l, part, len(grid), grid[0])
                    ctx.step(2)
                    ctx.trace()
                    got = ft[l].sign_changes(part=part, grid=grid, positive_only=True)
                    both = ft[l].sign_changes(part=part, grid=grid)
                    what = f"sign changes of {part} part of {tag}[{l}], {stat} {lam}"
                    p = (got - z) // 2
                    v0 = v[grid]
                    cells = [i for i in range(len(grid) - 1)
                             if v0[i] * v0[i + 1] < 0]
                    zeros = [g for g, y in zip(grid, v0) if y == 0]
                    count = len(cells) + len(zeros)
                    if not ctx.expect(len(p) == count and (np.diff(p) > 0).all(),
                                      f"{what}: got {p}, {count} expected"):
                        continue
                    for i in cells:
                        q = [k for k in p if grid[i] <= k < grid[i + 1]
                             and k not in zeros]
                        ctx.expect(len(q) == 1 and v[q[0]] * v[q[0] + 1] < 0,
                                   f"{what}: between {grid[i]} and {grid[i + 1]}: {q}")
                    mirror = np.hstack([-got[::-1], got[1:] if got.size and got[0] == 0
                                        else got])
                    ctx.expect(np.array_equal(both, mirror), f"{what}: mirror image")
                    ext = ft[l].extrema(part=part, grid=grid, positive_only=True)
                    both = ft[l].extrema(part=part, grid=grid)
                    ctx.step(2)
                    e = (ext - z) // 2
                    ctx.expect((np.diff(e) > 0).all() and np.isin(e, np.arange(
                        grid[0], grid[-1] + 1)).all(), f"{what}: extrema {e}")
                    mirror = np.hstack([-ext[::-1], ext[1:] if ext.size and ext[0] == 0
                                        else ext])
                    ctx.expect(np.array_equal(both, mirror), f"{what}: extrema, mirror")


def tasks(tier):
    T = tier == "thorough"
    m = 9 if T else 7
    res = []
    for first in itertools.product((-1, 0, 1), repeat=2 if not T else 4):
        res.append(Task(discrete_signs, m, first, weight=3))
    for off, sc in ((0., 1.), (-3., 1.), (-1., .25), (1e3, .5), (-1e-3, 1e-4)):
        res.append(Task(continuous_signs, 7 if T else 6, off, sc))
    cm = 3 if T else 2
    for nseg, a, h, c in ((1, -1., 2., cm), (2, -1., 1., cm), (2, 0., 2., cm),
                          (3, -3., 2., 2 if T else 1), (3, 0., 1., 1),
                          (4, -1., .5, 1)):
        for first in range(-c, c + 1):
            res.append(Task(quad_plain, nseg, c, a, h, first, weight=5))
    for nhalf, mid, c in ((1, False, cm), (2, False, 2 if T else 1), (0, True, 3),
                          (1, True, cm), (2, True, 1)):
        n = 2 * nhalf + (1 if mid else 0)
        for sign in (1, -1):
            for a, h in ((-n / 2., 1.), (0., .5), (-n / 8., .25)):
                res.append(Task(quad_symm, nhalf, c, mid, sign, a, h, weight=4))
    for total in range(2, (12 if T else 10)):
        for first in range(1, total + 1):
            res.append(Task(lobes, total, first, weight=3**total / 2**first / 1000))
    for width in (5, 8, 12):
        for peaks in itertools.product(sorted({0, 1, 2, width//2, width-1}), repeat=3):
            res.append(Task(coarse, width, peaks, range(1, 6)))
    cfgs = [("logistic", 1., 1e-6), ("logistic", 10., 1e-6), ("logistic", 10., None),
            ("logistic", 42., None), ("regbose", 10., 1e-6), ("regbose", 42., None),
            ("logistic", 1e3, 1e-6), ("logistic", 1e4, 1e-6), ("regbose", 1e4, 1e-6)]
    if T:
        cfgs += [("logistic", 1e5, 1e-6), ("logistic", 1e3, None), ("regbose", 1e3, None),
                 ("logistic", .1, 1e-6), ("logistic", 1e6, 1e-6)]
    for c in cfgs:
        res.append(Task(real_roots, *c, weight=50))
    for c in cfgs:
        for stat in "FB" if c[0] == "logistic" else "B":
            if c[1] <= 1e3 or T:
                res.append(Task(real_matsubara, stat, *c, 20000 if T else 3000,
                                weight=100))
    for nseg in (1, 2, 3) if not T else (1, 2, 3, 4, 5):
        for a, h in ((-nseg / 2., 1.), (0., 2.), (100., .5), (-1e-3, 1e-4), (-7., .25)):
            res.append(Task(high_orders, nseg, a, h,
                            [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 25, 50, 64],
                            range(1, 32 if T else 18), weight=8))
    for stat in "FB":
        for lam in (1., 10., 42., 1e3):
            res.append(Task(parts, stat, lam, weight=20))
        for lam in (10., 42.):
            res.append(Task(custom_grids, stat, lam, weight=20))
    return res
