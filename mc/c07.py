"""C07: every selection and every argument shape agrees with one-by-one.

Space: function sets in time, real frequency, Matsubara frequency (and their
derivatives) x all index expressions of the bounded grammar (integers, all
slices, all masks, index arrays, tuples, new axes, ellipsis; also selections
of selections) x argument shapes.  Oracle: table of values obtained one
function and one point at a time, arranged by numpy's own indexing rules.
"""
import itertools
import numpy as np
from .core import Task
from .lib import basis, sir

BOUNDS = {"quick": "sets of 4 (poly sets 4 and 2x3): all ints, all slices with "
                   "start/stop in -5..5 and step -2..2, all 16 masks, index "
                   "arrays up to length 3, tuples, newaxis; 10 argument shapes; "
                   "all pairs of selections from a 30-element sub-grammar",
          "thorough": "sets of 5, all pairs from a 60-element sub-grammar"}
ASSUMPTIONS = ["vector/matrix-product rounding differs between batch sizes: "
               "values agree to 1e-13 of the largest value"]

SHAPES = [(), (1,), (3,), (2, 3), (3, 2), (2, 1, 3), (0,), (2, 0), (1, 1), (6,)]


def index_grammar(n, small=False):
    idx = list(range(-n, n))
    idx += [np.int64(1), np.int32(-1)]
    steps = (None, 1, 2, -1) if small else (None, 1, 2, -1, -2)
    lim = range(-n - 1, n + 2) if not small else (0, 1, -1, n)
    for a in [None] + list(lim):
        for b in [None] + list(lim):
            for c in steps:
                idx.append(slice(a, b, c))
    for m in itertools.product([False, True], repeat=n):
        idx.append(np.array(m))
        if sum(m) == 2:
            idx.append(list(m))
    for k in range(0, 3 if small else 4):
        for t in itertools.product((0, n - 1, -2), repeat=k):
            idx.append(list(t) if k else [])
            if k == 2:
                idx.append(np.array(t))
    idx += [np.array([[0, 1], [-1, 0]]), np.array([[2]]), Ellipsis, None,
            (None, slice(None)), (slice(None), None), (1,), (slice(1, 3),), (),
            (Ellipsis, 0), (None, 0), (0, None), (Ellipsis, None),
            ([0, -1],), (np.array([[1, 0]]),)]
    return idx


def sub_grammar(n, big):
    r = [0, -1, 1, slice(None), slice(None, 2), slice(1, None), slice(None, None, -1),
         slice(None, None, 2), slice(-2, None), [0, -1], [1, 1], [-1],
         np.array([[0, -1]]), Ellipsis, None, (), (None, 0), (slice(None), None),
         (0,), (slice(0, 1),), []]
    if big:
        r += [2, -2, slice(0, 0), slice(2, 0, -1), slice(-1, None, -2), [0, 1, 0],
              np.array([[1, 0], [0, 1]]), (Ellipsis, 0), (Ellipsis, slice(None, 2)),
              (None, Ellipsis), np.array([0, 1]), np.int64(0), slice(None, -1),
              slice(1, 2), slice(0, 9), (slice(None, None, -1), None)]
    return r


def fmt(i):
    return repr(i).replace("array", "")


def make(which, tier):
    """Returns (function set, flat list of arguments, tag)"""
    n = 4 if tier == "quick" else 5
    kind, name, der = which
    s = sir()
    if kind == "poly":
        order, seg = 3, 2
        shape = {"vec": (n,), "mat": (2, 3), "one": ()}[name]
        size = int(np.prod(shape))
        data = np.cos(np.arange(order * seg * size)).reshape(order, seg, *shape)
        f = s.poly.PiecewiseLegendrePoly(data, np.array([-1., .25, 1.]))
        args = np.array([-1, -.3, .25, .2500001, .9, 1.])
    elif kind == "ft":
        order, seg = 4, 2
        shape = {"vec": (n,), "mat": (2, 3), "one": ()}[name]
        size = int(np.prod(shape))
        data = np.sin(1 + np.arange(order * seg * size)).reshape(order, seg, *shape)
        f = s.poly.PiecewiseLegendrePoly(data, np.array([-1., .25, 1.]))
        f = s.poly.PiecewiseLegendreFT(f, "odd", 20)
        args = np.array([1, -1, 19, 21, -401, 5])
    else:
        stat, which_kernel = {"F": ("F", "logistic"), "B": ("B", "logistic"),
                              "R": ("B", "regbose")}[name]
        b = basis(stat, 2.5, 4., 1e-6, which_kernel, n)
        f = getattr(b, kind)
        if kind == "u":
            args = np.array([0, 1e-3, 1.25, 1.7, 2.4, 2.5])
        elif kind == "v":
            args = np.array([-4, -1e-3, 0, 1.7, 3.9, 4.])
        else:
            z = 1 if stat == "F" else 0
            args = np.array([z, -2 - z, 398 + z, 400 + z, -402 - z, 100000 + z])
    for _ in range(der):
        f = f.deriv()
    return f, args


def arrange(args, shape):
    size = int(np.prod(shape))
    return np.resize(args, size).reshape(shape) if size else \
        np.zeros(shape, args.dtype)


def one_by_one(f, args):
    """Table of values, one function and one scalar point at a time"""
    shape = f.shape
    rows = []
    if shape == ():
        vals = [f(a.item()) for a in args]
        for v in vals:
            assert np.shape(v) == (), f"scalar evaluation has shape {np.shape(v)}"
        return np.array(vals)
    for i in np.ndindex(*shape):
        g = f[i[0]] if len(i) == 1 else f[i]
        for a in args:
            v = g(a.item())
            assert np.shape(v) == (), f"scalar evaluation has shape {np.shape(v)}"
            rows.append(v)
    return np.array(rows).reshape(*shape, len(args))


def check(ctx, g, ref, args, shapes, what):
    """g against table ref[..., point]"""
    fshape = ref.shape[:-1]
    ok = ctx.expect(g.shape == fshape, f"{what}: shape {g.shape}, evaluation "
                    f"implies {fshape}")
    ok &= ctx.expect(g.size == int(np.prod(fshape)) and g.ndim == len(fshape),
                     f"{what}: size {g.size}, ndim {g.ndim} for {fshape}")
    if not ok:
        return
    for shp in shapes:
        x = arrange(args, shp)
        pos = arrange(np.arange(len(args)), shp)
        got = np.asarray(g(x))
        ctx.step()
        ctx.trace()
        want = ref[..., pos] if x.size else np.zeros(fshape + shp, ref.dtype)
        scale = np.abs(ref).max(initial=1e-300)
        if not ctx.close(got, want, 1e-13 * scale, f"{what} at argument shape {shp}"):
            return


def singles(ctx, which, tier):
    f, args = make(which, tier)
    ref = one_by_one(f, args)
    ctx.step(ref.size)
    check(ctx, f, ref, args, SHAPES, f"{which}")
    if f.ndim != 1:
        exprs = mat_grammar() if f.ndim == 2 else [(), Ellipsis, None, (None, None)]
    else:
        exprs = index_grammar(f.size)
    for k, ix in enumerate(exprs):
        want = ref[ix if isinstance(ix, tuple) else (ix,)] if f.ndim != 1 else \
            select(ref, ix)
        g = f[ix]
        ctx.step()
        ctx.state(which, fmt(ix))
        # all shapes for a basis of index forms, rotating shapes for the rest
        shapes = SHAPES if k % 7 == 0 or tier != "quick" else [SHAPES[k % 10], (2, 3)]
        check(ctx, g, want, args, shapes, f"{which}[{fmt(ix)}]")
    ctx.sample(f"{which}[{fmt(exprs[-1])}] at shapes {SHAPES}")


def select(ref, ix):
    """numpy indexing of the function axes, keeping the point axis last"""
    n = ref.shape[:-1]
    lab = np.arange(int(np.prod(n))).reshape(n)
    return ref.reshape(-1, ref.shape[-1])[lab[ix]]


def mat_grammar():
    base = [0, -1, 1, slice(None), slice(0, 1), slice(None, None, -1), [0, 1], [1],
            slice(0, 0)]
    r = list(base) + [Ellipsis, None, ()]
    for a in base:
        for b in base + [2, -3, [2, 0], slice(1, None)]:
            if isinstance(a, list) and isinstance(b, list) and len(a) != len(b) \
                    and 1 not in (len(a), len(b)):
                continue
            r.append((a, b))
        r.append((a, None))
        r.append((Ellipsis, a))
        r.append((None, a))
    r += [np.array([[True, False, True], [False, False, True]]),
          np.array([True, False])]
    return r


def mats(ctx, which, tier):
    f, args = make(which, tier)
    ref = one_by_one(f, args)
    check(ctx, f, ref, args, SHAPES, f"{which}")
    for k, ix in enumerate(mat_grammar()):
        g = f[ix]
        ctx.step()
        ctx.state(which, fmt(ix))
        check(ctx, g, select(ref, ix), args, [SHAPES[k % 10], (2, 3), ()],
              f"{which}[{fmt(ix)}]")


def pairs(ctx, which, tier):
    f, args = make(which, tier)
    ref = one_by_one(f, args)
    gram = sub_grammar(f.size, tier != "quick")
    for i, a in enumerate(gram):
        ra = select(ref, a)
        ga = f[a]
        for k, b in enumerate(gram):
            try:
                rb = select(ra, b)
            except IndexError:
                ctx.raises(lambda: ga[b], f"{which}[{fmt(a)}][{fmt(b)}]")
                continue
            gb = ga[b]
            ctx.step()
            ctx.state(which, fmt(a), fmt(b))
            check(ctx, gb, rb, args, [SHAPES[(i + k) % 10], (2, 3)],
                  f"{which}[{fmt(a)}][{fmt(b)}]")


def derivs(ctx, which, tier):
    """Selecting and differentiating commute"""
    f, args = make(which, tier)
    for n in (0, 1, 2):
        d = f.deriv(n)
        ref = one_by_one(d, args)
        for ix in sub_grammar(f.size, True):
            g = f[ix].deriv(n)
            ctx.step(2)
            ctx.state(which, "deriv", n, fmt(ix))
            check(ctx, g, select(ref, ix), args, [(2, 3), ()],
                  f"{which}[{fmt(ix)}].deriv({n})")


def values(ctx, which, tier):
    """value(l, x): all broadcastable shapes of l against x"""
    f, args = make(which, tier)
    ref = one_by_one(f, args)
    n = f.size
    shapes = [(), (1,), (3,), (2, 3), (2, 1), (1, 3), (2, 1, 1), (0,)]
    for sl in shapes:
        for sx in shapes:
            try:
                shp = np.broadcast_shapes(sl, sx)
            except ValueError:
                ctx.raises(lambda: f.value(np.zeros(sl, int), np.full(sx, args[1])),
                           f"{which}.value shapes {sl} {sx}")
                continue
            l = np.resize(np.array([0, n - 1, 1, 2, -1]), int(np.prod(sl))).reshape(sl)
            j = np.resize(np.arange(len(args)), int(np.prod(sx))).reshape(sx)
            want = ref[np.broadcast_to(l, shp), np.broadcast_to(j, shp)]
            x = args[j]
            ctx.state(which, "value", sl, sx)
            ctx.step()
            ctx.trace()
            ctx.close(f.value(l, x), want, 1e-13 * np.abs(ref).max(),
                      f"{which}.value with shapes {sl}, {sx}")
    for l in range(-n, n):
        for j, a in enumerate(args):
            ctx.state(which, "value", l, j)
            ctx.step()
            ctx.close(f.value(l, a.item()), ref[l, j], 1e-13 * np.abs(ref).max(),
                      f"{which}.value({l}, {a})")


def argtypes(ctx, which, tier):
    """Lists, tuples, integer-valued floats, strided and read-only views"""
    f, args = make(which, tier)
    ref = f(args)
    ctx.step()
    scale = 1e-13 * np.abs(ref).max()
    big = np.zeros((len(args), 2, 2), args.dtype)
    big[:, 0, 1] = args
    ro = args.copy()
    ro.flags.writeable = False
    forms = dict(list=args.tolist(), tuple=tuple(args.tolist()), strided=big[:, 0, 1],
                 reversed=args[::-1][::-1], readonly=ro,
                 fortran=np.asfortranarray(args.reshape(3, 2)),
                 transposed=args.reshape(2, 3).T, nested=args.reshape(2, 3).tolist(),
                 big_endian=args.astype(args.dtype.newbyteorder(">")))
    if which[0] == "uhat" or which[0] == "ft":
        forms.update(asfloat=args.astype(float), int32=args.astype(np.int32))
    else:
        forms.update(masked=np.ma.masked_array(args).data)
    for k, x in forms.items():
        pos = {"fortran": np.arange(6).reshape(3, 2),
               "transposed": np.arange(6).reshape(2, 3).T,
               "nested": np.arange(6).reshape(2, 3)}.get(k, np.arange(6))
        ctx.state(which, "form", k)
        ctx.step()
        ctx.trace()
        ctx.close(f(x), ref[..., pos], scale, f"{which} called with {k} argument")


def tasks(tier):
    res = []
    sets = [(k, n, d) for k in ("u", "v", "uhat") for n in "FBR" for d in (0, 1, 2)
            if k != "uhat" or d == 0]
    polys = [("poly", "vec", d) for d in (0, 1)] + [("ft", "vec", 0)]
    for w in sets + polys:
        res.append(Task(singles, w, tier, weight=5))
        res.append(Task(argtypes, w, tier))
        if w[2] == 0:
            res.append(Task(pairs, w, tier, weight=3))
        if w[0] in ("u", "v", "poly"):
            res.append(Task(values, w, tier))
            res.append(Task(derivs, w, tier, weight=2))
    for w in [("poly", "mat", 0), ("poly", "mat", 1), ("ft", "mat", 0)]:
        res.append(Task(mats, w, tier, weight=3))
        res.append(Task(argtypes, w, tier))
    for w in [("poly", "one", 0), ("ft", "one", 0)]:
        res.append(Task(singles, w, tier))
        res.append(Task(argtypes, w, tier))
    return res
