"""Arrays and errors across the Python boundary."""
import gc
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ["GRIDPP_PY"])
import numpy as np  # noqa: E402
import gridpp  # noqa: E402
from engine import prop, require, Discard, Violation, main  # noqa: E402

F = np.float32
NAN = float("nan")
ERRORS = (TypeError, ValueError, RuntimeError, NotImplementedError, OverflowError, IndexError)
STATS = [gridpp.Mean, gridpp.Min, gridpp.Median, gridpp.Max, gridpp.Std, gridpp.Variance, gridpp.Sum, gridpp.Count]
METRICS = [gridpp.Ets, gridpp.Ts, gridpp.Kss, gridpp.Pc, gridpp.Bias, gridpp.Hss]
POLICIES = [gridpp.OneToOne, gridpp.MeanSlope, gridpp.NearestSlope, gridpp.Zero]

# ---------------------------------------------------------------- values


def values(s, shape, kind=None, missing=True):
    """float32 array: small integers, quarters, arbitrary values, or with missing and infinite values"""
    if kind is None:
        kind = s.pick(["int", "quarter", "real", "bool", "wide"])
    n = int(np.prod(shape)) if len(shape) else 1
    if kind == "int":
        v = [float(s.i(-100, 100)) for _ in range(n)]
    elif kind == "quarter":
        v = [s.i(-400, 400) / 4.0 for _ in range(n)]
    elif kind == "bool":
        v = [float(s.i(0, 1)) for _ in range(n)]
    elif kind == "wide":
        v = [s.f(-1, 1) * 10.0 ** s.i(-30, 30) for _ in range(n)]
    else:
        v = [s.f(-50, 50) for _ in range(n)]
    if missing and s.b(0.3):
        for k in range(n):
            if s.b(0.2):
                v[k] = s.pick([NAN, NAN, NAN, float("inf"), -float("inf")])
    return np.array(v, dtype=F).reshape(shape)


def shape(s, ndim, lo=0, hi=6):
    return tuple(s.i(lo, hi) for _ in range(ndim))


FLOAT_TYPES = ["f4", "f8", ">f4", ">f8", "g", "f2", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", ">i4", ">i2", "?", "O"]
INT_TYPES = ["i4", "i8", "i2", "i1", "u1", "u4", "u8", ">i4", ">i8", "f4", "f8", "O", "?"]


def exact(x, dt):
    """x in another type, or None if that changes a value"""
    with np.errstate(all="ignore"):
        if dt[-1] in "i?u" or dt.strip("<>")[0] in "iu?":
            if x.dtype.kind == "f" and not np.all(np.isfinite(x)):
                return None
        try:
            y = x.astype(dt)
            z = y.astype(x.dtype)
        except (ValueError, OverflowError):
            return None
    if x.dtype.kind == "f":
        same = np.array_equal(z, x, equal_nan=True) and np.array_equal(np.signbit(z), np.signbit(x))
    else:
        same = np.array_equal(z, x)
    return y if same else None


def to_list(x, s=None):
    if x.ndim == 1:
        r = [v for v in x.tolist()]
    else:
        r = [to_list(v, s) for v in x]
    if s is not None and s.b(0.3):
        r = tuple(r)
    return r


def represent(s, x, c=None, lists=True):
    """the same numbers, as an object with another type and memory layout"""
    isint = x.dtype.kind == "i"
    kind = s.pick(["array", "array", "array", "list", "rows", "vector"])
    if x.size == 0 or not lists:
        kind = "array"
    if kind == "rows" and x.ndim == 1:
        kind = "list"
    if kind == "vector" and (isint and x.ndim == 3):
        kind = "list"
    if kind == "list":
        if c:
            c.label("list")
        return to_list(x, s)
    if kind == "rows":
        if c:
            c.label("list-of-arrays")
        # a list of arrays: sequences of numbers of the type that the list conversion accepts
        return [r.astype("f8") if not isint else r.astype("i8").tolist() for r in x] if x.ndim == 2 else to_list(x)
    if kind == "vector":
        if c:
            c.label("wrapped-vector")
        cls = {(1, False): gridpp.FloatVector, (2, False): gridpp.FloatVector2, (3, False): gridpp.FloatVector3,
               (1, True): gridpp.IntVector, (2, True): gridpp.IntVector2}[(x.ndim, isint)]
        return cls(to_list(x))
    dt = s.pick(INT_TYPES if isint else FLOAT_TYPES)
    y = exact(x, dt)
    if y is None:
        dt = "i4" if isint else "f8"
        y = x.astype(dt)
    lay = s.pick(["C", "F", "negative", "strided", "offset", "readonly", "swapped", "unaligned", "broadcast"])
    if lay == "F":
        y = np.asfortranarray(y)
    elif lay == "negative":
        idx = tuple(slice(None, None, -1) for _ in range(x.ndim))
        y = y[idx].copy()[idx]
    elif lay == "strided":
        big = np.zeros(tuple(2 * n + 1 for n in x.shape), dtype=y.dtype)
        idx = tuple(slice(1, 2 * n + 1, 2) for n in x.shape)
        big[idx] = y
        y = big[idx]
    elif lay == "offset":
        big = np.zeros(tuple(n + 2 for n in x.shape), dtype=y.dtype)
        idx = tuple(slice(1, n + 1) for n in x.shape)
        big[idx] = y
        y = big[idx]
    elif lay == "readonly":
        y.flags.writeable = False
    elif lay == "swapped" and x.ndim > 1:
        perm = tuple(reversed(range(x.ndim)))
        y = np.ascontiguousarray(y.transpose(perm)).transpose(perm)
    elif lay == "unaligned" and dt != "O":
        raw = bytearray(y.nbytes + 1)
        z = np.frombuffer(raw, dtype=y.dtype, count=y.size, offset=1).reshape(x.shape)
        z[...] = y
        y = z
    elif lay == "broadcast" and x.ndim > 1 and x.shape[0] > 0 and all(np.array_equal(r, x[0], equal_nan=True) for r in x):
        y = np.broadcast_to(y[0], x.shape)
    if c:
        c.label("array " + lay)
        c.label("array " + dt)
    return y


def snapshot(o):
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.strides, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, (list, tuple)):
        return (type(o), [snapshot(x) if isinstance(x, (list, tuple, np.ndarray)) else repr(x) for x in o])
    return repr(list_of(o))


def list_of(o):
    return [list_of(x) for x in o] if hasattr(o, "__iter__") else o


def same(a, b):
    """bitwise the same result (any missing value equals any other)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b


class Repr:
    """R(x): x itself, or (after vary) the same numbers represented differently; remembers the arguments"""

    def __init__(self, s=None, c=None):
        self.s, self.c = s, c
        self.args = []

    def __call__(self, x):
        y = x if self.s is None else represent(self.s, x, self.c)
        self.args.append((y, snapshot(y)))
        return y

    def check(self):
        for y, snap in self.args:
            now = snapshot(y)
            require(now == snap, "an input was modified:", snap, now)


# ---------------------------------------------------------------- 1. round trips


@prop(3000, 60000)
def roundtrip(s, c):
    nd = s.i(1, 3)
    x = values(s, shape(s, nd))
    if s.b(0.2) and nd > 1 and x.shape[0] > 0:
        x[...] = x[0]
    R = Repr(s, c)
    y = gridpp.Identity().forward(R(x))
    want = x
    # the sizes of the inner dimensions of an array without elements are not known to the library
    if x.size == 0 and nd > 1:
        k = next(i for i, n in enumerate(x.shape) if n == 0)
        want = np.zeros(x.shape[:k + 1] + (0,) * (nd - k - 1), dtype=F)
    require(isinstance(y, np.ndarray) and y.dtype == F, "type", type(y))
    require(y.shape == want.shape, "shape", y.shape, want.shape)
    require(np.array_equal(y, want, equal_nan=True), "values", y, want)
    R.check()
    c.nontrivial(x.size > 1 and len(np.unique(x)) > 1)
    c.label("%dD" % nd)
    c.label("empty", x.size == 0)
    c.label("missing", bool(np.isnan(x).any()))
    c.log("shape", x.shape, "values", x.ravel()[:4])


@prop(1500, 30000)
def roundtrip_sets(s, c):
    """Points and Grid give back what they were made of; they do not change when the arrays do"""
    cart = s.b(0.3)
    t = gridpp.Cartesian if cart else gridpp.Geodetic
    R = Repr(s, c)
    grid = s.b()
    sh = shape(s, 2, 1, 5) if grid else shape(s, 1, 1, 8)
    if cart:
        la, lo = values(s, sh, "quarter", False), values(s, sh, "quarter", False)
    else:
        la = np.array([s.i(-360, 360) / 4.0 for _ in range(int(np.prod(sh)))], dtype=F).reshape(sh)
        lo = np.array([s.i(-720, 720) / 4.0 for _ in range(int(np.prod(sh)))], dtype=F).reshape(sh)
    el, lf = values(s, sh), values(s, sh)
    n = s.i(2, 4)
    args = [la, lo, el, lf][:n]
    given = [R(a) for a in args]
    if n == 4:
        o = (gridpp.Grid if grid else gridpp.Points)(*(given + [t]))
    else:
        if cart:
            raise Discard()
        o = (gridpp.Grid if grid else gridpp.Points)(*given)
    R.check()
    for g in given:
        if isinstance(g, np.ndarray) and g.flags.writeable:
            g[...] = 0
    nanarr = np.full(sh, NAN, dtype=F)
    for got, want, what in [(o.get_lats(), la, "lats"), (o.get_lons(), lo, "lons"),
                            (o.get_elevs(), el if n > 2 else nanarr, "elevs"), (o.get_lafs(), lf if n > 3 else nanarr, "lafs")]:
        require(got.dtype == F and got.shape == sh and np.array_equal(got, want, equal_nan=True), what, got, want)
    require(o.get_coordinate_type() == t, "type")
    if grid:
        require(tuple(o.size()) == sh, "size", o.size())
        flat = o.to_points()
        require(np.array_equal(flat.get_lats(), la.ravel()), "to_points")
        k = s.i(0, la.size - 1)
        yx = (k // sh[1], k % sh[1])
        p = o.get_point(int(yx[0]), int(yx[1]))
    else:
        require(o.size() == sh[0], "size")
        k = s.i(0, sh[0] - 1)
        p = o.get_point(k)
        idx = np.array([s.i(0, sh[0] - 1) for _ in range(s.i(1, 4))], dtype="i4")
        sub = o.subset(R(idx))
        require(np.array_equal(sub.get_lats(), la[idx]) and np.array_equal(sub.get_elevs(), o.get_elevs()[idx], equal_nan=True), "subset")
    require(F(p.lat) == la.ravel()[k] and F(p.lon) == lo.ravel()[k], "get_point")
    pe = F(p.elev)
    we = (el if n > 2 else nanarr).ravel()[k]
    require(pe == we or (pe != pe and we != we), "elevation of the point", pe, we)
    c.nontrivial(la.size > 1 and len(np.unique(la)) > 1)
    c.label("grid" if grid else "points")


# ---------------------------------------------------------------- 2. every representation, the same result


def coords(s, n):
    return (np.array([s.i(-160, 160) / 8.0 + 50 for _ in range(n)], dtype=F), np.array([s.i(-160, 160) / 8.0 + 10 for _ in range(n)], dtype=F))


def mkpoints(s, n):
    la, lo = coords(s, n)
    el, lf = values(s, (n,), "quarter", False), values(s, (n,), "bool", False)
    return la, lo, el, lf


def mkgrid(s, ny, nx):
    y0, x0 = s.i(-80, 80) / 8.0 + 50, s.i(-80, 80) / 8.0 + 10
    dy, dx = s.i(1, 8) / 8.0, s.i(1, 8) / 8.0
    lo, la = np.meshgrid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny))
    return la.astype(F), lo.astype(F), values(s, (ny, nx), "quarter", False), values(s, (ny, nx), "bool", False)


class World:
    def __init__(self, s):
        self.s = s
        self.ny, self.nx, self.n, self.ne, self.no = s.i(1, 5), s.i(1, 5), s.i(1, 6), s.i(1, 4), s.i(1, 6)
        self.oy, self.ox = s.i(1, 4), s.i(1, 4)
        self.g, self.og = mkgrid(s, self.ny, self.nx), mkgrid(s, self.oy, self.ox)
        self.p, self.op = mkpoints(s, self.n), mkpoints(s, self.no)

    def grid(self, R):
        return gridpp.Grid(*[R(a) for a in self.g])

    def ogrid(self, R):
        return gridpp.Grid(*[R(a) for a in self.og])

    def points(self, R):
        return gridpp.Points(*[R(a) for a in self.p])

    def opoints(self, R):
        return gridpp.Points(*[R(a) for a in self.op])

    def f2(self, **k):
        return values(self.s, (self.ny, self.nx), **k)

    def f3(self, **k):
        return values(self.s, (self.ny, self.nx, self.ne), **k)

    def l3(self, **k):
        # (layer, y, x): as the downscaling functions use it
        return values(self.s, (self.ne, self.ny, self.nx), **k)

    def o1(self, **k):
        return values(self.s, (self.n,), **k)

    def o2(self, **k):
        return values(self.s, (self.n, self.ne), **k)

    def radius(self):
        return float(self.s.pick([0.0, 1000.0, 20000.0, 100000.0, 1e6]))

    def structure(self):
        s = self.s
        h = float(s.pick([5000, 50000, 200000]))
        k = s.i(0, 4)
        if k == 0:
            return gridpp.BarnesStructure(h, 100.0, 0.5)
        if k == 1:
            return gridpp.SoarStructure(h, 0.0, 0.0)
        if k == 2:
            return gridpp.CressmanStructure(h, 100.0, 0.5)
        if k == 3:
            return gridpp.CrossValidation(gridpp.BarnesStructure(h), 1000.0)
        return gridpp.MultipleStructure(gridpp.BarnesStructure(h), gridpp.CressmanStructure(h, 200.0), gridpp.LinearStructure(h, 0.0, 0.5))


def pos(s, sh, lo=0.125, hi=4):
    return np.array([lo + s.i(0, int((hi - lo) * 8)) / 8.0 for _ in range(int(np.prod(sh)))], dtype=F).reshape(sh)


def probs(s, sh):
    return np.array([s.i(0, 16) / 16.0 for _ in range(int(np.prod(sh)))], dtype=F).reshape(sh)


def temps(s, sh):
    return np.array([s.i(960, 1240) / 4.0 for _ in range(int(np.prod(sh)))], dtype=F).reshape(sh)


def ints(s, sh, lo, hi):
    return np.array([s.i(lo, hi) for _ in range(int(np.prod(sh)))], dtype="i4").reshape(sh)


def asc(s, n, lo=-50):
    return (lo + np.cumsum([s.i(1, 16) / 4.0 for _ in range(n)])).astype(F)


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


# each operation draws its arguments once, and returns a function of the representation
@op
def nearest_gg(s, w):
    v = w.f2()
    return lambda R: gridpp.nearest(w.grid(R), w.ogrid(R), R(v))


@op
def nearest_gp(s, w):
    v = w.f2()
    return lambda R: gridpp.nearest(w.grid(R), w.points(R), R(v))


@op
def nearest_gp3(s, w):
    v = w.l3()
    return lambda R: gridpp.nearest(w.grid(R), w.points(R), R(v))


@op
def nearest_gg3(s, w):
    v = w.l3()
    return lambda R: gridpp.nearest(w.grid(R), w.ogrid(R), R(v))


@op
def nearest_pp(s, w):
    v = w.o1()
    return lambda R: gridpp.nearest(w.points(R), w.opoints(R), R(v))


@op
def nearest_pg2(s, w):
    v = values(s, (w.ne, w.n))
    return lambda R: gridpp.nearest(w.points(R), w.ogrid(R), R(v))


@op
def bilinear_gp(s, w):
    v = w.f2()
    return lambda R: gridpp.bilinear(w.grid(R), w.points(R), R(v))


@op
def bilinear_gg3(s, w):
    v = w.l3()
    return lambda R: gridpp.bilinear(w.grid(R), w.ogrid(R), R(v))


@op
def downscaling_gg(s, w):
    v = w.f2()
    d = s.pick([gridpp.Nearest, gridpp.Bilinear])
    return lambda R: gridpp.downscaling(w.grid(R), w.ogrid(R), R(v), d)


@op
def simple_gradient_gp(s, w):
    v, g = w.f2(), s.i(-8, 8) / 8.0
    return lambda R: gridpp.simple_gradient(w.grid(R), w.points(R), R(v), g)


@op
def full_gradient_gp(s, w):
    v, a, b = w.f2(), w.f2(), w.f2()
    return lambda R: gridpp.full_gradient(w.grid(R), w.points(R), R(v), R(a), R(b))


@op
def full_gradient_gg3(s, w):
    v, a, b = w.l3(), w.l3(), w.l3()
    return lambda R: gridpp.full_gradient(w.grid(R), w.ogrid(R), R(v), R(a), R(b))


@op
def smart(s, w):
    v, st = w.f2(), w.structure()
    return lambda R: gridpp.smart(w.grid(R), w.ogrid(R), R(v), 3, st)


@op
def counts(s, w):
    r = w.radius()
    k = s.i(0, 3)
    return lambda R: [lambda: gridpp.count(w.grid(R), w.points(R), r), lambda: gridpp.count(w.grid(R), w.ogrid(R), r),
                      lambda: gridpp.count(w.points(R), w.grid(R), r), lambda: gridpp.count(w.points(R), w.opoints(R), r)][k]()


@op
def distances(s, w):
    k, n = s.i(0, 3), s.i(1, 3)
    return lambda R: [lambda: gridpp.distance(w.grid(R), w.points(R), n), lambda: gridpp.distance(w.grid(R), w.ogrid(R), n),
                      lambda: gridpp.distance(w.points(R), w.grid(R), n), lambda: gridpp.distance(w.points(R), w.opoints(R), n)][k]()


@op
def neighbours_with_distance(s, w):
    la, lo, r = float(w.op[0][0]), float(w.op[1][0]), w.radius()
    g = s.b()
    return lambda R: (w.grid(R) if g else w.points(R)).get_neighbours_with_distance(la, lo, r)


@op
def closest_neighbours(s, w):
    la, lo, n = float(w.op[0][0]), float(w.op[1][0]), s.i(0, 7)
    g = s.b()
    return lambda R: (w.grid(R) if g else w.points(R)).get_closest_neighbours(la, lo, n)


@op
def box(s, w):
    la, lo = float(w.op[0][0]), float(w.op[1][0])
    return lambda R: w.grid(R).get_box(la, lo)


@op
def gridding(s, w):
    v, r, m, st = w.o1(), w.radius(), s.i(0, 2), s.pick(STATS)
    g = s.b()
    return lambda R: gridpp.gridding(w.grid(R), w.points(R), R(v), r, m, st) if g else gridpp.gridding(w.opoints(R), w.points(R), R(v), r, m, st)


@op
def gridding_nearest(s, w):
    v, m, st = w.o1(), s.i(1, 2), s.pick(STATS)
    return lambda R: gridpp.gridding_nearest(w.grid(R), w.points(R), R(v), m, st)


@op
def fill(s, w):
    v, r = w.f2(), pos(s, (w.n,), 0, 1) * F(1e5)
    val, out = s.i(0, 9), s.b()
    return lambda R: gridpp.fill(w.grid(R), R(v), w.points(R), R(r), val, out)


@op
def doping_square(s, w):
    v, o, h = w.f2(), w.o1(), ints(s, (w.n,), 0, 3)
    return lambda R: gridpp.doping_square(w.grid(R), R(v), w.points(R), R(o), R(h))


@op
def doping_circle(s, w):
    v, o, r = w.f2(), w.o1(), pos(s, (w.n,), 0, 1) * F(1e5)
    return lambda R: gridpp.doping_circle(w.grid(R), R(v), w.points(R), R(o), R(r), 20.0)


@op
def fill_missing(s, w):
    v = w.f2()
    return lambda R: gridpp.fill_missing(R(v))


@op
def neighbourhood(s, w):
    v = w.f2() if s.b() else w.f3()
    h, st = s.i(0, 3), s.pick(STATS)
    f = s.pick([gridpp.neighbourhood, gridpp.neighbourhood_brute_force])
    return lambda R: f(R(v), h, st)


@op
def neighbourhood_quantile(s, w):
    v = w.f2() if s.b() else w.f3()
    h, q = s.i(0, 3), s.i(0, 8) / 8.0
    return lambda R: gridpp.neighbourhood_quantile(R(v), q, h)


@op
def neighbourhood_quantile_fast(s, w):
    v = w.f2() if s.b() else w.f3()
    h, t = s.i(0, 3), asc(s, s.i(1, 6))
    q = probs(s, (w.ny, w.nx)) if s.b() else None
    lev = s.i(0, 8) / 8.0
    return lambda R: gridpp.neighbourhood_quantile_fast(R(v), lev if q is None else R(q), h, R(t))


@op
def neighbourhood_thresholds(s, w):
    v = w.f2() if s.b() else w.f3()
    n = s.i(1, 6)
    return lambda R: gridpp.get_neighbourhood_thresholds(R(v), n)


@op
def neighbourhood_search(s, w):
    a, b, m = w.f2(), probs(s, (w.ny, w.nx)), ints(s, (w.ny, w.nx), 0, 1)
    h, use = s.i(0, 3), s.b()
    return lambda R: gridpp.neighbourhood_search(R(a), R(b), h, 0.25, 0.75, 0.125, R(m)) if use else gridpp.neighbourhood_search(R(a), R(b), h, 0.25, 0.75, 0.125)


@op
def calc_gradient(s, w):
    a, b, h = w.f2(), w.f2(), s.i(0, 3)
    t = s.pick([gridpp.MinMax, gridpp.LinearRegression])
    return lambda R: gridpp.calc_gradient(R(a), R(b), t, h, 2, 0.5, -1)


@op
def window(s, w):
    v, n, st = w.f2(), s.i(1, 5), s.pick(STATS)
    a, b, d = s.b(), s.b(), s.b()
    if not a and n % 2 == 0:
        n += 1
    return lambda R: gridpp.window(R(v), n, st, a, b, d)


@op
def quantile_mapping_curve(s, w):
    n = s.i(2, 8)
    a, b, q = values(s, (n,)), values(s, (n,)), np.sort(probs(s, (s.i(1, 5),)))
    use = s.b()
    return lambda R: gridpp.quantile_mapping_curve(R(a), R(b), R(q)) if use else gridpp.quantile_mapping_curve(R(a), R(b))


@op
def metric_optimizer_curve(s, w):
    n = s.i(2, 8)
    a, b, t, m = values(s, (n,), missing=False), values(s, (n,), missing=False), asc(s, s.i(1, 4)), s.pick(METRICS)
    return lambda R: gridpp.metric_optimizer_curve(R(a), R(b), R(t), m)


@op
def apply_curve(s, w):
    n = s.i(1, 5)
    a, b = values(s, (n,), "quarter", False), asc(s, n)
    v = values(s, shape(s, s.i(1, 2), 1), "quarter")
    p, q = s.pick(POLICIES), s.pick(POLICIES)
    return lambda R: gridpp.apply_curve(R(v), R(a), R(b), p, q)


@op
def apply_curve_fields(s, w):
    n = s.i(1, 4)
    a = values(s, (w.ny, w.nx, n), "quarter", False)
    b = np.stack([np.stack([asc(s, n) for _ in range(w.nx)]) for _ in range(w.ny)])
    v, p, q = w.f2(), s.pick(POLICIES), s.pick(POLICIES)
    return lambda R: gridpp.apply_curve(R(v), R(a), R(b), p, q)


@op
def monotonize_curve(s, w):
    n = s.i(1, 8)
    a, b = values(s, (n,), "int", False), values(s, (n,), "int", False)
    return lambda R: gridpp.monotonize_curve(R(a), R(b))


@op
def calc_score(s, w):
    n = s.i(1, 8)
    a, b, m, t = values(s, (n,)), values(s, (n,)), s.pick(METRICS), s.i(-5, 5)
    return lambda R: gridpp.calc_score(R(a), R(b), float(t), m)


@op
def optimal_threshold(s, w):
    n = s.i(1, 8)
    a, b, m, t = values(s, (n,), "int", False), values(s, (n,), "int", False), s.pick(METRICS), s.i(-5, 5)
    return lambda R: gridpp.get_optimal_threshold(R(a), R(b), float(t), m)


@op
def calc_statistic(s, w):
    v = values(s, shape(s, s.i(1, 2), 1, 6))
    st = s.pick(STATS)
    return lambda R: gridpp.calc_statistic(R(v), st)


@op
def calc_quantile(s, w):
    k = s.i(1, 3)
    v = values(s, shape(s, k, 1, 5))
    q = probs(s, v.shape[:2]) if k == 3 else s.i(0, 16) / 16.0
    return lambda R: gridpp.calc_quantile(R(v), R(q) if k == 3 else q)


@op
def interpolate(s, w):
    n = s.i(1, 6)
    x, y, v = asc(s, n), values(s, (n,)), values(s, (s.i(1, 6),), "quarter")
    return lambda R: gridpp.interpolate(R(v), R(x), R(y))


@op
def bounds(s, w):
    x, v = asc(s, s.i(1, 6)), s.i(-60, 0) * 1.0
    return lambda R: (gridpp.get_lower_index(v, R(x)), gridpp.get_upper_index(v, R(x)), gridpp.num_missing_values(R(w.g[0])))


@op
def even_quantiles(s, w):
    v, n = values(s, (s.i(1, 8),), missing=False), s.i(1, 6)
    return lambda R: gridpp.calc_even_quantiles(R(v), n)


@op
def convert_coordinates(s, w):
    return lambda R: gridpp.convert_coordinates(R(w.p[0]), R(w.p[1]), gridpp.Geodetic)


@op
def gamma_inv(s, w):
    n = s.i(1, 5)
    a, b, d = np.array([s.i(1, 15) / 16.0 for _ in range(n)], dtype=F), pos(s, (n,)), pos(s, (n,))
    return lambda R: gridpp.gamma_inv(R(a), R(b), R(d))


@op
def transforms(s, w):
    t = s.pick([lambda: gridpp.Log(), lambda: gridpp.BoxCox(0.5), lambda: gridpp.BoxCox(-0.25), lambda: gridpp.Gamma(1.5, 2.0), lambda: gridpp.Identity()])()
    v = pos(s, shape(s, s.i(1, 3), 1, 4))
    back = s.b()
    return lambda R: t.backward(R(v)) if back else t.forward(R(v))


@op
def meteorology(s, w):
    n = s.i(1, 6)
    t, d, rh, p, z = temps(s, (n,)), temps(s, (n,)), probs(s, (n,)), pos(s, (n,), 1, 4) * F(25000), values(s, (n,), "quarter", False)
    u, v = values(s, (n,), "real"), values(s, (n,), "real")
    k = s.i(0, 7)
    return lambda R: [lambda: gridpp.dewpoint(R(t), R(rh)), lambda: gridpp.relative_humidity(R(t), R(d)), lambda: gridpp.wetbulb(R(t), R(p), R(rh)),
                      lambda: gridpp.pressure(R(z), R(z[::-1].copy()), R(p), R(t)), lambda: gridpp.qnh(R(p), R(z)),
                      lambda: gridpp.sea_level_pressure(R(p), R(z), R(t), R(rh), R(d)), lambda: gridpp.wind_speed(R(u), R(v)),
                      lambda: gridpp.wind_direction(R(u), R(v))][k]()


@op
def downscale_probability(s, w):
    v, t, o = w.f3(), values(s, (w.oy, w.ox)), s.pick([gridpp.Lt, gridpp.Leq, gridpp.Gt, gridpp.Geq])
    return lambda R: gridpp.downscale_probability(w.grid(R), w.ogrid(R), R(v), R(t), o)


@op
def mask_threshold(s, w):
    a, b, d, t = w.f3(), w.f3(), w.f3(), values(s, (w.oy, w.ox))
    o, st, q = s.pick([gridpp.Lt, gridpp.Leq, gridpp.Gt, gridpp.Geq]), s.pick(STATS), s.i(0, 8) / 8.0
    k = s.b()
    return lambda R: (gridpp.mask_threshold_downscale_quantile(w.grid(R), w.ogrid(R), R(a), R(b), R(d), R(t), o, q) if k else
                      gridpp.mask_threshold_downscale_consensus(w.grid(R), w.ogrid(R), R(a), R(b), R(d), R(t), o, st))


@op
def neighbourhood_score(s, w):
    v, r, m = w.f2(missing=False), w.o1(missing=False), s.pick(METRICS)
    return lambda R: gridpp.neighbourhood_score(w.grid(R), w.points(R), R(v), R(r), 1, m, 0.5)


@op
def optimal_interpolation(s, w):
    b, o, r, pb, st, m = w.f2(), w.o1(), pos(s, (w.n,)), w.o1(), w.structure(), s.i(0, 4)
    return lambda R: gridpp.optimal_interpolation(w.grid(R), R(b), w.points(R), R(o), R(r), R(pb), st, m)


@op
def optimal_interpolation_points(s, w):
    b, o, r, pb, st, m = values(s, (w.no,)), w.o1(), pos(s, (w.n,)), w.o1(), w.structure(), s.i(0, 4)
    ex = s.b()
    return lambda R: gridpp.optimal_interpolation(w.opoints(R), R(b), w.points(R), R(o), R(r), R(pb), st, m, ex)


@op
def optimal_interpolation_full(s, w):
    b, bv, o, ov, pb, pv, st = w.f2(), pos(s, (w.ny, w.nx)), w.o1(), pos(s, (w.n,)), w.o1(), pos(s, (w.n,)), w.structure()
    return lambda R: gridpp.optimal_interpolation_full(w.grid(R), R(b), R(bv), w.points(R), R(o), R(ov), R(pb), R(pv), st, 5)


@op
def optimal_interpolation_full_points(s, w):
    b, bv, o, ov, pb, pv, st = values(s, (w.no,)), pos(s, (w.no,)), w.o1(), pos(s, (w.n,)), w.o1(), pos(s, (w.n,)), w.structure()
    return lambda R: gridpp.optimal_interpolation_full(w.opoints(R), R(b), R(bv), w.points(R), R(o), R(ov), R(pb), R(pv), st, 5)


@op
def optimal_interpolation_ensi(s, w):
    b, o, sd, pb, st = w.f3(kind="quarter"), w.o1(kind="quarter"), pos(s, (w.n,)), w.o2(kind="quarter"), w.structure()
    return lambda R: gridpp.optimal_interpolation_ensi(w.grid(R), R(b), w.points(R), R(o), R(sd), R(pb), st, 5)


@op
def local_distribution_correction(s, w):
    b, o, pb, st = w.f2(), w.o1(), w.o1(), w.structure()
    return lambda R: gridpp.local_distribution_correction(w.grid(R), R(b), w.points(R), R(o), R(pb), st, 0.125, 0.875, 0)


@op
def structure_fields(s, w):
    h, v, l = pos(s, (w.ny, w.nx), 1, 4) * F(10000), pos(s, (w.ny, w.nx), 1, 4) * F(100), pos(s, (w.ny, w.nx))
    cls = s.pick([gridpp.BarnesStructure, gridpp.SoarStructure, gridpp.ToarStructure, gridpp.PowerlawStructure])
    i, j = s.i(0, w.n - 1), s.i(0, w.n - 1)

    def f(R):
        st, p = cls(w.grid(R), R(h), R(v), R(l)), w.points(R)
        return (st.corr(p.get_point(i), p.get_point(j)), st.localization_distance(p.get_point(i)))
    return f


@op
def staticcorr(s, w):
    st = w.structure()
    return lambda R: gridpp.staticcorr_points(w.points(R), w.opoints(R), st, 4)


def outcome(f, R):
    try:
        return ("value", f(R))
    except ERRORS as e:
        return ("error", type(e).__name__, str(e))


@prop(6000, 150000)
def representations(s, c):
    """every operation: any representation of the same numbers gives the same result, and is left alone"""
    name = s.pick(sorted(OPS))
    w = World(s)
    f = OPS[name](s, w)
    R0 = Repr()
    want = outcome(f, R0)
    R0.check()
    R1 = Repr(s, c)
    got = outcome(f, R1)
    R1.check()
    c.label(name)
    c.label("refused", want[0] == "error")
    require(same(want, got), name, "gives", got, "instead of", want)
    arr = want[1] if want[0] == "value" else None
    while isinstance(arr, (list, tuple)) and arr:
        arr = arr[0]
    c.nontrivial(want[0] == "value" and (not isinstance(arr, np.ndarray) or len(np.unique(arr[~np.isnan(arr)] if arr.dtype.kind == "f" else arr)) > 1))
    c.log(name, "on", [type(a[0]).__name__ for a in R1.args])


@prop(2500, 50000)
def arguments_kept(s, c):
    """results do not share memory with arguments or earlier results, and repeated calls agree"""
    name = s.pick(sorted(OPS))
    w = World(s)
    f = OPS[name](s, w)
    a = outcome(f, Repr())
    flat = [x for x in (a[1] if isinstance(a[1], (list, tuple)) else [a[1]]) if isinstance(x, np.ndarray)]
    keep = [x.copy() for x in flat]
    R = Repr()
    b = outcome(f, R)
    require(same(a, b), name, "differs when repeated", a, b)
    for x in [x for x in (b[1] if isinstance(b[1], (list, tuple)) else [b[1]]) if isinstance(x, np.ndarray)]:
        require(x.flags.writeable and x.flags.owndata and sys.getrefcount(x) <= 6, "result is not an array of its own", x.flags, sys.getrefcount(x))
        x[...] = 77
    R.check()
    gc.collect()
    for x, k in zip(flat, keep):
        require(np.array_equal(x, k, equal_nan=x.dtype.kind == "f"), "an earlier result has changed")
    c.nontrivial(bool(flat) and flat[0].size > 1)
    c.label(name)


# ---------------------------------------------------------------- 3. errors


BAD = [("none", lambda s: None), ("string", lambda s: "abc"), ("strings", lambda s: np.array(["a", "b"])), ("list-of-strings", lambda s: ["a", "b"]),
       ("object", lambda s: object()), ("list-none", lambda s: [1.0, None]), ("nested-none", lambda s: [[1.0, None]]), ("deep-none", lambda s: [[[1.0], [None]]]),
       ("dict", lambda s: {"a": 1}), ("scalar", lambda s: 1.5), ("zero-d", lambda s: np.array(2.0)), ("records", lambda s: np.array([(1, 2)], dtype=[("a", "f4"), ("b", "f4")])),
       ("4D", lambda s: np.zeros((1, 2, 1, 2))), ("1D", lambda s: np.zeros(s.i(0, 4))), ("2D", lambda s: np.zeros((s.i(0, 3), s.i(0, 3)))), ("3D", lambda s: np.zeros((s.i(0, 2), s.i(0, 3), 2))),
       ("ragged", lambda s: [[1.0, 2.0], [3.0]]), ("ragged3", lambda s: [[[1.0, 2.0]], [[3.0], [4.0]]]), ("empty-list", lambda s: []), ("empty-lists", lambda s: [[], []]),
       ("objects", lambda s: np.array([object(), None], dtype=object)), ("huge", lambda s: [10 ** 400]), ("complex", lambda s: [1j]), ("bytes", lambda s: b"abc"),
       ("float32-list", lambda s: [F(1), F(2)]), ("generator", lambda s: iter([1.0, 2.0])), ("grid", lambda s: gridpp.Grid([[0.0, 1.0]], [[0.0, 0.0]])), ("points", lambda s: gridpp.Points([0.0], [1.0])),
       ("vector", lambda s: gridpp.FloatVector([1.0, 2.0])), ("vector2", lambda s: gridpp.FloatVector2([[1.0, 2.0]])), ("ivector", lambda s: gridpp.IntVector([1, 2])),
       ("class", lambda s: gridpp.Grid), ("nan", lambda s: NAN), ("int", lambda s: 3), ("object-array", lambda s: np.array([[1.5, "x"]], dtype=object)), ("dates", lambda s: np.array(["2020-01-01"], dtype="M8[D]"))]


class Spoil(Repr):
    """replaces the k-th array by an object that is not (or hardly) an array"""

    def __init__(self, s, k):
        super().__init__()
        self.src, self.k, self.what = s, k, None

    def __call__(self, x):
        k = len(self.args)
        self.args.append((x, None))
        if k != self.k:
            return x
        self.what, make = self.src.pick(BAD)
        return make(self.src)


@prop(6000, 150000)
def bad_arguments(s, c):
    """objects that are not arrays, or of another dimension: an ordinary exception or a result, and no lasting damage"""
    name = s.pick(sorted(OPS))
    w = World(s)
    f = OPS[name](s, w)
    R = Repr()
    want = outcome(f, R)
    B = Spoil(s, s.i(0, max(0, len(R.args) - 1)))
    try:
        f(B)
        got = "value"
    except ERRORS as e:
        got = type(e).__name__
        require(len(str(e)) > 0, name, "raises", got, "without a message")
    again = outcome(f, Repr())
    require(same(want, again), name, "differs after bad arguments", want, again)
    c.label(B.what or "no array")
    c.label(got)
    c.nontrivial(got != "value")
    c.log(name, "argument", B.k, "is", B.what, "->", got)


class Resize(Repr):
    """gives the k-th array another size"""

    def __init__(self, s, k):
        super().__init__()
        self.src, self.k, self.hit = s, k, False

    def __call__(self, x):
        k = len(self.args)
        self.args.append((x, None))
        if k != self.k:
            return x
        self.hit = True
        ax = self.src.i(0, x.ndim - 1)
        y = np.concatenate([x, np.take(x, [0], axis=ax)], axis=ax) if self.src.b() or x.shape[ax] < 2 else np.delete(x, 0, axis=ax)
        return represent(self.src, y)


@prop(4000, 80000)
def sizes(s, c):
    """arrays whose sizes do not match: a result or an exception, never a crash, and no lasting damage"""
    name = s.pick(sorted(OPS))
    w = World(s)
    f = OPS[name](s, w)
    R = Repr()
    want = outcome(f, R)
    B = Resize(s, s.i(0, max(0, len(R.args) - 1)))
    got = outcome(f, B)
    again = outcome(f, Repr())
    require(same(want, again), name, "differs after bad sizes", want, again)
    c.label(got[0] if got[0] == "value" else got[1])
    c.label(name)
    c.nontrivial(got[0] == "error")


def invalid_calls(s):
    """calls that the library refuses with std::invalid_argument"""
    w = World(s)
    one = Repr()
    x2, x3 = w.f2(), w.f3()
    big = values(s, (w.ny + 1, w.nx))
    bigp = values(s, (w.n + 1,))
    st = gridpp.BarnesStructure(10000.0)
    g, p = w.grid(one), w.points(one)
    return [("half width", lambda: gridpp.neighbourhood(x2, -s.i(1, 5), gridpp.Mean)), ("half width 3D", lambda: gridpp.neighbourhood(x3, -1, gridpp.Mean)),
            ("size", lambda: gridpp.nearest(g, p, big)), ("size of grid", lambda: gridpp.bilinear(g, w.ogrid(one), big)),
            ("points", lambda: gridpp.nearest(p, g, bigp)), ("gridding", lambda: gridpp.gridding(g, p, bigp, 1000.0, 1, gridpp.Mean)),
            ("radius", lambda: gridpp.gridding(g, p, w.o1(), -1.0, 1, gridpp.Mean)), ("lats", lambda: gridpp.Points(w.p[0], np.zeros(w.n + 1))),
            ("elevs", lambda: gridpp.Points(w.p[0], w.p[1], np.zeros(w.n + 1))), ("grid sizes", lambda: gridpp.Grid(w.g[0], big)),
            ("scale", lambda: gridpp.BarnesStructure(-1.0)), ("scale nan", lambda: gridpp.BarnesStructure(NAN)),
            ("analysis", lambda: gridpp.optimal_interpolation(g, big, p, w.o1(), pos(s, (w.n,)), w.o1(), st, 5)),
            ("max points", lambda: gridpp.optimal_interpolation(g, x2, p, w.o1(), pos(s, (w.n,)), w.o1(), st, -1)),
            ("observations", lambda: gridpp.optimal_interpolation(g, x2, p, bigp, pos(s, (w.n,)), w.o1(), st, 5)),
            ("pressure", lambda: gridpp.dewpoint(np.zeros(2), np.zeros(3))), ("wind", lambda: gridpp.wind_speed(np.zeros(s.i(1, 4)), np.zeros(5))),
            ("BoxCox gamma", lambda: gridpp.Gamma(-1.0, 1.0)), ("quantile", lambda: gridpp.neighbourhood_quantile(x2, 1.5, 1)),
            ("curve", lambda: gridpp.apply_curve(np.zeros(2), np.zeros(2), np.zeros(3), gridpp.Zero, gridpp.Zero)),
            ("gradient", lambda: gridpp.calc_gradient(x2, big, gridpp.MinMax, 1)), ("fill", lambda: gridpp.fill(g, big, p, np.zeros(w.n), 1.0, False)),
            ("coordinate types", lambda: gridpp.count(g, gridpp.Points([1.0], [1.0], [1.0], [1.0], gridpp.Cartesian), 1.0))]


@prop(1500, 30000)
def error_types(s, c):
    """arguments that the library refuses become ValueError, with its message"""
    calls = invalid_calls(s)
    name, f = calls[s.draw(len(calls))]
    try:
        f()
    except ValueError as e:
        require(len(str(e)) > 3, "no message")
        c.label(name)
        c.nontrivial()
        c.log(name, "->", e)
        return
    except Exception as e:
        raise Violation("%s: %s instead of ValueError" % (name, type(e).__name__))
    raise Violation("%s is not refused" % name)


@prop(50, 200)
def not_implemented(s, c):
    try:
        gridpp.test_not_implemented_exception()
    except RuntimeError:
        c.nontrivial(True)
        s.draw(1000000)
        return
    raise Violation("not implemented: no RuntimeError")


# ---------------------------------------------------------------- 4. overloads and references


SCALARS = [("dewpoint", lambda s: [temps(s, ()), probs(s, ())], gridpp.dewpoint), ("relative_humidity", lambda s: [temps(s, ()), temps(s, ())], gridpp.relative_humidity),
           ("wetbulb", lambda s: [temps(s, ()), pos(s, (), 1, 4) * F(25000), probs(s, ())], gridpp.wetbulb),
           ("pressure", lambda s: [values(s, (), "quarter"), values(s, (), "quarter"), pos(s, (), 1, 4) * F(25000), temps(s, ())], gridpp.pressure),
           ("qnh", lambda s: [pos(s, (), 1, 4) * F(25000), values(s, (), "quarter")], gridpp.qnh),
           ("sea_level_pressure", lambda s: [pos(s, (), 1, 4) * F(25000), values(s, (), "quarter", False), temps(s, ()), probs(s, ()), temps(s, ())], gridpp.sea_level_pressure),
           ("wind_speed", lambda s: [values(s, ()), values(s, ())], gridpp.wind_speed), ("wind_direction", lambda s: [values(s, ()), values(s, ())], gridpp.wind_direction),
           ("log", lambda s: [pos(s, ())], lambda x: gridpp.Log().forward(x)), ("exp", lambda s: [values(s, (), "quarter")], lambda x: gridpp.Log().backward(x)),
           ("boxcox", lambda s: [pos(s, ())], lambda x: gridpp.BoxCox(0.25).forward(x)), ("gamma", lambda s: [pos(s, ())], lambda x: gridpp.Gamma(2.0, 1.5).forward(x)),
           ("interpolate", lambda s: [values(s, (), "quarter")], lambda x: gridpp.interpolate(x, np.arange(-50, 50, 7), np.cos(np.arange(-50, 50, 7)))),
           ("apply_curve", lambda s: [values(s, (), "quarter")], lambda x: gridpp.apply_curve(x, np.arange(10.0), np.arange(10.0) ** 2, gridpp.OneToOne, gridpp.MeanSlope))]


@prop(2500, 50000)
def scalar_overloads(s, c):
    """element k of the array version is the scalar version of element k"""
    name, gen, f = s.pick(SCALARS)
    n = s.i(10, 60) if s.b(0.02) else s.i(1, 6)
    rows = [gen(s) for _ in range(n)]
    cols = [np.array([float(r[k]) for r in rows], dtype=F) for k in range(len(rows[0]))]
    arr = f(*[represent(s, x, c) for x in cols])
    require(isinstance(arr, np.ndarray) and arr.shape == (n,), "shape", arr)
    for k in range(n):
        v = f(*[float(x[k]) for x in cols])
        require(isinstance(v, float), "type", type(v))
        a, b = float(arr[k]), float(F(v))
        require(same(a, b) or abs(a - b) <= 1e-6 * (abs(b) + 1), name, "element", k, "is", float(arr[k]), "scalar", v, "for", [float(x[k]) for x in cols])
    c.nontrivial(n > 1 and len(np.unique(arr)) > 1)
    c.label(name)


@prop(2000, 40000)
def layers(s, c):
    """3D versions are the 2D versions of each layer; Points and Grid versions agree for the same locations"""
    w = World(s)
    v = w.l3()
    one = Repr()
    g, p, og = w.grid(one), w.points(one), w.ogrid(one)
    d = s.pick([gridpp.Nearest, gridpp.Bilinear])
    k = s.i(0, 3)
    if k == 0:
        a, b = gridpp.downscaling(g, p, v, d), [gridpp.downscaling(g, p, x, d) for x in v]
    elif k == 1:
        a, b = gridpp.downscaling(g, og, v, d), [gridpp.downscaling(g, og, x, d) for x in v]
    elif k == 2:
        a, b = gridpp.downscaling(g, og, v[0], d).ravel(), gridpp.downscaling(g, og.to_points(), v[0], d)
    else:
        t = gridpp.Log()
        a, b = t.forward(np.abs(v)), [t.forward(np.abs(x)) for x in v]
    b = np.array(b, dtype=F).reshape(a.shape)
    require(np.array_equal(a, b, equal_nan=True), "layers", a, b)
    c.nontrivial(v.size > 1 and len(np.unique(a)) > 1)
    c.label(["points", "grid", "same locations", "transform"][k])


@prop(2000, 40000)
def numpy_reference(s, c):
    k = s.i(0, 5)
    v = values(s, (s.i(1, 8),), s.pick(["int", "quarter", "real"]), False)
    if s.b(0.4):
        for i in range(v.size):
            if s.b(0.3):
                v[i] = NAN
    ok = v[~np.isnan(v)].astype("f8")
    what = ["statistic", "quantile", "wind", "neighbourhood", "distance", "mapping"][k]
    if k == 0:
        ref = [(gridpp.Mean, np.mean), (gridpp.Min, np.min), (gridpp.Median, np.median), (gridpp.Max, np.max), (gridpp.Std, np.std), (gridpp.Variance, np.var), (gridpp.Sum, np.sum)]
        st, f = s.pick(ref)
        got = gridpp.calc_statistic(represent(s, v, c), st)
        want = f(ok) if len(ok) else NAN
        tol = 1e-3
        require(gridpp.calc_statistic(v, gridpp.Count) == len(ok), "count")
    elif k == 1:
        q = s.i(0, 32) / 32.0
        got = gridpp.calc_quantile(represent(s, v, c), q)
        want = np.quantile(ok, q) if len(ok) else NAN
        tol = 1e-3
    elif k == 2:
        u = values(s, v.shape, "real", False)
        got, want, tol = gridpp.wind_speed(represent(s, u, c), represent(s, v, c)), np.hypot(u.astype("f8"), v.astype("f8")), 1e-3
    elif k == 3:
        x = values(s, shape(s, 2, 1, 6), "quarter", False)
        h = s.i(0, 3)
        got = gridpp.neighbourhood(represent(s, x, c), h, gridpp.Mean)
        want = np.array([[np.mean(x[max(0, i - h):i + h + 1, max(0, j - h):j + h + 1], dtype="f8") for j in range(x.shape[1])] for i in range(x.shape[0])])
        tol = 1e-3
    elif k == 4:
        n = s.i(1, 5)
        la, lo = coords(s, n)
        q = [float(z[0]) for z in coords(s, 1)]
        idx, dist = gridpp.Points(represent(s, la), represent(s, lo)).get_neighbours_with_distance(q[0], q[1], 2.5e7)
        a, b = np.radians(la.astype("f8")), np.radians(lo.astype("f8"))
        a0, b0 = np.radians(q[0]), np.radians(q[1])
        d = 2 * 6378137.0 * (np.sqrt(np.sin((a - a0) / 2) ** 2 + np.cos(a) * np.cos(a0) * np.sin((b - b0) / 2) ** 2))
        require(sorted(idx.tolist()) == list(range(n)), "indices", idx)
        got, want, tol = dist, d[idx], 20.0
    else:
        st = {"mean": gridpp.Mean, "min": gridpp.Min, "median": gridpp.Median, "max": gridpp.Max, "quantile": gridpp.Quantile, "std": gridpp.Std,
              "variance": gridpp.Variance, "sum": gridpp.Sum, "count": gridpp.Count, "randomchoice": gridpp.RandomChoice}
        name = s.pick(sorted(st))
        got, want, tol = float(gridpp.get_statistic(name)), float(st[name]), 0
        require(not gridpp.is_valid(NAN) and gridpp.is_valid(float(len(ok))) and gridpp.MV != gridpp.MV, "missing")
        require(gridpp.num_missing_values(v.reshape(1, -1)) == v.size - len(ok), "number of missing values")
    got, want = np.asarray(got, dtype="f8"), np.asarray(want, dtype="f8")
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-4, atol=tol, equal_nan=True), what, got, want)
    c.nontrivial(v.size > 1)
    c.label(what)


# ---------------------------------------------------------------- 5. lifetimes


@prop(1500, 30000)
def lifetimes(s, c):
    """objects made of other objects do not depend on these; vectors that are passed stay usable"""
    pool = []   # (object, function that checks it)

    def check(entry):
        kind, o, m = entry
        if kind in ("points", "grid"):
            require(np.array_equal(o.get_lats(), m[0]) and np.array_equal(o.get_lons(), m[1]), kind)
            require(np.array_equal(o.get_elevs(), m[2], equal_nan=True), kind, "elevs")
        elif kind == "array":
            require(np.array_equal(o, m, equal_nan=True), kind)
        elif kind == "vector":
            require(list_of(o) == m, kind, list_of(o), m)
        elif kind == "structure":
            p, q, v = m
            require(o.corr(gridpp.Point(*p), gridpp.Point(*q)) == v, kind)
        elif kind == "transform":
            require(np.array_equal(o.forward(np.array([1.0, 2.0])), m), kind)

    steps = s.i(3, 20)
    derived = 0
    for _ in range(steps):
        k = s.i(0, 9)
        sets = [e for e in pool if e[0] in ("points", "grid")]
        if k <= 1 or not pool:
            if s.b():
                la, lo, el, lf = mkpoints(s, s.i(1, 5))
                pool.append(("points", gridpp.Points(la, lo, el, lf), (la, lo, el)))
            else:
                la, lo, el, lf = mkgrid(s, s.i(1, 3), s.i(1, 3))
                pool.append(("grid", gridpp.Grid(la, lo, el, lf), (la, lo, el)))
        elif k == 2 and sets:
            kind, o, m = s.pick(sets)
            if kind == "grid":
                pool.append(("points", o.to_points(), tuple(x.ravel() for x in m)))
            else:
                idx = [s.i(0, len(m[0]) - 1) for _ in range(s.i(1, 4))]
                pool.append(("points", o.subset(idx), tuple(x[idx] for x in m)))
            derived += 1
        elif k == 3 and sets:
            kind, o, m = s.pick(sets)
            pool.append(("array", s.pick([o.get_lats, o.get_lats])(), m[0].copy()))
            derived += 1
        elif k == 4:
            x = [s.i(-9, 9) / 2.0 for _ in range(s.i(1, 4))]
            pool.append(("vector", gridpp.FloatVector(x), x))
        elif k == 5:
            v = [e for e in pool if e[0] == "vector"]
            if v:
                kind, o, m = s.pick(v)
                require(abs(gridpp.test_vec_input(o) - sum(m)) < 1e-3, "sum")
                pool.append(("array", gridpp.Identity().forward(o), np.array(m, dtype=F)))
                derived += 1
        elif k == 6:
            st = [e for e in pool if e[0] == "structure"]
            p, q = (50.0, 10.0, 5.0, 0.5), (50.0 + s.i(0, 8) / 16.0, 10.0, 25.0, 0.25)
            a, b = gridpp.Point(*p), gridpp.Point(*q)
            h = s.i(1, 9) * 20000.0
            if st and s.b(0.7):
                o = s.pick(st)[1]
                n = s.i(0, 2)
                o = gridpp.CrossValidation(o, 10.0) if n == 0 else o.clone() if n == 1 else gridpp.MultipleStructure(o, gridpp.CressmanStructure(h, 200.0), gridpp.BarnesStructure(h, 0.0, 0.5))
                derived += 1
            else:
                o = s.pick([gridpp.BarnesStructure, gridpp.SoarStructure, gridpp.ToarStructure])(h, 100.0, 0.5)
            pool.append(("structure", o, (p, q, o.corr(a, b))))
        elif k == 7:
            t = s.pick([gridpp.Log, gridpp.Identity])() if s.b() else gridpp.Gamma(s.i(1, 4) / 2.0, 2.0)
            pool.append(("transform", t, t.forward(np.array([1.0, 2.0]))))
        elif k == 8:
            pool.pop(s.draw(len(pool)))
            gc.collect()
        else:
            # garbage in the freed memory
            junk = [np.full(s.i(1, 64), 7.0) for _ in range(8)] + [gridpp.FloatVector([9.0] * s.i(1, 32))]
            del junk
        for e in pool:
            check(e)
    c.nontrivial(derived > 0 and steps > 4)
    for e in pool:
        c.label(e[0])


class Cached:
    """the same argument objects in every call"""

    def __init__(self, s, c):
        self.s, self.c, self.objs, self.k = s, c, [], 0

    def __call__(self, x):
        if self.k == len(self.objs):
            self.objs.append(represent(self.s, x, self.c))
        self.k += 1
        return self.objs[self.k - 1]


@prop(300, 5000)
def references_stable(s, c):
    """repeated calls do not accumulate references to arguments, element types or None, also after errors"""
    name = s.pick(sorted(OPS))
    f = OPS[name](s, World(s))
    R = Cached(s, c)
    R2 = Spoil(s, 0)
    bad = s.b()

    def once():
        R.k = 0
        outcome(f, R)
        if bad:
            R2.args = []
            outcome(f, R2)
    once()
    gc.collect()
    dts = [np.dtype("f4"), np.dtype("f8"), None]

    def counts():
        return [sys.getrefcount(o) for o in R.objs + dts]
    before = counts()
    for _ in range(40):
        once()
    gc.collect()
    after = counts()
    require(all(abs(a - b) < 20 for a, b in zip(before, after)), name, "references", before, after)
    c.nontrivial(len(R.objs) > 0)
    c.label(name)


if __name__ == "__main__":
    sys.exit(main())
