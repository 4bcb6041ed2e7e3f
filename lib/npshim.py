"""numpy (the part the library uses) over the symbolic values of pyex.

Every function is the documented numpy operation on arrays of any, possibly
symbolic, shape.  A name that is not here is Unsupported when called."""
import types
import pyex
from pyex import (A, V, I, B, Num, Poison, SymRange, SymSeq, asarr, bshape, broadcast, dim, e_add, e_div, e_lift, e_mul, e_pow, e_sub, is_mask, mki, new, node, pick,
                  raw, raw_int, reshape, same_dim, tr, unwrap, wrap)
from ir import *
from ctx import *

PIV = V(PI)
NAN = V(sym("nan"))
INF = float("inf")


class _NP(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return pyex.Missing("numpy." + k)


NP = _NP("numpy")
LIN = _NP("numpy.linalg")


def plain(a, k, *ok):
    """only keyword arguments without effect here, or elements of type float"""
    a = list(a)
    t = a.pop(0) if a else k.get("dtype")
    bad = set(k) - {"dtype", "order", "copy", "like"} - set(ok)
    if a or bad or k.get("copy", True) is not True or not (t is None or t is float or t is pyex.s_float or t in ("float", "float64", "d", "f8", "real")):
        raise Unsupported("argument of a numpy function: %s" % (sorted(bad) or t,))


def reg(*names):
    def d(f):
        for n in names:
            setattr(NP, n, f)
        return f
    return d


def scalar(x):
    return isinstance(x, (Num, int, float, B)) or isinstance(x, A) and x.ndim == 0 or (hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and not isinstance(x, A))


def ew1(f):
    """elementwise function of one argument: f on Nodes"""
    def g(x, *a, **k):
        if a or k:
            raise pyex.Unsupported("extra arguments of an elementwise function")
        if isinstance(x, pyex.Sel):
            return x.map(g)
        if scalar(x):
            return wrap(f(e_lift(unwrap(x))))
        x = asarr(x)
        s = x.snap()
        return new(x.dims, lambda idx: f(e_lift(s(idx))))
    return g


def ew2(f):
    def g(x, y):
        if isinstance(x, pyex.Sel) or isinstance(y, pyex.Sel):
            h = lambda a, b: f(e_lift(a), e_lift(b))
            return x._bin(y, h) if isinstance(x, pyex.Sel) else y._bin(x, lambda a, b: h(b, a))
        if scalar(x) and scalar(y):
            return wrap(f(e_lift(unwrap(x)), e_lift(unwrap(y))))
        x, y = asarr(x), asarr(y)
        return x._bin(y, lambda a, b: f(e_lift(a), e_lift(b)))
    return g


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(raw_int(x)) for x in s)
    if isinstance(s, A) and s.ndim == 1:
        return tuple(dim(raw_int(x)) for x in s)
    return (dim(raw_int(s)),)


def full(shape, v, _=None):
    u = unwrap(v)
    return new(shape_of(shape), lambda idx: u)


NP.pi = PIV
NP.nan = NP.NaN = NAN
NP.inf = INF
NP.newaxis = None
NP.ndarray = A
NP.float_ = NP.float64 = NP.double = float
NP.int_ = NP.int64 = int
NP.bool_ = bool
NP.linalg = LIN
NP.e = V(fn("exp", ONE))

NP.zeros = lambda s=None, *a, **k: full(k.pop("shape", s), ZERO, plain(a, k))
NP.ones = lambda s=None, *a, **k: full(k.pop("shape", s), ONE, plain(a, k))
NP.empty = lambda s=None, *a, **k: (plain(a, {q: v for q, v in k.items() if q != "shape"}), new(shape_of(k.get("shape", s)), lambda idx: fn("uninit", *[aff_node(i) for i in idx])))[1]
NP.full = lambda s, v, *a, **k: full(s, v, plain(a, k))


def like(v):
    def f(x, *a, **k):
        plain(a, k)
        return new(asarr(x).dims, lambda idx: v)
    return f


NP.zeros_like, NP.ones_like = like(ZERO), like(ONE)


@reg("empty_like")
def empty_like(x, *a, **k):
    plain(a, k)
    return NP.empty([mki(d) for d in asarr(x).dims])


@reg("full_like")
def full_like(x, v, *a, **k):
    plain(a, k)
    return full([mki(d) for d in asarr(x).dims], v)


@reg("array")
def array(x, *a, **k):
    plain(a, k)
    x = pyex.unl(x)
    if isinstance(x, SymSeq):
        return seq_array(x)
    if isinstance(x, pyex.Sel):
        return x.copy()
    return asarr(x).copy()


def seq_array(x):
    t = pyex.probe(x)[1]
    if isinstance(t, (A, list, tuple)):
        t = asarr(t)
        return new((x.n,) + t.dims, lambda idx: asarr(x.get(idx[0])).at(*idx[1:]))
    return new((x.n,), lambda idx: unwrap(x.get(idx[0])))


@reg("asarray", "asanyarray", "ascontiguousarray")
def asarray(x, *a, **k):
    plain(a, k)
    return array(x) if isinstance(x, (pyex.SymSeq, pyex.Sel)) else asarr(x)


@reg("atleast_1d")
def atleast_1d(x):
    x = asarr(x)
    return x if x.ndim else x.reshape(1)


NP.copy = lambda x, **k: asarr(x).copy()
NP.shape = lambda x: asarr(x).shape
NP.ndim = lambda x: asarr(x).ndim
NP.size = lambda x, axis=None: asarr(x).size if axis is None else asarr(x).shape[axis]
NP.isscalar = lambda x: isinstance(x, (Num, int, float, str))


@reg("eye", "identity")
def eye(n, M=None, **k):
    plain((), k)
    m = n if M is None else M
    return new((raw_int(n), raw_int(m)), lambda idx: delta(idx[0], idx[1]))


def delta(i, j):
    return ONE if tr("==", i, j) else ZERO


@reg("diag")
def diag(x, k=0):
    x = asarr(x)
    s = x.snap()
    if k:
        raise Unsupported("off diagonal")
    if x.ndim == 1:
        return new((x.dims[0], x.dims[0]), lambda idx: s((idx[0],)) if tr("==", idx[0], idx[1]) else ZERO)
    return new((x.dims[0],), lambda idx: s((idx[0], idx[0])))


def fnn(name):
    return lambda a: fn(name, a)


for nm, f in dict(cos="cos", sin="sin", tan=None, exp="exp", log="log", sqrt="sqrt", arccos="acos", arcsin="asin", arctan="atan", abs="abs", absolute="abs", fabs="abs").items():
    setattr(NP, nm, ew1(fnn(f) if f else (lambda a: fn("sin", a) / fn("cos", a))))
NP.radians = NP.deg2rad = ew1(lambda a: a * PI / 180)
NP.degrees = NP.rad2deg = ew1(lambda a: a * 180 / PI)
def floor_(a):
    if a.k == "num":
        return num(a.a[0].numerator // a.a[0].denominator)
    if pyex.halved(a) is None:
        return pyex.int_part(a, False)
    return fn("floor", a)


NP.floor = ew1(floor_)
NP.ceil = ew1(lambda a: num(-(-a.a[0].numerator // a.a[0].denominator)) if a.k == "num" else pyex.int_part(a, True))
NP.nan_to_num = lambda x, *a: plain(a, {}) or (NP.copy(x) if isinstance(x, A) else x)
NP.square = ew1(lambda a: a * a)
NP.negative = ew1(lambda a: -a)
NP.sign = ew1(lambda a: ZERO if truth(cmp_("==", a, 0)) else (ONE if truth(cmp_(">", a, 0)) else num(-1)))
NP.add, NP.subtract, NP.multiply = ew2(e_add), ew2(e_sub), ew2(e_mul)
NP.divide = NP.true_divide = ew2(e_div)
NP.power = NP.float_power = ew2(e_pow)
NP.arctan2 = ew2(lambda a, b: fn("atan2", a, b))
NP.hypot = ew2(lambda a, b: fn("sqrt", a * a + b * b))


def lazy(op, name):
    def f(a, b):
        a, b = pyex.const_first(lift(a), lift(b))
        if a.k != "num" and b.id < a.id:
            a, b = b, a
        try:
            return a if truth(cmp_(op, a, b)) else b
        except Split:
            return fn(name, a, b)
    return f


NP.maximum = ew2(lazy(">=", "max2"))
NP.minimum = ew2(lazy("<=", "min2"))


def const1(v):
    def f(x):
        if scalar(x):
            return v
        return new(asarr(x).dims, lambda idx: v)
    return f


NP.isnan = const1(False)        # real arithmetic: no NaN (recorded assumption)
NP.isinf = const1(False)
NP.isfinite = const1(True)


@reg("isclose")
def isclose(a, b, **k):
    raise Unsupported("isclose")


def _axis(x, axis):
    if axis < 0:
        axis += x.ndim
    return axis


@reg("sum")
def sum_(x, axis=None, **k):
    plain((), k)
    if isinstance(x, (types.GeneratorType, pyex.SymSeq)):
        return pyex.s_sum(x)
    if isinstance(x, pyex.Sel):
        a, m = x.src.snap(), x.mask.snap()
        return V(dsum(lambda q: e_lift(a((q,))) if truth(m((q,))) else ZERO, x.src.dims[0]))
    x = asarr(x)
    if is_mask(x):
        x = new(x.dims, lambda idx, s=x.snap(): ONE if truth(s(idx)) else ZERO)
    if axis is None:
        r = x
        while r.ndim:
            r = asarr(sum_(r, axis=0))
        return wrap(unwrap(r))
    if isinstance(axis, (tuple, list)):
        for ax in sorted((_axis(x, a) for a in axis), reverse=True):
            x = sum_(x, axis=ax)
        return x
    axis = _axis(x, axis)
    s, n = x.snap(), x.dims[axis]

    def g(idx):
        ins = lambda q: idx[:axis] + (q,) + idx[axis:]
        return dsum(lambda q: e_lift(s(ins(q))), n)
    r = new(x.dims[:axis] + x.dims[axis + 1:], g)
    return wrap(unwrap(r)) if r.ndim == 0 else r


def dsum(f, n):
    """sum_{q=0}^{n-1} f(q)"""
    n = aff(n)
    if n.is_const():
        return addn([f(aff(q)) for q in range(n.c)]) if n.c else ZERO
    if not tr("<", 0, n):
        return ZERO
    return seg(f, aff(0), n, 0)


def solve(cond, t):
    """value of t at which the linear integer expression vanishes, or None"""
    k = dict(cond.e.t).get(t)
    if k not in (1, -1):
        return None
    rest = cond.e - ivar(t) * k
    return rest * (-k)


def seg(f, lo, hi, depth):
    """sum_{q=lo}^{hi-1} f(q); cases of f that depend on q are separated"""
    ln = hi - lo
    if ln.is_const() and ln.c <= 3:
        return addn([f(lo + q) for q in range(ln.c)]) if ln.c > 0 else ZERO
    if not tr("<", lo, hi):
        return ZERO
    if depth > 6:
        raise Unsupported("sum with too many cases")
    t = pyex.MACH.fresh("q", lo, hi)
    c = ctx()
    extra = 0
    special = []
    try:
        while True:
            try:
                v = f(ivar(t))
                break
            except Split as s:
                cd = s.cond
                if cd.kind == "r" and t in ivars(cd.e):
                    go, T = pyex.tree(f)
                    try:
                        v = isubst(go([], lo, hi), {T: ivar(t)})
                        break
                    except Split as s2:
                        raise Unsupported("sum over elements whose cases depend on the index: %r" % s2.cond)
                if cd.kind != "i" or t not in cd.e.vars():
                    raise
                q0 = solve(cd, t)
                if q0 is None:
                    raise Unsupported("sum whose cases are not linear in the index")
                if cd.op == "==":
                    special.append(q0)
                    c.assume(cd, False)
                    extra += 1
                    continue
                # inequality: split the range at m: q < m | q >= m
                k = dict(cd.e.t)[t]
                if cd.op == "<":
                    m = q0 if k == 1 else q0 + 1
                else:
                    m = q0 + 1 if k == 1 else q0
                special = None
                break
    finally:
        for _ in range(extra):
            c.hyps.pop()
        c.cache = {}
        c.samples = None
    if special is None:
        if tr("<=", m, lo):
            m = lo
        elif tr(">=", m, hi):
            m = hi
        return seg(f, lo, m, depth + 1) + seg(f, m, hi, depth + 1)
    h = [x for x in pyex.MACH.index_hyps(t)]
    if h:
        raise Unsupported("sum over elements whose cases depend on the index: %r" % (h[:2],))
    u = tmpvar()
    r = psum(u, isubst(v, {t: ivar(u) - 1 + lo}), hi - lo)
    seen = []
    for q0 in special:
        if any(tr("==", q0, q) for q in seen):
            continue
        seen.append(q0)
        if tr(">=", q0, lo) and tr("<", q0, hi):
            r = r + f(q0) - isubst(v, {t: q0})
    return r


def onehot(f, n):
    """the nonzero entries (q, value) of a vector f(0..n-1) that is zero elsewhere"""
    n = aff(n)
    t = pyex.MACH.fresh("q", 0, n)
    c = ctx()
    extra, special = 0, []
    try:
        while True:
            try:
                v = e_lift(f(ivar(t)))
                break
            except Split as s:
                if s.cond.kind != "i" or t not in s.cond.e.vars():
                    raise
                q0 = solve(s.cond, t)
                if q0 is None or s.cond.op != "==":
                    raise Unsupported("seed matrix")
                special.append(q0)
                c.assume(s.cond, False)
                extra += 1
    finally:
        for _ in range(extra):
            c.hyps.pop()
        c.cache = {}
        c.samples = None
    if v is not ZERO:
        raise Unsupported("dense seed matrix")
    out = []
    for q0 in special:
        if any(tr("==", q0, q) for q, _ in out):
            continue
        if tr(">=", q0, 0) and tr("<", q0, n):
            out.append((q0, e_lift(f(q0))))
    return out


@reg("mean", "average")
def mean(x, axis=None, **k):
    plain((), k)
    if isinstance(x, pyex.Sel):
        return sum_(x) / x.size
    x = asarr(x)
    if axis is None:
        return sum_(x) / x.size
    return sum_(x, axis=axis) / x.shape[axis]


@reg("prod")
def prod(x, axis=None):
    x = asarr(x)
    if axis is not None or x.ndim != 1 or not x.dims[0].is_const():
        raise Unsupported("prod")
    r = V(ONE)
    for q in x:
        r = r * q
    return r


@reg("cumsum")
def cumsum(x, axis=None):
    x = asarr(x)
    if x.ndim != 1:
        raise Unsupported("cumsum")
    s = x.snap()
    return new(x.dims, lambda idx: dsum(lambda q: e_lift(s((q,))), idx[0] + 1))


@reg("dot", "matmul")
def dot(a, b):
    if scalar(a) or scalar(b):
        return a * b
    a, b = asarr(a), asarr(b)
    sa, sb = a.snap(), b.snap()
    k = a.dims[-1]
    kb = b.dims[0] if b.ndim == 1 else b.dims[-2]
    if not same_dim(k, kb):
        if not tr("==", k, kb):
            raise ValueError("shapes %r and %r not aligned" % (a.dims, b.dims))
    na = a.ndim - 1

    def g(idx):
        ia, ib = idx[:na], idx[na:]
        fb = (lambda q: (q,)) if b.ndim == 1 else (lambda q: ib[:-1] + (q,) + ib[-1:])

        def term(q):
            x = e_lift(sa(ia + (q,)))
            return ZERO if x is ZERO else x * e_lift(sb(fb(q)))
        return dsum(term, k)
    r = new(a.dims[:-1] + (() if b.ndim == 1 else b.dims[:-2] + b.dims[-1:]), g)
    return wrap(unwrap(r)) if r.ndim == 0 else r


@reg("outer")
def outer(a, b):
    a, b = asarr(a), asarr(b)
    sa, sb = a.snap(), b.snap()
    return new(a.dims + b.dims, lambda idx: e_mul(sa(idx[:a.ndim]), sb(idx[a.ndim:])))


@reg("cross")
def cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if k or a.dims[-1] != aff(3) or b.dims[-1] != aff(3):
        raise Unsupported("cross")
    sh = bshape(a.dims, b.dims)
    x, y = broadcast(a, sh), broadcast(b, sh)

    def g(idx):
        i, r = idx[-1], idx[:-1]
        X = [e_lift(x(r + (aff(q),))) for q in range(3)]
        Y = [e_lift(y(r + (aff(q),))) for q in range(3)]
        return pick([X[1] * Y[2] - X[2] * Y[1], X[2] * Y[0] - X[0] * Y[2], X[0] * Y[1] - X[1] * Y[0]], i)
    return new(sh, g)


@reg("transpose")
def transpose(a):
    return asarr(a).T


@reg("reshape")
def reshape_(a, s):
    return asarr(a).reshape(s)


NP.ravel = lambda a: asarr(a).ravel()
NP.squeeze = lambda a: asarr(a).squeeze()


@reg("concatenate")
def concatenate(xs, axis=0):
    xs = [asarr(x) for x in xs]
    axis = _axis(xs[0], axis)
    lens = [x.dims[axis] for x in xs]
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise ValueError("all the input array dimensions must match")
        for q in range(x.ndim):
            if q != axis and not same_dim(x.dims[q], xs[0].dims[q]) and not tr("==", x.dims[q], xs[0].dims[q]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    tot = aff(0)
    for l in lens:
        tot = tot + l
    ss = [x.snap() for x in xs]

    def g(idx):
        q, off = idx[axis], aff(0)
        for p, (s, l) in enumerate(zip(ss, lens)):
            if p == len(ss) - 1 or tr("<", q, off + l):
                return s(idx[:axis] + (q - off,) + idx[axis + 1:])
            off = off + l
    d = list(xs[0].dims)
    d[axis] = tot
    r = new(d, g)
    if r.ndim == 1 and not r.dims[0].is_const():
        r.root.cparts = xs
    return r


def at2(x):
    x = asarr(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        s = x.snap()
        return new((aff(1), x.dims[0]), lambda idx: s((idx[1],)))
    return x


@reg("atleast_2d")
def atleast_2d(x):
    return at2(x)


@reg("vstack", "row_stack")
def vstack(xs):
    return concatenate([at2(x) for x in xs], 0)


@reg("hstack")
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def col(x):
    x = asarr(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        s = x.snap()
        return new((x.dims[0], aff(1)), lambda idx: s((idx[0],)))
    return x


@reg("column_stack")
def column_stack(xs):
    xs = pyex.unl(xs)
    if isinstance(xs, pyex.SymSeq):
        return seq_array(xs).T
    return concatenate([col(x) for x in xs], 1)


@reg("stack")
def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    if axis == 0:
        return asarr(list(xs))
    ss = [x.snap() for x in xs]
    ax = _axis(new(xs[0].dims + (aff(1),), None), axis)
    return new(xs[0].dims[:ax] + (aff(len(xs)),) + xs[0].dims[ax:], lambda idx: pick(ss, idx[ax])(idx[:ax] + idx[ax + 1:]))


class _R:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if any(isinstance(q, (slice, str)) for q in k):
            raise Unsupported("r_ with slices")
        return concatenate([atleast_1d(q) for q in k], 0)


class _C:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if any(isinstance(q, (slice, str)) for q in k):
            raise Unsupported("c_ with slices")
        return concatenate([col(q) for q in k], -1)


NP.r_, NP.c_ = _R(), _C()


@reg("append")
def append(a, b, axis=None):
    if axis is None:
        return concatenate([asarr(a).flatten() if asarr(a).ndim else asarr(a).reshape(1), asarr(b).flatten() if asarr(b).ndim else asarr(b).reshape(1)])
    return concatenate([a, b], axis)


@reg("insert")
def insert(a, k, v):
    a = asarr(a)
    return concatenate([a[:k], atleast_1d(v), a[k:]])


@reg("linspace")
def linspace(start, stop, num=50, endpoint=True, **k):
    plain((), k)
    n = dim(raw_int(num))
    a, b = node(start), node(stop)
    den = n - 1 if endpoint else n
    if den == aff(0):
        return new((n,), lambda idx: a)
    if not den.is_const() and endpoint and not ctx().entails_int("<", 1, n) and tr("==", n, 1):
        return new((n,), lambda idx: a)
    return new((n,), lambda idx: a + (b - a) * aff_node(idx[0]) / aff_node(den))


@reg("arange")
def arange(*a, **k):
    plain((), k)
    a = [raw(x) for x in a]
    if all(isinstance(x, (int, Aff)) for x in a) and len(a) < 3:
        lo, hi = (aff(0), aff(a[0])) if len(a) == 1 else (aff(a[0]), aff(a[1]))
        return new((hi - lo,), lambda idx: lo + idx[0])
    if len(a) == 1:
        a = [0] + a
    lo, hi, st = (node(a[0]), node(a[1]), node(a[2] if len(a) > 2 else 1))
    if all(x.k == "num" for x in (lo, hi, st)):
        import math
        n = max(0, math.ceil((hi.a[0] - lo.a[0]) / st.a[0]))
        return new((n,), lambda idx: lo + st * aff_node(idx[0]))
    raise Unsupported("arange")


def fold(op):
    def f(x, axis=None, **k):
        plain((), k)
        x = asarr(x)
        if axis is not None and x.ndim > 1:
            axis = _axis(x, axis)
            s, n = x.snap(), x.dims[axis]
            if not n.is_const():
                raise Unsupported("maximum over a symbolic axis")
            return new(x.dims[:axis] + x.dims[axis + 1:], lambda idx: fold1([e_lift(s(idx[:axis] + (aff(q),) + idx[axis:])) for q in range(n.c)], op))
        if x.ndim == 0:
            return wrap(unwrap(x))
        if any(not d.is_const() for d in x.dims):
            if x.ndim != 1:
                raise Unsupported("maximum of a symbolic array")
            return extremum(x, op)
        return wrap(fold1([e_lift(v) for v in flat(x)], op))
    return f


def flat(x):
    import itertools
    s = x.snap()
    return [s(tuple(aff(q) for q in idx)) for idx in itertools.product(*[range(d.c) for d in x.dims])]


def fold1(vs, op):
    r = vs[0]
    for v in vs[1:]:
        if truth(cmp_(op, v, r)):
            r = v
    return r


def extremum(x, op):
    """the extreme value of an array of symbolic length: an opaque term named
    by the array's generic element (equal arrays give equal terms)"""
    t = pyex.MACH.fresh("q", 0, x.dims[0])
    v = e_lift(x.at(ivar(t)))
    if pyex.MACH.index_hyps(t):
        raise Unsupported("maximum over elements whose cases depend on the index")
    u = tmpvar()
    return V(fn("max" if op == ">" else "min", psum(u, isubst(v, {t: ivar(u) - 1}), x.dims[0])))


NP.max = NP.amax = fold(">")
NP.min = NP.amin = fold("<")


def position(x, op):
    """argmax / argmin of a long array: some position, the same for the same
    content; MACH.args holds what is known of it: x[p] op= x[q] for every q"""
    M, n = pyex.MACH, x.dims[0]
    t = M.fresh("q", 0, n)
    v = e_lift(x.at(ivar(t)))
    if M.index_hyps(t):
        raise Unsupported("position of an extreme element whose case depends on the index")
    key = (op, isubst(v, {t: ivar("%u")}), n)
    M.args = getattr(M, "args", {})
    if key not in M.args:
        c = ctx()
        if not c.entails_int("<", 0, n):
            raise Unsupported("position in a possibly empty array")
        nm = M.fresh("arg", 0, n)
        M.args[key] = (ivar(nm), op, lambda q: isubst(v, {t: q}), n)
    return mki(M.args[key][0])


def argfold(op):
    def f(x, axis=None):
        x = array(x) if isinstance(pyex.unl(x), SymSeq) else asarr(x)
        if x.ndim != 1:
            raise Unsupported("argmax of a matrix")
        if not x.dims[0].is_const() or x.dims[0].c >= pyex.LONG:
            return position(x, op)
        vs = flat(x)
        b = 0
        for q in range(1, len(vs)):
            if truth(cmp_(op, e_lift(vs[q]), e_lift(vs[b]))):
                b = q
        return b
    return f


NP.argmax, NP.argmin = argfold(">"), argfold("<")


@reg("any")
def any_(x, axis=None):
    x = asarr(x)
    if x.ndim == 0:
        return bool(wrap(unwrap(x)))
    if any(not d.is_const() for d in x.dims):
        return generic(x, False)
    return any(truthv(v) for v in flat(x))


@reg("all", "alltrue")
def all_(x, axis=None):
    x = asarr(x)
    if x.ndim == 0:
        return bool(wrap(unwrap(x)))
    if any(not d.is_const() for d in x.dims):
        return generic(x, True)
    return all(truthv(v) for v in flat(x))


def truthv(v):
    if isinstance(v, (bool, tuple)):
        return truth(v)
    return truth(cmp_("!=", e_lift(v), 0))


def generic(x, val):
    """any/all over a symbolic length when the generic element's condition is constant"""
    idx = []
    for d in x.dims:
        idx.append(aff(0) if d == aff(1) else ivar(pyex.MACH.fresh("q", 0, d)))
    v = x.at(*idx)
    if isinstance(v, bool):
        return v
    c = ctx()
    if isinstance(v, tuple):
        for pol in (True, False):
            r = c.decided(v) if hasattr(c, "decided") else None
            if r is not None:
                return r
    raise Unsupported("any/all of a symbolic condition")


@reg("where")
def where(c, *xy):
    c = asarr(c)
    if not xy:
        if c.ndim == 1 and c.dims[0].is_const():
            return (asarr([q for q in range(c.dims[0].c) if truth(c.at(q))]),)
        raise Unsupported("where of symbolic length")
    x, y = (asarr(q) for q in xy)
    sh = bshape(bshape(c.dims, x.dims), y.dims)
    a, b, m = broadcast(x, sh), broadcast(y, sh), broadcast(c, sh)
    return new(sh, lambda idx: a(idx) if truthv(m(idx)) else b(idx))


@reg("interp")
def interp(x, xp, fp, *a, **k):
    """piecewise linear interpolation: opaque in (x, table); see INTERP"""
    if a or k:
        raise Unsupported("interp with limits")
    if isinstance(x, pyex.Sel):
        return x.map(lambda z: interp(z, xp, fp))
    if INTERP[0] is None:
        raise Unsupported("interp")
    if scalar(x):
        return wrap(INTERP[0](e_lift(unwrap(x)), asarr(xp), asarr(fp)))
    x = asarr(x)
    s = x.snap()
    xp, fp = asarr(xp), asarr(fp)
    return new(x.dims, lambda idx: INTERP[0](e_lift(s(idx)), xp, fp))


INTERP = [None]


def table(a):
    """a term naming the array (equal arrays give equal terms)"""
    if a.root.tname and a.root.tname[1] is a.root.g and a.whole():
        return a.root.tname[0]
    s = a.snap()
    go, t = pyex.tree(lambda q: e_lift(s((q,))))
    v = go([], 0, a.dims[0])
    r = by_content(lambda q: isubst(v, {t: q}), a.dims[0])
    return NAMES.get(r, r)


NAMES = {}      # content -> name


def by_content(g, n):
    u = tmpvar()
    if aff(n).is_const() and aff(n).c > 16:
        return addn([fn("at", num(k + 1), g(aff(k))) for k in range(aff(n).c)])
    return psum(u, fn("at", aff_node(ivar(u)), g(ivar(u) - 1)), n)


def factors(a):
    """(constant, term): positive constant factors of a table's elements"""
    t = pyex.MACH.fresh("q", 0, a.dims[0])
    q = ONE
    try:
        v = e_lift(a.at(ivar(t)))
    except Split as s:
        if t in (s.cond.e.vars() if s.cond.kind == "i" else ivars(s.cond.e)):
            return q
        raise
    if v.k == "scale" and v.a[0] > 0:
        q = num(v.a[0])
        v = v.a[1]
    if v.k == "mul" and any(b is PI for b, p in v.a):
        p = dict(v.a)[PI]
        q = q * power(PI, p)
    return q


def interp_opaque(x, xp, fp):
    """np.interp as a function of the point and the two tables, invariant under scaling"""
    cx, cf = factors(xp), factors(fp)
    return cf * fn("interp", x / cx, table(xp if cx is ONE else xp / V(cx)), table(fp if cf is ONE else fp / V(cf)))


def logical(f):
    def g(a, b):
        if scalar(a) and scalar(b):
            return f(bool(a), bool(b))
        return pyex.boolean(asarr(a)._bin(asarr(b), lambda x, y: f(truthv(x), truthv(y))))
    return g


@reg("polyfit")
def polyfit(x, y, deg, **k):
    """degree one: slope and intercept are functions of the points, with the
    scaling laws of the least-squares line"""
    if k or node(deg) is not ONE:
        raise Unsupported("polyfit")
    m, b = fit(x, y)
    return asarr([V(m), V(b)])


def fit(x, y):
    if isinstance(x, pyex.Sel) != isinstance(y, pyex.Sel):
        raise Unsupported("polyfit of different selections")
    sel = isinstance(x, pyex.Sel)
    if sel:
        x.same(y)
        x, y, mask = x.src, y.src, x.mask.snap()
    x, y = asarr(x), asarr(y)
    cx, cy = factors(x), factors(y)
    sx, sy = x.snap(), y.snap()
    go, T = pyex.tree(lambda q: fn("pt", e_lift(sx((q,))) / cx, e_lift(sy((q,))) / cy) if not sel or truth(mask((q,))) else ZERO)
    v = go([], 0, x.dims[0])
    u = tmpvar()
    key = psum(u, fn("at", aff_node(ivar(u)), isubst(v, {T: ivar(u) - 1})), x.dims[0])
    return fn("fit.slope", key) * cy / cx, fn("fit.intercept", key) * cy


@reg("union1d")
def union1d(a, b):
    return pyex.union_array(pyex.set_parts(asarr(a)) | pyex.set_parts(asarr(b)))


@reg("unique")
def unique(a, **k):
    a = asarr(a)
    if k or a.ndim != 1:
        raise Unsupported("unique")
    if getattr(a.root, "cparts", None) is not None:
        return pyex.union_array(frozenset().union(*[pyex.set_parts(x) for x in a.root.cparts]))
    return pyex.union_array(pyex.set_parts(a))


@reg("searchsorted")
def searchsorted(a, v, side="left"):
    """contract: i with a[k] < v for k < i and v <= a[k] for k >= i, in a sorted array"""
    a = asarr(a)
    if side not in ("left", "right") or not scalar(v) or a.ndim != 1:
        raise Unsupported("searchsorted")
    n = a.dims[0]
    i = ivar(pyex.MACH.fresh("ss", 0, n + 1))
    at = lambda q: e_lift(a.at(q))
    v = node(v)
    lt, ge = ("<", ">=") if side == "left" else ("<=", ">")

    def need(op, x):
        if not truth(cmp_(op, x, v)):
            raise pyex.Vacuous()
    if tr("==", i, 0):
        need(ge, at(aff(0)))
        return 0
    need(lt, at(i - 1))
    if tr("<", i, n):
        need(ge, at(i))
    else:
        need(lt, at(n - 1))
        return mki(n)
    return mki(i)


@reg("count_nonzero")
def count_nonzero(x):
    x = asarr(x)
    s = x.snap()
    return V(dsum(lambda q: ONE if truthv(s((q,))) else ZERO, x.dims[0])) if x.ndim == 1 else V(node(sum_(x != 0)))


NP.logical_and = logical(lambda a, b: a and b)
NP.logical_or = logical(lambda a, b: a or b)
NP.logical_not = lambda a: ~asarr(a)


@reg("norm")
def _norm(x, *a, **k):
    raise Unsupported("norm")


LIN.norm = lambda x: V(fn("sqrt", node(sum_(asarr(x) * asarr(x)))))


@reg("array_equal")
def array_equal(a, b):
    raise Unsupported("array_equal")


@reg("tile")
def tile(a, n):
    a = asarr(a)
    if a.ndim == 0 or (a.ndim == 1 and a.dims[0] == aff(1)):
        u = unwrap(a) if a.ndim == 0 else a.at(0)
        return full(n, wrap(u))
    if isinstance(n, int):
        return concatenate([a] * n)
    if isinstance(n, (tuple, list)) and len(n) == 2 and raw_int(n[1]) == 1 and a.ndim == 1:
        s = a.snap()
        return new((raw_int(n[0]), mki(a.dims[0])), lambda idx: s((idx[1],)))
    raise Unsupported("tile")


@reg("diff")
def diff_(x):
    x = asarr(x)
    return x[1:] - x[:-1]


@reg("gradient")
def gradient(f, *a, **k):
    raise Unsupported("gradient")


def pyex_mach(m):
    m.np = NP
    m.np_table = table


MODS = {"numpy": NP, "numpy.linalg": LIN}
