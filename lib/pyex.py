"""Symbolic execution of the Python sources by the Python interpreter itself.

The module text under /repo is compiled and executed unchanged except for two
mechanical insertions (see `Rewrite`): loop hooks around `for`, and a handler
that lets the verifier's own exceptions pass through `try`.  Values are
symbolic: V (a real term), I (an affine integer), A (an array of any shape,
symbolic sizes included, elements computed on demand), B (a condition).
`numpy` is replaced by lib/npshim.py.

A `for` over a range or array of symbolic length is executed once for a
generic index s.  An array written in the loop is either
  elementwise  every read and write of it in the loop has one dimension fixed
               to s+c: iterations do not interact, or
  carried      its value at the start of iteration s is an opaque C(idx); after
               the loop it is  init + sum_s g  (new = C + g, no C in g) or the
               value of the last iteration (no C in new).
Anything else is Unsupported.  Local names assigned in the body are treated the
same way (carried or not read before they are set).
"""
import ast
import re
import sys
import builtins
import types
from ir import *
import ir
import mpmath
from ctx import *
import ctx as ctxm
from fexec import nsubst, Undef


class Restart(BaseException):
    pass


class Vacuous(BaseException):
    """the path contradicts a callee's postcondition"""


# ------------------------------------------------------------------ values
class B:
    """a condition: result of cmp_ (bool or (Cond, polarity))"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return truth(self.c)

    def __invert__(self):
        return B(not self.c) if isinstance(self.c, bool) else B((self.c[0], not self.c[1]))

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)
    __hash__ = None

    def __repr__(self):
        return "B(%r)" % (self.c,)


def mkb(c):
    return c if isinstance(c, bool) else B(c)


class Num:
    """mixin of scalars"""
    shape = ()
    ndim = 0
    size = 1

    def flatten(self):
        return asarr([self])

    def item(self):
        return self

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy applied to a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return truth(cmp_("!=", raw(self), 0))

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        return self._cmp("==", o)

    def __ne__(self, o):
        return self._cmp("!=", o)

    def _cmp(self, op, o):
        if isinstance(o, (A, Sel)):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return op == "!=" if op in ("==", "!=") else NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        return mkb(cmp_(op, raw(self), raw(o)))

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        raise IndexError("invalid index to scalar variable")

    def __iter__(self):
        raise TypeError("iteration over a 0-d value")

    def reshape(self, *s):
        return asarr(self).reshape(*s)

    def astype(self, t, **k):
        only_float(t, k)
        return self


def only_float(t, k):
    if k or not (t is float or t is s_float or t in ("float", "float64", "d", "f8")):
        raise Unsupported("conversion to %r" % (t,))


class V(Num):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "V(%s)" % show(self.n, 4)

    def __float__(self):
        if self.n.k == "num":
            return float(self.n.a[0])
        raise Unsupported("a symbolic value converted to a machine number")

    def __int__(self):
        if self.n.k == "num" and self.n.a[0].denominator == 1:
            return int(self.n.a[0])
        raise Unsupported("a symbolic value converted to an integer")

    def trunc(self):
        n = self.n
        if n.k == "fn" and n.a[0] == "floor":
            n = n.a[1] if isinstance(n.a[1], Node) else n.a[1][0]
        a = whole(n)
        if a is not None:
            return mki(a)
        a = halved(n)
        return half(a) if a is not None and tr("<=", 0, a) else int(self)

    def __format__(self, s):
        return text(self, s)

    def _bin(self, o, f):
        if isinstance(o, A) or isinstance(o, (list, tuple, Sel)):
            return NotImplemented
        o = raw(o, NotImplemented)
        if o is NotImplemented:
            return o
        return V(f(self.n, lift(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: div(b, a))

    def __pow__(self, o):
        return self._bin(o, pow_)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: pow_(b, a))

    def __neg__(self):
        return V(-self.n)

    def __pos__(self):
        return self

    def __abs__(self):
        return V(fn("abs", self.n))


NANS = [None]       # list collecting places where 0/0 or x/0 with a constant zero was formed


DENOMS = [None]     # list collecting the denominators of every division


def div(a, b):
    if DENOMS[0] is not None:
        DENOMS[0].append(b)
    if b is ZERO:
        if NANS[0] is not None:
            NANS[0].append(a)
        return sym("nan") if a is ZERO else sym("inf")
    return a / b


def pow_(a, b):
    if b.k == "num":
        q = b.a[0]
        if q < 0 and DENOMS[0] is not None:
            DENOMS[0].append(a)
        if q.denominator == 1:
            return power(a, int(q)) if not (a is ZERO and q < 0) else sym("inf")
        if q.denominator == 2:
            return power(fn("sqrt", a), int(q * 2))
    return fn("pow", a, b)


class I(Num):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return "I(%r)" % (self.a,)

    def __index__(self):
        if self.a.is_const():
            return self.a.c
        raise Unsupported("symbolic integer used as a machine integer")
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __format__(self, s):
        return text(self, s)

    def _bin(self, o, fi, fr):
        if isinstance(o, (A, list, tuple)):
            return NotImplemented
        if isinstance(o, (Sel, SymSeq)):
            return NotImplemented
        o = raw(o, NotImplemented)
        if o is NotImplemented:
            return o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, Aff)) and fi is not None:
            return mki(fi(self.a, aff(o)))
        return V(fr(aff_node(self.a), lift(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            return SymList(self.a, o[0])
        o2 = raw(o, NotImplemented)
        if isinstance(o2, Aff) and not o2.is_const() and not self.a.is_const():
            return V(aff_node(self.a) * aff_node(o2))
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, None, div)

    def __rtruediv__(self, o):
        return self._bin(o, None, lambda a, b: div(b, a))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and all(k % o == 0 for _, k in self.a.t):
            return mki(Aff(tuple((v, k // o) for v, k in self.a.t), self.a.c // o))
        if o == 2:
            return half(self.a)
        raise Unsupported("integer division")

    def __pow__(self, o):
        return self._bin(o, None, pow_)

    def __neg__(self):
        return mki(-self.a)

    def __abs__(self):
        return -self if tr("<", self.a, 0) else self

    def __pos__(self):
        return self


def text(x, spec):
    """a formatted value: a marker where files are modelled, else a description"""
    if getattr(MACH, "texts", None):
        return MACH.texts.fmt(x, spec)
    return repr(x)


def half(a):
    """a // 2"""
    m = MACH.__dict__.setdefault("halves", {})
    if a not in m:
        h = ivar(MACH.fresh("h", a if a.is_const() and a.c < 0 else 0, a + 1))
        if not tr("<=", 0, a):
            raise Unsupported("integer division")
        for cond in (cmp_("<=", h + h, a), cmp_("<=", a, h + h + 1)):
            ctx().assume(*cond)
        m[a] = h
    return mki(m[a])


def whole(n):
    """n as an integer linear form of integer variables, or None"""
    def go(n):
        if n.k == "num":
            return {None: n.a[0]}
        if n.k == "int":
            return {n.a[0]: 1}
        if n.k == "scale":
            d = go(n.a[1])
            return None if d is None else {v: k * n.a[0] for v, k in d.items()}
        if n.k == "add":
            r = {}
            for t, k in n.a:
                d = go(t)
                if d is None:
                    return None
                for v, q in d.items():
                    r[v] = r.get(v, 0) + q * k
            return r
    d = go(n)
    if d is None or any(q.denominator != 1 for q in d.values()):
        return None
    r = aff(0)
    for v, q in d.items():
        r = r + (aff(int(q)) if v is None else ivar(v) * int(q))
    return r


def leaf_set(e):
    if e not in LEAVES:
        ch = ir.children(e) if e.k != "psum" else ()
        LEAVES[e] = frozenset([e]) if not ch and e.k != "num" else frozenset().union(*[leaf_set(x) for x in ch])
    return LEAVES[e]


LEAVES, RANGES = {}, {}


def range_of(c, a, up, hyps):
    """integers lo, hi with lo <= a < -hi (up: lo < a <= -hi) under hyps"""
    if (a, up, hyps) in RANGES:
        return RANGES[a, up, hyps]
    import z3
    s = z3.Solver()
    s.set("timeout", 2000)
    for h, p in hyps:
        s.add(c._zc(h, p))
    za = c._zr(a)

    def entailed(f):
        s.push()
        s.add(z3.Not(f))
        r = s.check() == z3.unsat
        s.pop()
        return r

    def bound(f, lo, hi):
        """largest k in [lo, hi] with f(k), monotone; None"""
        if not entailed(f(lo)):
            return None
        while lo < hi:
            k = (lo + hi + 1) // 2
            lo, hi = (k, hi) if entailed(f(k)) else (lo, k - 1)
        return lo
    big = 4000
    lo = bound((lambda k: za > k) if up else (lambda k: za >= k), -big, big)
    hi = bound((lambda k: za <= -k) if up else (lambda k: za < -k), -big, big)
    RANGES[a, up, hyps] = lo, hi
    return lo, hi


def int_part(a, up):
    """floor (or ceiling) of the term a: an integer variable within one of a;
    its range from the known range of a"""
    m = MACH.__dict__.setdefault("parts", {})
    if (a, up) in m:
        return m[a, up]
    c = ctx()
    rel = frozenset((h, p) for h, p in c.hyps if h.kind == "r" and leaf_set(h.e) & leaf_set(a))
    lo, hi = range_of(c, a, up, rel)
    MACH.nip = getattr(MACH, "nip", 0) + 1
    F = ivar("ip%d" % MACH.nip)
    cs = []
    if lo is not None:
        cs.append(cmp_("<=", aff(lo + 1 if up else lo), F))
    if hi is not None:
        cs.append(cmp_("<=", F, aff(-hi if up else -hi - 1)))
    f = aff_node(F)
    cs += [cmp_("<=", a, f), cmp_("<", f, a + 1)] if up else [cmp_("<=", f, a), cmp_("<", a, f + 1)]
    for q in cs:
        if not isinstance(q, bool) and q not in c.hyps:
            c.assume(*q)
    m[a, up] = f
    return f


def halved(n):
    """the integer a with n = a/2, or None"""
    v = sorted(ivars(n))
    if len(v) == 1 and n is aff_node(ivar(v[0])) / 2:
        return ivar(v[0])


def mki(a):
    a = aff(a)
    return a.c if a.is_const() else I(a)


def raw(x, default=None):
    """symbolic or concrete scalar -> Node / Aff / number"""
    if isinstance(x, V):
        return x.n
    if isinstance(x, I):
        return x.a
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, (bool, int, float, Node, Aff, Fr)):
        return x
    if isinstance(x, A) and x.ndim == 0:
        return raw(x.scalar())
    if isinstance(x, Poison):
        x.read()
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return x.item()
    if default is not None:
        return default
    raise Unsupported("not a scalar: %r" % (type(x).__name__,))


def node(x):
    return lift(raw(x))


def wrap(x):
    """element value -> Python-level value"""
    if isinstance(x, Node):
        return V(x)
    if isinstance(x, Aff):
        return mki(x)
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Cond):
        return B(x)
    return x


def unwrap(x):
    if isinstance(x, V):
        return x.n
    if isinstance(x, I):
        return x.a
    if isinstance(x, B):
        return x.c
    if isinstance(x, A) and x.ndim == 0:
        return unwrap(x.scalar())
    if isinstance(x, float):
        return lift(x)
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return unwrap(x.item())
    return x


# ------------------------------------------------------------------ arrays
def dim(x):
    if isinstance(x, I):
        return x.a
    if isinstance(x, V) and x.n.k == "num":
        return aff(int(x))
    if isinstance(x, float) and x == int(x):
        return aff(int(x))
    return aff(x)


def same_dim(a, b):
    return a == b or ctx().entails_int("==", a, b)


def tr(op, a, b):
    return truth(cmp_(op, a, b))


class Root:
    """storage: element function over index tuples, functionally updated"""

    def __init__(self, shape, g, name=None, owner=None):
        self.shape, self.g, self.name, self.owner = tuple(shape), g, name, owner
        self.memo = {}
        self.isbool = None
        self.tname = None       # (term naming the whole contents, element function it holds for)
        self.uparts = None      # parts of a union of sets of values
        self.born = len(MACH.loops) if MACH is not None else 0
        self.ord = MACH.next_ord() if MACH is not None else -1

    def set_g(self, g):
        self.g = g


def memoize(g):
    m = {}

    def f(idx):
        r = m.get(idx)
        if r is None:
            r = g(idx)
            m[idx] = r
        return r
    return f


class A:
    """array or view.  items: per root dimension ('fix', aff) | ('dim', k, lo, step)"""
    __array_ufunc__ = None

    def __init__(self, root, items, shape):
        self.root, self.items, self.dims = root, tuple(items), tuple(shape)

    # ------------------------------------------------------------- basics
    @property
    def shape(self):
        return tuple(mki(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = 1
        for d in self.dims:
            r = r * mki(d)
        return r

    @property
    def dtype(self):
        return "real"

    @property
    def flat(self):
        return self.flatten()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "A%r" % (self.dims,)

    def __len__(self):
        if self.dims[0].is_const():
            return self.dims[0].c
        raise Unsupported("len of an array of symbolic size")

    def rindex(self, idx):
        return tuple(it[1] if it[0] == "fix" else it[2] + (idx[it[1]] if it[3] == 1 else -idx[it[1]]) for it in self.items)

    def snap(self):
        """element function of the current contents"""
        if MACH is not None:
            MACH.read(self)
        g, items = self.root.g, self.items
        if all(it[0] == "dim" and it[1] == q and it[3] == 1 and it[2] == aff(0) for q, it in enumerate(items)) and len(items) == len(self.dims):
            return g
        return lambda idx: g(tuple(it[1] if it[0] == "fix" else it[2] + (idx[it[1]] if it[3] == 1 else -idx[it[1]]) for it in items))

    def at(self, *idx):
        return self.snap()(tuple(aff(i) for i in idx))

    def scalar(self):
        return wrap(self.at())

    # ------------------------------------------------------------ indexing
    def _items(self, key):
        """-> (items on root, result dims) or a list of them for a fancy list; None entries add axes"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            q = [k is Ellipsis for k in key].index(True)
            need = len(self.dims) - (sum(1 for k in key if k is not None) - 1)
            key = key[:q] + (slice(None),) * need + key[q + 1:]
        real = [k for k in key if k is not None]
        if len(real) > len(self.dims):
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (len(self.dims), len(real)))
        key = list(key) + [slice(None)] * (len(self.dims) - len(real))
        vmap, ndims, d = [], [], 0
        fancy = None
        newax = []
        for k in key:
            if k is None:
                newax.append(len(ndims))
                ndims.append(aff(1))
                continue
            size = self.dims[d]
            if isinstance(k, slice):
                lo, ln, st = norm_slice(k, size)
                vmap.append(("dim", len(ndims), lo, st))
                ndims.append(ln)
            elif isinstance(k, (list, A)):
                vals = list(k) if isinstance(k, list) else k
                if isinstance(vals, A) and vals.ndim == 1 and vals.dims[0].is_const():
                    vals = list(vals)
                if isinstance(vals, list) and vals and all(isinstance(v, bool) for v in vals):
                    vals = [q for q, v in enumerate(vals) if v]
                if isinstance(vals, A) and vals.ndim == 0:
                    vmap.append(("fix", self._check(dim(vals.scalar()), size)))
                    d += 1
                    continue
                if not isinstance(vals, list) or fancy is not None:
                    raise Unsupported("index array")
                vals = [self._check(dim(raw_int(v)), size) for v in vals]
                fancy = (d, len(ndims), vals)
                vmap.append(("list", len(ndims), vals))
                ndims.append(aff(len(vals)))
            else:
                vmap.append(("fix", self._check(dim(raw_int(k)), size)))
            d += 1
        return vmap, ndims, newax

    def _check(self, a, size):
        if a.is_const() and a.c < 0:
            a = size + a
        ok = ctx().entails_int("<=", 0, a) and ctx().entails_int("<", a, size)
        if not ok:
            if a.is_const() and size.is_const():
                raise IndexError("index %d is out of bounds for axis with size %d" % (a.c, size.c))
            MACH.bounds(a, size)
        return a

    def _compose(self, vmap):
        """view-level map -> root items (no lists)"""
        out = []
        for it in self.items:
            if it[0] == "fix":
                out.append(it)
                continue
            _, k, lo, st = it
            v = vmap[k]
            if v[0] == "fix":
                out.append(("fix", lo + (v[1] if st == 1 else -v[1])))
            else:
                _, k2, lo2, st2 = v
                out.append(("dim", k2, lo + (lo2 if st == 1 else -lo2), st * st2))
        return out

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) and isinstance(key[0], str) or isinstance(key, str):
            raise IndexError("string index")
        if is_mask(key):
            if self.ndim == 1 and asarr(key).ndim == 1 and not self.dims[0].is_const():
                return Sel(self.copy(), asarr(key).copy())
            key = mask_list(key)
        vmap, ndims, newax = self._items(key)
        fl = [v for v in vmap if v[0] == "list"]
        if fl or newax:
            g = self.snap()

            def f(idx):
                sub = []
                for v in vmap:
                    if v[0] == "fix":
                        sub.append(v[1])
                    elif v[0] == "dim":
                        sub.append(v[2] + (idx[v[1]] if v[3] == 1 else -idx[v[1]]))
                    else:
                        sub.append(pick(v[2], idx[v[1]]))
                return g(tuple(sub))
            if not ndims:
                return wrap(f(()))
            return new(ndims, f)
        r = A(self.root, self._compose(vmap), ndims)
        if not ndims:
            return wrap(r.at())
        return r

    def __setitem__(self, key, val):
        if self.root is None:
            raise Unsupported("assignment to a derived array")
        if is_mask(key):
            return self._setmask(key, val)
        vmap, ndims, newax = self._items(key)
        if newax:
            raise Unsupported("assignment with new axes")
        vf = None
        if isinstance(val, (A, list, tuple)):
            va = asarr(val)
            gv = broadcast(va, ndims)
        else:
            if isinstance(val, Poison):
                val.read()
            u = unwrap(val)
            gv = lambda idx: u
        lists = {v[1]: v[2] for v in vmap if v[0] == "list"}
        plain = [("dim", v[1], aff(0), 1) if v[0] == "list" else v for v in vmap]
        items = self._compose(plain)
        if self.root.owner:
            MACH.foreign_write(self.root)
        MACH.write(self.root, items)
        old = self.root.g
        dims = {v[1]: ndims[v[1]] for v in vmap if v[0] == "dim"}

        def g(idx):
            sub = [aff(0)] * len(ndims)
            for i, it in zip(idx, items):
                if it[0] == "fix":
                    if not tr("==", i, it[1]):
                        return old(idx)
                else:
                    _, k, lo, st = it
                    q = (i - lo) if st == 1 else (lo - i)
                    if k in lists:
                        for p, v in enumerate(lists[k]):
                            if tr("==", q, v):
                                sub[k] = aff(p)
                                break
                        else:
                            return old(idx)
                    else:
                        if not (tr(">=", q, 0) and tr("<", q, dims[k])):
                            return old(idx)
                        sub[k] = q
            return gv(tuple(sub))
        self.root.set_g(memoize(g))

    def _setmask(self, key, val):
        m = asarr(key)
        if m.ndim != self.ndim or isinstance(val, A) and val.ndim:
            raise Unsupported("masked assignment")
        mg = m.snap()
        u = unwrap(val)
        full = A(self.root, self.items, self.dims)
        cur = self.snap()
        full[(slice(None),) * self.ndim] = new(self.dims, lambda idx: u if truth(mg(idx)) else cur(idx))

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d array")
        n = self.dims[0]
        if n.is_const():
            for q in range(n.c):
                yield self[q]
            return
        raise Unsupported("iteration over an array of symbolic length outside a for loop")

    # ------------------------------------------------------------- algebra
    def _bin(self, o, f):
        if isinstance(o, (A, list, tuple)):
            o = asarr(o)
            shp = bshape(self.dims, o.dims)
            a, b = broadcast(self, shp), broadcast(o, shp)
            return new(shp, lambda idx: f(a(idx), b(idx)))
        o = unwrap(o) if not isinstance(o, Poison) else o.read()
        a = self.snap()
        return new(self.dims, lambda idx: f(a(idx), o))

    def __add__(self, o):
        return self._bin(o, e_add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: e_add(b, a))

    def __sub__(self, o):
        return self._bin(o, e_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: e_sub(b, a))

    def __mul__(self, o):
        return self._bin(o, e_mul)

    def __rmul__(self, o):
        return self._bin(o, e_mul)

    def __truediv__(self, o):
        return self._bin(o, e_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: e_div(b, a))

    def __pow__(self, o):
        return self._bin(o, e_pow)

    def __neg__(self):
        g = self.snap()
        return new(self.dims, lambda idx: e_sub(ZERO, g(idx)))

    def __pos__(self):
        return self

    def __abs__(self):
        g = self.snap()
        return new(self.dims, lambda idx: fn("abs", lift(g(idx))))

    def _inplace(self, v):
        self[(slice(None),) * self.ndim] = v
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def _cmp(self, op, o):
        return boolean(self._bin(o, lambda a, b: cmp_(op, a, b) if not (isinstance(a, str) or isinstance(b, str)) else (a == b) == (op == "==")))

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp("==", o)

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp("!=", o)

    def __and__(self, o):
        return boolean(self._bin(o, lambda a, b: truth(a) and truth(b)))

    def __or__(self, o):
        return boolean(self._bin(o, lambda a, b: truth(a) or truth(b)))

    def __invert__(self):
        g = self.snap()
        return boolean(new(self.dims, lambda idx: not truth(g(idx))))

    def __bool__(self):
        if all(d == aff(1) for d in self.dims):
            return bool(wrap(self.at(*[0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __matmul__(self, o):
        return MACH.np.dot(self, o)

    # ------------------------------------------------------------- methods
    @property
    def T(self):
        return self.transpose()

    def argmin(self, axis=None):
        return MACH.np.argmin(self, axis)

    def argmax(self, axis=None):
        return MACH.np.argmax(self, axis)

    def transpose(self):
        n = self.ndim
        items = [it if it[0] == "fix" else ("dim", n - 1 - it[1], it[2], it[3]) for it in self.items]
        return A(self.root, items, tuple(reversed(self.dims)))

    def copy(self):
        r = new(self.dims, self.snap())
        r.root.isbool = self.root.isbool
        if self.whole():
            r.root.uparts = self.root.uparts
            if self.root.tname and self.root.tname[1] is self.root.g:
                r.root.tname = (self.root.tname[0], r.root.g)
        return r

    def whole(self):
        return len(self.items) == len(self.dims) == len(self.root.shape) and all(
            it[0] == "dim" and it[1] == q and it[3] == 1 and it[2] == aff(0) and self.dims[q] == self.root.shape[q] for q, it in enumerate(self.items))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **k):
        only_float(t, k)
        return self.copy()

    def tolist(self):
        return [x.tolist() if isinstance(x, A) else x for x in self]

    def item(self, *k):
        if all(d == aff(1) for d in self.dims):
            return wrap(self.at(*[0] * self.ndim))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        return self.reshape(-1)
    ravel = flatten

    def squeeze(self):
        keep = [q for q, d in enumerate(self.dims) if d != aff(1)]
        if len(keep) == self.ndim:
            return self
        g = self.snap()
        nd = self.ndim

        def f(idx):
            full = [aff(0)] * nd
            for q, i in zip(keep, idx):
                full[q] = i
            return g(tuple(full))
        return new([self.dims[q] for q in keep], f)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return reshape(self, list(shape))

    def sum(self, axis=None):
        return MACH.np.sum(self, axis=axis)

    def mean(self, axis=None):
        return MACH.np.mean(self, axis=axis)

    def max(self):
        return MACH.np.max(self)

    def min(self):
        return MACH.np.min(self)

    def dot(self, o):
        return MACH.np.dot(self, o)

    def fill(self, v):
        self[(slice(None),) * self.ndim] = v

    def any(self):
        return MACH.np.any(self)

    def all(self):
        return MACH.np.all(self)

    def argmax(self):
        return MACH.np.argmax(self)

    def tostring(self):
        raise Unsupported("bytes of a symbolic array")


def raw_int(k):
    k = raw(k)
    if isinstance(k, Node):
        if k.k == "num" and k.a[0].denominator == 1:
            return int(k.a[0])
        raise IndexError("only integers are valid indices")
    if isinstance(k, float):
        raise IndexError("only integers are valid indices")
    return mki(k) if isinstance(k, Aff) else int(k)


def e_lift(x):
    if isinstance(x, tuple):
        return num(1 if truth(x) else 0)
    return lift(x)


def e_add(a, b):
    if isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)) and not isinstance(a, bool) and not isinstance(b, bool):
        return aff(a) + aff(b)
    return e_lift(a) + e_lift(b)


def e_sub(a, b):
    if isinstance(a, (int, Aff)) and isinstance(b, (int, Aff)) and not isinstance(a, bool) and not isinstance(b, bool):
        return aff(a) - aff(b)
    return e_lift(a) - e_lift(b)


def e_mul(a, b):
    return e_lift(a) * e_lift(b)


def e_div(a, b):
    return div(e_lift(a), e_lift(b))


def e_pow(a, b):
    return pow_(e_lift(a), e_lift(b))


def boolean(a):
    if isinstance(a, A):
        a.root.isbool = True
    return a


def ind(cd):
    """indicator (1 or 0) of a condition as a term"""
    e = aff_node(cd.e) if cd.kind == "i" else cd.e
    if e.k == "add":
        # positive constant factors common to all terms
        ts = [(t, c) for t, c in e.a]
        if all(t is PI or t.k == "mul" and any(b is PI and p > 0 for b, p in t.a) for t, c in ts):
            e = addn([(t / PI) * c for t, c in ts])
        if e.k == "add":
            e = e * (1 / abs(e.a[0][1]))
    if cd.op == "==":
        return fn("ind_zero", e * e)
    # one of g and 1-g, the sign fixed by the first term
    neg = e.k == "add" and e.a[0][1] < 0 or e.k == "scale" and e.a[0] < 0
    if neg:
        e = -e
    strict = (cd.op == "<") != neg      # e<0 (or -e<=0, i.e. not e<0)  |  e<=0 (or -e<0, i.e. not e<=0)
    g = fn("ind_neg" if strict else "ind_nonpos", e)
    return ONE - g if neg else g


def tree(f):
    """f(q) for a generic q as a term in tmpl: (tmpl, term, variable); cases
    of f that depend on q become indicator functions"""
    c = ctx()
    T = "T@"

    def go(hyps, lo, hi):
        n0 = len(c.hyps)
        t = MACH.fresh("q", lo, hi)
        for e, op, kind, pol in hyps:
            e2 = isubst(e, {T: ivar(t)})
            cd = Cond(kind, op, e2)
            c.assume(cd, pol)
        try:
            try:
                return isubst(e_lift(f(ivar(t))), {t: ivar(T)})
            except Split as s:
                cd = s.cond
                if cd.kind != "r" or t not in ivars(cd.e) or len(hyps) > 8:
                    raise
        finally:
            del c.hyps[n0:]
            c.cache = {}
            c.samples = None
            c._ik = None
        tm = isubst(cd.e, {t: ivar(T)})
        a = go(hyps + [(tm, cd.op, "r", True)], lo, hi)
        b = go(hyps + [(tm, cd.op, "r", False)], lo, hi)
        if a is b:
            return a
        g = ind(Cond("r", cd.op, tm))
        return sum_terms(g, a) + sum_terms(ONE - g, b)
    return go, T


def sum_terms(g, a):
    return ZERO if a is ZERO else addn([g * t * c for t, c in a.a]) if a.k == "add" and any(has_fn(t, "ind_") for t, c in a.a) else g * a


def _ind_uf():
    ir.UF["ind_neg"] = lambda x: mpmath.mpf(1) if x < 0 else mpmath.mpf(0)
    ir.UF["ind_nonpos"] = lambda x: mpmath.mpf(1) if x <= 0 else mpmath.mpf(0)
    ir.UF["ind_zero"] = lambda x: mpmath.mpf(1) if x == 0 else mpmath.mpf(0)


def is_set(x):
    return isinstance(x, list) and not isinstance(x, SymSeq) and len(x) == 0 and unl(x) is x or isinstance(x, A) and x.root.uparts is not None and x.whole()


def set_parts(a):
    if a.root.uparts is not None and a.whole():
        return a.root.uparts
    if a.ndim == 1 and a.dims[0] == aff(0):
        return frozenset()
    return frozenset([MACH.np_table(a)])


def union_array(parts):
    """the sorted distinct values of all parts: opaque, named by the set of the parts' names"""
    key = fn("set", *sorted(parts, key=lambda p: p.id))
    n = ivar("U%d" % key.id)
    cd = cmp_("<=", 1, n)
    if cd[0] not in [h for h, _ in ctx().hyps]:
        ctx().assume(*cd)
    a = new((n,), lambda idx: fn("union", key, aff_node(idx[0])))
    a.root.uparts = frozenset(parts)
    a.root.tname = (fn("tab.union", key), a.root.g)
    return a


def known(*cs):
    for q in cs:
        if q is False:
            raise Vacuous()
        if not isinstance(q, bool):
            MACH.facts.add(q[0])
        if not isinstance(q, bool) and q not in ctx().hyps:
            ctx().assume(*q)


class Sel:
    """the elements of a one-dimensional array at which a mask holds; kept as
    (array, mask) over the original positions"""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, src, mask):
        self.src, self.mask = src, mask

    def ind(self):
        if not hasattr(self.mask, "indn"):
            s = self.mask.snap()
            go, T = tree(lambda q: ONE if truth(s((q,))) else ZERO)
            self.mask.indn = go([], 0, self.mask.dims[0])
        return self.mask.indn

    def same(self, o):
        if o.mask is not self.mask and not (same_dim(o.mask.dims[0], self.mask.dims[0]) and o.ind() is self.ind()):
            raise Unsupported("arithmetic between different selections")

    @property
    def size(self):
        return V(node(MACH.np.sum(Sel(new(self.src.dims, lambda idx: ONE), self.mask))))

    @property
    def shape(self):
        return (self.size,)

    def _bin(self, o, f):
        if isinstance(o, Sel):
            self.same(o)
            return Sel(self.src._bin(o.src, f), self.mask)
        if isinstance(o, (A, list, tuple)) and asarr(o).ndim:
            raise Unsupported("arithmetic between a selection and an array")
        return Sel(self.src._bin(o, f), self.mask)

    def map(self, f):
        return Sel(f(self.src), self.mask)

    def array(self):
        """as an array of unknown length: every element is that of some
        position at which the mask holds"""
        if getattr(self, "arr", None) is None:
            n = self.src.dims[0]
            MACH.nsel = getattr(MACH, "nsel", 0) + 1
            nm = "sel%d" % MACH.nsel
            known(cmp_("<=", aff(0), ivar(nm)), cmp_("<=", ivar(nm), n))
            sg, mg, pos = self.src.snap(), self.mask.snap(), {}

            def g(idx):
                q = idx[0]
                if q not in pos:
                    p = "%s.%d" % (nm, len(pos))
                    known(cmp_("<=", aff(0), ivar(p)), cmp_("<", ivar(p), n), mg((ivar(p),)))
                    pos[q] = ivar(p)
                return sg((pos[q],))
            self.arr = new((ivar(nm),), g)
            self.arr.root.sel = self
        return self.arr

    def copy(self):
        return Sel(self.src.copy(), self.mask)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __neg__(self):
        return Sel(-self.src, self.mask)

    def __abs__(self):
        return Sel(abs(self.src), self.mask)

    def __iter__(self):
        raise Unsupported("iteration over a selection")

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def sum(self, axis=None):
        return MACH.np.sum(self)

    def mean(self, axis=None):
        return MACH.np.mean(self)
    __hash__ = None


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__"):
    def _m(self, o, _n=_n):
        box = []
        f = {"__add__": e_add, "__radd__": lambda a, b: e_add(b, a), "__sub__": e_sub, "__rsub__": lambda a, b: e_sub(b, a), "__mul__": e_mul, "__rmul__": e_mul,
             "__truediv__": e_div, "__rtruediv__": lambda a, b: e_div(b, a), "__pow__": e_pow}[_n]
        return self._bin(o, f)
    setattr(Sel, _n, _m)


def is_mask(key):
    """a boolean array, concrete or symbolic"""
    if isinstance(key, A) and key.ndim:
        if key.root.isbool is not None:
            return key.root.isbool
        z = None
        try:
            if all(d.is_const() and d.c > 0 for d in key.dims) or True:
                z = key.root.g((aff(0),) * len(key.root.shape)) if not any(d.is_const() and d.c == 0 for d in key.root.shape) else None
        except (Split, Restart):
            raise
        except Exception:
            return False
        return isinstance(z, bool) or (isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], Cond))
    return False


def mask_list(key):
    if key.ndim == 1 and key.dims[0].is_const():
        return [q for q in range(key.dims[0].c) if truth(key.at(q))]
    raise Unsupported("selection by a condition of symbolic length")


def pick(vals, i):
    if i.is_const():
        return vals[i.c]
    for q, v in enumerate(vals[:-1]):
        if tr("==", i, q):
            return v
    return vals[-1]


def norm_slice(k, size):
    st = 1 if k.step is None else int(k.step)
    if st not in (1, -1):
        raise Unsupported("slice step")

    def pos(x, default):
        if x is None:
            return default
        a = dim(raw_int(x))
        if a.is_const() and a.c < 0:
            a = size + a
            if size.is_const() and a.c < 0:
                a = aff(0)
            elif not size.is_const() and not ctx().entails_int("<=", 0, a):
                if not tr(">=", a, 0):
                    a = aff(0)
        elif not ctx().entails_int("<=", a, size):
            # numpy clips
            if tr(">", a, size):
                a = size
        return a
    if st == -1:
        if k.start is not None or k.stop is not None:
            raise Unsupported("reversed slice with bounds")
        return size - 1, size, -1
    lo, hi = pos(k.start, aff(0)), pos(k.stop, size)
    ln = hi - lo
    if not ctx().entails_int("<=", 0, ln):
        if tr("<", ln, 0):
            ln = aff(0)
    return lo, ln, 1


def new(dims, g, name=None):
    dims = tuple(dim(d) for d in dims)
    r = Root(dims, memoize(g), name)
    return A(r, [("dim", q, aff(0), 1) for q in range(len(dims))], dims)


def asarr(x):
    if isinstance(x, A):
        return x
    if isinstance(x, Poison):
        x.read()
    x = unl(x)
    if isinstance(x, SymSeq):
        return MACH.np.array(x)
    if isinstance(x, Sel):
        return x.array()
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return new((0,), lambda idx: ZERO)
        if any(isinstance(v, (A, list, tuple)) and not (isinstance(v, A) and v.ndim == 0) for v in x):
            parts = [asarr(v) for v in x]
            sh = parts[0].dims
            for p in parts[1:]:
                if len(p.dims) != len(sh) or not all(same_dim(a, b) for a, b in zip(p.dims, sh)):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            gs = [p.snap() for p in parts]
            return new((len(x),) + sh, lambda idx: pickf(gs, idx[0])(idx[1:]))
        us = [unwrap(v) for v in x]
        return new((len(x),), lambda idx: pick(us, idx[0]))
    if isinstance(x, types.GeneratorType):
        return asarr(list(x))
    u = unwrap(x)
    return new((), lambda idx: u)


def pickf(gs, i):
    return pick(gs, i)


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (aff(1),) * (n - len(s1)) + tuple(s1)
    b = (aff(1),) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == aff(1):
            out.append(y)
        elif y == aff(1) or same_dim(x, y):
            out.append(x)
        elif ctx().entails_int("==", x, 1):
            out.append(y)
        elif ctx().entails_int("==", y, 1):
            out.append(x)
        else:
            if x.is_const() and y.is_const() or ctx().entails_int("!=", x, y):
                raise ValueError("operands could not be broadcast together with shapes %r %r" % (s1, s2))
            if tr("==", x, y):
                out.append(x)
            elif tr("==", x, 1):
                out.append(y)
            elif tr("==", y, 1):
                out.append(x)
            else:
                raise ValueError("operands could not be broadcast together with shapes %r %r" % (s1, s2))
    return tuple(out)


def broadcast(a, shape):
    g = a.snap()
    off = len(shape) - len(a.dims)
    if off < 0:
        # leading ones only
        if all(d == aff(1) for d in a.dims[:-off]):
            k = -off
            a2 = lambda idx: g((aff(0),) * k + idx)
            return a2
        raise ValueError("could not broadcast input array from shape %r into shape %r" % (a.dims, tuple(shape)))
    fix = []
    for d, s in zip(a.dims, shape[off:]):
        if d == s or (d != aff(1) and same_dim(d, s)):
            fix.append(False)
        elif d == aff(1) or same_dim(d, 1):
            fix.append(True)
        else:
            if not tr("==", d, s):
                raise ValueError("could not broadcast input array from shape %r into shape %r" % (a.dims, tuple(shape)))
            fix.append(False)
    if not off and not any(fix):
        return g
    return lambda idx: g(tuple(aff(0) if f else i for f, i in zip(fix, idx[off:])))


def reshape(a, shape):
    shape = [raw_int(s) for s in shape]
    neg = [q for q, s in enumerate(shape) if isinstance(s, int) and s == -1]
    ones = lambda ds: [d for d in ds if d != aff(1)]
    src = ones(a.dims)
    if neg:
        rest = [dim(s) for s in shape if not (isinstance(s, int) and s == -1)]
        rem = list(src)
        for d in ones(rest):
            if d in rem:
                rem.remove(d)
            else:
                rem = None
                break
        if rem is not None and len(rem) <= 1:
            shape[neg[0]] = mki(rem[0]) if rem else 1
        elif all(d.is_const() for d in a.dims):
            tot = 1
            for d in a.dims:
                tot *= d.c
            o = 1
            for d in rest:
                o *= d.c
            if o == 0 or tot % o:
                raise ValueError("cannot reshape array")
            shape[neg[0]] = tot // o
        else:
            raise Unsupported("reshape")
    dst = [dim(s) for s in shape]
    g = a.snap()
    if len(ones(dst)) == len(src) and all(same_dim(x, y) for x, y in zip(ones(dst), src)):
        sq = [q for q, d in enumerate(a.dims) if d != aff(1)]
        dq = [q for q, d in enumerate(dst) if d != aff(1)]
        nd = len(a.dims)

        def f(idx):
            full = [aff(0)] * nd
            for q, p in zip(sq, dq):
                full[q] = idx[p]
            return g(tuple(full))
        return new(dst, f)
    if all(d.is_const() for d in a.dims) and all(d.is_const() for d in dst):
        tot = 1
        for d in a.dims:
            tot *= d.c
        t2 = 1
        for d in dst:
            t2 *= d.c
        if tot != t2:
            raise ValueError("cannot reshape array of size %d into shape %r" % (tot, dst))
        sd = [d.c for d in a.dims]
        dd = [d.c for d in dst]

        def f(idx):
            k = 0
            for i, d in zip(idx, dd):
                k = k * d + i.c
            out = []
            for d in reversed(sd):
                out.append(aff(k % d))
                k //= d
            return g(tuple(reversed(out)))
        return new(dst, f)
    raise Unsupported("reshape %r -> %r" % (a.dims, dst))


_ind_uf()


# ----------------------------------------------------------------- machine
MACH = None


class Poison:
    """value of a local name or attribute that must not be used"""

    def __init__(self, why, key=None):
        self.why, self.key = why, key

    def read(self):
        if self.key is not None:
            MACH.carry_name(self.key)
        raise Unsupported(self.why)

    def _r(self, *a, **k):
        self.read()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _r
    __getitem__ = __setitem__ = __iter__ = __len__ = __call__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iadd__ = __abs__ = __float__ = __int__ = __index__ = _r

    def __eq__(self, o):
        self.read()

    def __ne__(self, o):
        self.read()

    def __hash__(self):
        return id(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.read()


class LoopState:
    def __init__(self, lid, var, lo, hi, hyp0):
        self.lid, self.var, self.lo, self.hi, self.hyp0 = lid, var, lo, hi, hyp0
        self.writes, self.reads, self.g0 = {}, {}, {}
        self.roots = {}
        self.attrs = {}
        self.done = False


ALIGN = [None]
SKIP = [None]       # loops over 0..hi-1 that a task leaves out (their effects are decided by another task)


def about(vs, var):
    """do the variables depend on the loop variable (N[i] does on i)"""
    return var in vs or any("[" in v and var in INDEX.findall(v[v.index("["):]) for v in vs)


INDEX = re.compile(r"\w+")


class Machine:
    """one symbolic run (restarted on case splits and discoveries)"""

    def __init__(self, know):
        self.align = ALIGN[0]   # (n, name): loops over 0..n-1 at top level run for the generic index `name`
        self.know = know        # (loop ordinal, root ordinal or name) -> carried
        self.loops = []
        self.nl = 0
        self.no = 0
        self.facts, self.nbase = set(), 0       # conditions known to hold; hypotheses of the task
        self.foreign = []       # writes to arrays owned by the caller
        self.events = []
        self.depth = 0
        self.warned = []
        self.finished = []

    def next_ord(self):
        self.no += 1
        return self.no

    def fresh(self, p, lo, hi):
        """a fresh integer variable in [lo, hi)"""
        self.nq = getattr(self, "nq", 0) + 1
        nm = "%s%d" % (p, self.nq)
        c = ctx()
        for cond in (cmp_("<=", aff(lo), ivar(nm)), cmp_("<", ivar(nm), aff(hi))):
            if not isinstance(cond, bool) and cond not in c.hyps:
                c.assume(*cond)
        self.ranges = getattr(self, "ranges", {})
        self.ranges[nm] = (aff(lo), aff(hi))
        return nm

    def index_hyps(self, nm):
        """case splits that depend on the variable, beyond its range"""
        lo, hi = self.ranges[nm]
        rg = [q[0] for q in (cmp_("<=", lo, ivar(nm)), cmp_("<", ivar(nm), hi)) if not isinstance(q, bool)]
        out = []
        for h, p in ctx().hyps:
            vs = h.e.vars() if h.kind == "i" else ivars(h.e)
            if nm in vs and h not in rg:
                out.append(h)
        return out

    def bounds(self, a, size):
        if tr("<", a, 0) or not tr("<", a, size):
            raise IndexError("index %r is out of bounds for axis of size %r" % (a, size))

    def foreign_write(self, root):
        self.foreign.append(root.owner)

    # ------------------------------------------------- reads and writes
    def read(self, view):
        for L in self.loops:
            if view.root.ord <= L.ord0:
                L.roots[view.root.ord] = view.root
                L.reads.setdefault(view.root.ord, []).append(view.items)

    def write(self, root, items):
        for L in self.loops:
            if root.ord <= L.ord0:
                L.roots[root.ord] = root
                if root.ord not in L.g0 and root.ord not in L.carried:
                    L.g0[root.ord] = root.g
                L.writes.setdefault(root.ord, []).append(items)

    # ------------------------------------------------------------- loops
    def loop(self, it, leaves=False):
        lo = hi = None
        conv = None
        it = unl(it)
        if isinstance(it, SymRange):
            lo, hi = it.lo, it.hi
            conv = lambda s: mki(s)
        elif isinstance(it, A) and it.ndim and not it.dims[0].is_const():
            lo, hi = aff(0), it.dims[0]
            conv = lambda s: it[mki(s)]
        elif isinstance(it, SymSeq):
            lo, hi = aff(0), it.n
            conv = it.get
        elif hasattr(it, "readline"):
            yield from it.loop()
            return
        else:
            yield from it
            return
        if SKIP[0] is not None and not self.loops and SKIP[0](hi):
            return
        if not tr("<", lo, hi):
            return
        self.nl += 1
        lid = self.nl
        al = self.align is not None and not self.loops and lo == aff(0) and (self.align[0](hi) if callable(self.align[0]) else same_dim(hi, self.align[0]))
        s = ivar(self.align[1] if al else "s%d" % lid)
        c = ctx()
        for cond in (cmp_("<=", lo, s), cmp_("<", s, hi)):
            if not isinstance(cond, bool) and cond not in c.hyps:
                c.assume(*cond)
        L = LoopState(lid, s.vars()[0] if isinstance(s.vars(), (list, tuple)) else next(iter(s.vars())), lo, hi, len(c.hyps))
        L.aligned = al
        L.ord0 = self.no
        L.outer = list(self.loops)
        L.carried = {}
        L.names = {}
        self.loops.append(L)
        f = sys._getframe(1)
        L.key = (lid, f.f_code.co_name, f.f_lineno)
        L.pending = [k[2] for k in self.know if k[0] == "root" and k[1] == L.key]
        L.leaves, L.broken = leaves, False
        fs = [f for f in getattr(self, "reading", ()) if f.enter(L)]
        try:
            yield conv(s)
        except GeneratorExit:
            # left in this iteration; those before it had no effect (checked where the iteration runs to its end)
            if leaves and self.loops and self.loops[-1] is L:
                self.loops.pop()
                L.done = L.broken = True
                self.finished.append(L)
                self.know.setdefault("left", set()).add(L.key)
                if fs:
                    self.bad = "a file left in the middle of its rows"
                if L.carried or L.names:
                    self.bad = "loop with carried values left early"
            raise
        # end of the generic iteration
        if self.loops[-1] is not L:
            raise Unsupported("unfinished inner loop")
        self.loops.pop()
        L.done = True
        for f in fs:
            f.leave()
        self.know.setdefault("completed", set()).add(L.key)
        if getattr(L, "appends", 0) or getattr(L, "effects", False):
            self.know.setdefault("effects", set()).add(L.key)
        if leaves and (L.writes or L.carried or L.names):
            raise Unsupported("effects of a loop that can be left early")
        self.finish(L)
        self.finished.append(L)

    def finish(self, L):
        s = ivar(L.var)
        na = getattr(L, "appends", 0)
        if self.know.setdefault(("appends", L.key), na) != na:
            raise Unsupported("appends in some iterations of a loop only")
        for o, ws in L.writes.items():
            root = L.roots[o]
            if o in L.carried:
                self.finish_carried(L, root)
                continue
            regs = ws + L.reads.get(o, [])
            d = self.elementwise(L, regs)
            if d is None:
                self.know[("root", L.key, o)] = True
                raise Restart()
            self.finish_elem(L, root, *d)
        for o in [k for k in L.carried if k not in L.writes]:
            root, g0 = L.carried[o]
            root.set_g(g0)

    def elementwise(self, L, regs):
        v = L.var
        nd = len(regs[0])
        for d in range(nd):
            offs = set()
            for r in regs:
                it = r[d]
                if it[0] == "fix" and dict(it[1].t).get(v) == 1:
                    offs.add(it[1] - ivar(v))
                else:
                    offs = None
                    break
            if offs and len(offs) == 1:
                off = offs.pop()
                if v not in off.vars():
                    return d, off
        return None

    def path_clean(self, L):
        """no case split since the loop was entered depends on its index"""
        if L.aligned:
            return False
        for h, p in ctx().hyps:
            if h.kind == "i":
                if about(h.e.vars(), L.var) and not self.is_range_hyp(L, h) and h not in self.facts:
                    return False
            elif about(ivars(h.e), L.var):
                return False
        return True

    def same_case(self, L):
        """the case of this path is that of all iterations"""
        if not L.aligned:
            return self.path_clean(L)
        for h, p in ctx().hyps[self.nbase:]:
            if h.kind == "i":
                if about(h.e.vars(), L.var) and not self.is_range_hyp(L, h) and h not in self.facts:
                    return False
            elif about(ivars(h.e), L.var):
                return False
        return True

    def is_range_hyp(self, L, h):
        r = cmp_("<=", L.lo, ivar(L.var)), cmp_("<", ivar(L.var), L.hi)
        return any(not isinstance(q, bool) and q[0] == h for q in r)

    def finish_elem(self, L, root, d, off):
        g0, g1 = L.g0[root.ord], root.g
        s = ivar(L.var)

        def g(idx):
            if idx[d] == s + off:
                return g1(idx)
            if ctx().entails_int("==", idx[d], s + off):
                gi = list(idx)
                gi[d] = s + off
                return g1(tuple(gi))
            j = idx[d] - off
            if tr(">=", j, L.lo) and tr("<", j, L.hi):
                if not self.path_clean(L):
                    raise Unsupported("element of an array written in a loop whose cases depend on the element")
                gi = list(idx)
                gi[d] = s + off
                return e_subst(g1(tuple(gi)), {L.var: j})
            return g0(idx)
        root.set_g(memoize(g))

    def enter_carried(self, L):
        pass

    def finish_carried(self, L, root):
        _, g0 = L.carried[root.ord]
        g1 = root.g
        tag = "C@%d_%d" % (L.lid, root.ord)
        pre = "C@%d_" % L.lid
        s = ivar(L.var)

        def g(idx):
            if any(L.var in i.vars() for i in idx):
                raise Unsupported("carried array indexed by the loop variable")
            v = g1(idx)
            c = fn(tag, *[aff_node(i) for i in idx])
            return self.closed(L, lift(v), c, lift(g0(idx)), pre)
        root.set_g(memoize(g))

    def closed(self, L, v, c, init, pre):
        if v is c:
            if not self.same_case(L):
                raise Unsupported("value kept by some iterations of a loop only")
            return init
        dlt = v - c
        if not has_fn(dlt, pre):
            if not self.path_clean(L):
                raise Unsupported("sum over iterations whose cases differ")
            t = tmpvar()
            body = isubst(dlt, {L.var: ivar(t) - 1 + L.lo})
            return init + psum(t, body, L.hi - L.lo)
        if not has_fn(v, pre):
            if not self.path_clean(L):
                raise Unsupported("last value of a loop whose cases differ")
            return isubst(v, {L.var: L.hi - 1})
        from nf import is_zero
        cv = fn("@", ZERO)
        raise Unsupported("recurrence in a loop: %s" % show(v, 3))

    # hooks inserted by Rewrite -------------------------------------------
    def begin_names(self, names, loc):
        """called as first statement of a loop body; returns the values the
        assigned names have at the start of a generic iteration"""
        if not self.loops or self.loops[-1].done:
            return None
        L = self.loops[-1]
        if getattr(L, "began", False):
            return None
        L.began = True
        for o in L.pending:
            root = ROOTS.get(o)
            r = root() if root is not None else None
            if r is None:
                raise Unsupported("carried array lost")
            L.carried[o] = (r, r.g)
            tag = "C@%d_%d" % (L.lid, o)
            r.set_g(lambda idx, tag=tag: fn(tag, *[aff_node(i) for i in idx]))
        out = []
        for nm in names:
            if isinstance(loc.get(nm), str) and getattr(loc[nm], "file", None) is not None:
                out.append(loc[nm].file.carried(loc[nm], L))
            elif ("name", L.key, nm) in self.know:
                if nm not in loc:
                    raise Unsupported("name %s read before it is set in a loop" % nm)
                init = loc[nm]
                L.names[nm] = init
                if is_set(init):
                    out.append(union_array(frozenset([fn("C@%d_%s" % (L.lid, nm))])))
                elif isinstance(init, A):
                    tag = "C@%d_%s" % (L.lid, nm)
                    out.append(new(init.dims, lambda idx, tag=tag: fn(tag, *[aff_node(i) for i in idx])))
                else:
                    out.append(V(fn("C@%d_%s" % (L.lid, nm))))
            else:
                out.append(Poison("%s of an earlier iteration" % nm, ("name", L.key, nm)))
        return out

    def carry_name(self, key):
        if key not in self.know:
            self.know[key] = True
            raise Restart()

    def end_names(self, names, loc, before):
        """after the loop: final values of the assigned names, or None"""
        if before is not self.marker():
            pass
        if not self.finished:
            return None
        L = self.finished[-1]
        if getattr(L, "ended", False):
            return None
        L.ended = True
        if L.broken:
            if getattr(self, "bad", None):
                raise Unsupported(self.bad)
            return [loc.get(nm, None) if nm in loc else Poison("%s not set" % nm) for nm in names]
        out = []
        pre = "C@%d_" % L.lid
        for nm in names:
            if nm not in loc:
                out.append(Poison("%s not set" % nm))
                continue
            v = loc[nm]
            if nm in L.names:
                init = L.names[nm]
                tag = "C@%d_%s" % (L.lid, nm)
                if is_set(init):
                    out.append(self.closed_union(L, init, v, tag, pre))
                elif isinstance(init, A):
                    v = asarr(v)
                    g1, g0 = v.snap(), init.snap()
                    out.append(new(v.dims, lambda idx, g1=g1, g0=g0, tag=tag: self.closed(L, lift(g1(idx)), fn(tag, *[aff_node(i) for i in idx]), lift(g0(idx)), pre)))
                else:
                    out.append(V(self.closed(L, node(v), fn(tag), node(init), pre)))
            else:
                out.append(self.last(L, v, nm))
        return out

    def closed_union(self, L, init, v, tag, pre):
        """C <- C u X_s over the iterations: init u the union of all X_s"""
        if not self.same_case(L):
            raise Unsupported("recurrence over sets whose form depends on the iteration")
        parts = set_parts(asarr(v))
        c = fn(tag)
        if c not in parts or any(has_fn(p, pre) for p in parts if p is not c):
            raise Unsupported("recurrence over sets")
        new_ = set()
        for p in parts:
            if p is c:
                continue
            if L.var in ivars(p):
                t = tmpvar()
                p = fn("union_over", psum(t, fn("part", isubst(p, {L.var: ivar(t) - 1 + L.lo})), L.hi - L.lo))
            new_.add(p)
        return union_array(set_parts(asarr(init)) | frozenset(new_))

    def last(self, L, v, nm):
        """value of the last iteration"""
        try:
            if isinstance(v, (V, I)):
                if L.var not in (ivars(v.n) if isinstance(v, V) else v.a.vars()):
                    return v
                if self.path_clean(L):
                    return wrap(e_subst(unwrap(v), {L.var: L.hi - 1}))
            elif isinstance(v, (int, float, str, bool, type(None))) and self.path_clean(L):
                return v
            elif isinstance(v, A) and self.path_clean(L):
                g = v.snap()
                dd = [d.subst({L.var: L.hi - 1}) for d in v.dims]
                return new(dd, lambda idx: e_subst(g(idx), {L.var: L.hi - 1}))
        except Unsupported:
            pass
        return Poison("value of %s after the loop" % nm)

    def marker(self):
        return None


import weakref
ROOTS = {}
_ri = Root.__init__


def _root_init(self, *a, **k):
    _ri(self, *a, **k)
    ROOTS[self.ord] = weakref.ref(self)


Root.__init__ = _root_init


def e_subst(v, m):
    if isinstance(v, Node):
        return isubst(v, m)
    if isinstance(v, Aff):
        return v.subst(m)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Cond):
        c = v[0]
        e = c.e.subst(m) if c.kind == "i" else isubst(c.e, m)
        r = cmp_(c.op, e, 0)
        return r if isinstance(r, bool) and v[1] else ((not r) if isinstance(r, bool) else (r[0], r[1] == v[1]))
    if isinstance(v, Sym):
        return v.subst(m)
    return v


class Sym:
    """an object array element that depends on its index (e.g. the airfoil of section i)"""

    def __init__(self, make, idx):
        self._make, self._idx = make, idx

    def subst(self, m):
        return self._make(tuple(i.subst(m) for i in self._idx))


_hf = {}


def has_fn(e, prefix):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "fn" and x.a[0].startswith(prefix):
            return True
        st.extend(children(x))
    return False


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        raise Unsupported("range of symbolic length outside a for loop")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


class SymSeq:
    """sequence of symbolic length: zip, enumerate, ..."""

    def __init__(self, n, get):
        self.n = aff(n)

        def one(k):
            v = get(k)
            if MACH is not None and hasattr(v, "__dict__") and not isinstance(v, (Num, A, Sel, tuple, list, SymSeq, types.FunctionType)):
                MACH.__dict__.setdefault("elems", {}).setdefault(id(v), (self, aff(k), v))
            return v
        self.get = one

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic sequence")
        k = dim(raw_int(k))
        if k.is_const() and k.c < 0:
            k = self.n + k
        if not (ctx().entails_int("<=", 0, k) and ctx().entails_int("<", k, self.n)):
            MACH.bounds(k, self.n)
        return self.get(k)

    def __iter__(self):
        raise Unsupported("sequence of symbolic length outside a for loop")


# ----------------------------------------------------------- source rewriting
def uniform(L):
    """the case of the current path does not depend on the position in loop L"""
    for h, p in ctx().hyps:
        if h.kind == "i":
            if L.var in h.e.vars() and not MACH.is_range_hyp(L, h):
                return False
        elif L.var in ivars(h.e):
            return False
    return True


class Elsewhere:
    """an element written by a loop, seen at another position: its fields are
    those of the generic position with the index replaced"""

    def __init__(self, v, L, k):
        object.__setattr__(self, "v", (v, L, k))

    def __getattribute__(self, nm):
        v, L, k = object.__getattribute__(self, "v")
        if nm == "__class__":
            return type(v)
        if nm not in getattr(v, "__dict__", ()):
            raise Unsupported("element of a list written in a loop")
        return elsewhere(v.__dict__[nm], L, k)

    def __setattr__(self, nm, x):
        raise Unsupported("element of a list written in a loop")


def elsewhere(x, L, k):
    if L is None or not uniform(L):
        raise Unsupported("element of a list written in a loop")
    m = {L.var: k}
    if isinstance(x, (V, I)):
        return wrap(e_subst(unwrap(x), m))
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, A):
        t = [ivar(tmpvar()) for _ in x.dims]
        e = x.at(*t)
        if isinstance(e, Node) and L.var not in ivars(e) and not any(L.var in d.vars() for d in x.dims):
            return x
        g = x.snap()
        return new([d.subst(m) for d in x.dims], lambda idx: e_subst(g(idx), m))
    if type(x) in (list, tuple, SList) and unl(x) is x:
        return tuple(elsewhere(v, L, k) for v in x)
    raise Unsupported("element of a list written in a loop")


class SymList(SymSeq):
    """[x]*n with n symbolic, filled by a loop over all its positions; only the
    generic position is known afterwards"""

    def __init__(self, n, x):
        self.n, self.x, self.at, self.loop = n, x, None, None

    def get(self, k):
        if self.at is None:
            return self.x
        if self.at[0] == k or ctx().entails_int("==", self.at[0], k):
            return self.at[1]
        v = self.at[1]
        return elsewhere(v, self.loop, k) if isinstance(v, (V, I, A, int, float)) else Elsewhere(v, self.loop, k)

    def __setitem__(self, k, v):
        k = dim(raw_int(k))
        L = MACH.loops[-1] if MACH.loops else None
        if len(MACH.loops) != 1 or not L.aligned or k != ivar(L.var) or not same_dim(L.hi - L.lo, self.n) or L.lo != aff(0):
            raise Unsupported("list element assigned outside a loop over all positions")
        self.at, self.loop = (k, v), L


def probe(x):
    """(generic index, generic element) of a symbolic sequence"""
    if isinstance(x, SymList) and x.at:
        return x.at[0], x.at[1]
    q = ivar(MACH.fresh("c", 0, x.n))
    return q, x.get(q)


class SList(list):
    """a list display; filled by append in a loop over a symbolic range it
    becomes a sequence of that length"""
    sym = loop = None

    def touch(self):
        """what a list holds in a loop over a symbolic range is known only where that loop does not fill it"""
        if self.loop is not None and not self.loop.done:
            raise Unsupported("a list looked at in the loop that fills it")
        if MACH is not None and self.loop is None and len(MACH.loops) > self.depth:
            L = MACH.loops[self.depth]
            L.__dict__.setdefault("looked", {})[id(self)] = self

    def __init__(self, x=()):
        super().__init__(x)
        self.depth = len(MACH.loops) if MACH is not None else 0

    def append(self, v):
        d = len(MACH.loops) if MACH is not None else 0
        if d <= self.depth:
            if self.sym is not None:
                raise Unsupported("append to a list of symbolic length")
            return super().append(v)
        L = MACH.loops[-1]
        L.appends = getattr(L, "appends", 0) + 1
        if d != self.depth + 1 or super().__len__() or self.sym is not None or L.lo != aff(0):
            raise Unsupported("append in a loop over a symbolic range")
        if id(self) in getattr(L, "looked", {}):
            raise Unsupported("a list looked at in the loop that fills it")
        self.loop = L
        if not L.aligned:
            def get(k, L=L, v=v):
                if aff(k) == ivar(L.var):
                    return v
                if not MACH.path_clean(L):
                    raise Unsupported("elements of a list whose cases depend on the element")
                return elsewhere(v, L, aff(k))
            if not isinstance(v, (V, I, int, float)) and not (isinstance(v, (list, tuple)) and all(isinstance(x, (V, I, int, float)) for x in v)):
                raise Unsupported("append of an object in a loop over a symbolic range")
            self.sym = SymSeq(L.hi, get)
            return
        self.sym = SymList(L.hi, None)
        self.sym.at, self.sym.loop = (ivar(L.var), v), L

    def __getitem__(self, k):
        self.touch()
        if self.sym is not None:
            return self.sym[k]
        if isinstance(k, (I, V)):
            k = int(k)
        return super().__getitem__(k)

    def __iter__(self):
        self.touch()
        if self.sym is not None:
            raise Unsupported("sequence of symbolic length outside a for loop")
        return super().__iter__()

    def __contains__(self, x):
        return any(x is y or x == y for y in self)

    def __len__(self):
        self.touch()
        if self.sym is not None:
            raise Unsupported("len of a list of symbolic length")
        return super().__len__()

    def _no(self, *a, **k):
        raise Unsupported("list method")
    extend = insert = pop = remove = sort = reverse = __iadd__ = __imul__ = clear = __setitem__ = __delitem__ = _no


def unl(x):
    if isinstance(x, SList):
        x.touch()
    return x.sym if isinstance(x, SList) and x.sym is not None else x


def leaves(body, depth=0):
    """does the body of a loop contain a break of this loop or a return"""
    for n in body:
        if isinstance(n, ast.Return) or isinstance(n, ast.Break) and not depth:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        inner = isinstance(n, (ast.For, ast.While))
        for f in ("body", "orelse", "finalbody", "handlers"):
            sub = getattr(n, f, None)
            if sub and leaves(sub, depth + (1 if inner and f == "body" else 0)):
                return True
    return False


def left_with(body, names):
    """the names only assigned in blocks that end by leaving the loop: their
    values are those before the loop in every iteration that starts"""
    def stores(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    other = set()

    def go(b, depth):
        if b and (isinstance(b[-1], ast.Return) or isinstance(b[-1], ast.Break) and not depth):
            # leaves, unless something before it skips the rest
            if not any(isinstance(x, (ast.Continue, ast.Break)) for q in b[:-1] for x in ast.walk(q)):
                return
        for n in b:
            subs = [getattr(n, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(n, f, None), list)]
            if not isinstance(n, ast.If):
                other.update(stores(n))
                continue
            other.update(stores(n.test))
            for q in subs:
                go(q, depth)
    go(body, 0)
    return names - other


class Rewrite(ast.NodeTransformer):
    """loop hooks and pass-through of the verifier's exceptions; nothing else"""

    def __init__(self):
        self.k = 0

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("__const__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.copy_location(ast.Call(ast.Name("__list__", ast.Load()), [], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__printf__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "zip" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("__unzip__", ast.Load()), [n.args[0].value], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not any(isinstance(x, ast.Constant) for x in (n.left, n.comparators[0])):
            r = ast.Call(ast.Name("__is__", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.copy_location(ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.IsNot) else r, n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and not g.is_async:
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            if isinstance(g.target, ast.Name):
                args, wrapv = names, False
            elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
                args, wrapv = names, True
            else:
                return n
            lam = ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), n.elt)
            return ast.copy_location(ast.Call(ast.Name("__comp__", ast.Load()), [lam, g.iter, ast.Constant(wrapv)], []), n)
        return n

    def visit_While(self, n):
        if not n.orelse:
            body = list(n.body)
            if not (isinstance(n.test, ast.Constant) and n.test.value):
                body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
            f = ast.For(ast.Name("w__", ast.Store()), ast.Call(ast.Name("__while__", ast.Load()), [], []), body, [])
            return self.visit_For(ast.fix_missing_locations(ast.copy_location(f, n)))
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        h = ast.ExceptHandler(type=ast.Name("__verif_exc__", ast.Load()), name=None, body=[ast.Raise(None, None)])
        n.handlers.insert(0, h)
        return n

    def visit_For(self, n):
        names = set()

        def targets(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, (ast.AugAssign,)) and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
        tg = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        names -= tg
        lv = leaves(n.body)
        if lv:
            names -= left_with(n.body, names)
        self.generic_visit(n)
        names = sorted(names)
        self.k += 1
        v = "__lp%d" % self.k
        n.iter = ast.Call(ast.Name("__loop__", ast.Load()), [n.iter] + ([ast.Constant(True)] if lv else []), [])
        lst = ast.Tuple([ast.Constant(x) for x in names], ast.Load())
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        pre = ast.parse("%s = __begin__(None, None)" % v).body[0]
        pre.value = ast.Call(ast.Name("__begin__", ast.Load()), [lst, loc], [])
        body = [pre]
        if names:
            unp = ast.parse("if %s is not None:\n    (%s,) = %s" % (v, ",".join(names), v)).body[0]
            body.append(unp)
        n.body = body + n.body
        post = ast.parse("%s = None" % v).body[0]
        post.value = ast.Call(ast.Name("__end__", ast.Load()), [lst, loc, ast.Constant(None)], [])
        after = [post]
        if names:
            after.append(ast.parse("if %s is not None:\n    (%s,) = %s" % (v, ",".join(names), v)).body[0])
        else:
            after.append(ast.Pass())
        return [n] + after


class Mangle(ast.NodeTransformer):
    pass


def rewrite(src, fname):
    t = ast.parse(src, fname)
    t = Rewrite().visit(t)
    ast.fix_missing_locations(t)
    return compile(t, fname, "exec")


# ------------------------------------------------------------------- loading
class FakeModule(types.ModuleType):
    def __init__(self, name, d=None):
        super().__init__(name)
        self.__path__ = []
        if d:
            self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        nm = "%s.%s" % (self.__name__, k)
        return Missing(nm)


class Missing:
    """something of an unmodelled module: usable only by name"""

    def __init__(self, nm):
        self._nm = nm

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self._nm)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self._nm + "." + k)

    def __mro_entries__(self, bases):
        return (object,)


def s_const(t):
    """a decimal literal: the rational it denotes"""
    return V(num(Fr(t)))


def s_comp(f, it, unpack):
    """[f(x) for x in it]"""
    h = (lambda x: f(*x)) if unpack else f
    if is_sym_seq(it):
        n, g = seqn(it)
        x = unl(it)
        first = h(probe(x)[1] if isinstance(x, SymSeq) else g(ivar(MACH.fresh("c", 0, n))))
        if not isinstance(first, (Num, B, int, float)):
            return SymSeq(n, lambda q: h(g(q)))
        return new((n,), lambda idx: unwrap(h(g(idx[0]))))
    return [h(x) for x in it]


def s_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return V(num(Fr(int(a), int(b))))
    return a / b


def s_is(a, b):
    """a is b; elements of a sequence of symbolic length are the same object when their positions are equal"""
    if a is b:
        return True
    e = getattr(MACH, "elems", {})
    p, q = e.get(id(a)), e.get(id(b))
    if p and q and p[0] is q[0]:
        return truth(cmp_("==", p[1], q[1]))
    if any(type(x) is Elsewhere for x in (a, b)):
        raise Unsupported("identity of an element written by a loop")
    return False


def s_while():
    if getattr(MACH, "texts", None):
        return MACH.texts.forever()
    return iter(builtins.int, None)


def s_range(*a):
    a = [raw_int(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    st = a[2] if len(a) > 2 else 1
    if st != 1:
        raise Unsupported("step of a symbolic range")
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    return SymRange(dim(lo), dim(hi))


def s_len(x):
    x = unl(x)
    if isinstance(x, A):
        if not x.dims:
            raise TypeError("len() of unsized object")
        return mki(x.dims[0])
    if isinstance(x, (SymRange,)):
        return mki(x.hi - x.lo)
    if isinstance(x, SymSeq):
        return mki(x.n)
    if isinstance(x, Sel):
        return mki(x.array().dims[0])
    if isinstance(x, Poison):
        x.read()
    if isinstance(x, Num):
        raise TypeError("object of type 'float' has no len()")
    return builtins.len(x)


def seqn(x):
    x = unl(x)
    if isinstance(x, A):
        return x.dims[0], (lambda s: x[mki(s)])
    if isinstance(x, SymRange):
        return x.hi - x.lo, (lambda s: mki(x.lo + s))
    if isinstance(x, SymSeq):
        return x.n, x.get
    return None


def is_sym_seq(x):
    q = seqn(x)
    return q is not None and (not q[0].is_const() or q[0].c >= LONG)


LONG = 64       # sequences of at least this many elements are handled by a generic element


def s_zip(*xs):
    if any(is_sym_seq(x) for x in xs):
        qs = [seqn(x) for x in xs]
        if any(q is None for q in qs):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = qs[0][0]
        for q in qs[1:]:
            if not same_dim(n, q[0]):
                raise Unsupported("zip of different lengths")
        return SymSeq(n, lambda s: tuple(q[1](s) for q in qs))
    return builtins.zip(*xs)


def s_unzip(x):
    """zip(*x)"""
    x = unl(x)
    if not isinstance(x, SymSeq):
        return s_zip(*x)
    t = probe(x)[1]
    if not isinstance(t, (list, tuple)):
        raise Unsupported("zip of the elements of a sequence of symbolic length")
    if not tr("<", 0, x.n):
        return iter(())
    return iter([SymSeq(x.n, lambda s, q=q: x.get(s)[q]) for q in range(len(t))])


def s_enumerate(x, start=0):
    if is_sym_seq(x):
        n, g = seqn(x)
        return SymSeq(n, lambda s: (mki(s + start), g(s)))
    return builtins.enumerate(x, start)


def const_first(a, b):
    ca, cb = (q.is_const() if isinstance(q, Aff) else q.k == "num" if isinstance(q, Node) else True for q in (unwrap(a), unwrap(b)))
    return (b, a) if cb and not ca else (a, b)


def larger(a, b):
    """(smaller, larger); equal values may be taken either way, so that the
    order of the arguments does not lead to different conditions"""
    a, b = const_first(a, b)
    if isinstance(unwrap(a), (int, Aff)) and isinstance(unwrap(b), (int, Aff)):
        return (a, b) if a < b else (b, a)
    return (a, b) if a <= b else (b, a)


def s_max(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], A) and not a[0].dims[0].is_const():
            return MACH.np.max(a[0])
        a = list(a[0])
    if set(k) - {"key"}:
        raise Unsupported("max with a default")
    if "key" in k:
        return builtins.max(a, **k)
    r = a[0]
    for x in a[1:]:
        r = larger(r, x)[1]
    return r


def s_min(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], A) and not a[0].dims[0].is_const():
            return MACH.np.min(a[0])
        a = list(a[0])
    if set(k) - {"key"}:
        raise Unsupported("max with a default")
    if "key" in k:
        return builtins.min(a, **k)
    r = a[0]
    for x in a[1:]:
        r = larger(r, x)[0]
    return r


def s_sum(x, start=0):
    if isinstance(x, A) or is_sym_seq(x):
        if isinstance(x, A) and x.ndim == 1:
            return MACH.np.sum(x) + start
        if not isinstance(x, A):
            n, g = seqn(x)
            t = tmpvar()
            return V(psum(t, node(g(ivar(t) - 1)), n)) + start
        r = start
        for v in x:
            r = r + v
        return r
    return builtins.sum(x, start)


def s_abs(x):
    return abs(x)


def s_float(x=0.0):
    if isinstance(x, (V, I)):
        return V(node(x))
    if isinstance(x, A):
        return V(node(x.item()))
    if isinstance(x, Poison):
        x.read()
    if isinstance(x, str) and "\x01" in x:
        return V(MACH.texts.number(x))
    return builtins.float(x)


def s_int(x=0, *a):
    if isinstance(x, I):
        return x
    if isinstance(x, V):
        return x.trunc()
    if isinstance(x, str) and "\x01" in x:
        return MACH.texts.integer(x)
    return builtins.int(x, *a)


def s_print(*a, **k):
    MACH.events.append(("print",))


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, V):
        return any(q in (s_float, builtins.float) for q in ts)
    if isinstance(x, I):
        return any(q in (s_int, builtins.int) for q in ts)
    if isinstance(x, A):
        return any(q is A for q in ts)
    ts = tuple(builtins.float if q is s_float else builtins.int if q is s_int else q for q in ts)
    ts = tuple(q for q in ts if isinstance(q, type))
    return builtins.isinstance(x, ts)


def s_round(x, n=None):
    if isinstance(x, Num):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_any(x):
    if isinstance(x, A):
        return MACH.np.any(x)
    return builtins.any(x)


def s_all(x):
    if isinstance(x, A):
        return MACH.np.all(x)
    return builtins.all(x)


def s_list(x=()):
    x = unl(x)
    if isinstance(x, SymSeq):
        return SymSeq(x.n, x.get)
    if isinstance(x, A) and not x.dims[0].is_const():
        return x.copy()
    return SList(x) if not isinstance(x, builtins.list) or x else SList()


class SortedSeq(SymSeq):
    """a symbolic sequence sorted by the given key"""

    def __init__(self, base, key, q):
        self.base, self.key, self.q = base, key, q
        super().__init__(base.n, self.one)

    def one(self, k):
        raise Unsupported("element of a sorted sequence")


SORTED = [None]     # (key term, index) -> the sequence of these terms is nondecreasing


def s_sorted(x, **k):
    x = unl(x)
    if isinstance(x, SymSeq) and set(k) == {"key"}:
        q, v = probe(x)
        e = node(k["key"](v))
        if SORTED[0] is not None and SORTED[0](e, q):
            return x        # the keys are known to be nondecreasing
        return SortedSeq(x, e, q)
    if isinstance(x, SymSeq):
        raise Unsupported("sorted")
    if isinstance(x, (list, tuple)) and all(isinstance(v, (int, float, str)) for v in x) or k:
        return builtins.sorted(x, **k)
    raise Unsupported("sorted")


SHIM = dict(range=s_range, len=s_len, zip=s_zip, enumerate=s_enumerate, max=s_max, min=s_min, sum=s_sum, abs=s_abs, float=s_float, int=s_int, print=s_print,
            isinstance=s_isinstance, round=s_round, any=s_any, all=s_all, list=s_list, sorted=s_sorted)


def load(path, name, modules, extra=None):
    """execute the source at `path` with the fake modules; -> module dict"""
    src = open(path).read()
    code = CODE.get((path, hash(src)))
    if code is None:
        code = CODE[(path, hash(src))] = rewrite(src, path)
    b = dict(builtins.__dict__)
    b.update(SHIM)

    def imp(nm, globals=None, locals=None, fromlist=(), level=0):
        if level and not nm:
            full = "ccblade"
        else:
            full = ("ccblade." + nm) if level else nm
        if full in modules:
            m = modules[full]
            if not fromlist and "." in full and not level:
                top = full.split(".")[0]
                return modules.get(top) or FakeModule(top)
            return m
        if full in REAL:
            return builtins.__import__(nm, globals, locals, fromlist, level)
        if fromlist or "." not in full:
            return FakeModule(full)
        return FakeModule(full.split(".")[0])
    b["__import__"] = imp
    b["__comp__"] = s_comp
    b["__list__"] = SList
    b["__const__"] = s_const
    b["__div__"] = s_div
    b["__while__"] = s_while
    b["__is__"] = s_is
    b["__unzip__"] = s_unzip
    b["__printf__"] = lambda f, a: MACH.texts.printf(f, a) if getattr(MACH, "texts", None) else f % a
    b["__loop__"] = lambda it, lv=False: MACH.loop(it, lv)
    b["__begin__"] = lambda n, l: MACH.begin_names(n, l)
    b["__end__"] = lambda n, l, x: MACH.end_names(n, l, x)
    b["__verif_exc__"] = (Vacuous, Split, Unsupported, Undefined, Restart, RecursionError)
    d = {"__builtins__": b, "__name__": name, "__file__": path}
    exec(code, d)
    return d


CODE = {}
REAL = {"math", "copy", "os", "sys", "itertools", "functools", "collections", "random", "multiprocessing", "re", "__future__", "builtins", "warnings_real"}


VACUOUS = object()


def runs(f, base, limit=400):
    """explore f() (fresh Machine per attempt) -> [(ctx, result, machine)]"""
    import npshim
    know = {}

    def one():
        global MACH
        for _ in range(60):
            m = Machine(know)
            m.nbase = len(base.hyps)
            m.np = npshim.NP
            MACH = m
            npshim.pyex_mach(m)
            try:
                r = f()
                if m.loops or getattr(m, "bad", None):
                    raise Unsupported("loop left early")
                return r, m
            except Restart:
                continue
            except Vacuous:
                return VACUOUS, m
        raise Unsupported("no stable loop summary")
    res = explore(one, base, limit)
    left = know.get("left", set())
    if left - know.get("completed", set()) or left & know.get("effects", set()):
        raise Unsupported("loop left early whose iterations have effects, or always left in the first")
    for c, (r, m) in res:
        if r is not VACUOUS:
            yield c, r, m


def activate(m):
    """make a finished machine current again, to demand elements of its results"""
    global MACH
    MACH = m
