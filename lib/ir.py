"""Expression IR of the verifier: hash-consed real terms over symbols, array
elements, kernels (sin, sqrt, ...), uninterpreted functions and formal sums.

Terms denote mathematical reals.  Smart constructors keep a light canonical
form (linear combinations, power products); `normal`/`is_zero` decide equality
exactly by rational function arithmetic over the kernels.
"""
from fractions import Fraction as Fr
import mpmath
from mpmath import mp, mpf
mp.dps = 50


class Unsupported(Exception):
    pass


class Undefined(Exception):
    """value outside the domain of a function (numeric evaluation)"""


# ------------------------------------------------------------------ affine
class Aff:
    """integer affine term c + sum k*v"""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        if isinstance(t, dict):
            t = tuple(sorted((v, k) for v, k in t.items() if k))
        self.t = t
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        o = aff(o) if isinstance(o, int) else o
        return isinstance(o, Aff) and self.t == o.t and self.c == o.c

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, Node):
            return aff_node(self) + o
        o = aff(o)
        d = dict(self.t)
        for v, k in o.t:
            d[v] = d.get(v, 0) + k
        return Aff(d, self.c + o.c)
    __radd__ = __add__

    def __neg__(self):
        return Aff(tuple((v, -k) for v, k in self.t), -self.c)

    def __sub__(self, o):
        return self + (-(aff(o) if not isinstance(o, Node) else o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, Node):
            return aff_node(self) * k
        k = aff(k)
        if k.t and self.t:
            raise Unsupported("nonlinear integer term")
        if self.t:
            return Aff(tuple((v, q * k.c) for v, q in self.t if q * k.c), self.c * k.c)
        return Aff(tuple((v, q * self.c) for v, q in k.t if q * self.c), self.c * k.c)
    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def subst(self, m):
        if not any(v in m for v, _ in self.t):
            return self
        r = Aff((), self.c)
        for v, k in self.t:
            r = r + (m[v] * k if v in m else Aff(((v, k),)))
        return r

    def vars(self):
        return [v for v, _ in self.t]

    def ev(self, env):
        return self.c + sum(k * env[v] for v, k in self.t)

    def __repr__(self):
        s = "+".join(("%s" % v if k == 1 else "%d*%s" % (k, v)) for v, k in self.t)
        if self.c or not s:
            s = s + ("%+d" % self.c if s else "%d" % self.c)
        return s.replace("+-", "-")


def aff(x):
    if isinstance(x, Aff):
        return x
    if isinstance(x, bool):
        raise Unsupported("bool as int")
    if isinstance(x, int):
        return Aff((), x)
    raise Unsupported("not an integer term: %r" % (x,))


def ivar(name):
    return Aff(((name, 1),))


# ------------------------------------------------------------------- nodes
_table = {}
_count = [0]


class Node:
    __slots__ = ("k", "a", "id", "_ht", "_fv", "__weakref__")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return add(self, o)
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return add(self, scale(o, -1))

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return add(o, scale(self, -1))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, power(o, -1))

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(o, power(self, -1))

    def __pow__(self, p):
        if isinstance(p, Node) and p.k == "num":
            p = p.a[0]
        if isinstance(p, Aff) and p.is_const():
            p = p.c
        if isinstance(p, float):
            p = Fr(p)
        if isinstance(p, Fr) and p.denominator == 1:
            p = int(p)
        if isinstance(p, int):
            return power(self, p)
        if isinstance(p, Fr):
            if p.denominator == 2:
                return power(fn("sqrt", self), p.numerator)
            p = num(p)
        return fn("pow", self, p)

    def __rpow__(self, b):
        return fn("pow", lift(b), self)

    def __repr__(self):
        return show(self)


def _mk(k, a):
    key = (k, a)
    n = _table.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.k = k
        n.a = a
        n.id = _count[0]
        _count[0] += 1
        n._ht = None
        n._fv = None
        _table[key] = n
    return n


def num(q):
    if isinstance(q, float):
        q = Fr(q)
    return _mk("num", (Fr(q),))


ZERO = num(0)
ONE = num(1)
PI = _mk("sym", ("pi",))
_PIF = 3.141592653589793


def lift(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, int) or isinstance(x, Fr):
        return num(x)
    if isinstance(x, Aff):
        return aff_node(x)
    if isinstance(x, float):
        return lift_float(x)
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        v = x.item()
        return lift(v)
    return NotImplemented


def lift_float(x):
    """a Python float constant: its exact value, except multiples of pi (and
    pi/180 ...) which are recognised as such (recorded assumption)."""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    f = Fr(x)
    if f.denominator < 2 ** 20:
        return num(f)
    for d in (1, 2, 3, 4, 6, 30, 60, 180, 8):
        for m in (1, 2, 3, 4):
            if x in (_PIF * m / d, -_PIF * m / d):
                return scale(PI, Fr(m, d) if x > 0 else Fr(-m, d))
            if x in (d / _PIF * m, -(d / _PIF * m)):
                return scale(power(PI, -1), Fr(d * m) if x > 0 else Fr(-d * m))
    # decimal literal: the rational it was written as
    return num(Fr(repr(x)))


def sym(name):
    return _mk("sym", (name,))


def elem(arr, idx):
    return _mk("elem", (arr, aff(idx)))


def aff_node(a):
    a = aff(a)
    r = num(a.c)
    for v, k in a.t:
        r = add(r, scale(_mk("int", (v,)), k))
    return r


def add(x, y):
    d = {}
    for e in (x, y):
        if e.k == "add":
            for t, c in e.a:
                d[t] = d.get(t, 0) + c
        elif e.k == "num":
            d[ONE] = d.get(ONE, 0) + e.a[0]
        elif e.k == "scale":
            d[e.a[1]] = d.get(e.a[1], 0) + e.a[0]
        else:
            d[e] = d.get(e, 0) + 1
    return _lin(d)


def addn(xs):
    d = {}
    for e in xs:
        if e.k == "add":
            for t, c in e.a:
                d[t] = d.get(t, 0) + c
        elif e.k == "num":
            d[ONE] = d.get(ONE, 0) + e.a[0]
        elif e.k == "scale":
            d[e.a[1]] = d.get(e.a[1], 0) + e.a[0]
        else:
            d[e] = d.get(e, 0) + 1
    return _lin(d)


def _lin(d):
    it = sorted(((t, Fr(c)) for t, c in d.items() if c), key=lambda tc: tc[0].id)
    if not it:
        return ZERO
    if len(it) == 1:
        t, c = it[0]
        if t is ONE:
            return num(c)
        if c == 1:
            return t
        return _mk("scale", (c, t))
    return _mk("add", tuple(it))


def scale(x, c):
    c = Fr(c)
    if c == 0:
        return ZERO
    if x.k == "num":
        return num(x.a[0] * c)
    if c == 1:
        return x
    if x.k == "scale":
        c2 = c * x.a[0]
        return x.a[1] if c2 == 1 else _mk("scale", (c2, x.a[1]))
    if x.k == "add":
        return _mk("add", tuple((t, q * c) for t, q in x.a))
    return _mk("scale", (c, x))


def mul(x, y):
    c = Fr(1)
    d = {}
    for e in (x, y):
        if e.k == "num":
            c *= e.a[0]
            continue
        if e.k == "scale":
            c *= e.a[0]
            e = e.a[1]
        if e.k == "mul":
            for b, p in e.a:
                d[b] = d.get(b, 0) + p
        else:
            d[e] = d.get(e, 0) + 1
        if c == 0:
            return ZERO
    for b in [b for b in d if b.k == "add" and b.a[0][1] != 1]:
        # (b-a)/(a-b): the reciprocal is kept with leading coefficient one
        q = b.a[0][1]
        e = scale(b, 1 / q)
        if e in d:
            p = d.pop(b)
            c *= q ** p
            d[e] += p
    return scale(_prod(d), c)


def _prod(d):
    it = []
    c = Fr(1)
    for b, p in d.items():
        if p:
            if b.k == "num":
                c *= b.a[0] ** p
            else:
                it.append((b, p))
    it.sort(key=lambda bp: bp[0].id)
    if not it:
        return num(c)
    if len(it) == 1 and it[0][1] == 1:
        return scale(it[0][0], c)
    return scale(_mk("mul", tuple(it)), c)


def power(x, p):
    if p == 0:
        return ONE
    if p == 1:
        return x
    if x.k == "num":
        if x.a[0] == 0 and p < 0:
            raise ZeroDivisionError("division by the constant zero")
        return num(x.a[0] ** p)
    if x.k == "scale":
        return scale(power(x.a[1], p), x.a[0] ** p)
    if x.k == "mul":
        return _prod({b: q * p for b, q in x.a})
    if x.k == "add":
        # pull out the content sign so that 1/(a-b) and 1/(b-a) meet
        c = x.a[0][1]
        if c != 1:
            return scale(power(scale(x, 1 / c), p), c ** p)
    return _prod({x: p})


def _special_trig(name, x):
    """exact values at rational multiples of pi"""
    if x is ZERO:
        q = Fr(0)
    elif x.k == "scale" and x.a[1] is PI:
        q = x.a[0]
    elif x is PI:
        q = Fr(1)
    else:
        return None
    if name == "cos":
        q = q + Fr(1, 2)
    q = q % 2
    if q == 0 or q == 1:
        return ZERO
    if q == Fr(1, 2):
        return ONE
    if q == Fr(3, 2):
        return num(-1)
    if q in (Fr(1, 6), Fr(5, 6)):
        return num(Fr(1, 2))
    if q in (Fr(7, 6), Fr(11, 6)):
        return num(Fr(-1, 2))
    return None


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if name in ("sin", "cos"):
        s = _special_trig(name, args[0])
        if s is not None:
            return s
        x = args[0]
        if _neg_lead(x):
            r = fn(name, -x)
            return -r if name == "sin" else r
    elif name == "tan":
        return fn("sin", args[0]) / fn("cos", args[0])
    elif name == "sqrt":
        if args[0].k == "num":
            q = args[0].a[0]
            if q >= 0:
                import math
                a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if a * a == q.numerator and b * b == q.denominator:
                    return num(Fr(a, b))
    elif name == "exp" and args[0] is ZERO:
        return ONE
    elif name == "log" and args[0] is ONE:
        return ZERO
    elif name == "abs":
        if args[0].k == "num":
            return num(abs(args[0].a[0]))
        if _neg_lead(args[0]):
            return fn("abs", -args[0])
    elif name == "sign":
        if args[0].k == "num" and args[0].a[0] != 0:
            return num(1 if args[0].a[0] > 0 else -1)
    elif name == "pow":
        b, p = args
        if p.k == "num":
            q = p.a[0]
            if q.denominator == 1:
                return power(b, int(q))
            if q.denominator == 2:
                return power(fn("sqrt", b), q.numerator)
        if b is ONE:
            return ONE
        # pow(b, p+c) = pow(b,p)*b**c
        if p.k == "add":
            d = dict(p.a)
            c = d.pop(ONE, Fr(0))
            if c.denominator == 1 and c != 0:
                return mul(fn("pow", b, _lin(d)), power(b, int(c)))
    elif name == "atan2":
        y, x = args
        if y is ZERO and x.k == "num" and x.a[0] > 0:
            return ZERO
    return _mk("fn", (name,) + args)


def _neg_lead(x):
    if x.k == "num":
        return x.a[0] < 0
    if x.k == "scale":
        return x.a[0] < 0
    if x.k == "add":
        return x.a[0][1] < 0
    return False


# ------------------------------------------------------------- formal sums
_tmpc = [0]


def tmpvar():
    _tmpc[0] += 1
    return "%%%d" % _tmpc[0]


def height(e):
    """nesting height of formal sums in e"""
    if e._ht is None:
        h = 0
        if e.k == "psum":
            h = e.a[0]
        else:
            for c in children(e):
                h = max(h, height(c))
        e._ht = h
    return e._ht


def children(e):
    k = e.k
    if k in ("num", "sym", "elem", "int"):
        return ()
    if k == "add":
        return [t for t, _ in e.a]
    if k == "scale":
        return (e.a[1],)
    if k == "mul":
        return [b for b, _ in e.a]
    if k == "fn":
        return e.a[1:]
    if k == "psum":
        return (e.a[1],)
    raise Unsupported(k)


def ivars(e):
    """free integer variables (names) of e"""
    if e._fv is None:
        k = e.k
        if k == "elem":
            s = frozenset(e.a[1].vars())
        elif k == "int":
            s = frozenset((e.a[0],))
        elif k == "psum":
            s = (ivars(e.a[1]) - {"#%d" % e.a[0]}) | frozenset(e.a[2].vars())
        else:
            s = frozenset()
            for c in children(e):
                s = s | ivars(c)
        e._fv = s
    return e._fv


def isubst(e, m, memo=None):
    """substitute integer variables m: name -> Aff"""
    if memo is None:
        memo = {}
    if not (ivars(e) & set(m)):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    k = e.k
    if k == "elem":
        r = elem(e.a[0], e.a[1].subst(m))
    elif k == "int":
        r = aff_node(m[e.a[0]])
    elif k == "add":
        r = addn([scale(isubst(t, m, memo), c) for t, c in e.a])
    elif k == "scale":
        r = scale(isubst(e.a[1], m, memo), e.a[0])
    elif k == "mul":
        r = ONE
        for b, p in e.a:
            r = mul(r, power(isubst(b, m, memo), p))
    elif k == "fn":
        r = fn(e.a[0], *[isubst(c, m, memo) for c in e.a[1:]])
    elif k == "psum":
        h, body, idx = e.a
        b2 = isubst(body, {v: q for v, q in m.items() if v != "#%d" % h})
        r = psum_h(h, b2, idx.subst(m))
    memo[e] = r
    return r


def psum_h(h, body, idx):
    """antidifference P_body(idx); body uses bound variable '#h'.  Constant
    shifts of idx are unfolded; P_body(0) = 0 by normalisation."""
    v = "#%d" % h
    if body is ZERO:
        return ZERO
    if v not in ivars(body):
        return mul(body, aff_node(idx))
    hh = 1 + height_inside(body)
    if hh != h:
        body = isubst(body, {v: ivar("#%d" % hh)})
        h, v = hh, "#%d" % hh
    # linearity
    if body.k == "scale":
        return scale(psum_h(h, body.a[1], idx), body.a[0])
    if body.k == "add":
        return addn([scale(psum_h(1 + height_inside(t), isubst(t, {v: ivar("#%d" % (1 + height_inside(t)))}), idx), c) for t, c in body.a])
    if body.k == "mul":
        out = {b: p for b, p in body.a if v not in ivars(b)}
        if out:
            inn = {b: p for b, p in body.a if b not in out}
            return mul(_prod(out), psum_h(h, _prod(inn), idx))
    c = idx.c
    base = Aff(idx.t, 0)
    if abs(c) > 12:
        raise Unsupported("large shift in formal sum")
    r = ZERO if not base.t else _mk("psum", (h, body, base))
    for q in range(1, c + 1):
        r = add(r, isubst(body, {v: base + q}))
    for q in range(0, -c):
        r = r - isubst(body, {v: base - q})
    return r


def height_inside(body):
    return height(body)


def psum(var, body, idx):
    h = 1 + height(body)
    return psum_h(h, isubst(body, {var: ivar("#%d" % h)}), aff(idx))


def ssum(var, body, lo, hi):
    """sum_{var=lo}^{hi} body  (hi >= lo-1)"""
    return psum(var, body, aff(hi)) - psum(var, body, aff(lo) - 1)


# ---------------------------------------------------------------- printing
def show(e, depth=6):
    k = e.k
    if depth == 0:
        return "..."
    d = depth - 1
    if k == "num":
        return str(e.a[0])
    if k in ("sym", "int"):
        return e.a[0]
    if k == "elem":
        return "%s[%r]" % e.a
    if k == "add":
        return "(" + " + ".join((show(t, d) if c == 1 else "%s*%s" % (c, show(t, d))) for t, c in e.a) + ")"
    if k == "scale":
        return "%s*%s" % (e.a[0], show(e.a[1], d))
    if k == "mul":
        return "*".join(show(b, d) if p == 1 else "%s^%d" % (show(b, d), p) for b, p in e.a)
    if k == "fn":
        return "%s(%s)" % (e.a[0], ", ".join(show(c, d) for c in e.a[1:]))
    if k == "psum":
        return "SUM{#%d}(%s | %r)" % (e.a[0], show(e.a[1], d), e.a[2])
    return "?"


def size(e, seen=None):
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return len(seen)


# -------------------------------------------------------------- evaluation
def _h01(*k):
    """deterministic pseudo-random number in (0,1)"""
    import hashlib
    h = hashlib.sha256(repr(k).encode()).digest()
    return mpf(int.from_bytes(h[:8], "big") + 1) / mpf(2 ** 64 + 2)


UF = {}          # name -> python callable(mp args) for numeric evaluation


def uf_numeric(name, args):
    """smooth pseudo-random interpretation of an uninterpreted function; names
    'D<i>.<f>' denote partial derivatives."""
    if name in UF:
        return UF[name](*args)
    base, idx = name, []
    while base.startswith("D") and "." in base:
        h, base = base.split(".", 1)
        idx.append(int(h[1:]))
    # f = c0 + sum_i ( a_i sin(b_i x_i + c_i) ) + sum_{i<j} e_ij sin(x_i - d x_j)
    a = [_h01(base, "a", i) for i in range(len(args))]
    b = [_h01(base, "b", i) / 2 + mpf("0.3") for i in range(len(args))]
    c = [_h01(base, "c", i) for i in range(len(args))]
    th = sum((bi * xi for bi, xi in zip(b, args)), mpf(0)) + _h01(base, "t")
    n = len(idx)
    tot = mpf(0)
    # term 1: sin(th); derivative multiplies by b
    fac = mpf(1)
    for i in idx:
        fac *= b[i]
    tot += fac * mpmath.sin(th + n * mpmath.pi / 2)
    if n == 0:
        tot += _h01(base, "0") + sum((a[i] * mpmath.sin(args[i] + c[i]) for i in range(len(args))), mpf(0))
    else:
        if len(set(idx)) == 1:
            i = idx[0]
            tot += a[i] * mpmath.sin(args[i] + c[i] + n * mpmath.pi / 2)
    return tot


class Env:
    """numeric environment: real symbols, integer variables, array functions"""

    def __init__(self, syms=None, ints=None, arrs=None, seed=0):
        self.s = {} if syms is None else syms
        self.i = {} if ints is None else ints
        self.arr = {} if arrs is None else arrs
        self.seed = seed
        self.memo = {}

    def sym(self, n):
        if n == "pi":
            return +mpmath.pi
        if n not in self.s:
            self.s[n] = mpf("0.2") + _h01(self.seed, n)
        return self.s[n]

    def el(self, a, i):
        f = self.arr.get(a)
        if f is None:
            return mpf("0.2") + _h01(self.seed, a, i)
        return f(i)


def ev(e, env):
    memo = env.memo
    stack = [e]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        k = x.k
        if k == "psum":
            ch = ()
        else:
            ch = [c for c in children(x) if c not in memo]
        if ch:
            stack.extend(ch)
            continue
        stack.pop()
        memo[x] = _ev1(x, env, memo)
    return memo[e]


def _ev1(x, env, memo):
    k = x.k
    if k == "num":
        return mpf(x.a[0].numerator) / x.a[0].denominator
    if k == "sym":
        return env.sym(x.a[0])
    if k == "int":
        return mpf(env.i[x.a[0]])
    if k == "elem":
        return env.el(x.a[0], x.a[1].ev(env.i))
    if k == "add":
        s = mpf(0)
        for t, c in x.a:
            s += memo[t] * c.numerator / c.denominator
        return s
    if k == "scale":
        return memo[x.a[1]] * x.a[0].numerator / x.a[0].denominator
    if k == "mul":
        s = mpf(1)
        for b, p in x.a:
            v = memo[b]
            if p < 0 and v == 0:
                raise Undefined("division by zero")
            s *= v ** p
        return s
    if k == "fn":
        return evfn(x.a[0], [memo[c] for c in x.a[1:]])
    if k == "psum":
        h, body, idx = x.a
        m = idx.ev(env.i)
        v = "#%d" % h
        s = mpf(0)
        rng, sg = (range(1, m + 1), 1) if m >= 0 else (range(m + 1, 1), -1)
        for t in rng:
            e2 = Env(env.s, dict(env.i), env.arr, env.seed)
            e2.i[v] = t
            s += ev(body, e2)
        return sg * s
    raise Unsupported(k)


def evfn(f, a):
    if f == "sin":
        return mpmath.sin(a[0])
    if f == "cos":
        return mpmath.cos(a[0])
    if f == "exp":
        return mpmath.exp(a[0])
    if f == "log":
        if a[0] <= 0:
            raise Undefined("log")
        return mpmath.log(a[0])
    if f == "sqrt":
        if a[0] < 0:
            raise Undefined("sqrt")
        return mpmath.sqrt(a[0])
    if f == "acos":
        if abs(a[0]) > 1:
            raise Undefined("acos")
        return mpmath.acos(a[0])
    if f == "asin":
        if abs(a[0]) > 1:
            raise Undefined("asin")
        return mpmath.asin(a[0])
    if f == "atan":
        return mpmath.atan(a[0])
    if f == "atan2":
        return mpmath.atan2(a[0], a[1])
    if f == "abs":
        return abs(a[0])
    if f == "sign":
        return mpf(1) if a[0] >= 0 else mpf(-1)
    if f == "pow":
        if a[0] <= 0:
            raise Undefined("pow")
        return mpmath.power(a[0], a[1])
    if f == "max2":
        return max(a)
    if f == "min2":
        return min(a)
    if f == "floor":
        return mpmath.floor(a[0])
    return uf_numeric(f, a)


# ---------------------------------------------------------- differentiation
def diff(e, dsym, delem=None, memo=None, didx=None):
    """directional derivative.  dsym: node(sym) -> tangent node or None;
    delem: (array, idx) -> tangent node or None (None = 0)"""
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is not None:
        return r
    k = e.k
    D = lambda x: diff(x, dsym, delem, memo)
    if k in ("num", "int"):
        r = ZERO
    elif k == "sym":
        r = dsym(e) or ZERO
    elif k == "elem":
        r = (delem(e.a[0], e.a[1]) if delem else None) or ZERO
    elif k == "add":
        r = addn([scale(D(t), c) for t, c in e.a])
    elif k == "scale":
        r = scale(D(e.a[1]), e.a[0])
    elif k == "mul":
        ts = []
        for b, p in e.a:
            db = D(b)
            if db is ZERO:
                continue
            ts.append(scale(mul(mul(e, power(b, -1)), db), p))
        r = addn(ts) if ts else ZERO
    elif k == "fn":
        ts = []
        for i, c in enumerate(e.a[1:]):
            dc = D(c)
            if dc is ZERO:
                continue
            ts.append(mul(dfn(e, i), dc))
        r = addn(ts) if ts else ZERO
    elif k == "psum":
        h, body, idx = e.a
        r = psum_h(h, diff(body, dsym, delem, memo), idx)
    else:
        raise Unsupported("diff " + k)
    memo[e] = r
    return r


def dfn(e, i):
    """partial derivative of a kernel application with respect to argument i"""
    f = e.a[0]
    a = e.a[1:]
    if f == "sin":
        return fn("cos", a[0])
    if f == "cos":
        return -fn("sin", a[0])
    if f == "exp":
        return e
    if f == "log":
        return power(a[0], -1)
    if f == "sqrt":
        return scale(power(e, -1), Fr(1, 2))
    if f == "acos":
        return -power(fn("sqrt", ONE - power(a[0], 2)), -1)
    if f == "asin":
        return power(fn("sqrt", ONE - power(a[0], 2)), -1)
    if f == "atan":
        return power(ONE + power(a[0], 2), -1)
    if f == "atan2":
        y, x = a
        den = power(add(power(x, 2), power(y, 2)), -1)
        return mul(x, den) if i == 0 else -mul(y, den)
    if f == "abs":
        return fn("sign", a[0])
    if f in ("sign", "floor"):
        return ZERO
    if f == "pow":
        b, p = a
        if i == 0:
            return mul(mul(p, e), power(b, -1))
        return mul(e, fn("log", b))
    if f.startswith("opq:"):
        raise Unsupported("derivative of opaque " + f)
    return fn("D%d.%s" % (i, f), *a)
