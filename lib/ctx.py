"""Path contexts: integer (affine) and real hypotheses, on-demand case splits."""
import time
import random
import z3
import dbm_ as dbm
import mpmath
from fractions import Fraction as Fr
from ir import *
import ir


class Split(Exception):
    """an undecided condition; the driver explores both outcomes"""

    def __init__(self, cond):
        self.cond = cond


class Cond:
    """comparison with zero: kind 'i' (Aff) or 'r' (Node); op '<','<=','=='"""
    __slots__ = ("kind", "op", "e", "_h")

    def __init__(self, kind, op, e):
        self.kind, self.op, self.e = kind, op, e
        self._h = hash((kind, op, e))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.kind, self.op, self.e) == (o.kind, o.op, o.e)

    def __repr__(self):
        return "%r %s 0" % (self.e, self.op)


def strip(d, eq):
    """d without positive constant factors (without any, for equality with zero)"""
    q = 1
    if d.k == "scale":
        q = 1 if d.a[0] > 0 or eq else -1
        d = d.a[1]
    if d.k == "mul":
        keep = [(b, p) for b, p in d.a if b is not ir.PI]
        if len(keep) < len(d.a) and keep:
            d = ir._prod(dict(keep))
            if d.k == "scale":
                q *= 1 if d.a[0] > 0 or eq else -1
                d = d.a[1]
    if d.k == "add" and all(t is ir.PI or t.k == "mul" and any(b is ir.PI and p == 1 for b, p in t.a) for t, _ in d.a):
        r = ir.ZERO
        for t, k in d.a:
            r = r + t / ir.PI * k
        return strip(r if q == 1 else -r, eq)
    return d if q == 1 else -d


def cmp_(op, a, b):
    """-> bool or (Cond, polarity)"""
    if isinstance(a, bool) or isinstance(b, bool):
        raise Unsupported("comparison of logicals")
    isint = isinstance(a, (int, Aff)) and isinstance(b, (int, Aff))
    if isint:
        d = aff(a) - aff(b)
        kind = "i"
        if d.is_const():
            c = d.c
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    else:
        d = lift(a) - lift(b)
        kind = "r"
        if d.k == "num":
            c = d.a[0]
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        d = strip(d, op in ("==", "!="))
    if op == "<":
        return Cond(kind, "<", d), True
    if op == "<=":
        return Cond(kind, "<=", d), True
    if op == ">":
        return Cond(kind, "<=", d), False
    if op == ">=":
        return Cond(kind, "<", d), False
    if op == "==":
        return Cond(kind, "==", d), True
    return Cond(kind, "==", d), False


def ev_cond(c, env):
    v = c.e.ev(env.i) if c.kind == "i" else ir.ev(c.e, env)
    return {"<": v < 0, "<=": v <= 0, "==": v == 0}[c.op]


_IMP = {
    "<": {"<": True, "<=": True, "==": False},
    ">=": {"<": False},
    "<=": {"<=": True},
    ">": {"<": False, "<=": False, "==": False},
    "==": {"<": False, "<=": True, "==": True},
    "!=": {"==": False},
}


class _Ints(dict):
    def __missing__(self, k):
        return 30 + sum(map(ord, k)) % 5


_INT = {}


class Ctx:
    def __init__(self, sampler=None, seed=1):
        self.hyps = []           # (Cond, bool)
        self.sampler = sampler   # k, ints -> Env or None
        self.axioms = []         # z3-usable facts: (Cond, bool) about instances, callable(ctx, node)->facts
        self.cache = {}
        self.samples = None
        self.stats = {"z3": 0, "z3_s": 0.0}
        self.use_z3_real = True
        self._ik = None
        self.forall = []         # hypotheses quantified over sections: cond -> True/False/None

    def copy(self):
        c = Ctx(self.sampler)
        c.hyps = list(self.hyps)
        c.axioms = list(self.axioms)
        c.stats = self.stats
        c.use_z3_real = self.use_z3_real
        c.forall = self.forall
        if hasattr(self, "intsampler"):
            c.intsampler = self.intsampler
        return c

    def assume(self, cond, pol=True):
        self.hyps.append((cond, pol))
        self.cache = {}
        self.samples = None

    def pop(self):
        self.hyps.pop()
        self.cache = {}

    # --------------------------------------------------------- integers
    def _zi(self, a):
        return sum((k * z3.Int(v) for v, k in a.t), z3.IntVal(a.c))

    def _zc(self, c, pol):
        if c.kind == "i":
            e = self._zi(c.e)
        else:
            e = self._zr(c.e)
        f = {"<": e < 0, "<=": e <= 0, "==": e == 0}[c.op]
        return f if pol else z3.Not(f)

    def int_key(self):
        if self._ik is None or self._ik[0] != len(self.hyps) or (self.hyps and self._ik[1] is not self.hyps[-1]):
            hs = tuple(hp for hp in self.hyps if hp[0].kind == "i")
            self._ik = (len(self.hyps), self.hyps[-1] if self.hyps else None, hs)
        return self._ik[2]

    def int_decide(self, c):
        hs = self.int_key()
        memo = _INT.get(hs)
        if memo is None:
            if len(_INT) > 20000:
                _INT.clear()
            memo = _INT[hs] = (dbm.Dbm(hs), {})
        r = memo[1].get(c, 0)
        if r != 0:
            return r
        r, exact = memo[0].decide(c)
        if r is None and not exact:
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 5000)
            for h, p in hs:
                s.add(self._zc(h, p))
            f = self._zc(c, True)
            s.push()
            s.add(z3.Not(f))
            a = s.check()
            s.pop()
            if a == z3.unsat:
                r = True
            else:
                s.add(f)
                b = s.check()
                r = False if b == z3.unsat else None
            self.stats["z3"] += 1
            self.stats["z3_s"] += time.time() - t0
        memo[1][c] = r
        return r

    def entails_int(self, op, a, b):
        r = cmp_(op, a, b)
        if isinstance(r, bool):
            return r
        c, pol = r
        v = self.int_decide(c)
        return v is not None and v == pol

    def feasible(self):
        s = z3.Solver()
        s.set("timeout", 5000)
        for h, p in self.hyps:
            if h.kind == "i":
                s.add(self._zc(h, p))
        return s.check() != z3.unsat

    # ------------------------------------------------------------- reals
    def _zr(self, e):
        """z3 real term with kernels opaque"""
        memo = self.__dict__.setdefault("zmemo", {})
        r = memo.get(e)
        if r is not None:
            return r
        k = e.k
        if k == "num":
            r = z3.RealVal(str(e.a[0]))
        elif k == "add":
            r = z3.Sum([self._zr(t) * z3.RealVal(str(c)) if c != 1 else self._zr(t) for t, c in e.a])
        elif k == "scale":
            r = self._zr(e.a[1]) * z3.RealVal(str(e.a[0]))
        elif k == "mul":
            r = None
            for b, p in e.a:
                x = self._zr(b)
                t = x
                for _ in range(abs(p) - 1):
                    t = t * x
                if p < 0:
                    t = 1 / t
                r = t if r is None else r * t
        elif k == "int":
            r = z3.ToReal(z3.Int(e.a[0]))
        else:
            r = z3.Real("n%d" % e.id)
            self.__dict__.setdefault("zleaf", {})[e] = r
        memo[e] = r
        return r

    def leaf_facts(self, es):
        """basic facts about kernel leaves occurring in es"""
        facts = []
        seen = set()
        st = list(es)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(children(x))
            if x is PI:
                z = self._zr(x)
                facts += [z > z3.RealVal("3.14159265"), z < z3.RealVal("3.14159266")]
            if x.k == "fn":
                f = x.a[0]
                z = self._zr(x)
                if f == "sqrt":
                    a = self._zr(x.a[1])
                    facts += [z >= 0, z * z == a]
                elif f in ("sin", "cos"):
                    c = self._zr(fn("cos", x.a[1]))
                    s_ = self._zr(fn("sin", x.a[1]))
                    facts += [c * c + s_ * s_ == 1]
                elif f == "exp":
                    a = self._zr(x.a[1])
                    facts += [z > 0, z >= 1 + a, z3.Implies(a < 0, z < 1), z3.Implies(a > 0, z > 1)]
                elif f == "abs":
                    a = self._zr(x.a[1])
                    facts += [z == z3.If(a >= 0, a, -a)]
                elif f == "sign":
                    a = self._zr(x.a[1])
                    facts += [z == z3.If(a >= 0, z3.RealVal(1), z3.RealVal(-1))]
                elif f == "pow":
                    a = self._zr(x.a[1])
                    facts += [z3.Implies(a > 0, z > 0)]
                elif f == "acos":
                    a = self._zr(x.a[1])
                    p = self._zr(PI)
                    facts += [z >= 0, z <= p, z3.Implies(a < 1, z > 0), z3.Implies(a > 0, 2 * z < p), z3.Implies(a == 0, 2 * z == p)]
                st.extend([fn("cos", x.a[1]), fn("sin", x.a[1])] if f in ("sin", "cos") else [])
        return facts

    def z3_prove(self, c, pol=True, timeout=3000, extra=()):
        """True if hyps |= (c == pol)"""
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        es = []
        for h, p in list(self.hyps) + list(self.axioms) + list(extra):
            if h.kind == "r":
                es.append(h.e)
            s.add(self._zc(h, p))
        if c.kind == "r":
            es.append(c.e)
        s.add(self._zc(c, not pol))
        for f in self.leaf_facts(es):
            s.add(f)
        r = s.check()
        self.stats["z3"] += 1
        self.stats["z3_s"] += time.time() - t0
        return r == z3.unsat

    def get_samples(self, want=3, tries=120):
        if self.samples is not None:
            return self.samples
        out = []
        if self.sampler is not None:
            for k in range(tries):
                if k == 40 and not out:
                    break
                env = self.sampler(k, self)
                if env is None:
                    continue
                if self.holds(env):
                    out.append(env)
                    if len(out) >= want:
                        break
        self.samples = out
        return out

    def holds(self, env):
        for c, pol in self.hyps:
            try:
                if c.kind == "i" and not all(v in env.i for v in c.e.vars()):
                    continue
                if ev_cond(c, env) != pol:
                    return False
            except (Undefined, ZeroDivisionError, ValueError, KeyError):
                return False
        return True

    def decide(self, c):
        """True/False, or raises Split"""
        for h, p in self.hyps:
            if h == c:
                return p
        if c.kind == "i":
            r = self.int_decide(c)
            if r is None:
                raise Split(c)
            return r
        key = ("r", c)
        if key in self.cache:
            r = self.cache[key]
            if r is None:
                raise Split(c)
            return r
        r = self._decide_real(c)
        self.cache[key] = r
        if r is None:
            raise Split(c)
        return r

    def sign_of(self, e):
        """strict sign of a term from hypotheses about its factors, or None"""
        if e.k == "num":
            return (e.a[0] > 0) - (e.a[0] < 0)
        if e is ir.PI:
            return 1
        if e.k == "scale":
            s = self.sign_of(e.a[1])
            return None if s is None else (s if e.a[0] > 0 else -s)
        if e.k == "mul":
            r = 1
            for f, p in e.a:
                s = self.sign_of(f)
                if s is None:
                    if isinstance(p, int) and p % 2 == 0 and self.nonzero(f):
                        s = 1
                    else:
                        return None
                if s == 0:
                    return 0
                if s < 0 and p % 2:
                    r = -r
            return r
        for h, p in self.hyps:
            if h.kind != "r":
                continue
            if h.e is e or h.e is -e:
                sg = 1 if h.e is e else -1
                if h.op == "<" and p:
                    return -sg
                if h.op == "<=" and not p:
                    return sg
                if h.op == "==" and p:
                    return 0
        return None

    def nonzero(self, e):
        for h, p in self.hyps:
            if h.kind == "r" and (h.e is e or h.e is -e) and ((h.op == "==" and not p) or (h.op == "<" and p) or (h.op == "<=" and not p)):
                return True
        return False

    def _same_condition(self, c):
        """a hypothesis about a term equal to q*c.e, q a nonzero rational"""
        from nf import is_zero
        env = Env({}, _Ints(), {}, 11)
        try:
            v = ir.ev(c.e, env)
        except Exception:
            env = None
        if env is None:
            ss = self.get_samples(want=1)
            if not ss:
                return None
            env = Env(ss[0].s, dict(ss[0].i), ss[0].arr, ss[0].seed)
            try:
                v = ir.ev(c.e, env)
            except Exception:
                return None
        for h, p in self.hyps:
            if h.kind != "r" or h.e is c.e:
                continue
            try:
                w = ir.ev(h.e, env)
            except Exception:
                continue
            if w == 0 or v == 0:
                continue
            q = v / w
            fq = Fr(int(mpmath.nint(q * 720720)), 720720)
            if fq == 0 or abs(q - mpmath.mpf(fq.numerator) / fq.denominator) > mpmath.mpf(10) ** -30:
                continue
            if not is_zero(c.e - h.e * fq, env, budget=3.0):
                continue
            neg = {"<": ">=", "<=": ">", "==": "!="}
            rel = h.op if p else neg[h.op]
            if fq < 0:
                rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[rel]
            imp = _IMP[rel].get(c.op)
            if imp is not None:
                return imp
        return None

    def _decide_real(self, c):
        for f in self.forall:
            r = f(c)
            if r is not None:
                return r
        # quick syntactic consequences of the hypotheses about the same term
        for h, p in self.hyps:
            if h.kind != "r":
                continue
            if h.e is c.e:
                o, q = (h.op, p)
                neg = {"<": ">=", "<=": ">", "==": "!="}
                rel = o if q else neg[o]
                imp = {
                    "<": {"<": True, "<=": True, "==": False},
                    ">=": {"<": False},
                    "<=": {"<=": True},
                    ">": {"<": False, "<=": False, "==": False},
                    "==": {"<": False, "<=": True, "==": True},
                    "!=": {"==": False},
                }[rel].get(c.op)
                if imp is not None:
                    return imp
            elif h.e is -c.e:
                neg = {"<": ">=", "<=": ">", "==": "!="}
                rel = h.op if p else neg[h.op]
                rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[rel]
                imp = {
                    "<": {"<": True, "<=": True, "==": False},
                    ">=": {"<": False},
                    "<=": {"<=": True},
                    ">": {"<": False, "<=": False, "==": False},
                    "==": {"<": False, "<=": True, "==": True},
                    "!=": {"==": False},
                }[rel].get(c.op)
                if imp is not None:
                    return imp
        if c.e.k in ("mul", "scale"):
            sg = self.sign_of(c.e)
            if sg is not None:
                return {"<": sg < 0, "<=": sg <= 0, "==": sg == 0}[c.op]
        r = self._same_condition(c)
        if r is not None:
            return r
        if not self.use_z3_real:
            return None
        both = set()
        for env in self.get_samples():
            try:
                e2 = Env(env.s, dict(env.i), env.arr, env.seed)
                both.add(ev_cond(c, e2))
            except (Undefined, ZeroDivisionError, ValueError, KeyError):
                pass
        if len(both) == 2:
            return None
        order = [True, False] if True in both else [False, True]
        for v in order:
            if len(both) == 1 and v not in both:
                continue
            if self.z3_prove(c, v, timeout=1500):
                return v
        return None


CTX = [None]


def ctx():
    return CTX[0]


def truth(r):
    """decide a comparison result / logical value in the current context"""
    if isinstance(r, bool):
        return r
    c, pol = r
    return ctx().decide(c) == pol


def explore(run, base, limit=600):
    """run() under every case of `base`; yields (ctx, result).  run is restarted
    after each split."""
    out = []
    stack = [base]
    n = 0
    while stack:
        c = stack.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many cases")
        old = CTX[0]
        CTX[0] = c
        try:
            r = run()
        except Split as s:
            CTX[0] = old
            for pol in (True, False):
                d = c.copy()
                d.assume(s.cond, pol)
                if s.cond.kind == "i":
                    if not d.feasible():
                        continue
                stack.append(d)
            continue
        finally:
            CTX[0] = old
        out.append((c, r))
    return out


def canon_ints(c, names=("n", "j"), rng=8):
    """integer variables the context pins down: name -> Aff"""
    m = {}
    if not any(h.kind == "i" for h, _ in c.hyps):
        return m
    present = set()
    for h, _ in c.hyps:
        if h.kind == "i":
            present |= set(h.e.vars())
    # one model gives the only candidate values
    sv = z3.Solver()
    sv.set("timeout", 3000)
    for h, p in c.hyps:
        if h.kind == "i":
            sv.add(c._zc(h, p))
    if sv.check() != z3.sat:
        return m
    mod = sv.model()
    val = {v: mod.eval(z3.Int(v), model_completion=True).as_long() for v in present}
    for v in names:
        if v not in present:
            continue
        k = val[v]
        if -2 <= k < rng and c.int_decide(Cond("i", "==", ivar(v) - k)) is True:
            m[v] = aff(k)
            continue
        for w in names:
            if w == v or w not in present or w in m:
                continue
            if names.index(w) > names.index(v):
                continue
            k = val[v] - val[w]
            if -rng <= k < rng and c.int_decide(Cond("i", "==", ivar(v) - ivar(w) - k)) is True:
                m[v] = ivar(w) + k
                break
    return m
