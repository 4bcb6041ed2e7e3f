"""Obligations: stating, discharging and recording them."""
import time
import traceback
import mpmath
from ir import *
import ir
from nf import is_zero, Norm, TooBig
from ctx import *
from fexec import Undef, leaves, nsubst


class Rec:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obls = []
        self.functions = {}
        self.assumptions = set()
        self.times = {}
        self.t0 = time.time()
        self.notes = []

    def add(self, name, status, backend, secs=0.0, detail="", witness=None, func=None, where=None):
        self.obls.append(dict(name=name, status=status, backend=backend, secs=round(secs, 4), detail=detail,
                              witness=witness, func=func))
        self.times[backend] = self.times.get(backend, 0.0) + secs
        if func:
            self.functions.setdefault(func, [0, 0])
            self.functions[func][0] += 1
            if status == "proved":
                self.functions[func][1] += 1

    def count(self, st):
        return sum(1 for o in self.obls if o["status"] == st)

    # ---- equality of two terms under a context
    def eq(self, name, got, want, c=None, func=None, witness=None, tol=1e-18, budget=20.0, limit=60000):
        t0 = time.time()
        if self.count("unknown") > 6:
            budget = min(budget, 1.0)       # enough has failed already; the rest is counted quickly
        got, want = lift(got), lift(want)
        if got is want:
            self.add(name, "proved", "structural identity", time.time() - t0, func=func)
            return True
        if got.k == "num" and want.k == "num":
            self.add(name, "refuted-static", "evaluation", time.time() - t0, "code gives %s, specification %s" % (got.a[0], want.a[0]), func=func)
            return False
        d = got - want
        samples = c.get_samples() if c is not None else []
        env0 = None
        for env in samples:
            e2 = Env(env.s, dict(env.i), env.arr, env.seed)
            try:
                a, b = ir.ev(got, e2), ir.ev(want, e2)
            except (Undefined, ZeroDivisionError, ValueError, OverflowError) as ex:
                try:
                    ir.ev(want, e2)
                except (Undefined, ZeroDivisionError, ValueError, OverflowError):
                    continue
                self.add(name, "refuted", "evaluation", time.time() - t0, "term undefined where the specification is defined: %s" % ex,
                         witness=wit(env, witness, None, None), func=func)
                return False
            env0 = env0 or e2
            if abs(a - b) > tol * (abs(a) + abs(b)) + mpmath.mpf(10) ** -35:
                self.add(name, "refuted", "evaluation", time.time() - t0,
                         "code gives %s, specification %s" % (mpmath.nstr(a, 17), mpmath.nstr(b, 17)),
                         witness=wit(env, witness, a, b), func=func)
                return False
        if env0 is None:
            env0 = Env({}, _AnyInt(), {}, 7)
        try:
            ok = zero(d, env0, limit, budget)
            if not ok and c is not None:
                m = canon_ints(c, names=tuple(sorted({v for h, _ in c.hyps if h.kind == "i" for v in h.e.vars()}, reverse=True)))
                if m:
                    d2 = isubst(d, m)
                    if d2 is not d:
                        ok = zero(d2, env0, limit, budget)
        except ZeroDivisionError:
            ok = False
        st = "proved" if ok else "unknown"
        self.add(name, st, "rational normal form", time.time() - t0, "" if ok else "not decided: %s" % show(d, 3), func=func,
                 witness=None)
        return ok

    def goal(self, name, cond, pol, c, func=None, witness=None, timeout=5000, facts=()):
        """cond == pol under c, by SMT (kernels opaque with basic facts)"""
        t0 = time.time()
        for env in c.get_samples():
            e2 = Env(env.s, dict(env.i), env.arr, env.seed)
            try:
                if ev_cond(cond, e2) != pol:
                    self.add(name, "refuted", "evaluation", time.time() - t0, "%r is %s" % (cond, not pol),
                             witness=wit(env, witness, None, None), func=func)
                    return False
            except (Undefined, ZeroDivisionError, ValueError):
                continue
        ok = c.z3_prove(cond, pol, timeout=timeout, extra=facts)
        self.add(name, "proved" if ok else "unknown", "z3", time.time() - t0, "" if ok else "%r" % cond, func=func)
        return ok

    def run(self, name, f, func=None):
        """an obligation whose generation itself may leave the supported subset"""
        try:
            return f()
        except Undef as e:
            self.add(name, "refuted-static", "executor", 0.0, str(e), func=func)
        except Split as e:
            self.add(name, "unknown", "executor", 0.0, "condition not decided: %r" % (e.cond,), func=func)
        except (Unsupported, TooBig, RecursionError, ZeroDivisionError) as e:
            self.add(name, "unknown", "executor", 0.0, "%s: %s" % (type(e).__name__, e), func=func)
        except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            self.add(name, "unknown", "executor", 0.0, "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:]), func=func)
        return None


class _AnyInt(dict):
    def __missing__(self, k):
        import hashlib
        return 40 + hashlib.sha256(k.encode()).digest()[0] % 7


def wit(env, w, a, b):
    d = dict(w or {})
    d["syms"] = {k: float(v) for k, v in env.s.items()}
    d["ints"] = {k: int(v) for k, v in env.i.items()} if not isinstance(env.i, _AnyInt) else {}
    if a is not None:
        d["got"], d["want"] = float(a), float(b)
    return d


# ------------------------------------------------------- sums in equalities
def psum_leaves(e):
    return [x for x in all_nodes(e) if x.k == "psum"]


def all_nodes(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k != "psum":
            st.extend(children(x))
    return seen


def zero(d, env, limit=60000, budget=20.0, seeds=()):
    """d = 0?  Formal sums occurring linearly with a common upper limit are
    combined and their total body is shown to vanish (after aligning shifts)."""
    if d is ZERO:
        return True
    if is_zero(d, env, limit, budget):
        return True
    ps = psum_leaves(d)
    if not ps:
        return False
    # coefficients: d must be linear in the psum leaves
    marks = {p: sym("@P%d" % p.id) for p in ps}
    coef = {}
    rest = d
    zm = {p: ZERO for p in ps}
    d0 = nsubst(d, zm)
    for p in ps:
        m = dict(zm)
        m[p] = ONE
        coef[p] = nsubst(d, m) - d0
    # linearity check
    lin = addn([mul(coef[p], p) for p in ps] + [d0])
    if not is_zero(nsubst(d, marks) - nsubst(lin, marks), env, limit, budget):
        return False
    groups = {}
    for p in ps:
        groups.setdefault(p.a[2], []).append(p)
    extra = d0
    for idx, grp in groups.items():
        t = "%t"
        body = addn([mul(coef[p], isubst(p.a[1], {"#%d" % p.a[0]: ivar(t)})) for p in grp])
        e2 = Env(env.s, _with(env.i, t), env.arr, env.seed)
        if is_zero(body, e2, limit, budget):
            continue
        r = align(body, t, idx, e2, limit, budget)
        if r is None:
            return False
        extra = extra + r
    if is_zero(extra, env, limit, budget):
        return True
    return False


class _With(dict):
    pass


def _with(i, t):
    d = _AnyInt() if isinstance(i, _AnyInt) else {}
    d.update(i)
    d[t] = 3
    return d


SEEDS = [set()]


def align(body, t, idx, env, limit, budget):
    """P_body(idx) rewritten with every monomial shifted so that its seed array
    element has index t; if the aligned total vanishes return the boundary
    terms (a node), else None."""
    seeds = SEEDS[0]
    try:
        N = Norm(env, limit, time.time() + budget)
        P = N.poly(body)
    except TooBig:
        return None
    out = []
    bound = ZERO
    groups = {}
    for m, c in P.items():
        off = None
        for a, p in m:
            kind, e = N.atoms[a]
            if kind == "leaf" and e.k == "elem" and e.a[0] in seeds and p == 1 and t in e.a[1].vars():
                o = (e.a[1] - ivar(t))
                if not o.is_const():
                    return None
                off = o.c
                break
        if off is None:
            off = min_offset(N, m, t)
        if off is None:
            return None
        groups.setdefault(off, []).append((m, c))
    total = []
    for off, ms in groups.items():
        g = addn([scale(mono_node(N, m), c) for m, c in ms])
        # sum_{t<=idx} g(t) = sum_{t<=idx} g(t-off) + boundary
        g2 = isubst(g, {t: ivar(t) - off})
        total.append(g2)
        # P_g(idx) - P_g2(idx), P_g(idx) = sum_{1..idx} g ; g2(t) = g(t-off)
        # sum_{1..idx} g(t) = sum_{1+off..idx+off} g2
        if off > 0:
            for q in range(1, off + 1):
                bound = bound + isubst(g2, {t: idx + q}) - isubst(g2, {t: aff(q)})
        elif off < 0:
            for q in range(0, -off):
                bound = bound - isubst(g2, {t: idx - q}) + isubst(g2, {t: aff(-q)})
    tot = addn(total)
    if is_zero(tot, env, limit, budget):
        return bound
    return None


def min_offset(N, m, t):
    """smallest o with an array element of index t+o in the monomial"""
    best = None
    for a, p in m:
        kind, e = N.atoms[a]
        if kind == "den":
            e = addn([scale(mono_node(N, mm), c) for mm, c in e])
        for x in all_nodes(e):
            if x.k == "psum" and t in show(x, 9):
                return None
            if x.k == "elem" and t in x.a[1].vars():
                o = x.a[1] - ivar(t)
                if not o.is_const():
                    return None
                best = o.c if best is None else min(best, o.c)
            elif x.k == "int" and t in ivars(x):
                return None
    return best


def mono_node(N, m):
    r = ONE
    for a, p in m:
        kind, e = N.atoms[a]
        if kind == "den":
            e = addn([scale(mono_node(N, mm), c) for mm, c in e])
        r = mul(r, power(e, p))
    return r
