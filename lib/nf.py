"""Exact equality of IR terms: Laurent polynomials over kernel atoms."""
from fractions import Fraction as Fr
import time
import mpmath
from ir import *
import ir


class TooBig(Exception):
    pass


class Norm:
    """one normalisation context.  env: numeric sample used only to propose
    which kernel arguments may be equal (each proposal is then proved)."""

    def __init__(self, env=None, limit=60000, deadline=None, cut=()):
        self.env = env
        self.limit = limit
        self.deadline = deadline
        self.cut = set(cut)
        self.atoms = []       # (kind, data)
        self.key = {}
        self.memo = {}
        self.rel = {}         # atom id -> poly of its square (reduction)
        self.fp = {}          # (fn, fingerprint) -> [(args, atom id)]
        self.work = 0

    # ---- atoms
    def atom(self, kind, data):
        k = (kind, data)
        i = self.key.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(k)
            self.key[k] = i
        return i

    def tick(self, n):
        self.work += n
        if self.deadline and self.work > 2000:
            self.work = 0
            if time.time() > self.deadline:
                raise TooBig("time")

    # ---- polynomials: dict mono -> coeff
    @staticmethod
    def monomul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for x, p in b:
            q = d.get(x, 0) + p
            if q:
                d[x] = q
            else:
                d.pop(x, None)
        return tuple(sorted(d.items()))

    def padd(self, P, Q, c=1):
        if len(P) < len(Q) and c == 1:
            P, Q = Q, P
        R = dict(P)
        for m, q in Q.items():
            v = R.get(m, 0) + q * c
            if v:
                R[m] = v
            else:
                R.pop(m, None)
        return R

    def pmul(self, P, Q):
        self.tick(len(P) * len(Q))
        if len(P) * len(Q) > 40 * self.limit:
            raise TooBig("product")
        R = {}
        mm = self.monomul
        for m, a in P.items():
            for n, b in Q.items():
                k = mm(m, n)
                v = R.get(k, 0) + a * b
                if v:
                    R[k] = v
                else:
                    R.pop(k, None)
        if len(R) > self.limit:
            raise TooBig("terms")
        return self.reduce(R)

    def ppow(self, P, n):
        R = {(): 1}
        B = P
        while n:
            if n & 1:
                R = self.pmul(R, B)
            n >>= 1
            if n:
                B = self.pmul(B, B)
        return R

    def reduce(self, P):
        """apply atom^2 = poly relations to positive powers"""
        if not self.rel:
            return P
        rel = self.rel
        todo = None
        for m in P:
            for x, p in m:
                if p >= 2 and x in rel:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return P
        R = {}
        stack = list(P.items())
        while stack:
            m, c = stack.pop()
            for i, (x, p) in enumerate(m):
                if p >= 2 and x in rel:
                    break
            else:
                v = R.get(m, 0) + c
                if v:
                    R[m] = v
                else:
                    R.pop(m, None)
                continue
            self.tick(1)
            rest = m[:i] + (((x, p - 2),) if p > 2 else ()) + m[i + 1:]
            for m2, c2 in rel[x].items():
                stack.append((self.monomul(rest, m2), c * c2))
        if len(R) > self.limit:
            raise TooBig("terms")
        return R

    # ---- inverse
    def inv(self, P):
        P = self.reduce(P)
        if not P:
            raise ZeroDivisionError("division by an expression identically zero")
        if len(P) == 1:
            (m, c), = P.items()
            return {tuple((x, -p) for x, p in m): Fr(1) / c}
        # clear denominators inside
        P, mult = self.clear(P)
        # here value = P / mult  (mult a monomial in atoms/dens, as mono)
        if not P:
            raise ZeroDivisionError("division by an expression identically zero")
        # content
        mn = None
        for m in P:
            d = dict(m)
            if mn is None:
                mn = d
            else:
                mn = {x: min(p, d.get(x, 0)) for x, p in mn.items() if min(p, d.get(x, 0)) > 0}
            if not mn:
                break
        cont = tuple(sorted((mn or {}).items()))
        ic = tuple((x, -p) for x, p in cont)
        if cont:
            P = {self.monomul(m, ic): c for m, c in P.items()}
        if len(P) == 1:
            (m, c), = P.items()
            return {self.monomul(self.monomul(tuple((x, -p) for x, p in m), ic), mult): Fr(1) / c}
        lm = min(P)
        lc = P[lm]
        prim = frozenset((m, Fr(c) / lc) for m, c in P.items())
        a = self.atom("den", prim)
        return {self.monomul(self.monomul(((a, -1),), ic), mult): Fr(1) / Fr(lc)}

    def denpoly(self, a):
        return dict(self.atoms[a][1])

    def expand_den(self, P):
        """replace denominator atoms in positive powers by their polynomial"""
        R = {}
        for m, c in P.items():
            ds = [(x, p) for x, p in m if p > 0 and self.atoms[x][0] == "den"]
            if not ds:
                R = self.padd(R, {m: c})
                continue
            Q = {tuple((x, p) for x, p in m if not (p > 0 and self.atoms[x][0] == "den")): c}
            for x, p in ds:
                Q = self.pmul(Q, self.ppow(self.denpoly(x), p))
            R = self.padd(R, Q)
        return R

    def clear(self, P):
        """P -> (Q, mult) with P = Q/mult, Q without negative exponents"""
        mult = ()
        while True:
            neg = {}
            for m in P:
                for x, p in m:
                    if p < 0 and p < neg.get(x, 0):
                        neg[x] = p
            pos = {x: p for m in P for x, p in m if p > 0 and self.atoms[x][0] == "den"}
            if pos:
                P = self.expand_den(P)
                continue
            if not neg:
                return P, mult
            dens = [x for x in neg if self.atoms[x][0] == "den"]
            if dens:
                # cheapest first: the one in the fewest monomials
                x = min(dens, key=lambda a: (len(self.atoms[a][1]), a))
                k = -neg[x]
                D = self.denpoly(x)
                pw = [{(): 1}]
                for _ in range(k):
                    pw.append(self.pmul(pw[-1], D))
                R = {}
                groups = {}
                for m, c in P.items():
                    d = dict(m)
                    e = d.pop(x, 0)
                    groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
                for e, G in groups.items():
                    R = self.padd(R, self.pmul(G, pw[k + e]) if k + e else G)
                P = R
                mult = self.monomul(mult, ((x, k),))
            else:
                s = tuple(sorted((x, -p) for x, p in neg.items()))
                P = self.reduce({self.monomul(m, s): c for m, c in P.items()})
                mult = self.monomul(mult, s)
            if len(P) > self.limit:
                raise TooBig("terms")

    def zero(self, P):
        P = self.reduce(P)
        if not P:
            return True
        Q, _ = self.clear(P)
        return not Q

    # ---- conversion
    def poly(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        stack = [e]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            if x in self.cut:
                self.memo[x] = {((self.atom("cut", x), 1),): 1}
                stack.pop()
                continue
            if x.k in ("add", "scale", "mul", "fn"):
                ch = [c for c in children(x) if c not in self.memo]
                if ch:
                    stack.extend(ch)
                    continue
            stack.pop()
            self.memo[x] = self._poly1(x)
        return self.memo[e]

    def _poly1(self, e):
        k = e.k
        if k == "num":
            return {(): e.a[0]} if e.a[0] else {}
        if k in ("sym", "int", "elem", "psum"):
            return {((self.atom("leaf", e), 1),): Fr(1)}
        if k == "scale":
            return {m: c * e.a[0] for m, c in self.memo[e.a[1]].items()}
        if k == "add":
            R = {}
            for t, c in e.a:
                R = self.padd(R, self.memo[t], c)
            if len(R) > self.limit:
                raise TooBig("terms")
            return R
        if k == "mul":
            # multiply the small factors first; powers of single terms are monomials
            R = {(): Fr(1)}
            parts = []
            for b, p in e.a:
                P = self.memo[b]
                if p < 0:
                    P = self.inv(P)
                    p = -p
                if len(P) == 1:
                    (m, c), = P.items()
                    P = self.reduce({tuple((x, q * p) for x, q in m): c ** p})
                else:
                    P = self.ppow(P, p)
                parts.append(P)
            parts.sort(key=len)
            for P in parts:
                R = self.pmul(R, P)
            return R
        if k == "fn":
            return self.kernel(e)
        raise Unsupported(k)

    def print_(self, e):
        try:
            return ir.ev(e, self.env)
        except (Undefined, ZeroDivisionError, ValueError, OverflowError):
            return None

    def kernel(self, e):
        f = e.a[0]
        args = e.a[1:]
        if f == "abs":
            s = fn("sign", args[0])
            self.memo.setdefault(s, None)
            if self.memo[s] is None:
                del self.memo[s]
            return self.pmul(self.poly(s), self.memo[args[0]])
        # canonical representative with equal arguments
        fps = None
        if self.env is not None:
            vals = [self.print_(a) for a in args]
            if all(v is not None for v in vals):
                fps = tuple(mpmath.nstr(v, 25) if abs(v) > mpmath.mpf(10) ** -30 else "0" for v in vals)
        sgn = 1
        if fps is not None:
            for (args2, a) in self.fp.get((f, fps), ()):
                if all(x is y or self.same(x, y) for x, y in zip(args, args2)):
                    return {((a, 1),): Fr(1)}
            if len(args) == 1 and f in ("sin", "cos", "exp", "sign"):
                nfp = (fps[0][1:] if fps[0].startswith("-") else "-" + fps[0],)
                for (args2, a) in self.fp.get((f, nfp), ()):
                    if self.same(args[0], -args2[0]):
                        if f == "exp":
                            return {((a, -1),): Fr(1)}
                        return {((a, 1),): Fr(-1 if f in ("sin", "sign") else 1)}
        a = self.atom("leaf", e)
        if fps is not None:
            self.fp.setdefault((f, fps), []).append((args, a))
        # relations
        if f == "sqrt":
            P = self.poly(args[0])
            self.rel[a] = P
        elif f == "sign":
            self.rel[a] = {(): Fr(1)}
        elif f == "sin":
            c = fn("cos", args[0])
            ca = self.poly(c)
            self.rel[a] = self.padd({(): Fr(1)}, self.pmul(ca, ca), -1)
        return {((a, 1),): Fr(1)}

    def same(self, x, y):
        try:
            return self.zero(self.padd(self.poly(x), self.poly(y), -1))
        except TooBig:
            return False


def shared_cuts(e, env, maxn=400):
    return []


def is_zero(e, env=None, limit=60000, budget=20.0, cuts=None):
    """True if e = 0 is proved; False if not proved"""
    if e is ZERO:
        return True
    dl = time.time() + budget
    try:
        N = Norm(env, limit, dl)
        return N.zero(N.poly(e))
    except TooBig:
        return False
