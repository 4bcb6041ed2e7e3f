"""Loss factors and induction are well defined and join continuously."""
from kern import *
import fexec
from C01 import deep_simp, subterms, path_name

FUNC = "bem.f90:inductionFactors"
TRUSTED = ["real functions exp, acos, sqrt by: 0 < exp(u) < 1 for u < 0; 0 < acos(x) < pi/2 for 0 < x < 1; sqrt(x)^2 = x"]
ASSUMPTIONS = ["call obligations: assumptions of C04", "0 < Rhub < r < Rtip, chord > 0, B >= 1, 0 < |phi| < pi/2, Vx and Vy nonzero; for phi > 0 cn >= 0",
               "kp /= 1: the division 1/(1-kp) gives only the tangential factor and is not on the way to the quantities of the property",
               "real arithmetic: rounding and underflow of double precision are not modelled in the proof (the runtime contracts run the compiled code)",
               "within |g3| < 1e-6 the value may differ from the empirical relation by 2e-6 (C01), so there the join is shown within 2e-6 and its slope is not"]
TOL = Fr(2, 10 ** 6)
K, FF, X, CN = sym("K"), sym("F"), sym("X"), sym("CN")


def tasks(tier):
    subs = load_fortran()
    out = [("inductionFactors[useCd=%d hub=%d tip=%d wake=%d]" % f, lambda R, f=f: one(R, subs, f)) for f in FLAGS]
    for d in (False, True):
        out.append(("call: derivatives=%s" % d, lambda R, d=d: call(R, subs, 1, d)))
    return out


def call(R, subs, iterRe, derivatives):
    """the Python caller hands every section's own data, the rotor's radii, blade
    count and switches to the kernel, and reports the factors it returns"""
    import C04
    C04.sections(R, subs, iterRe, derivatives, True)


def base(sign, useCd, zero_cn=None):
    c = Ctx(env)
    for op, x, y in (("<", 0, S["rhub"]), ("<", S["rhub"], S["r"]), ("<", S["r"], S["rtip"]), ("<", 0, S["chord"]), ("<=", 1, S["b"]),
                     ("<" if sign > 0 else ">", 0, S["phi"]), ("<" if sign > 0 else ">", 0, fn("sin", S["phi"])), ("<", 0, fn("cos", S["phi"])),
                     ("!=", S["vx"], 0), ("!=", S["vy"], 0)):
        c.assume(*cmp_(op, lift(x), lift(y)))
    return c


def env(k, c):
    e = ind_env(k, c)
    e.s["phi"] = abs(e.s["phi"]) if abs(e.s["phi"]) < 1.5 else mpf("0.4")
    if any(h.e is S["phi"] and h.op == "<" and p for h, p in c.hyps):
        e.s["phi"] = -e.s["phi"]
    for nm in ("K", "F", "X", "L0", "L1", "CN"):
        e.s[nm] = mpf(random.Random(k * 7 + len(nm) + ord(nm[-1])).uniform(0.05, 0.99))
    return e


def one(R, subs, flags):
    u, hub, tip, wake = flags
    head = "inductionFactors[useCd=%d hub=%d tip=%d wake=%d] " % flags
    s, co = fn("sin", S["phi"]), fn("cos", S["phi"])
    cn = S["cl"] * co + (S["cd"] * s if u else ZERO)
    ct = S["cl"] * s - (S["cd"] * co if u else ZERO)
    for sign in (1, -1):
        def run():
            fexec.DOMAIN[0] = []
            got = call_induction(subs, flags)
            d, fexec.DOMAIN[0] = fexec.DOMAIN[0], None
            return got, d
        c0 = base(sign, u)
        if sign > 0:
            c0.assume(*cmp_("<=", 0, cn))
        n0 = len(c0.hyps)
        paths = explore(run, c0)
        # 1. loss factors: every exponent is negative, every inverse cosine in its domain
        L = {}
        for c, (got, dom) in paths:
            for op, x in dom:
                if op == "acos":
                    loss_factor(R, head, sign, x, L, c0)
        # every inverse cosine becomes a loss factor of its own in (0, 1)
        A = {fn("acos", x): PI / 2 * v for x, v in L.items() if v is not None}
        low = lambda e: nsubst(e, A)
        F = loss_product(paths, low, cn, s, sign, n0)
        if F is None:
            R.add(head + "loss factor recovered from the axial induction factor (sign %+d)" % sign, "unknown", "normal form", 0, "", func=FUNC)
            continue
        cF = Ctx(env)
        facts(cF, L)
        prove(R, head + "phi %+d: loss factor > 0" % sign, cmp_(">", F, 0), cF)
        prove(R, head + "phi %+d: loss factor <= 1" % sign, cmp_("<=", F, 1), cF)
        coef = {x for x in subterms(F) if x.k == "sym"} - set(L.values()) - {PI}
        R.eq(head + "phi %+d: loss factor is a product of the tip and hub factors" % sign, num(len(coef)), ZERO, None, FUNC)
        # terms in K and F: one loss factor is F over the rest, the chord is given by K
        m1 = {}
        vs = [v for v in L.values() if v is not None]
        if vs:
            rest = F / vs[0]
            if vs[0] in subterms(deep_simp(rest)):
                R.add(head + "loss factor is a product", "unknown", "normal form", 0, "", func=FUNC)
                continue
            m1[vs[0]] = FF / deep_simp(rest)
        f_ = FF if vs else ONE
        Fo = F
        for zcn in (True, False):
            m2 = {S["cl"]: ((ZERO if zcn else CN) - (S["cd"] * s if u else ZERO)) / co}
            m3 = {} if zcn else {S["chord"]: K * 8 * PI * S["r"] * f_ * s ** 2 / (S["b"] * CN)}
            red = lambda e: deep_simp(nsubst(nsubst(nsubst(low(e), m1), m2), m3))
            if sign > 0:
                branches(R, head + "phi>0 cn%s0: " % ("=" if zcn else ">"), paths, red, n0, zcn, bool(vs), s, co, ct, Fo)
            else:
                for sg in ([0] if zcn else [1, -1]):
                    for q, (c, (got, dom)) in enumerate(paths):
                        g = ground(bool(vs), sg, -1)
                        if not add_path(g, c, n0, red):
                            continue
                        domains(R, head + "phi<0 path %d cn%s0: " % (q, {0: "=", 1: ">", -1: "<"}[sg]), dom, red, g, ct, s, co, Fo)


def loss_factor(R, head, sign, x, L, c0):
    if x in L:
        return
    ok = True
    for y in sorted((y for y in subterms(x) if y.k == "fn" and y.a[0] == "exp"), key=lambda y: y.id):
        ok = ok and negative(R, head + "phi %+d: exponent %s < 0" % (sign, show(y.a[1], 3)), y.a[1], c0)
    c = c0.copy()
    a = R.goal(head + "phi %+d: acos argument %s >= -1 and > 0" % (sign, show(x, 2)), *cmp_(">", x, 0), c, FUNC)
    b = False
    if x.k == "fn" and x.a[0] == "exp":
        b = ok
        R.add(head + "phi %+d: acos argument %s < 1" % (sign, show(x, 2)), "proved" if b else "unknown", "sign of the exponent", 0, func=FUNC)
    else:
        b = R.goal(head + "phi %+d: acos argument %s < 1" % (sign, show(x, 2)), *cmp_("<", x, 1), c, FUNC)
    L[x] = sym("L%d" % len(L)) if a and b else None


def prove(R, name, cond, c, timeout=10000):
    if isinstance(cond, bool):
        R.add(name, "proved" if cond else "refuted-static", "evaluation", 0, func=FUNC)
        return cond
    return R.goal(name, *cond, c, FUNC, timeout=timeout)


def negative(R, name, e, c):
    if c.sign_of(e) == -1:
        R.add(name, "proved", "sign of the factors", 0, func=FUNC)
        return True
    return R.goal(name, *cmp_("<", e, 0), c, FUNC)


def facts(c, L):
    for v in L.values():
        if v is not None:
            c.assume(*cmp_("<", 0, v))
            c.assume(*cmp_("<", v, 1))


def loss_product(paths, low, cn, s, sign, n0):
    """F such that k = sigma' cn/(4 F sin^2), recovered from the returned factor:
    a/(1-a) = k for phi > 0 (momentum), a/(a-1) = k for phi < 0"""
    for c, (got, dom) in paths:
        a = got["a"]
        if a.k == "num" or any(x.k == "fn" and x.a[0] == "sqrt" for x in subterms(a)):
            continue
        k = a / (1 - a) if sign > 0 else a / (a - 1)
        F = S["b"] * S["chord"] * cn / (8 * PI * S["r"]) / s ** 2 / k
        F = deep_simp(ratio(low(F)))
        return F
    return None


def ratio(e):
    """a quotient of polynomials with its common factors removed by sympy"""
    import sympy
    at = {}

    def conv(x):
        if x.k == "num":
            return sympy.Rational(x.a[0].numerator, x.a[0].denominator)
        if x.k == "add":
            return sum(sympy.Rational(c.numerator if isinstance(c, Fr) else c, c.denominator if isinstance(c, Fr) else 1) * conv(t) for t, c in x.a)
        if x.k == "scale":
            q = Fr(x.a[0])
            return sympy.Rational(q.numerator, q.denominator) * conv(x.a[1])
        if x.k == "mul":
            r = sympy.Integer(1)
            for b, p in x.a:
                r = r * conv(b) ** p
            return r
        return at.setdefault(x, sympy.Symbol("t%d" % x.id))
    r = sympy.cancel(sympy.together(conv(e)))
    back = {v: k for k, v in at.items()}

    def rec(p):
        if p.is_Rational:
            return num(Fr(int(p.p), int(p.q)))
        if p.is_Symbol:
            return back[p]
        if p.is_Add:
            return addn([rec(t) for t in p.args])
        if p.is_Mul:
            o = ONE
            for t in p.args:
                o = o * rec(t)
            return o
        if p.is_Pow and p.exp.is_Integer:
            return rec(p.base) ** int(p.exp)
        raise Unsupported("sympy term %r" % p)
    out = rec(r)
    # the rewriting is confirmed, not trusted
    if not is_zero(out - e, Env({}, {}, {}, 5)):
        raise Unsupported("quotient not confirmed")
    return out


def ground(hasF, cnsign, phisign):
    """facts about the reduced variables"""
    g = Ctx(env)
    for x in ("rhub", "r", "rtip", "b") + (("chord",) if cnsign == 0 else ()):
        g.assume(*cmp_("<", 0, S[x]))
    g.assume(*cmp_("<" if phisign > 0 else ">", 0, fn("sin", S["phi"])))
    g.assume(*cmp_("<", 0, fn("cos", S["phi"])))
    g.assume(*cmp_("<" if phisign > 0 else ">", 0, S["phi"]))
    g.assume(*cmp_("!=", S["vx"], 0))
    g.assume(*cmp_("!=", S["vy"], 0))
    if hasF:
        g.assume(*cmp_("<", 0, FF))
        g.assume(*cmp_("<=", FF, 1))
        for v in ("L0", "L1"):
            g.assume(*cmp_("<", 0, sym(v)))
    if cnsign:
        g.assume(*cmp_("<" if cnsign > 0 else ">", 0, CN))
        g.assume(*cmp_("<" if cnsign > 0 else ">", 0, K))
    return g


def add_path(g, c, n0, red):
    """the path's own conditions in the reduced variables; False when impossible"""
    for h, p in c.hyps[n0:]:
        if h.kind != "r":
            continue
        r = cmp_(h.op, red(h.e), ZERO)
        if isinstance(r, bool):
            if r != p:
                return False
            continue
        g.assume(r[0], r[1] == p)
    return True


def domains(R, tag, dom, red, g, ct, s, co, F):
    # precondition: the tangential factor exists (not needed for what the property is about)
    kp = red(1 - S["b"] * S["chord"] * ct / (8 * PI * S["r"] * F * s * co))
    if kp.k != "num":
        g.assume(*cmp_("!=", kp, 0))
    for i, (op, x) in enumerate(dom):
        y = red(x)
        if op == "/":
            if y.k == "num":
                (R.add(tag + "division %d" % i, "proved" if y.a[0] != 0 else "refuted-static", "evaluation", 0, func=FUNC))
                continue
            if nonzero(g, y):
                R.add(tag + "divisor %s nonzero" % show(y, 2), "proved", "nonzero factors", 0, func=FUNC)
            else:
                prove(R, tag + "divisor %s nonzero" % show(y, 2), cmp_("!=", y, 0), g, 10000)
        elif op == "sqrt":
            prove(R, tag + "square root of %s" % show(y, 2), cmp_(">=", y, 0), g, 10000)
        elif op == "log":
            prove(R, tag + "logarithm of %s" % show(y, 2), cmp_(">", y, 0), g, 10000)
        elif op == "acos":
            pass                 # shown once for every argument


def nonzero(g, y):
    if y.k == "scale":
        return nonzero(g, y.a[1])
    if y.k == "mul":
        return all(nonzero(g, b) for b, p in y.a)
    if y.k == "fn" and y.a[0] == "abs":
        return nonzero(g, y.a[1])
    if y is PI or g.nonzero(y):
        return True
    return g._same_condition(Cond("r", "==", y)) is False


def branches(R, tag, paths, red, n0, zcn, hasF, s, co, ct, F):
    out = []
    for q, (c, (got, dom)) in enumerate(paths):
        if not add_path(ground(hasF, 0 if zcn else 1, 1), c, n0, red):
            continue
        a = red(got["a"])
        sq = [x for x in subterms(a) if x.k == "fn" and x.a[0] == "sqrt"]
        g = ground(hasF, 0 if zcn else 1, 1)
        fin = red
        if sq:
            # the square root becomes a variable, K a polynomial in it
            arg = sq[0].a[1]
            if len(sq) != 1:
                R.add(tag + "path %d: one square root" % q, "unknown", "normal form", 0, func=FUNC)
                continue
            KX = solve_linear(arg - X ** 2, K)
            if KX is None:
                R.add(tag + "path %d: square root linear in k" % q, "unknown", "normal form", 0, func=FUNC)
                continue
            fin = lambda e: deep_simp(nsubst(nsubst(deep_simp(nsubst(red(e), {sq[0]: X})), {K: KX}), {fn("sqrt", X ** 2): X}))
            g.assume(*cmp_("<=", 0, X))
            g.assume(*cmp_("==", K, KX))
        if not add_path(g, c, n0, red):
            continue
        if sq:
            add_path(g, c, n0, fin)
        a = fin(got["a"])
        t = tag + "path %d [%s]: " % (q, " ".join(("" if p else "!") + show(red(h.e), 2) + h.op for h, p in c.hyps[n0:] if h.kind == "r"))
        domains(R, t, dom, red, g, ct, s, co, F)
        v = {x for x in subterms(a) if x.k in ("sym", "fn")}
        R.eq(t + "induction factor depends on k and F only", num(len(v - {K, FF, X, PI})), ZERO, None, FUNC)
        prove(R, t + "a >= 0", cmp_(">=", a, 0), g, 20000)
        prove(R, t + "a < 1", cmp_("<", a, 1), g, 20000)
        out.append((q, c, a, g, KX if sq else None))
    if not zcn:
        join(R, tag, out, n0, red, hasF)


def solve_linear(e, v):
    e0, e1, e2 = nsubst(e, {v: ZERO}), nsubst(e, {v: ONE}), nsubst(e, {v: num(2)})
    sl = deep_simp(e1 - e0)
    if sl is ZERO or v in subterms(deep_simp(e - e0 - sl * v)) or not deep_simp(e - e0 - sl * v) is ZERO:
        return None
    return deep_simp(-e0 / sl)


def join(R, tag, out, n0, red, hasF):
    """momentum and empirical branch meet with equal value and slope"""
    f_ = FF if hasF else ONE
    mom = [o for o in out if o[4] is None]
    emp = [o for o in out if o[4] is not None]
    if len(mom) != 1 or not emp:
        R.add(tag + "one momentum and some empirical branches", "unknown", "paths", 0, "%d %d" % (len(mom), len(emp)), func=FUNC)
        return
    # the switch: the momentum branch holds up to some k
    ks = []
    for h, p in mom[0][1].hyps[n0:]:
        e = red(h.e)
        if h.kind == "r" and {x for x in subterms(e) if x.k == "sym"} == {K}:
            r = solve_linear(e, K)
            if r is not None and r.k == "num" and r is not ZERO:
                ks.append(r)
    if len(ks) != 1:
        R.add(tag + "switch between momentum and empirical branch", "unknown", "paths", 0, repr(ks), func=FUNC)
        return
    ks = ks[0]
    am = mom[0][2]
    dm = diff(am, lambda x: ONE if x is K else None)
    vm, sm = nsubst(am, {K: ks}), nsubst(dm, {K: ks})
    for q, c, a, g, KX in emp:
        # square root at the switch: X0(F) with KX(X0) = ks, by the code's own formula; for Buhl's X0 = F
        X0 = f_
        R.eq(tag + "path %d: root at the switch" % q, nsubst(KX, {X: X0}), ks, None, FUNC)
        near = any(h.kind == "r" and any(x.k == "fn" and x.a[0] in ("abs", "sign") for x in subterms(red(h.e))) and p for h, p in c.hyps[n0:])
        dX = lambda e: diff(e, lambda y: ONE if y is X else None)
        dF = lambda e: diff(e, lambda y: ONE if y is FF else None)
        at = lambda e: nsubst(e, {X: X0})
        val, slope = at(a), at(dX(a)) / at(dX(KX))
        if near:
            gg = Ctx(env)
            gg.assume(*cmp_("<", 0, FF))
            gg.assume(*cmp_("<=", FF, 1))
            dead = False
            for h, p in c.hyps[n0:]:
                if h.kind == "r" and any(x.k == "fn" and x.a[0] in ("abs", "sign") for x in subterms(red(h.e))):
                    r = cmp_(h.op, deep_simp(nsubst(nsubst(red(h.e), {K: KX}), {X: X0})), ZERO)
                    if isinstance(r, bool):
                        dead = dead or r != p
                    else:
                        gg.assume(r[0], r[1] == p)
            if dead:
                continue
            for nm, d, tol in (("value", val - vm, TOL),):
                d = deep_simp(d)
                prove(R, tag + "path %d: %s at the switch not above" % (q, nm), cmp_("<=", d, tol), gg, 20000)
                prove(R, tag + "path %d: %s at the switch not below" % (q, nm), cmp_(">=", d, -tol), gg, 20000)
            continue
        R.eq(tag + "path %d: equal value at the switch" % q, val, vm, None, FUNC)
        R.eq(tag + "path %d: equal slope in k at the switch" % q, slope, sm, None, FUNC)
        if hasF:
            XF = -dF(KX) / dX(KX)
            R.eq(tag + "path %d: equal slope in the loss factor at the switch" % q, at(dF(a) + dX(a) * XF),
                 nsubst(dF(am), {K: ks}), None, FUNC)
