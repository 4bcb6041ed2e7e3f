"""Construction and analysis: own copies, moved ends, nothing else changed, no memory."""
from bemstub import *
import C04
import C11
from C11 import i_
F0 = "ccblade.py:CCBlade.__init__"
F1 = "ccblade.py:CCBlade.distributedAeroLoads"
F2 = "ccblade.py:CCBlade.evaluate"
TRUSTED = ["numpy by lib/npshim.py, numpy.interp and brentq by their documented contracts (props/C14.py, lib/bemstub.py)"]
ASSUMPTIONS = ["kernels and airfoils are functions of their arguments", "section positions strictly increasing, at least two sections", "no NaN (real arithmetic)",
               "a sequence of calls: every call is shown to leave what the constructor set, and to give the fresh rotor's result whatever earlier calls left behind",
               "lists of airfoils and attributes set by the user between calls are not covered"]


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for pc in (True, False):
        for ps in (True, False):
            for part in ("hub", "tip"):
                for two in (False, True):
                    out.append(("construction precurve=%s presweep=%s %s%s" % (pc, ps, part, " two sections" if two else ""),
                                lambda R, pc=pc, ps=ps, part=part, two=two: construct(R, subs, pc, ps, part, two)))
    out.append(("construction sectors", lambda R: construct(R, subs, True, True, "sectors", False)))
    for d in (False, True):
        for rot in (True, False):
            for part in ("scalars", "vectors") if d else ("scalars",):
                out.append(("analysis derivatives=%s rotating=%s %s" % (d, rot, part), lambda R, d=d, rot=rot, part=part: analysis(R, subs, d, rot, False, part)))
    out.append(("inverse analysis", lambda R: analysis(R, subs, False, True, True)))
    for d in (False, True):
        for co in (False, True):
            out.append(("totals derivatives=%s coefficients=%s" % (d, co), lambda R, d=d, co=co: totals(R, subs, d, co)))
    return out


# ---------------------------------------------------------------- numpy.interp
def between(lo, x, hi):
    c = ctx()

    def le(a, b):
        r = cmp_("<=", a, b)
        if isinstance(r, bool):
            return r
        return any(h == r[0] and p == r[1] for h, p in c.hyps) or c.z3_prove(*r, timeout=3000)
    return le(lo, x) and le(x, hi)


def interp(x, xp, fp):
    """numpy.interp for an increasing table: linear between the two entries around x"""
    N = xp.dims[0]
    if not same_dim(N, fp.dims[0]):
        raise ValueError("fp and xp are not of the same length.")
    X, Y = (lambda k: lift(xp.at(aff(k)))), (lambda k: lift(fp.at(aff(k))))
    last = N - 1
    x = extrema(x)
    line = lambda a, b: Y(a) + (x - X(a)) / (X(b) - X(a)) * (Y(b) - Y(a))
    if pyex.tr("==", N, aff(2)):
        if between(X(0), x, X(last)):
            return line(0, last)
    if between(X(N - 2), x, X(last)):
        return line(N - 2, last)
    if between(X(0), x, X(1)):
        return line(0, 1)
    raise Unsupported("interpolation segment %r of %r ... %r; %r" % (x, X(N - 2), X(last), ctx().hyps[7:]))


def extrema(x):
    """which operand a maximum or minimum is, by cases"""
    import C01
    for y in sorted((y for y in C01.top_fns(x) if y.a[0] in ("max2", "min2")), key=lambda y: y.id):
        a, b = (extrema(q) for q in y.a[1:])
        le = truth(cmp_("<=", a, b))
        x = nsubst(x, {y: b if le == (y.a[0] == "max2") else a})
    return x


def range14(k):
    return ranges(k)


def construct(R, subs, pc, ps, part, two):
    import bemstub
    bemstub.n_ = n_ = aff(2) if two else ivar("n")
    last = n_ - 1
    r0, r1, rm, rn = elem("r", 0), elem("r", 1), elem("r", n_ - 2), elem("r", last)
    span = rn - r0

    def moved(at, tip):
        """specified position of a section at hub or tip, as a fraction of the span"""
        if tip:
            m = ((rm - r0) / span + 1) / 2
            return m if truth(cmp_("<=", Fr(99, 100), m)) else num(Fr(99, 100))
        m = (r1 - r0) / span / 2
        return num(Fr(1, 100)) if truth(cmp_("<=", Fr(1, 100), m)) else m

    def run():
        npshim.INTERP[0] = interp
        hub_at = truth(cmp_("==", sym("Rhub"), r0))
        tip_at = truth(cmp_("==", sym("Rtip"), rn))
        nh, nt = moved(0, False), moved(0, True)
        want = {"r": elem("r", j_), "precurve": elem("precurve", j_) if pc else ZERO, "presweep": elem("presweep", j_) if ps else ZERO}
        first, lastq = truth(cmp_("==", j_, 0)), truth(cmp_("==", j_, last))
        if first and hub_at:
            want["r"] = r0 + nh * span
        if lastq and tip_at:
            want["r"] = r0 + nt * span
        xm = (rm - r0) / span
        for k, on in (("precurve", pc), ("presweep", ps)):
            if on and lastq and truth(cmp_("==", sym(k + "Tip"), elem(k, last))):
                a, b = elem(k, n_ - 2), elem(k, last)
                want[k] = a + (nt - xm) / (1 - xm) * (b - a)
        M = ccblade(subs)
        kw = {}
        if not pc:
            kw.update(precurve=None)
        if not ps:
            kw.update(presweep=None)
        ns = truth(cmp_("==", sym("tilt"), 0)) and truth(cmp_("==", sym("yaw"), 0)) and truth(cmp_("==", sym("shearExp"), 0))
        NS = aff(1) if ns else (ivar("ns") if truth(cmp_("<", 4, ivar("ns"))) else aff(4))
        Rt = rotor(M, True, nSector=I(ivar("ns")), **kw)
        d = dict(Rt.__dict__)
        eqs = [(k, gen(d[k], j_), v) for k, v in want.items()]
        eqs += [("chord", gen(d["chord"], j_), elem("chord", j_)), ("theta", gen(d["theta"], j_), rad(elem("theta", j_)))]
        for k in ("Rhub", "Rtip", "B", "rho", "mu", "shearExp", "hubHt"):
            eqs.append((k, node(d[k]), sym(k)))
        for k in ("precone", "tilt", "yaw"):
            eqs.append((k, node(d[k]), rad(sym(k))))
        pct = sym("precurveTip") if pc else ZERO
        eqs += [("precurveTip", node(d["precurveTip"]), pct), ("presweepTip", node(d["presweepTip"]), sym("presweepTip") if ps else ZERO),
                ("rotorR", node(d["rotorR"]), sym("Rtip") * fn("cos", rad(sym("precone"))) + pct * fn("sin", rad(sym("precone")))),
                ("nSector", node(d["nSector"]), aff_node(NS)), ("iterRe", node(d["iterRe"]), ONE)]
        for k in FL:
            eqs.append((k, node(d["bemoptions"][k]), sym(k)))
        own = [k for k in STATE_A if getattr(d[k].root, "owner", None)]
        own += [k for k in STATE_A for q in STATE_A if q < k and d[q].root is d[k].root]
        size = [k for k in STATE_A if not same_dim(asarr(d[k]).dims[0], n_) and not pyex.tr("==", asarr(d[k]).dims[0], n_)]
        ins = []
        if first and hub_at:
            ins += [("moved section outside the hub", "<", sym("Rhub"), want["r"]), ("moved section before its neighbour", "<", want["r"], r1)]
        if lastq and tip_at:
            ins += [("moved section inside the tip", "<", want["r"], sym("Rtip")), ("moved section after its neighbour", "<", rm, want["r"])]
        return eqs, own, size, list(pyex.MACH.foreign), ins, (d["af"].root.owner == "af" if isinstance(d["af"], A) else False)
    c0 = base(range14)
    c0.use_z3_real = False
    for op, a, b in (("<=", 2 if two else 3, n_), ("<=", 0, j_), ("<", j_, n_), ("<", r0, r1), ("<", rm, rn), ("<", r0, rn), ("<=", 1, ivar("ns"))):
        q = cmp_(op, a, b)
        if not isinstance(q, bool):
            c0.assume(*q)
    if part == "sectors":
        for a, b in ((sym("Rhub"), r0), (sym("Rtip"), rn), (sym("precurveTip"), elem("precurve", last)), (sym("presweepTip"), elem("presweep", last))):
            c0.assume(*cmp_("!=", a, b))
    else:
        c0.assume(*cmp_("!=", sym("tilt"), 0))
    if part != "tip":
        c0.assume(*cmp_("<", j_, last))
    else:
        c0.assume(*cmp_("==", j_, last))
    for c, (eqs, own, size, foreign, ins, af), m in runs(run, c0, 2000):
        t = "construction precurve=%s presweep=%s [%s]: " % (pc, ps, C04.cname(c, c0))
        for k, g, w in eqs:
            R.eq(t + "attribute %s(j)" % k, g, w, c, F0)
        R.eq(t + "no array shared with the caller or among attributes", num(len(own)), ZERO, c, F0)
        R.eq(t + "one value per section", num(len(size)), ZERO, c, F0)
        R.eq(t + "caller's arrays unchanged", num(len(foreign)), ZERO, c, F0)
        R.eq(t + "the airfoils given are used", num(int(af)), ONE, c, F0)
        for nm, op, a, b in ins:
            R.goal(t + nm, *cmp_(op, a, b), c, F0)


# -------------------------------------------------------------------- analyses
CTOR = ["r", "chord", "theta", "af", "Rhub", "Rtip", "B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "bemoptions", "iterRe", "derivatives",
        "precurve", "precurveTip", "presweep", "presweepTip", "rotorR", "nSector", "inverse_analysis", "induction", "induction_inflow"]


def picture(Rt, only=None):
    """the value of every attribute, arrays at a generic index"""
    d = {}
    for k, v in Rt.__dict__.items():
        if k.startswith("_built") or only is not None and k not in only:
            continue
        d[k] = value(v)
    return d


def value(v):
    if isinstance(v, A):
        ii = [ivar("@s%d" % q) for q in range(v.ndim)]
        g = v.at(*ii)
        return (tuple(repr(x) for x in v.dims), g if not isinstance(g, (AF, pyex.Sym)) else ("airfoil", repr(g.i)))
    if isinstance(v, dict):
        return tuple(sorted((k, value(x)) for k, x in v.items()))
    if isinstance(v, (bool, type(None), str)):
        return v
    return node(v)


def stale(Rt, left):
    """attributes an earlier call left behind, with arbitrary values"""
    for k, v in left.items():
        if isinstance(v, A):
            nm = "@old." + k
            Rt.__dict__[k] = new(v.dims, lambda idx, nm=nm: fn(nm, *[aff_node(i) for i in idx]))
        elif isinstance(v, (bool, type(None), str)):
            Rt.__dict__[k] = v
        else:
            Rt.__dict__[k] = V(sym("@old." + k))


def remains(Rt, built):
    return {k: v for k, v in Rt.__dict__.items() if k not in built and k != "_built"}


def old(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "sym" and x.a[0].startswith("@old.") or x.k == "fn" and x.a[0].startswith("@old."):
            return True
        st.extend(children(x))
    return False


def analysis(R, subs, deriv, rotating, inverse=False, part="scalars"):
    names = private(subs)
    S = Spec(iterRe=1)
    if inverse:
        import C21
        S = C21.ISpec(iterRe=1)
    pyex.ALIGN[0] = (n_, "j")
    ex = C04.nondegenerate(S, j_, rotating)
    if deriv:
        ex.append(cmp_("!=", elem("chord", j_), 0))
        if part == "vectors":
            ex += [cmp_("<=", 0, i_), cmp_("<", i_, n_)]
    om = cmp_("!=" if rotating else "==", sym("Omega"), 0)
    nm = "analysis derivatives=%s rotating=%s inverse=%s" % (deriv, rotating, inverse)

    def once(M, left=None, conds=C04.COND):
        Rt = rotor(M, deriv)
        if inverse:
            C21.prepare(Rt)
        built = dict(Rt.__dict__)
        p0 = picture(Rt)
        if left:
            stale(Rt, {k: v for k, v in left.items() if k not in built})
            if inverse:
                Rt.theta = new((n_,), lambda idx: fn("@old.theta", aff_node(idx[0])))
        L, D = Rt.distributedAeroLoads(*[sc(k) for k in conds])
        p1 = picture(Rt, set(p0) - ({"theta"} if inverse else set()))
        changed = sorted(k for k in p0 if p1.get(k, None) != p0[k] and not (inverse and k == "theta"))
        out = {k: gen(v, j_) for k, v in L.items()}
        left_ = remains(Rt, built)
        if deriv:
            for a, dd in D.items():
                for b, v in dd.items():
                    v = asarr(v)
                    if (part == "scalars") == (b in C11.SCALARS):
                        out[a + b] = lift(v.at(j_, aff(0)) if b in C11.SCALARS else v.at(j_, i_))
            for k in [k for k in left_ if isinstance(Rt.__dict__[k], A)]:
                v = Rt.__dict__[k]
                packed = v.ndim == 2 and v.dims[0] == aff(15)
                if packed and part == "scalars":
                    for row in range(v.dims[0].c):
                        if X_ROWS[row] in DICT_SC:
                            out["%s[%d]" % (k, row)] = lift(v.at(aff(row), j_))
                elif not packed and v.ndim == 2 and part == "vectors":
                    t = names.get(k, (0, 0, True))[2]
                    out[k] = lift(v.at(i_, j_) if t else v.at(j_, i_))
        return Rt, out, left_, changed

    def run():
        M = ccblade(subs)
        phi = S.phi(j_) if rotating else PI / 2
        if deriv:
            if phi is None:
                return None
            w = S.section(j_, phi, rotating)
            if any(truth(cmp_("==", w[k], 0)) for k in ("Cn", "Ct", "W")):
                return None         # gradients are not defined there
            if part == "vectors":
                truth(cmp_("==", i_, j_))
        R1, a, left, ch1 = once(M)
        R2, b, _, ch2 = once(M, left)
        return a, b, ch1 + ch2, sorted(left), list(pyex.MACH.foreign)
    base_ = rotor_ctx(2, ex + [om])
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        a, b, ch, left, foreign = res
        t = "%s [%s]: " % (nm, C04.cname(c, base_))
        R.eq(t + "what the constructor set is unchanged %s" % " ".join(ch), num(len(ch)), ZERO, c, F1)
        R.eq(t + "caller's arrays, conditions and airfoils unchanged", num(len(foreign)), ZERO, c, F1)
        R.eq(t + "same results whatever was left behind by earlier calls: keys", num(int(set(a) == set(b))), ONE, c, F1)
        for k in sorted(set(a) & set(b)):
            R.eq(t + "%s(j) independent of earlier calls" % k, num(int(old(b[k]))), ZERO, c, F1)
            R.eq(t + "%s(j) as from a fresh rotor" % k, b[k], a[k], c, F1)


def totals(R, subs, deriv, coef):
    import C13
    private(subs)
    pyex.ALIGN[0] = (m_, "i")
    base_ = C13.context()

    def once(M, left=None):
        Rt = snapshot(rotor(M, deriv, nSector=I(ns_)))
        built = dict(Rt.__dict__)
        p0 = picture(Rt)
        if left:
            stale(Rt, left)
        o, D = Rt.evaluate(varr("Uinf", m_), varr("Omega", m_), varr("pitch", m_), coef)
        p1 = picture(Rt, p0)
        changed = sorted(k for k in p0 if p1.get(k, None) != p0[k])
        out = {k: gen(v, ci_) for k, v in o.items() if k != "W"}
        for a, dd in (D or {}).items():
            for b, v in dd.items():
                v = asarr(v)
                col = ci_ if v.ndim == 2 and v.dims[0] == v.dims[1] else ivar("@c") if v.ndim == 2 else None
                if v.ndim == 2 and v.dims[1] == aff(1):
                    col = aff(0)
                out[a + b] = lift(v.at(ci_, col) if v.ndim == 2 else v.at(ci_))
        return out, remains(Rt, built), changed

    def run():
        M = ccblade(subs)
        M["CCBlade"].distributedAeroLoads = da_contract
        c = ctx()
        for q in (cmp_("<=", 0, ivar("@c")), cmp_("<", ivar("@c"), n_)):
            if q not in c.hyps:
                c.assume(*q)
        C13.sectors()
        a, left, ch1 = once(M)
        b, _, ch2 = once(M, left)
        return a, b, ch1 + ch2, list(pyex.MACH.foreign)
    for c, (a, b, ch, foreign), m in runs(run, base_):
        t = "totals derivatives=%s coefficients=%s [%s]: " % (deriv, coef, C04.cname(c, base_))
        R.eq(t + "what the constructor set is unchanged %s" % " ".join(ch), num(len(ch)), ZERO, c, F2)
        R.eq(t + "caller's arrays unchanged", num(len(foreign)), ZERO, c, F2)
        R.eq(t + "same keys", num(int(set(a) == set(b))), ONE, c, F2)
        for k in sorted(set(a) & set(b)):
            R.eq(t + "%s(i) independent of earlier calls" % k, num(int(old(b[k]))), ZERO, c, F2)
            R.eq(t + "%s(i) as from a fresh rotor" % k, b[k], a[k], c, F2)
