"""unsteadyparam: the AeroDyn parameters describe the polar's normal force curve, and reach the file in order."""
from afpstub import *
import symfile
from npshim import dsum
F = "airfoilprep.py:Polar.unsteadyparam"
FW = "airfoilprep.py:Airfoil.writeToAerodynFile"
TRUSTED = ["numpy by lib/npshim.py: polyfit of degree one by the scaling laws of the least-squares line, interp as a function of point and tables, argmin: a position, the same for the same values"]
ASSUMPTIONS = ["nonzero slope of the normal force", "interpToCommonAlpha by its contract (C15)", "real arithmetic"]
NAMES_ = ("control setting", "stall angle", "angle of zero normal force", "slope of the normal force", "normal force at upper stall", "normal force at lower stall", "angle of minimum drag", "minimum drag")
p = P()


def tasks(tier):
    return [("given range", lambda R: params(R, False)), ("default range", lambda R: params(R, True)), ("file", file_)]


def rad(x):
    return x * PI / 180


def deg(x):
    return x * 180 / PI


def spec(d):
    for q in QS:
        p.arr(q)            # names its table
    lo, hi = (num(-5), num(5)) if d else (sym("alpha_linear_min"), sym("alpha_linear_max"))
    lo, hi = rad(lo), rad(hi)

    def a(j):
        return rad(p.at("alpha", j))

    def cn(j):
        return p.at("cl", j) * fn("cos", a(j)) + p.at("cd", j) * fn("sin", a(j))

    def inside(j):
        return truth(cmp_("<=", lo, a(j))) and truth(cmp_("<=", a(j), hi))
    if truth(cmp_("<", n_, 10)) or truth(cmp_("<", union_of(p.table("cl")).dims[0], 10)) or truth(cmp_("<", dsum(lambda q: ONE if inside(q) else ZERO, n_), 2)):
        return [ZERO] * 8
    A_ = new((n_,), lambda idx: a(idx[0]))
    C_ = new((n_,), lambda idx: cn(idx[0]))
    I_ = pyex.boolean(new((n_,), lambda idx: inside(idx[0])))
    m, b = npshim.fit(pyex.Sel(A_, I_), pyex.Sel(C_, I_))
    a0 = -b / m

    def stall(n, angle, sgn):
        """the angle of the scan, in radians, at which the line departs from the curve by 0.05"""
        x = new((n,), lambda idx: rad(angle(idx[0])))
        dev = new((n,), lambda idx: sgn * (m * (rad(angle(idx[0])) - a0) - node(npshim.interp_opaque(rad(angle(idx[0])), A_, C_))))
        return node(npshim.interp_opaque(num(Fr(1, 20)), dev, x))
    up = stall(40, lambda k: aff_node(k), ONE)
    low = stall(45, lambda k: 5 - aff_node(k), -ONE)
    k = pyex.dim(pyex.raw_int(p.arr("cd").argmin()))
    return [ZERO, deg(up), deg(a0), m, m * (up - a0), m * (low - a0), p.at("alpha", k), p.at("cd", k)]


def params(R, d):
    base_ = af_ctx([cmp_("<=", 1, n_)])

    def run():
        M = airfoilprep()
        w = spec(d)
        o = p.make(M)
        r = o.unsteadyparam(*([] if d else [V(sym("alpha_linear_min")), V(sym("alpha_linear_max"))]))
        ok = isinstance(r, (tuple, list)) and len(r) == 8
        return ok, [node(x) for x in r] if ok else [], w, unchanged(o) and not pyex.MACH.foreign
    for c, (ok, got, w, fr), m in runs(run, base_):
        t = "%s%s: " % ("default " if d else "", label(c, base_))
        R.eq(t + "eight numbers", num(int(ok)), ONE, c, F)
        R.eq(t + "polar unchanged", num(int(fr)), ONE, c, F)
        for nm, g, s in zip(NAMES_, got, w):
            R.eq(t + nm, g, s, c, F)


def file_(R):
    """table i of the file carries polar i's eight parameters, in order, between its Reynolds number and its rows"""
    import C17
    base_ = af_ctx([cmp_("<=", 1, m_), cmp_("<=", 1, n_), cmp_("<=", 0, i_), cmp_("<", i_, m_)])
    pyex.ALIGN[0] = (m_, "i")
    pyex.SORTED[0] = C17.rekey

    def run():
        files = {}
        M = airfoilprep()
        M["open"] = symfile.opener(files)
        pyex.MACH.texts = symfile
        made = {}

        def one(k):
            k = aff(k)
            if k not in made:
                made[k] = P("", k, n_, common=True).make(M)
            return made[k]
        common = M["Airfoil"].__new__(M["Airfoil"])
        common.polars = SymSeq(m_, one)
        common.polar_type = M["Polar"]
        M["Airfoil"].interpToCommonAlpha = lambda self, *a, **k: common
        calls = []

        def up(s, *a, **k):
            calls.append((a, k))
            return tuple(V(fn("param%d" % q, aff_node(aff(s._spec.k)))) for q in range(8))
        M["Polar"].unsteadyparam = up
        airfoil(M).writeToAerodynFile("f")
        b = files.get("f", [])
        rep = [x for x in b if isinstance(x, symfile.Rep)]
        got = []
        if len(rep) == 1 and same_dim(rep[0].n, m_):
            lines = rep[0].body[1:9]
            for s in lines:
                tok = s.split()[:1] if isinstance(s, str) else []
                m = symfile.MARK.fullmatch(tok[0]) if tok else None
                v, kind = pyex.MACH.tokens[int(m.group(1))] if m else (ZERO, "exact")
                got.append(isubst(fn(kind, v) if kind not in ("exact", "int") else v, {rep[0].var: i_}))
        return got, all(q == ((), {}) for q in calls)
    for c, (got, df), m in runs(run, base_):
        R.eq("one table per polar with eight parameters of the default range", num(int(len(got) == 8 and df)), ONE, c, FW)
        for q, (nm, g) in enumerate(zip(NAMES_, got)):
            R.eq("table i: " + nm, num(int(C17.reads(g, fn("param%d" % q, aff_node(i_))))), ONE, c, FW)
