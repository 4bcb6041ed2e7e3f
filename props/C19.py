"""correction3D: Du-Selig's correction of every angle of attack of every polar."""
from afpstub import *
F = "airfoilprep.py:Polar.correction3D"
FA = "airfoilprep.py:Airfoil.correction3D"
TRUSTED = ["numpy by lib/npshim.py (polyfit of degree one as the closed form of the least-squares line; interp as a function of point and tables)"]
ASSUMPTIONS = ["at least two distinct angles of attack in the linear range, nonzero lift slope", "taper angle not 90 degrees", "positive radius, chord and tip speed ratio", "real arithmetic"]
ARGS = ["r_over_R", "chord_over_r", "tsr", "alpha_max_corr", "alpha_linear_min", "alpha_linear_max"]
DEF = dict(alpha_max_corr=num(30), alpha_linear_min=num(-5), alpha_linear_max=num(5))


def tasks(tier):
    M = None
    out = [("polar defaults=%s" % d, lambda R, d=d: polar(R, d)) for d in (False, True)]
    return out + [("airfoil defaults=%s" % d, lambda R, d=d: airfoil_(R, d)) for d in (False, True)]


def rad(x):
    return x * PI / 180


def arg(k, d):
    return DEF[k] if d and k in DEF else sym(k)


def fit(p, d):
    """slope and intercept of the least-squares line through the linear range"""
    lo, hi = rad(arg("alpha_linear_min", d)), rad(arg("alpha_linear_max", d))
    a = new((p.n,), lambda idx: rad(p.at("alpha", idx[0])))
    inside = pyex.boolean(new((p.n,), lambda idx: truth(cmp_("<=", lo, rad(p.at("alpha", idx[0])))) and truth(cmp_("<=", rad(p.at("alpha", idx[0])), hi))))
    return npshim.fit(pyex.Sel(a, inside), pyex.Sel(p.arr("cl"), inside))


def spec(p, j, d):
    a = rad(p.at("alpha", j))
    m, b = fit(p, d)
    lam = sym("tsr") / fn("sqrt", ONE + sym("tsr") ** 2)
    c = sym("chord_over_r")

    def fac(e):
        ce = fn("pow", c, e)
        return (num(Fr(16, 10)) * c / num(Fr(1267, 10000)) * (1 - ce) / (1 + ce) - 1) / m
    e = 1 / (lam * sym("r_over_R"))
    am = rad(arg("alpha_max_corr", d))
    tap = ONE if truth(cmp_("<=", a, am)) else ((PI / 2 - a) / (PI / 2 - am)) ** 2
    cl, cd = p.at("cl", j), p.at("cd", j)
    cd0 = node(npshim.interp_opaque(ZERO, p.arr("alpha"), p.arr("cd")))
    return dict(alpha=p.at("alpha", j), cl=cl + fac(e) * (m * a + b - cl) * tap, cd=cd + fac(e / 2) * (cd - cd0), cm=p.at("cm", j), Re=p.Re)


def hyps(p, d):
    return [cmp_("<", 0, sym(k)) for k in ("r_over_R", "chord_over_r", "tsr")] + [cmp_("!=", PI / 2 - rad(arg("alpha_max_corr", d)), 0), cmp_("<=", 0, j_), cmp_("<", j_, p.n)]


def args(d):
    return [V(sym(k)) for k in ARGS[:3 if d else 6]]


def post(R, t, c, F, got, want):
    for k in ("alpha", "cl", "cd", "cm", "Re"):
        R.eq(t + k + "(j)", got[k], want[k], c, F)


def polar(R, d):
    p = P()
    base_ = af_ctx([cmp_("<=", 2, n_)] + hyps(p, d))

    def run():
        M = airfoilprep()
        w = spec(p, j_, d)
        o = p.make(M)
        r = o.correction3D(*args(d))
        got = {k: gen(getattr(r, k), j_) for k in QS}
        got["Re"] = node(r.Re)
        sh = all(size1(getattr(r, k), n_) for k in QS) and type(r) is M["Polar"]
        return w, got, sh, unchanged(o) and not pyex.MACH.foreign
    for c, (w, got, sh, frame), m in runs(run, base_):
        t = "defaults=%s [%s]: " % (d, " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r"))
        R.eq(t + "one value per angle, a polar", num(int(sh)), ONE, c, F)
        R.eq(t + "original unchanged", num(int(frame)), ONE, c, F)
        post(R, t, c, F, got, w)


def airfoil_(R, d):
    pyex.ALIGN[0] = (m_, "i")
    p = P("", i_, ivar("N[i]"))
    base_ = af_ctx([cmp_("<=", 2, p.n), cmp_("<=", 1, m_), cmp_("<=", 0, i_), cmp_("<", i_, m_)] + hyps(p, d))
    pyex.SORTED[0] = sorted_re()

    def run():
        M = airfoilprep()
        w = spec(p, j_, d)
        a = airfoil(M)
        r = a.correction3D(*args(d))
        ok = type(r) is M["Airfoil"] and r.polar_type is M["Polar"] and same_dim(pyex.dim(pyex.s_len(r.polars)), m_)
        q = r.polars[pyex.mki(i_)]
        got = {k: gen(getattr(q, k), j_) for k in QS}
        got["Re"] = node(q.Re)
        sh = all(size1(getattr(q, k), p.n) for k in QS) and ok
        fr = all(unchanged(x) for x in a.polars.made.values()) and type(a.polars) is Polars and q not in a.polars.made.values() and not pyex.MACH.foreign
        return w, got, sh, fr
    for c, (w, got, sh, frame), m in runs(run, base_):
        t = "defaults=%s [%s]: " % (d, " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r"))
        R.eq(t + "one polar per polar, one value per angle", num(int(sh)), ONE, c, FA)
        R.eq(t + "original unchanged", num(int(frame)), ONE, c, FA)
        post(R, t, c, FA, got, w)
