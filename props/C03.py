"""distributedAeroLoads: the inflow angle of every section is the root in the prescribed bracket."""
from bemstub import *
import C04
F = "ccblade.py:CCBlade.distributedAeroLoads"
TRUSTED = ["numpy by lib/npshim.py, brentq by its documented contract (lib/bemstub.py): ValueError for ends of one sign, else a root between them"]
ASSUMPTIONS = ["kernels by their contracts (C01, C04, C05, C08)", "no NaN (real arithmetic)", "iterRe of 1, 2 and 3", "one wind speed for the whole blade", "Vx and Vy of the section nonzero"]


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for it, d in ((1, False), (2, False), (3, False), (1, True)):
        out.append(("solve iterRe=%d derivatives=%s" % (it, d), lambda R, it=it, d=d: solve(R, subs, it, d)))
    for d in (False, True):
        out.append(("parked derivatives=%s" % d, lambda R, d=d: parked(R, subs, d)))
    return out


def context(S, rotating, deriv):
    ex = C04.nondegenerate(S, j_, rotating)
    if deriv:
        ex.append(cmp_("!=", elem("chord", j_), 0))
    ex.append(cmp_("!=" if rotating else "==", sym("Omega"), 0))
    return rotor_ctx(2, ex)


def solve(R, subs, it, deriv):
    S = Spec(iterRe=it)
    pyex.ALIGN[0] = (n_, "j")
    base_ = context(S, True, deriv)
    nm = "iterRe=%d derivatives=%s" % (it, deriv)
    seen = set()

    def run():
        M = ccblade(subs)
        phi = S.phi(j_)
        if deriv:
            w = S.section(j_, phi if phi is not None else ZERO, True)
            if truth(cmp_("==", w["Cn"], 0)) or truth(cmp_("==", w["W"], 0)):
                return None
        Rt, (L, D) = C04.analyse(M, S, deriv)
        return phi, gen(L["alpha"], j_), gen(L["a"], j_), gen(L["ap"], j_), list(pyex.MACH.warned), list(pyex.MACH.events)

    for c, res, m in runs(run, base_):
        if res is None:
            continue
        phi, alpha, a, ap, warned, ev = res
        t = "%s [%s]: " % (nm, C04.cname(c, base_))
        p = ZERO if phi is None else phi
        x = S.x(j_)
        _, wa, wap, _, _ = S.bem(j_, x, p)
        if phi is None:
            seen.add("no root")
            R.eq(t + "no bracketed root: a warning and no exception", num(int(len(warned) > 0)), ONE, c, F)
            continue
        seen.add(show(phi.a[2] if phi.k == "fn" and len(phi.a) > 2 else phi, 2))
        R.eq(t + "no warning with a bracketed root", num(len(warned)), ZERO, c, F)
        R.eq(t + "inflow angle is the root in the prescribed bracket", alpha * PI / 180 + x["theta"] + x["pitch"], phi, c, F)
        R.eq(t + "axial induction of that angle and section", a, wa, c, F)
        R.eq(t + "tangential induction of that angle and section", ap, wap, c, F)
    R.eq(nm + ": all four outcomes of the bracket search reached", num(len(seen)), num(4), base_, F)


def parked(R, subs, deriv):
    S = Spec()
    pyex.ALIGN[0] = (n_, "j")
    base_ = context(S, False, deriv)

    def run():
        M = ccblade(subs)
        w = S.section(j_, PI / 2, False)
        if deriv and (truth(cmp_("==", w["Cn"], 0)) or truth(cmp_("==", w["W"], 0))):
            return None
        Rt, (L, D) = C04.analyse(M, S, deriv)
        return gen(L["alpha"], j_), gen(L["a"], j_), gen(L["ap"], j_), list(pyex.MACH.warned), [e for e in pyex.MACH.events if e[0] in ("root", "noroot")]
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        alpha, a, ap, warned, ev = res
        t = "parked derivatives=%s [%s]: " % (deriv, C04.cname(c, base_))
        x = S.x(j_)
        R.eq(t + "right angle", alpha * PI / 180 + x["theta"] + x["pitch"], PI / 2, c, F)
        R.eq(t + "no axial induction", a, ZERO, c, F)
        R.eq(t + "no tangential induction", ap, ZERO, c, F)
        R.eq(t + "no warning", num(len(warned)), ZERO, c, F)
