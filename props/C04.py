"""distributedAeroLoads: section quantities, for any number of sections and any section."""
from bemstub import *
F = "ccblade.py:CCBlade.distributedAeroLoads"
TRUSTED = ["numpy by lib/npshim.py, brentq by its documented contract (lib/bemstub.py)"]
ASSUMPTIONS = ["kernels by their contracts (C01, C05, C08)", "no NaN (real arithmetic)", "iterRe of 1, 2 and 3", "one wind speed for the whole blade",
               "section positions inside hub and tip and tip offsets different from the last section's (the moved ends are checked at run time)"]
COND = ("Uinf", "Omega", "pitch", "azimuth")
KEYS = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")


def analyse(M, S, derivatives, **kw):
    R = rotor(M, derivatives, iterRe=S.iterRe, **kw)
    return R, R.distributedAeroLoads(*[sc(k) for k in COND])


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for it in (1, 2, 3):
        for d in (False, True):
            if d and it > 1:
                continue
            out.append(("rotating iterRe=%d derivatives=%s" % (it, d), lambda R, it=it, d=d: sections(R, subs, it, d, True)))
    for d in (False, True):
        out.append(("parked derivatives=%s" % d, lambda R, d=d: sections(R, subs, 1, d, False)))
    out.append(("relativeWind", lambda R: wind_kernel(R, subs)))
    return out


def wind_kernel(R, subs):
    """the contract lib/bemstub.py assumes of relativeWind"""
    import C08
    f = "bem.f90:relativeWind"
    S_ = kern.S
    base_ = C08.rw_ctx()
    one = num(1)
    vx, vy = S_["vx"] * (1 - S_["a"]), S_["vy"] * (1 + S_["ap"])

    def big(k):
        return truth(cmp_(">", fn("abs", S_[k]), 10))

    def run():
        return C08.call_rw(subs), big("a"), big("ap")
    for c, (p, ba, bp) in explore(run, base_):
        nm = "relativeWind |a|%s10 |ap|%s10: " % (">" if ba else "<=", ">" if bp else "<=")
        R.eq(nm + "angle of attack", p["alpha"], S_["phi"] - S_["theta"] - S_["pitch"], c, f)
        R.eq(nm + "Reynolds number", p["re"] * S_["mu"], S_["rho"] * p["w"] * S_["chord"], c, f)
        if not ba and not bp:
            R.eq(nm + "relative speed", p["w"], fn("sqrt", vx * vx + vy * vy), c, f)
        else:
            # next to infinite induction the speed is taken from one component and the
            # inflow angle; equal in size at a solution, where tan(phi) = vx/vy
            at = nsubst(p["w"] * p["w"] - (vx * vx + vy * vy), {S_["vx"]: vy * fn("sin", S_["phi"]) / fn("cos", S_["phi"]) / (1 - S_["a"])})
            c2 = c.copy() if hasattr(c, "copy") else c
            R.eq(nm + "relative speed at a solution", at, ZERO, c2, f)
        used = {x for k in ("w",) for x in leaves(p[k])}
        R.eq(nm + "speed depends on angle, induction and velocities only", num(len([x for x in used if x in (S_["chord"], S_["theta"], S_["pitch"], S_["rho"], S_["mu"])])), ZERO, c, f)
    return one


def nondegenerate(S, j, rotating):
    """the section sees wind (both components when turning)"""
    vx, vy = S.V(j)
    if rotating:
        return [cmp_("!=", vx, 0), cmp_("!=", vy, 0)]
    return [cmp_("!=", vx, 0)]


def sections(R, subs, it, deriv, rotating, keys=KEYS, func=F):
    S = Spec(iterRe=it)
    pyex.ALIGN[0] = (n_, "j")
    ex = nondegenerate(S, j_, rotating)
    if deriv:
        ex.append(cmp_("!=", elem("chord", j_), 0))
    om = cmp_("!=" if rotating else "==", sym("Omega"), 0)
    nm = "%s iterRe=%d derivatives=%s" % ("rotating" if rotating else "parked", it, deriv)

    def run():
        M = ccblade(subs)
        phi = S.phi(j_) if rotating else PI / 2
        if phi is None:
            return None
        want = S.section(j_, phi, rotating)
        if deriv and (truth(cmp_("==", want["Cn"], 0)) or truth(cmp_("==", want["W"], 0))):
            return None         # gradients are not defined there
        Rt, (L, D) = analyse(M, S, deriv)
        out = [("keys", ONE if set(L) == set(KEYS) else ZERO, ONE)]
        for k in keys:
            if k in L:
                out.append((k, gen(L[k], j_), want[k]))
        return out
    base_ = rotor_ctx(2, ex + [om])
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        for k, got, want in res:
            R.eq("%s [%s]: post %s(j)" % (nm, cname(c, base_), k), got, want, c, func)


def cname(c, b):
    k = len(b.hyps)
    return " & ".join(("" if p else "not ") + show(h.e, 2) + h.op + "0" for h, p in c.hyps[k:] if h.kind == "r")[:120]
