"""evaluate: the returned gradients are the derivatives of the returned totals and coefficients."""
from bemstub import *
import C13
F = "ccblade.py:CCBlade.evaluate (gradients)"
TRUSTED = C13.TRUSTED
ASSUMPTIONS = ["gradients of distributedAeroLoads by contract (C11), gradients of the blade integrals by contract (C10)", "no NaN (real arithmetic)", "rho, Rtip, B positive, coned radius and wind speed nonzero",
               "gradients are demanded for the sector count in use (sector count itself is a step function of tilt, yaw and shear)",
               "section positions strictly inside hub and tip, tip offsets different from the last section's"]
SC1 = dict(dprecone="precone", dtilt="tilt", dhubHt="hubHt", dRhub="Rhub", dRtip="Rtip", dprecurveTip="precurveTip", dpresweepTip="presweepTip", dyaw="yaw", dshear="shear")
SCD = dict(dUinf="Uinf", dOmega="Omega", dpitch="pitch")
VEC = dict(dr="r", dchord="chord", dtheta="theta", dprecurve="precurve", dpresweep="presweep")
q_, i2_ = ivar("q"), ivar("i2")
CASES = {"sectors > 4": [("!=", sym("tilt"), 0), ("<", 4, ns_)], "4 sectors": [("!=", sym("tilt"), 0), ("<=", ns_, 4)],
         "axisymmetric": [("==", sym("tilt"), 0), ("==", sym("yaw"), 0), ("==", sym("shearExp"), 0)]}


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for cs in CASES:
        for o in C13.OUT:
            out.append(("d%s %s" % (o, cs), lambda R, o=o, cs=cs: grads(R, subs, cs, o)))
    return out


def grads(R, subs, case, o):
    pyex.ALIGN[0] = (m_, "i")
    private(subs)
    base_ = C13.context([cmp_(*q) for q in CASES[case]] + [cmp_("<", elem("r", 0), elem("r", n_ - 1)), cmp_("<=", 0, q_), cmp_("<", q_, n_), cmp_("<=", 0, i2_), cmp_("<", i2_, m_)])

    def run():
        T = Totals(C13.sectors())
        same = truth(cmp_("==", i2_, ci_))
        pyex.DENOMS[0] = []
        Rt, (out, D) = C13.analyse(subs, True, True)
        res = []
        for k, coef in (("d" + o, False), ("dC" + o, True)):
            d = D[k]
            if same:
                res.append((k + " documented keys", num(int(set(d) == set(SC1) | set(SCD) | set(VEC))), ONE))
                for z, x in d.items():
                    want = (m_, aff(1)) if z in SC1 else (m_, m_) if z in SCD else (m_, n_)
                    dd = pyex.asarr(x).dims
                    res.append(("%s[%s] shape" % (k, z), num(int(len(dd) == 2 and all(same_dim(a, b) for a, b in zip(dd, want)))), ONE))
            g = T.cgrad if coef else T.grad
            if same:
                for z, nm in SC1.items():
                    res.append(("%s[%s](i)" % (k, z), lift(pyex.asarr(d[z]).at(ci_, aff(0))), g(o, nm)))
                for z, nm in VEC.items():
                    res.append(("%s[%s](i,q)" % (k, z), lift(pyex.asarr(d[z]).at(ci_, q_)), g(o, nm, q_)))
            for z, nm in SCD.items():
                res.append(("%s[%s](i,%s)" % (k, z, "i" if same else "other"), lift(pyex.asarr(d[z]).at(ci_, ci_ if same else i2_)), g(o, nm) if same else ZERO))
        return res, list(pyex.DENOMS[0]), same
    for c, (res, den, same), m in runs(run, base_):
        t = "%s%s: " % (case, "" if same else " other condition")
        for k, got, want in res:
            R.eq(t + k, got, want, c, F)
        R.eq(t + "no division by something that can be zero", num(len(undefined(c, den))), ZERO, c, F)


def undefined(c, den):
    """denominators not known to be nonzero from the preconditions"""
    return [e for e in dict.fromkeys(den) if not nz(c, e)]


def nz(c, e):
    if e.k == "num":
        return e.a[0] != 0
    if e.k == "int":
        return not c_possible_zero(c, e)
    if e is PI:
        return True
    if e.k == "scale":
        return nz(c, e.a[1])
    if e.k == "mul":
        return all(nz(c, b) for b, p in e.a)
    if c.sign_of(e) in (1, -1) or c.nonzero(e):
        return True
    return any(h.kind == "r" and not p and h.op == "==" and zero(h.e - e, Env({}, _I(), {}, 5), 20000, 2) for h, p in c.hyps)


class _I(dict):
    def __missing__(self, k):
        return 5


def c_possible_zero(c, e):
    return not c.entails_int("<", aff(0), ivar(e.a[0]))
