"""evaluate: rotor totals are azimuth averages over all blades, per condition."""
from bemstub import *
F = "ccblade.py:CCBlade.evaluate"
TRUSTED = ["numpy by lib/npshim.py"]
ASSUMPTIONS = ["distributedAeroLoads by contract (C03, C04): its loads are functions of the rotor and the four arguments", "thrustTorque by contract (C07)", "no NaN (real arithmetic)",
               "the undocumented output W is not covered", "section positions strictly inside hub and tip, tip offsets different from the last section's"]
OUT = ["P", "T", "Y", "Z", "Q", "My", "Mz", "Mb"]


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for d in (False, True):
        for co in (False, True):
            out.append(("totals derivatives=%s coefficients=%s" % (d, co), lambda R, d=d, co=co: totals(R, subs, d, co)))
    return out


def context(extra=()):
    c = rotor_ctx(2, [cmp_("<=", 1, m_), cmp_("<=", 0, ci_), cmp_("<", ci_, m_), cmp_("<=", 1, ns_)] + list(extra))
    for k in ("rho", "Rtip", "B"):
        c.assume(*cmp_("<", 0, sym(k)))
    T = Totals(aff(4))
    c.assume(*cmp_("!=", T.R, 0))
    c.assume(*cmp_("!=", elem("Uinf", ci_), 0))
    return c


def sectors():
    """the specified number of azimuths"""
    if all(truth(cmp_("==", sym(k), 0)) for k in ("tilt", "yaw", "shearExp")):
        return aff(1)
    return ns_ if truth(cmp_("<", 4, ns_)) else aff(4)


def analyse(subs, derivatives, coefficients):
    M = ccblade(subs)
    M["CCBlade"].distributedAeroLoads = da_contract
    Rt = snapshot(rotor(M, derivatives, nSector=I(ns_)))
    return Rt, Rt.evaluate(varr("Uinf", m_), varr("Omega", m_), varr("pitch", m_), coefficients)


def totals(R, subs, deriv, coef):
    private(subs)
    pyex.ALIGN[0] = (m_, "i")
    base_ = context()

    def run():
        T = Totals(sectors())
        Rt, (o, D) = analyse(subs, deriv, coef)
        got = {k: gen(o[k], ci_) for k in OUT + (["C" + k for k in OUT] if coef else []) if k in o}
        sh = [k for k in got if not (len(pyex.asarr(o[k]).dims) == 1 and same_dim(pyex.asarr(o[k]).dims[0], m_))]
        state_ok(Rt)
        return T, got, sh, list(pyex.MACH.foreign), list(pyex.MACH.warned), {k for k in o if k != "W"}
    for c, (T, got, sh, foreign, warned, keys), m in runs(run, base_):
        t = "derivatives=%s sectors=%r [%s]: " % (deriv, T.ns, " ".join(("" if p else "!") + h.op for h, p in c.hyps[len(base_.hyps):] if h.kind == "r"))
        want = set(OUT) | ({"C" + k for k in OUT} if coef else set())
        R.eq(t + "documented keys", num(int(keys == want)), ONE, c, F)
        R.eq(t + "one value per condition", num(len(sh)), ZERO, c, F)
        R.eq(t + "caller's arrays unchanged", num(len(foreign)), ZERO, c, F)
        for k in OUT:
            v = T.value(k)
            if k in got:
                R.eq(t + "total %s(i)" % k, got[k], v, c, F)
            if coef and "C" + k in got:
                R.eq(t + "coefficient C%s(i)" % k, got["C" + k], v / T.norm(k), c, F)
