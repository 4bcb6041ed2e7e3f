from kern import *
from C01 import path_name
FUNC = "bem.f90:INDUCTIONFACTORS_DV"
FUNCW = "bem.f90:RELATIVEWIND_DV"


TRUSTED = ["symbolic differentiation (lib/ir.py:diff)"]
ASSUMPTIONS = ["call obligations: assumptions of C11", "Rhub < r < Rtip, sin(phi), cos(phi), Vx, Vy nonzero, relative velocity nonzero; branch boundaries excluded by the path conditions being open or met by both versions",
               "real arithmetic"]
NAMES = ["r", "chord", "rhub", "rtip", "phi", "cl", "cd", "vx", "vy"]


def tasks(tier):
    subs = load_fortran()
    out = [("INDUCTIONFACTORS_DV[useCd=%d hub=%d tip=%d wake=%d]" % f, lambda R, f=f: one(R, subs, f)) for f in FLAGS]
    out.append(("RELATIVEWIND_DV", lambda R: relwind(R, subs)))
    for part in ("scalars", "vectors"):
        for ld in ("Np", "Tp"):
            out.append(("call: %s %s" % (part, ld), lambda R, part=part, ld=ld: call(R, subs, part, ld)))
    return out


def call(R, subs, part, load):
    """the Python caller assembles the derivatives of the loads and of the residual
    of a section from those of the kernels"""
    import C11
    C11.grads(R, subs, True, part, [load], only={"dchord", "dtheta", "dRhub", "dRtip", "dpitch", "dUinf", "dOmega"})


def one(R, subs, flags):
    seeds = {k: sym(k + "d") for k in NAMES}

    def run():
        dv = call_induction_dv(subs, flags, seeds)
        p = call_induction(subs, flags)
        return dv, p
    for c, (dv, p) in explore(run, ind_ctx()):
        tag = "INDUCTIONFACTORS_DV[useCd=%d hub=%d tip=%d wake=%d] %s:" % (*flags, path_name(c))
        w = dict(kernel="inductionfactors_dv", flags=flags)
        for o in ("fzero", "a", "ap"):
            R.eq(tag + " value " + o, dv[o], p[o], c, FUNC, dict(w, out=o))
            R.eq(tag + " derivative " + o, dv[o + "d"], directional(p[o], seeds), c, FUNC, dict(w, out=o + "d"))


RW = ["phi", "a", "ap", "vx", "vy", "pitch", "chord", "theta"]


def rw_ctx():
    c = ind_ctx()
    c.assume(*cmp_("<", ZERO, S["mu"]))
    c.assume(*cmp_("<", ZERO, S["rho"]))
    return c


def call_rw(subs, checks=None):
    u = subs["relativewind"]
    r = Exec(subs, checks=checks).call("relativewind", [S[k] for k in RW] + [S["rho"], S["mu"]] + [None] * 3)
    return dict(zip(["alpha", "w", "re"], [r[k] for k in u.args[-3:]]))


def call_rw_dv(subs, seeds, checks=None):
    u = subs["relativewind_dv"]
    v = []
    for k in RW:
        v += [S[k], seeds.get(k, ZERO)]
    r = Exec(subs, checks=checks).call("relativewind_dv", v + [S["rho"], S["mu"]] + [None] * 6 + [ivar("nbdirs")], lane=u.args[-1])
    return dict(zip(["alpha", "alphad", "w", "wd", "re", "red"], [r[k] for k in u.args[-7:-1]]))


def relwind(R, subs):
    seeds = {k: sym(k + "d") for k in RW}

    def run():
        return call_rw_dv(subs, seeds), call_rw(subs)
    base = rw_ctx()
    # an undisturbed relative velocity of zero has no derivative
    arg = (S["vx"] * (1 - S["a"])) ** 2 + (S["vy"] * (1 + S["ap"])) ** 2
    base.assume(*cmp_("!=", arg, ZERO))
    for c, (dv, p) in explore(run, base):
        tag = "RELATIVEWIND_DV %s:" % path_name(c)
        w = dict(kernel="relativewind_dv")
        for o in ("alpha", "w", "re"):
            R.eq(tag + " value " + o, dv[o], p[o], c, FUNCW, dict(w, out=o))
            R.eq(tag + " derivative " + o, dv[o + "d"], directional(p[o], seeds), c, FUNCW, dict(w, out=o + "d"))
