"""Inverse analysis: the twist is the solved inflow angle less wanted angle of attack and pitch."""
from bemstub import *
import C03
import C04
F = "ccblade.py:CCBlade.distributedAeroLoads (inverse)"
TRUSTED = C03.TRUSTED
ASSUMPTIONS = ["kernels by their contracts (C01, C04, C05, C08)", "no NaN (real arithmetic)", "iterRe of 1, 2 and 3", "Vx and Vy of the section nonzero",
               "CCBladeTwist's outputs and the direct analysis after the inverse one at run time (bounded)"]


def tasks(tier):
    subs = kern.load_fortran()
    out = [("inverse iterRe=%d rotating=%s" % (it, rot), lambda R, it=it, rot=rot: inverse(R, subs, it, rot)) for it in (1, 2, 3) for rot in (True, False) if rot or it == 1]
    out.append(("inverse then direct", lambda R: lemma(R, subs)))
    return out


class ISpec(Spec):
    """the wanted coefficients in place of the airfoil's"""

    def residual(self, j, phi):
        return self.induction(self.x(j), phi, elem("cl", j), elem("cd", j))[0]


def prepare(Rt):
    Rt.inverse_analysis = True
    Rt.alpha, Rt.cl, Rt.cd = varr("alpha", n_), varr("cl", n_), varr("cd", n_)


def inverse(R, subs, it, rotating):
    S = ISpec(iterRe=it)
    pyex.ALIGN[0] = (n_, "j")
    base_ = C03.context(S, rotating, False)
    nm = "inverse iterRe=%d rotating=%s" % (it, rotating)

    def run():
        M = ccblade(subs)
        phi = S.phi(j_) if rotating else PI / 2
        Rt = rotor(M, False, iterRe=it)
        prepare(Rt)
        L, D = Rt.distributedAeroLoads(*[sc(k) for k in C04.COND])
        th = gen(Rt.theta, j_)
        p = ZERO if phi is None else phi
        x = S.x(j_)
        x["theta"] = p - elem("alpha", j_) - x["pitch"]
        want = S.section_x(j_, x, p, rotating)
        frame = [("wanted " + k, gen(getattr(Rt, k), j_), elem(k, j_)) for k in ("alpha", "cl", "cd")] + [("chord", gen(Rt.chord, j_), elem("chord", j_))]
        return phi, th, [(k, gen(L[k], j_), want[k]) for k in C04.KEYS], frame, list(pyex.MACH.warned)
    for c, res, m in runs(run, base_):
        phi, th, out, frame, warned = res
        t = "%s [%s]: " % (nm, C04.cname(c, base_))
        R.eq(t + "warning exactly without a bracketed root", num(int(bool(warned))), num(int(phi is None)), c, F)
        p = ZERO if phi is None else phi
        R.eq(t + "twist", th, p - elem("alpha", j_) - S.pitch, c, F)
        R.eq(t + "operates at the wanted angle of attack", dict((k, g) for k, g, _ in out)["alpha"], elem("alpha", j_) * 180 / PI, c, F)
        for k, g, w in out:
            R.eq(t + "section quantity " + k, g, w, c, F)
        for k, g, w in frame:
            R.eq(t + "unchanged " + k, g, w, c, F)


def lemma(R, subs):
    """with wanted coefficients equal to the airfoil's at the wanted angle of attack (and
    independent of the Reynolds number) the found angle is a root of the direct residual too"""
    S, I = Spec(), ISpec()
    phi = sym("phi")
    x = S.x(j_)
    x["theta"] = phi - elem("alpha", j_) - x["pitch"]
    d = S.bem(j_, x, phi)
    al, W, Re = S.relwind(x, phi, ZERO, ZERO)
    cl, cd = fn("af.cl", al, Re, aff_node(j_)), fn("af.cd", al, Re, aff_node(j_))
    c = rotor_ctx(2)
    R.eq("direct analysis: angle of attack with the found twist", al, elem("alpha", j_), c, F)
    R.eq("direct analysis: same residual with the airfoil's coefficients", nsubst(d[0], {cl: elem("cl", j_), cd: elem("cd", j_)}), I.residual(j_, phi), c, F)
