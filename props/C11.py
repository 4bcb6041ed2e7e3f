"""distributedAeroLoads: the returned gradients are the total derivatives of the loads."""
from bemstub import *
import C03
import C04
F = "ccblade.py:CCBlade.distributedAeroLoads (gradients)"
TRUSTED = C03.TRUSTED + ["implicit function theorem for the root of the residual (the root's derivative is -R_z/R_phi)"]
ASSUMPTIONS = ["kernels and their derivatives by contract (C01, C04, C05, C08, C09); af.derivatives by contract (C20)", "iterRe=1 (the code's own restriction)",
               "Vx, Vy, chord, W, the force coefficients and dR/dphi nonzero", "section positions strictly inside hub and tip, tip offsets different from the last section's",
               "the velocities of a section depend on no other section's presweep (proved of windComponents in C09)"]
SCALARS = dict(dRhub="Rhub", dRtip="Rtip", dprecone="precone", dtilt="tilt", dhubHt="hubHt", dyaw="yaw", dshear="shearExp", dazimuth="azimuth", dUinf="Uinf", dOmega="Omega", dpitch="pitch")
DIAG = dict(dchord="chord", dtheta="theta", dpresweep="presweep")
FULL = dict(dr="r", dprecurve="precurve")
PHI, VX, VY = sym("@phi"), sym("@vx"), sym("@vy")
i_ = ivar("i")


def tasks(tier):
    subs = kern.load_fortran()
    out = []
    for rot in (True, False):
        for part in ("scalars", "vectors"):
            for ld in ("Np", "Tp"):
                out.append(("%s %s %s" % ("rotating" if rot else "parked", part, ld), lambda R, rot=rot, part=part, ld=ld: grads(R, subs, rot, part, [ld])))
        out.append(("%s names" % ("rotating" if rot else "parked"), lambda R, rot=rot: grads(R, subs, rot, "names", ["Np", "Tp"])))
    out.append(("windComponents", lambda R: lemma(R, subs)))
    return out


def lemma(R, subs):
    """the velocities of a section depend on the presweep of no other section"""
    import sect
    f = "bem.f90:windComponents"

    def run():
        vx, vy = sect.call_wind(subs)
        return vx.get(sect.j_), vy.get(sect.j_)
    for c, res in explore(run, sect.sect_ctx()):
        for k, e in zip(("Vx", "Vy"), res):
            d = diff(e, lambda z: ZERO, lambda a, i: ZERO if a != "presweep" or aff(i) == sect.j_ else sym("@d"))
            R.eq("windComponents [%s]: d%s(j)/dpresweep(i), i != j" % (sect.iname(c), k), d, ZERO, c, f)


class Total:
    """total derivatives of the specified loads of section j"""

    def __init__(self, S, rotating, load):
        self.S = S
        x = S.x(j_)
        self.v = dict(zip(("vx", "vy"), S.V(j_)))
        x["vx"], x["vy"] = VX, VY
        self.L = S.section_x(j_, x, PHI if rotating else PI / 2, rotating)[load]
        self.R = S.bem(j_, x, PHI)[0] if rotating else None
        self.m = {VX: self.v["vx"], VY: self.v["vy"]}
        d = lambda s: lambda z: ONE if z is s else ZERO
        no = lambda a, k: ZERO
        P = lambda e, s: nsubst(diff(e, d(s), no), self.m)
        self.P = {k: P(self.L, s) for k, s in (("phi", PHI), ("vx", VX), ("vy", VY))}
        if rotating:
            self.PR = {k: P(self.R, s) for k, s in (("phi", PHI), ("vx", VX), ("vy", VY))}

    def total(self, dsym, delem, dV):
        """explicit part + chain through the velocities, less the root's share"""
        def D(e, P):
            return nsubst(diff(e, dsym, delem), self.m) + P["vx"] * dV["vx"] + P["vy"] * dV["vy"]
        t = D(self.L, self.P)
        if self.R is not None:
            t = t - self.P["phi"] / self.PR["phi"] * D(self.R, self.PR)
        return t

    def scalar(self, name):
        ds = lambda z: ONE if z is sym(name) else ZERO
        no = lambda a, k: ZERO
        return self.total(ds, no, {k: diff(self.v[k], ds, no) for k in ("vx", "vy")})

    def vector(self, name, q, same):
        """with respect to element q of the input; same: q is the section itself"""
        no = lambda z: ZERO
        de = lambda a, k: ONE if a == name and same else ZERO
        dV = {k: wind_dvec(k, j_, name, q, self.S.wsc, self.S.g) if name in ("r", "precurve", "presweep") else ZERO for k in ("vx", "vy")}
        return self.total(no, de, dV)


def grads(R, subs, rotating, part, which, only=None):
    names = private(subs)
    S = Spec()
    pyex.ALIGN[0] = (n_, "j")
    ex = C04.nondegenerate(S, j_, rotating) + [cmp_("!=", elem("chord", j_), 0)]
    ex.append(cmp_("!=" if rotating else "==", sym("Omega"), 0))
    if part == "vectors":
        ex += [cmp_("<=", 0, i_), cmp_("<", i_, n_)]
    base_ = rotor_ctx(2, ex)
    nm = "rotating" if rotating else "parked"

    def run():
        M = ccblade(subs)
        phi = S.phi(j_) if rotating else PI / 2
        if phi is None:
            return None
        want = S.section(j_, phi, rotating)
        if any(truth(cmp_("==", want[k], 0)) for k in ("Cn", "Ct", "W")):
            return None         # gradients are not defined there
        same = truth(cmp_("==", i_, j_)) if part == "vectors" else None
        Rt, (L, D) = C04.analyse(M, S, True)
        out = []
        for load in which:
            key = "d" + load
            d = D[key]
            priv = lambda z: [(nm, pyex.asarr(getattr(Rt, nm)), t_) for nm, (l_, z_, t_) in names.items() if l_ == load and z_ == z and hasattr(Rt, nm)]
            T = Total(S, rotating, load)
            if part == "names":
                out.append((key + " documented keys", ONE if set(d) == set(SCALARS) | set(DIAG) | set(FULL) else ZERO, ONE))
                out.append((key[1:] + " unchanged by gradients", gen(L[load], j_), want[load]))
                for k, x in d.items():
                    dims = (n_, aff(1)) if k in SCALARS else (n_, n_)
                    sh = pyex.asarr(x).dims
                    out.append(("%s[%s] shape" % (key, k), ONE if len(sh) == 2 and all(same_dim(a, b) for a, b in zip(sh, dims)) else ZERO, ONE))
            elif part == "scalars":
                for k, z in SCALARS.items():
                    if only and k not in only:
                        continue
                    w = T.scalar(z)
                    out.append(("%s[%s](j)" % (key, k), lift(pyex.asarr(d[k]).at(j_, aff(0))), w))
                    # the matrix evaluate uses (contract of lib/bemstub.py:da_contract)
                    for nm, x, tr_ in priv("X"):
                        out.append(("%s[%s](j)" % (nm, k), lift(x.at(aff(X_ROWS.index(k[1:])), j_)), w))
            else:
                for k, z in list(DIAG.items()) + list(FULL.items()):
                    if only and k not in only:
                        continue
                    if same or k in FULL:
                        w = T.vector(z, j_ if same else i_, same)
                    else:
                        w = ZERO
                    out.append(("%s[%s](j,i)" % (key, k), lift(pyex.asarr(d[k]).at(j_, i_)), w))
                    if k in FULL:
                        for nm, x, tr_ in priv(k[1:]):
                            out.append(("%s(i,j)" % nm, lift(x.at(i_, j_) if tr_ else x.at(j_, i_)), w))
                    if same and k != "dprecurve":
                        for nm, x, tr_ in priv("X"):
                            out.append(("%s[%s](j)" % (nm, k), lift(x.at(aff(X_ROWS.index(k[1:])), j_)), w))
        return phi, out, same
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        phi, out, same = res
        t = "%s%s [%s]: " % (nm, "" if same is None else " i==j" if same else " i!=j", C04.cname(c, base_))
        for k, got, want in out:
            if rotating:
                got, want = nsubst(got, {phi: PHI}), nsubst(want, {phi: PHI})       # for any value of the root
            R.eq(t + k, got, want, c, F)
