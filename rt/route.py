"""The Fortran-anchored contracts observed through the public analysis methods."""
from common import *
import contextlib
import gradients
import io


def quiet(fun):
    with warnings.catch_warnings(record=True) as wn, contextlib.redirect_stdout(io.StringIO()) as so:
        warnings.simplefilter("always")
        v = fun()
    return v, any("check input" in str(x.message) for x in wn), so.getvalue()


def text(d):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()}


class Analysis:
    """one distributed analysis with everything recovered from its outputs"""

    def __init__(self, g, n=None, kind="normal", **kw):
        n = n or int(g.choice([2, 3, 4, 6]))
        d = rotor(g, n, **kw)
        d["iterRe"] = int(g.choice([1, 1, 1, 2]))
        af = gradients.airfoils(g, n)
        U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
        if kind == "unusual":
            U *= g.choice([0.02, 0.2, 1, 3, -1])
            pitch = g.uniform(-60, 90)
            Om *= g.choice([0.05, 1, 1, -1])
            d["chord"] *= g.choice([1, 3, 8])
        az = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
        self.d, self.af, self.n, self.U, self.Om, self.pitch, self.az = d, af, n, U, Om, pitch, az
        self.ex = "conditions=%r rotor=%r" % ([U, Om, pitch, az], text(d))
        (self.L, _), self.warned, self.out = quiet(lambda: build(d, af).distributedAeroLoads(U, Om, pitch, az))
        self.r, self.pc, self.ps, self.pct, self.pst = effective(d)
        self.Vx, self.Vy = wind(self.r, self.pc, self.ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(az), U, Om, d["hubHt"], d["shearExp"])
        self.th, self.p = np.radians(d["theta"]), math.radians(pitch)
        self.phi = np.radians(self.L["alpha"]) + self.th + self.p
        self.solved = ~((self.L["Np"] == 0) & (self.L["alpha"] == 0)) & ~((self.phi == 0) & self.warned)      # no solution found: zero angle and a warning

    def placeholder(self, i):
        """the brake region at small loading has no momentum solution: the induction factor there is a placeholder (zero)"""
        try:
            cl, cd = self.coefficients(i)[3:]
            k = induction(self.r[i], self.d["chord"][i], self.d["Rhub"], self.d["Rtip"], self.phi[i], cl, cd, self.d["B"], self.Vx[i], self.Vy[i], **flags_of(self.d))[3]
        except (ZeroDivisionError, ValueError, OverflowError):
            return True
        return self.phi[i] <= 0 and k <= 1 + 1e-6

    def coefficients(self, i):
        """lift and drag used for the induction of section i at its inflow angle"""
        return residual(self.d, self.af[i], i, self.phi[i], self.Vx[i], self.Vy[i], self.p, self.r[i], self.th[i])


def induction_at(g, f, kind):
    """C01: reported induction is the specified one at the reported inflow angle; the angle is that of the induced velocities"""
    A = Analysis(g, kind=kind)
    nt = False
    for i in range(A.n):
        L, phi, e = A.L, A.phi[i], "section %d phi=%r %s" % (i, A.phi[i], A.ex)
        if not A.solved[i]:
            continue
        try:
            fz, a, ap, cl, cd = A.coefficients(i)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if not (math.isfinite(a) and math.isfinite(ap) and abs(a) < 50 and abs(ap) < 50):
            continue
        # the inflow angle is reported through the angle of attack in degrees: allow for its rounding
        try:
            _, a2, ap2, _, _ = residual(A.d, A.af[i], i, phi * (1 + 1e-13) + 1e-14, A.Vx[i], A.Vy[i], A.p, A.r[i], A.th[i])
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        t = 1e-6
        f.eq("reported axial induction is that of the theory", L["a"][i], a, t, t + 10 * abs(a - a2), e)
        f.eq("reported tangential induction is that of the theory", L["ap"][i], ap, t, t + 10 * abs(ap - ap2), e)
        if abs(fz) < 1e-7 and not A.placeholder(i):
            got = math.atan2(A.Vx[i] * (1 - L["a"][i]), A.Vy[i] * (1 + L["ap"][i]))
            dphi = abs(math.sin(got - phi))
            f.true("inflow angle is that of the induced velocities", dphi < 1e-4 or math.hypot(A.Vx[i] * (1 - a), A.Vy[i] * (1 + ap)) < 1e-3 * math.hypot(A.Vx[i], A.Vy[i]),
                   "induced velocities give %r %s" % (got, e))
        nt = True
    return nt, f, dict(conditions=[A.U, A.Om, A.pitch, A.az], a=A.L["a"].tolist())


def well_defined(g, f, kind):
    """C02 through the analysis: loss factor recovered from the reported induction, range of the induction, nothing undefined"""
    A = Analysis(g, kind=kind)
    nt = False
    f.true("nothing undefined inside hub and tip", "NaN" not in A.out or A.warned, A.out[:200] + A.ex)
    for i in range(A.n):
        L, phi, e = A.L, A.phi[i], "section %d phi=%r %s" % (i, A.phi[i], A.ex)
        if not A.solved[i]:
            continue
        f.true("outputs finite", all(math.isfinite(L[k][i]) for k in L), "%r %s" % ({k: float(L[k][i]) for k in L}, e))
        if not 1e-5 < phi < math.pi / 2 - 1e-9:
            continue
        try:
            fz, a, ap, cl, cd = A.coefficients(i)
        except (ZeroDivisionError, ValueError, OverflowError):
            f.true("specified induction defined", False, e)
            continue
        s, c = math.sin(phi), math.cos(phi)
        cn = cl * c + (cd * s if A.d["usecd"] else 0)
        if cn < 0:
            continue
        ag = L["a"][i]
        f.true("axial induction in [0,1)", 0 <= ag < 1, "a=%r %s" % (ag, e))
        if 0.01 < ag < 0.399:
            F = A.d["B"] * A.d["chord"][i] / (2 * math.pi * A.r[i]) * cn * (1 - ag) / (4 * s * s * ag)
            f.true("loss factor in (0,1]", 0 < F < 1 + 1e-5, "F=%r %s" % (F, e))
            f.eq("loss factor is Prandtl's", F, loss(A.r[i], A.d["Rhub"], A.d["Rtip"], phi, A.d["B"], A.d["hubloss"], A.d["tiploss"]), 1e-5, 1e-5, e)
            nt = True
    return nt, f, dict(conditions=[A.U, A.Om, A.pitch, A.az], a=A.L["a"].tolist())


def velocities(g, f, kind):
    """C05: the section velocities recovered from relative speed, inflow angle and induction factors"""
    A = Analysis(g, kind=kind)
    nt = False
    L = A.L
    for i in range(A.n):
        if not A.solved[i] or abs(L["a"][i]) > 9 or abs(L["ap"][i]) > 9 or abs(1 - L["a"][i]) < 1e-2 or abs(1 + L["ap"][i]) < 1e-2:
            continue
        e = "section %d %s" % (i, A.ex)
        try:
            if abs(A.coefficients(i)[0]) > 1e-7 or A.placeholder(i):
                f.true("speed from the specified velocities", close(L["W"][i], math.hypot(A.Vx[i] * (1 - L["a"][i]), A.Vy[i] * (1 + L["ap"][i])), 1e-8, 1e-8), e)
                continue
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        W, phi = L["W"][i], A.phi[i]
        vx, vy = W * math.sin(phi) / (1 - L["a"][i]), W * math.cos(phi) / (1 + L["ap"][i])
        sg = 1 if vx * A.Vx[i] + vy * A.Vy[i] > 0 else -1
        sc = math.hypot(A.Vx[i], A.Vy[i])
        f.eq("axial velocity", sg * vx, A.Vx[i], 1e-4, 1e-4 * sc, e)
        f.eq("tangential velocity", sg * vy, A.Vy[i], 1e-4, 1e-4 * sc, e)
        f.eq("relative speed", W, math.hypot(A.Vx[i] * (1 - L["a"][i]), A.Vy[i] * (1 + L["ap"][i])), 1e-8, 1e-8, e)
        nt = True
    return nt, f, dict(conditions=[A.U, A.Om, A.pitch, A.az], W=L["W"].tolist())


def integrals(g, f, kind):
    """C07 through evaluate: the loads of the distributed analysis at the averaged azimuths, integrated by the specification"""
    n = int(g.choice([2, 3, 5, 8]))
    d = rotor(g, n, axisym=bool(g.rand() < .6), at_ends=g.rand() < .3)
    af = gradients.airfoils(g, n)
    U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
    if g.rand() < .15:
        Om = 0.0
    axi = d["tilt"] == 0 and d["yaw"] == 0 and d["shearExp"] == 0
    ns = 1 if axi else max(4, d["nSector"])
    ex = "conditions=%r rotor=%r" % ([U, Om, pitch], text(d))
    r, pc, ps, pct, pst = effective(d)
    (o, _), w1, _ = quiet(lambda: build(d, af).evaluate([U], [Om], [pitch]))
    tot, mag = np.zeros(7), 0.0
    for s in range(ns):
        psi = 2 * math.pi * s / ns
        (L, _), _, _ = quiet(lambda: build(d, af).distributedAeroLoads(U, Om, pitch, math.degrees(psi)))
        t = np.array(thrust(L["Np"], L["Tp"], r, pc, ps, math.radians(d["precone"]), d["Rhub"], d["Rtip"], pct, pst))
        mag = max(mag, np.abs(t).max())
        ca, sa = math.cos(psi), math.sin(psi)
        tot += d["B"] * np.array([t[0], t[1] * ca - t[2] * sa, t[2] * ca + t[1] * sa, t[3], t[4] * ca, t[4] * sa, t[4] / d["B"]]) / ns
    for k, v in zip(("T", "Y", "Z", "Q", "My", "Mz", "Mb"), tot):
        f.eq("integrated load " + k, o[k][0], v, 1e-8, 1e-9 * mag, ex)
    return True, f, dict(T=o["T"].tolist())
