"""Independent specification of the rotor analysis (numpy, written from the
documentation and the theory), and generators of rotors and conditions."""
import math
import warnings
import numpy as np

warnings.simplefilter("ignore")
SCRATCH = [None]


class Skip(Exception):
    """the case does not meet the precondition"""


class Broken(Exception):
    """the code under test gave something that cannot be used"""


def rng_of(case):
    s = 0
    for ch in "%s/%s" % (case["kind"], case["seed"]):
        s = (s * 131 + ord(ch)) % (2 ** 32 - 5)
    return np.random.RandomState(s)


def seeds(seed, counts, mult=4):
    """cases: `counts` = {kind: number}"""
    for kind, n in counts.items():
        for k in range(n * mult):
            yield {"kind": kind, "seed": int(seed) * 100000 + k}


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b)))


class Fails(list):
    def eq(self, name, got, want, rtol=1e-9, atol=1e-12, extra=""):
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.append(dict(obligation=name, msg="shape %s, specified %s %s" % (g.shape, w.shape, extra)))
            return False
        if not close(g, w, rtol, atol) and not (w.dtype.kind == "f" and g.dtype.kind == "f" and np.isnan(w).any()
                                                and close(np.where(np.isnan(w), 0, g), np.where(np.isnan(w), 0, w), rtol, atol) and not np.isfinite(g[np.isnan(w)]).any()):
            # (where the specification is undefined any undefined value will do)
            self.append(dict(obligation=name, msg="got %s, specified %s %s" % (np.array2string(np.asarray(g, float), precision=12, threshold=60),
                                                                        np.array2string(np.asarray(w, float), precision=12, threshold=60), extra)))
            return False
        return True

    def true(self, name, cond, msg=""):
        if not bool(cond):
            self.append(dict(obligation=name, msg=str(msg)))
            return False
        return True


# ------------------------------------------------------------ section model
def loss(r, Rhub, Rtip, phi, B, hub, tip):
    s = abs(math.sin(phi))
    F = 1.0
    if tip:
        F *= 2.0 / math.pi * math.acos(math.exp(-B / 2.0 * (Rtip - r) / (r * s)))
    if hub:
        F *= 2.0 / math.pi * math.acos(math.exp(-B / 2.0 * (r - Rhub) / (Rhub * s)))
    return F


def induction(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, usecd, hubloss, tiploss, wakerotation):
    s, c = math.sin(phi), math.cos(phi)
    sig = B * chord / (2 * math.pi * r)
    d = cd if usecd else 0.0
    cn, ct = cl * c + d * s, cl * s - d * c
    F = loss(r, Rhub, Rtip, phi, B, hubloss, tiploss)
    k = sig * cn / (4 * F * s * s)
    kp = sig * ct / (4 * F * s * c)
    if phi > 0:
        if k <= 2.0 / 3:
            a = k / (1 + k)
        else:
            g2 = 2 * F * k - (4.0 / 3 - F) * F
            # root of 8/9 + (4F-40/9)a + (50/9-4F)a^2 = 4Fk(1-a)^2
            a = 1 - 1 / (math.sqrt(g2) + 5.0 / 3 - F)
    else:
        a = k / (k - 1) if k > 1 else 0.0
    if not wakerotation:
        kp = 0.0
        ap = 0.0
    else:
        ap = kp / (1 - kp)
    if phi > 0:
        f = s / (1 - a) - c * Vx / Vy * (1 - kp)
    else:
        f = s * (1 - k) - c * Vx / Vy * (1 - kp)
    return f, a, ap, k, kp, F


def relwind(phi, a, ap, Vx, Vy, pitch, chord, theta, rho, mu):
    alpha = phi - theta - pitch
    if abs(a) > 10:
        W = Vy * (1 + ap) / math.cos(phi)
    elif abs(ap) > 10:
        W = Vx * (1 - a) / math.sin(phi)
    else:
        W = math.hypot(Vx * (1 - a), Vy * (1 + ap))
    return alpha, W, rho * W * chord / mu


def curvature(r, precurve, presweep, precone):
    n = len(r)
    cp, sp = math.cos(precone), math.sin(precone)
    x = [-r[i] * sp + precurve[i] * cp for i in range(n)]
    z = [r[i] * cp + precurve[i] * sp for i in range(n)]
    y = [presweep[i] for i in range(n)]
    seg = [math.atan2(-(x[i + 1] - x[i]), z[i + 1] - z[i]) for i in range(n - 1)]
    if n == 1:
        cone = [precone]
    else:
        cone = [seg[0]] + [0.5 * (seg[i - 1] + seg[i]) for i in range(1, n - 1)] + [seg[-1]]
    s = [0.0]
    for i in range(1, n):
        s.append(s[-1] + math.sqrt((precurve[i] - precurve[i - 1]) ** 2 + (presweep[i] - presweep[i - 1]) ** 2 + (r[i] - r[i - 1]) ** 2))
    return np.array(x), np.array(y), np.array(z), np.array(cone), np.array(s)


def rot(axis, ang):
    c, s = math.cos(ang), math.sin(ang)
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    if axis == "y":
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def wind(r, precurve, presweep, precone, yaw, tilt, azimuth, Uinf, OmegaRPM, hubHt, shearExp):
    """velocities from the frames of the documentation, by matrices:
    wind -yaw(z)-> yaw -tilt(y)-> hub -azimuth(x)-> azimuth -(-cone)(y)-> blade"""
    n = len(r)
    x, y, z, cone, s = curvature(r, precurve, presweep, precone)
    U = np.broadcast_to(np.asarray(Uinf, float), (n,))
    Om = OmegaRPM * math.pi / 30.0
    # columns: components in the new frame = R^T (components in the old)
    Rw = rot("x", azimuth).T @ rot("y", tilt).T @ rot("z", yaw).T
    Vx, Vy = np.zeros(n), np.zeros(n)
    for i in range(n):
        # height above ground of the section: position from azimuth frame into the tilted frame
        ph = rot("y", tilt) @ rot("x", azimuth) @ np.array([x[i], y[i], z[i]])
        h = hubHt + ph[2]
        V = U[i] * (h / hubHt) ** shearExp
        va = Rw @ np.array([V, 0, 0])
        vrot = np.cross(np.array([-Om, 0, 0]), np.array([x[i], y[i], z[i]]))  # motion of the air seen by the blade
        tot = va + vrot
        vb = rot("y", -cone[i]).T @ tot
        Vx[i], Vy[i] = vb[0], vb[1]
    return Vx, Vy


def thrust(Np, Tp, r, precurve, presweep, precone, Rhub, Rtip, precurveTip, presweepTip):
    rf = np.r_[Rhub, r, Rtip]
    cf = np.r_[0.0, precurve, precurveTip]
    sf = np.r_[0.0, presweep, presweepTip]
    N = np.r_[0.0, Np, 0.0]
    T = np.r_[0.0, Tp, 0.0]
    x, y, z, cone, s = curvature(rf, cf, sf, precone)

    def trapz(f):
        return sum(0.5 * (f[i] + f[i + 1]) * (s[i + 1] - s[i]) for i in range(len(s) - 1))
    return trapz(N * np.cos(cone)), trapz(T), trapz(N * np.sin(cone)), trapz(T * z), trapz(N * z)


# ----------------------------------------------------------------- airfoils
class SmoothAF:
    """smooth airfoil with exact derivatives, valid from -180 to 180 degrees"""

    def __init__(self, p):
        self.p = [float(v) for v in p]
        self.calls = 0

    def evaluate(self, alpha, Re, return_cm=False):
        c0, c1, d0, d1, cr = self.p
        cl = c0 * math.sin(2 * (alpha + c1)) * (1 + cr * math.log(max(Re, 1.0)) / 20)
        cd = d0 + d1 * math.sin(alpha) ** 2 * (1 - 0.3 * cr * math.log(max(Re, 1.0)) / 20)
        return cl, cd

    def derivatives(self, alpha, Re):
        c0, c1, d0, d1, cr = self.p
        lf = cr * math.log(max(Re, 1.0)) / 20
        dl = cr / 20 / Re if Re > 1 else 0.0
        return (2 * c0 * math.cos(2 * (alpha + c1)) * (1 + lf), c0 * math.sin(2 * (alpha + c1)) * dl,
                d1 * 2 * math.sin(alpha) * math.cos(alpha) * (1 - 0.3 * lf), -d1 * math.sin(alpha) ** 2 * 0.3 * dl)


def smooth_af(g, re=True):
    return SmoothAF([g.uniform(0.8, 1.5), g.uniform(0.02, 0.12), g.uniform(0.006, 0.02), g.uniform(0.8, 1.6), g.uniform(0, 0.5) if re else 0.0])


def polar_data(g, cm=True):
    a = np.r_[np.arange(-180, -30, 10.0), np.arange(-30, 30, 2.0), np.arange(30, 181, 10.0)]
    ar = np.deg2rad(a)
    k, a0 = g.uniform(0.8, 1.3), g.uniform(0.01, 0.08)
    cl = k * np.sin(2 * (ar + a0)) + 0.4 * np.exp(-((a - 8) / 7.0) ** 2) * g.uniform(0.5, 1.5)
    cd = g.uniform(0.006, 0.015) + g.uniform(0.9, 1.4) * np.sin(ar) ** 2
    m = -0.1 * np.sin(ar) * g.uniform(0.5, 1.5)
    return a, cl, cd, m


# ------------------------------------------------------------------- rotors
def rotor(g, n=None, curve=True, gradients=False, flags=None, axisym=False, at_ends=False):
    n = n or int(g.choice([2, 3, 4, 5, 7, 10]))
    Rhub = g.uniform(0.8, 3.0)
    Rtip = Rhub + g.uniform(8, 70)
    t = np.sort(g.uniform(0.04, 0.96, n))
    while n > 1 and np.min(np.diff(t)) < 0.3 / (n + 2) * 0.5:
        t = np.sort(g.uniform(0.04, 0.96, n))
    r = Rhub + (Rtip - Rhub) * t
    if at_ends:
        if g.rand() < 0.7:
            r[0] = Rhub
        if g.rand() < 0.7:
            r[-1] = Rtip
    chord = g.uniform(0.02, 0.09) * Rtip * (1.15 - (r / Rtip)) + 0.2
    theta = g.uniform(5, 16) * (1 - (r - Rhub) / (Rtip - Rhub)) + g.uniform(-2, 2)
    d = dict(r=r, chord=chord, theta=theta, Rhub=Rhub, Rtip=Rtip, B=int(g.choice([1, 2, 3, 3, 4])), rho=g.uniform(1.0, 1.3),
             mu=g.uniform(1.5e-5, 2e-5), precone=g.uniform(-6, 8), tilt=g.uniform(-8, 8), yaw=g.uniform(-20, 20),
             shearExp=g.uniform(0.05, 0.3), hubHt=Rtip * g.uniform(1.25, 1.8), nSector=int(g.choice([1, 2, 3, 4, 5, 6, 8])),
             precurve=None, precurveTip=0.0, presweep=None, presweepTip=0.0, tiploss=True, hubloss=True, wakerotation=True, usecd=True, iterRe=1)
    if curve:
        if g.rand() < 0.8:
            d["precurve"] = g.uniform(-0.05, 0.08) * Rtip * (r / Rtip) ** 2 + g.uniform(-0.1, 0.1, n)
            d["precurveTip"] = float(d["precurve"][-1] + g.uniform(-0.5, 0.6))
        if g.rand() < 0.8:
            d["presweep"] = g.uniform(-0.05, 0.05) * Rtip * (r / Rtip) ** 2 + g.uniform(-0.1, 0.1, n)
            d["presweepTip"] = float(d["presweep"][-1] + g.uniform(-0.5, 0.6))
    if flags is None:
        flags = [bool(g.rand() < 0.75) for _ in range(4)]
    d["tiploss"], d["hubloss"], d["wakerotation"], d["usecd"] = flags
    if g.rand() < 0.5:
        special_rotor(g, d, r)
    if axisym:
        d["tilt"] = d["yaw"] = d["shearExp"] = 0.0
    return d


def special_rotor(g, d, r):
    """values a designer uses and a uniform sample does not hit: exact zeros, unusual sizes, whole numbers"""
    n = len(r)
    for k, far in (("precone", 15.0), ("tilt", 20.0), ("yaw", 50.0)):
        u = g.rand()
        if u < 0.25:
            d[k] = 0.0
        elif u < 0.35:
            d[k] = float(g.choice([-1, 1])) * g.uniform(0.5, 1) * far
        elif u < 0.45:
            d[k] = float(np.round(d[k]))
    u = g.rand()
    if u < 0.25:
        d["shearExp"] = 0.0
    elif u < 0.35:
        d["shearExp"] = float(g.choice([1.0, 0.5, -0.15]))
    u = g.rand()
    if u < 0.15:
        d["hubHt"] = d["Rtip"] * g.uniform(3, 10)
    if d["precurve"] is not None and g.rand() < 0.2:
        d["precurveTip"] = 0.0
    if d["presweep"] is not None and g.rand() < 0.3:
        d["presweepTip"] = 0.0
    for k in ("precurve", "presweep"):
        if d[k] is not None and g.rand() < 0.15:
            d[k] = np.zeros(n)
            d[k + "Tip"] = float(g.choice([-0.3, 0.2, 0.7]))
        elif d[k] is not None and n > 2 and g.rand() < 0.15:
            d[k][: n // 2] = 0.0                                # straight inboard part
    if g.rand() < 0.15:
        d["theta"] = np.full(n, float(np.round(d["theta"][0])))
    if g.rand() < 0.15:
        d["chord"] = np.full(n, d["chord"][0])
    if g.rand() < 0.1:
        d["B"] = int(g.choice([1, 2, 5, 6]))
    if g.rand() < 0.15:
        d["nSector"] = int(g.choice([0, 4, 7, 12]))


def azimuth_of(g, d, deg=True):
    u = g.rand()
    if u < 0.2:
        v = float(g.choice([-270, -180, -90, -45, 0, 90, 180, 270, 360, 450]))
    elif u < 0.35:
        v = g.uniform(-360, 0)
    elif u < 0.42:
        v = g.uniform(360, 900)
    else:
        v = g.uniform(0, 360)
    return v if deg else math.radians(v)


def low_hub(g, d):
    """a hub lower than the blade is long, and an azimuth at which the blade is well above the ground"""
    d["hubHt"] = d["Rtip"] * g.uniform(0.3, 1.0)
    return float(g.uniform(-60, 60) + g.choice([0, 0, 360, -360]))


def build(d, af, **kw):
    import ccblade.ccblade as M
    k = {x: (v.copy() if isinstance(v, np.ndarray) else v) for x, v in d.items()}
    k.update(kw)
    pos = [k.pop(x) for x in ("r", "chord", "theta")]
    Rhub, Rtip = k.pop("Rhub"), k.pop("Rtip")
    return M.CCBlade(*pos, af, Rhub, Rtip, **k)


def conditions(g, d, m=1):
    Om = g.uniform(0.5, 9, m)
    U = g.uniform(4, 16, m)
    tsr = g.uniform(2.5, 10, m)
    rpm = tsr * U / d["Rtip"] * 30 / math.pi
    pitch = g.uniform(-3, 12, m)
    u = g.rand()
    if u < 0.1:
        pitch[g.randint(m)] = 0.0
    elif u < 0.2:
        U[g.randint(m)] = float(g.choice([5.0, 8.0, 10.0]))
    elif u < 0.3:
        rpm[g.randint(m)] *= -g.uniform(0.3, 1)
    elif u < 0.35 and m > 1:
        U[1], rpm[1], pitch[1] = U[0], rpm[0], pitch[0]
    elif u < 0.4:
        pitch[g.randint(m)] = g.uniform(12, 90)
    return U, rpm, pitch


def effective(d):
    """section positions as moved inward by the constructor, from the property:
    only those that coincide, towards the neighbour"""
    r = np.array(d["r"], float)
    n = len(r)
    pc = np.zeros(n) if d["precurve"] is None else np.array(d["precurve"], float)
    ps = np.zeros(n) if d["presweep"] is None else np.array(d["presweep"], float)
    pct = 0.0 if d["precurve"] is None else d["precurveTip"]
    pst = 0.0 if d["presweep"] is None else d["presweepTip"]
    r0 = r.copy()
    if n > 1:
        t = (r0 - r0[0]) / (r0[-1] - r0[0])
        lo, hi = min(0.01, t[:2].mean()), max(0.99, t[-2:].mean())
        if d["Rhub"] == r0[0]:
            r[0] = np.interp(lo, t, r0)
        if d["Rtip"] == r0[-1]:
            r[-1] = np.interp(hi, t, r0)
        if pct == pc[-1]:
            pc = np.r_[pc[:-1], np.interp(hi, t, pc)]
        if pst == ps[-1]:
            ps = np.r_[ps[:-1], np.interp(hi, t, ps)]
    return r, pc, ps, pct, pst


def flags_of(d):
    return dict(usecd=d["usecd"], hubloss=d["hubloss"], tiploss=d["tiploss"], wakerotation=d["wakerotation"])


def residual(d, af, i, phi, Vx, Vy, pitch, r, theta, clcd=None):
    """residual of section i at inflow angle phi, from the specification"""
    a = ap = 0.0
    for _ in range(max(1, d["iterRe"])):
        if clcd is None:
            al, W, Re = relwind(phi, a, ap, Vx, Vy, pitch, d["chord"][i], theta, d["rho"], d["mu"])
            cl, cd = af.evaluate(al, Re)
            cl, cd = float(cl), float(cd)
        else:
            cl, cd = clcd
        f, a, ap, k, kp, F = induction(r, d["chord"][i], d["Rhub"], d["Rtip"], phi, cl, cd, d["B"], Vx, Vy, **flags_of(d))
    return f, a, ap, cl, cd
