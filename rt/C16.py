from afp import *
RULE = ("random polars with -90 < first angle, 0 < last angle < 90 degrees (symmetric, one-sided, grid-aligned ends), cdmax below and above the data, with and without aspect ratio, drag floors, 2..20 points per segment; "
        "non-trivial always; oracle: the Viterna equations re-derived here")
ASSUMPTIONS = ["-90 < alpha[0] < 0 or small positive, 0 < alpha[-1] < 90 degrees (the method documents that it cannot be used beyond 90), at least two points per segment"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"polar": 900 * k, "airfoil": 100 * k, "reject": 20})


def viterna(d, cdmax, AR):
    """lift and drag at angle x (deg) outside the data range, from the documentation"""
    hi, lo = math.radians(d["alpha"][-1]), math.radians(d["alpha"][0])
    clh, cdh = d["cl"][-1], d["cd"][-1]
    cm = max(np.max(d["cd"]), 1.11 + 0.018 * AR if AR is not None else cdmax)
    s, c = math.sin(hi), math.cos(hi)
    A = (clh - cm * s * c) * s / c ** 2
    B = (cdh - cm * s ** 2) / c
    adj = 0.7

    def V(a):
        a = max(a, 0.0001)
        return cm / 2 * math.sin(2 * a) + A * math.cos(a) ** 2 / math.sin(a), cm * math.sin(a) ** 2 + B * math.cos(a)
    pi = math.pi

    def at(x):
        if x > hi:
            if x <= pi / 2 + 1e-12:
                return V(x)
            if x <= pi - hi + 1e-12:
                l, dd = V(pi - x)
                return -adj * l, dd
            return (x - pi) / hi * clh * adj, V(pi - x)[1]
        if x >= -hi - 1e-12 and lo > -hi:
            return (-clh * adj + (x + hi) / (lo + hi) * (d["cl"][0] + clh * adj), d["cd"][0] + (x - lo) / (-hi - lo) * (cdh - d["cd"][0]))
        if x > -pi / 2 + 1e-12:
            l, dd = V(-x)
            return -adj * l, dd
        if x > -pi + hi + 1e-12:
            l, dd = V(x + pi)
            return adj * l, dd
        return (x + pi) / hi * clh * adj, V(x + pi)[1]
    return at, cm


def moments(d, al, clx, cdx):
    """AirfoilPrep moment extension on a ten-degree grid"""
    lo, hi = d["alpha"][0], d["alpha"][-1]
    if not np.any(d["cm"]):
        return np.zeros(len(al))
    cl, cm, a = d["cl"], d["cm"], d["alpha"]
    i = next((i for i in range(len(cm) - 1) if abs(a[i]) < 20 and cl[i] <= 0 <= cl[i + 1]), 0)
    p = -cl[i] / (cl[i + 1] - cl[i])
    cm0 = cm[i] + p * (cm[i + 1] - cm[i])
    h = math.radians(hi)
    XM = (cm0 - cm[-1]) / (cl[-1] * math.cos(h) + d["cd"][-1] * math.sin(h))
    coef = (XM - .25) / math.tan(h - math.pi / 2)
    ga = [x for x in np.arange(-180.0, 181, 10) if x < lo or x > hi]
    # the grid reaches from -180 to the floor of the first angle, from the ceiling of the last to 180
    ga = [x for x in ga if x <= math.floor(lo / 10) * 10 or x >= math.ceil(hi / 10) * 10]
    tab = {165.0: -.4, 170.0: -.5, 175.0: -.25, 180.0: 0, -165.0: .35, -170.0: .4, -175.0: .2, -180.0: 0}
    vals = []
    for x in ga:
        if x in tab:
            vals.append(tab[x])
            continue
        L, D = lerp(x, al, clx)[0], lerp(x, al, cdx)[0]
        t = math.radians(x)
        if abs(x) < 0.01:
            vals.append(cm0)
        elif x > 0:
            vals.append(cm0 - (coef * math.tan(t - math.pi / 2) + .25) * (L * math.cos(t) + D * math.sin(t)))
        else:
            vals.append(-(cm0 - (coef * math.tan(-t - math.pi / 2) + .25) * (-L * math.cos(t) + D * math.sin(-t))))
    A = np.r_[ga, a]
    M = np.r_[vals, cm]
    o = np.argsort(A, kind="stable")
    return lerp(al, A[o], M[o])


def verify(f, nm, r, d, cdmax, AR, cdmin, ex, n):
    at, cm = viterna(d, cdmax, AR)
    f.true(nm + " increasing", np.all(np.diff(r.alpha) > 0), "alpha %r %s" % (r.alpha.tolist(), ex))
    f.true(nm + " from -180 to 180", abs(r.alpha[0] + 180) < 1e-9 and abs(r.alpha[-1] - 180) < 1e-9, ex)
    f.true(nm + " equal lengths", len(r.alpha) == len(r.cl) == len(r.cd) == len(r.cm), ex)
    f.true(nm + " drag floor", np.all(r.cd >= cdmin), "min %r floor %r %s" % (np.min(r.cd), cdmin, ex))
    f.eq(nm + " Re", r.Re, d["Re"], 0, 0, ex)
    j = np.array([int(np.argmin(np.abs(r.alpha - x))) for x in d["alpha"]])
    f.eq(nm + " original angles", r.alpha[j], d["alpha"], 1e-12, 1e-12, ex)
    f.eq(nm + " original lift", r.cl[j], d["cl"], 0, 0, ex)
    f.eq(nm + " original drag", r.cd[j], np.maximum(d["cd"], cdmin), 0, 0, ex)
    f.eq(nm + " original moment", r.cm[j], d["cm"], 1e-9, 1e-9, ex)
    out = [i for i in range(len(r.alpha)) if r.alpha[i] < d["alpha"][0] - 1e-9 or r.alpha[i] > d["alpha"][-1] + 1e-9]
    inside = set(range(len(r.alpha))) - set(out)
    f.true(nm + " nothing added inside", len(inside) == len(d["alpha"]), ex)
    w = np.array([at(math.radians(r.alpha[i])) for i in out])
    f.eq(nm + " lift outside", r.cl[out], w[:, 0], 1e-8, 1e-9, "at %r %s" % (r.alpha[out].tolist(), ex))
    f.eq(nm + " drag outside", r.cd[out], np.maximum(w[:, 1], cdmin), 1e-8, 1e-9, "at %r %s" % (r.alpha[out].tolist(), ex))
    f.eq(nm + " moment outside", r.cm[out], moments(d, r.alpha, r.cl, r.cd)[out], 1e-7, 1e-8, "at %r %s" % (r.alpha[out].tolist(), ex))
    k90 = int(np.argmin(np.abs(r.alpha - 90)))
    f.eq(nm + " drag at 90 degrees", r.cd[k90], max(cm, cdmin), 1e-9, 1e-9, ex)
    f.true(nm + " maximum drag at least cdmax", np.max(r.cd) >= cm - 1e-9, ex)


def check(case):
    from ccblade.airfoilprep import Airfoil
    g = rng_of(case)
    f = Fails()
    hi = float(g.choice([g.uniform(6, 60), g.choice([10, 20, 30, 15, 25]), g.uniform(2, 89)]))
    lo = float(g.choice([-g.uniform(5, 40), -hi, -g.choice([10, 20, 30, 40]), -g.uniform(1, 85), -hi - g.uniform(.1, 10), g.uniform(-3, 1.5), -hi + g.uniform(0, .2)]))
    lo = max(lo, -89.0)
    cm = g.rand() < .7

    def pol(Re):
        d = gen_polar(g, Re=Re, lo=lo, hi=hi, cm=cm)
        if d["alpha"][-1] >= 89.5 or d["alpha"][0] <= -89.5 or d["alpha"][-1] < 1 or d["alpha"][0] >= d["alpha"][-1]:
            raise Skip
        if cm and d["cl"][0] == d["cl"][1]:
            raise Skip
        if g.rand() < .2:
            d["cd"] -= .01       # to reach the floor
        return d
    AR = None if g.rand() < .6 else float(g.uniform(5, 25))
    cdmax = float(g.uniform(.3, 2.2))
    cdmin = float(g.choice([0.0, 0.001, 0.001, 0.01, g.uniform(0, .05)]))
    if case["kind"] == "airfoil":
        af = [pol(float(x)) for x in 1e5 * np.cumprod(g.uniform(1.2, 3, g.randint(1, 4)))]
        A = Airfoil([mk(d) for d in af])
        ex = "cdmax=%r AR=%r cdmin=%r of %s" % (cdmax, AR, cdmin, " / ".join(map(show, af)))
        E = A.extrapolate(cdmax, AR, cdmin)
        for r, d, o in zip(E.polars, af, A.polars):
            verify(f, "Airfoil.extrapolate", r, d, cdmax, AR, cdmin, ex, 15)
            same(f, "Airfoil.extrapolate frame", o, d, 0, 0, ex)
        f.true("Airfoil.extrapolate number of polars", len(E.polars) == len(af), ex)
        return True, f, dict(call=ex[:200])
    d = pol(1e6)
    if case["kind"] == "reject":
        p = mk(d)
        for kw in (dict(cdmin=-0.1),):
            try:
                p.extrapolate(cdmax, **kw)
                f.append(dict(obligation="Polar.extrapolate rejects a negative floor", msg=show(d)))
            except Exception:
                pass
        return True, f, None
    n = int(g.choice([15, 15, 2, 3, 4, 20]))
    p = mk(d)
    ex = "cdmax=%r AR=%r cdmin=%r nalpha=%d of %s" % (cdmax, AR, cdmin, n, show(d))
    r = p.extrapolate(cdmax, AR=AR, cdmin=cdmin, nalpha=n) if g.rand() < .8 or n != 15 else p.extrapolate(cdmax, AR, cdmin)
    verify(f, "Polar.extrapolate", r, d, cdmax, AR, cdmin, ex, n)
    same(f, "Polar.extrapolate frame", p, d, 0, 0, ex)
    return True, f, dict(call=ex[:200], n=len(r.alpha))
