from afp import *
RULE = ("random polars with at least three points in the linear range, radius 0.05..1, chord ratio 0.02..0.6, tip speed ratio 0.3..12, varied taper angle and linear range; non-trivial when the correction changes the lift; "
        "oracle: Du and Selig's factors re-derived here")
ASSUMPTIONS = ["at least two distinct angles of attack inside the linear range, a nonzero fitted lift slope"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"polar": 900 * k, "airfoil": 150 * k})


def spec(d, rR, cr, tsr, amax=30.0, lo=-5.0, hi=5.0):
    a = np.deg2rad(d["alpha"])
    idx = (a >= math.radians(lo)) & (a <= math.radians(hi))
    x, y = a[idx], d["cl"][idx]
    m = np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
    b = y.mean() - m * x.mean()
    if abs(m) < 1e-2:
        raise Skip
    lam = tsr / math.sqrt(1 + tsr ** 2)

    def fac(e):
        return (1.6 * cr / 0.1267 * (1 - cr ** e) / (1 + cr ** e) - 1) / m
    e = 1 / (lam * rR)
    fl, fd = fac(e), fac(e / 2)
    adj = np.array([1.0 if t <= math.radians(amax) else ((math.pi / 2 - t) / (math.pi / 2 - math.radians(amax))) ** 2 for t in a])
    cl = d["cl"] + fl * (m * a + b - d["cl"]) * adj
    cd = d["cd"] + fd * (d["cd"] - lerp(0.0, d["alpha"], d["cd"])[0])
    return dict(Re=d["Re"], alpha=d["alpha"], cl=cl, cd=cd, cm=d["cm"])


def check(case):
    from ccblade.airfoilprep import Airfoil
    g = rng_of(case)
    f = Fails()
    rR, cr, tsr = float(g.uniform(.05, 1)), float(g.uniform(.02, .6)), float(g.uniform(.3, 12))
    opt = {}
    if g.rand() < .5:
        opt = dict(alpha_max_corr=float(g.uniform(5, 60)), alpha_linear_min=float(-g.uniform(2, 9)), alpha_linear_max=float(g.uniform(2, 9)))
        if g.rand() < .3:       # a linear range that need not contain zero
            lo = float(g.uniform(-12, 6))
            opt.update(alpha_linear_min=lo, alpha_linear_max=lo + float(g.uniform(3, 9)))
    o = dict(amax=opt.get("alpha_max_corr", 30.0), lo=opt.get("alpha_linear_min", -5.0), hi=opt.get("alpha_linear_max", 5.0))

    def pol(Re):
        d = gen_polar(g, Re=Re, n=int(g.choice([20, 40, 60])), lo=float(-g.choice([10, 20, 40, 90, 180])), hi=float(g.choice([20, 40, 80, 90, 130, 180])))
        d["alpha"] = np.unique(np.r_[d["alpha"], o["lo"] + (o["hi"] - o["lo"]) * np.array([g.uniform(.1, .4), g.uniform(.6, .9)]), g.uniform(-1, 1)])
        s = len(d["alpha"])
        d["cl"] = g.uniform(.8, 1.3) * 2 * np.sin(2 * np.deg2rad(d["alpha"] + g.uniform(-2, 5))) + g.uniform(-.03, .03, s)
        d["cd"] = .01 + 1.3 * np.sin(np.deg2rad(d["alpha"])) ** 2 + g.uniform(0, .01, s)
        d["cm"] = g.uniform(-.1, .1, s)
        return d
    af = [pol(float(x)) for x in 1e5 * np.cumprod(g.uniform(1.2, 3, 1 if case["kind"] == "polar" else g.randint(1, 5)))]
    want = [spec(d, rR, cr, tsr, **o) for d in af]
    ex = "r/R=%r c/r=%r tsr=%r %r of %s" % (rR, cr, tsr, opt, " / ".join(map(show, af)))
    P = [mk(d) for d in af]
    if case["kind"] == "polar":
        R = [P[0].correction3D(rR, cr, tsr, **opt)]
        nm = "Polar.correction3D"
    else:
        A = Airfoil(P)
        R = A.correction3D(rR, cr, tsr, **opt).polars
        nm = "Airfoil.correction3D"
        f.true(nm + " number of polars", len(R) == len(af), ex)
    for r, w in zip(R, want):
        same(f, nm + " post", r, w, 1e-9, 1e-9, ex)
        f.eq(nm + " moment unchanged", r.cm, w["cm"], 0, 0, ex)
    for p, d in zip(P, af):
        same(f, nm + " frame", p, d, 0, 0, ex)
    return not np.allclose(want[0]["cl"], af[0]["cl"]), f, dict(call=ex[:200])
