from common import *
RULE = ("random airfoils of 0..5 Reynolds numbers on uniform and random angle grids of 3..100 points, angles inside and beyond the data, Reynolds numbers inside and beyond the stored ones; non-trivial when the differences converge; "
        "oracle: differences of the returned lift and drag, and exhaustive comparison over the scanned range")
ASSUMPTIONS = ["three or more angles of attack", "data that FITPACK can smooth within its iteration limit", "the smoothing spline of scipy (FITPACK) evaluates the spline it fitted"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"slope": 500 * k, "lookup": 150 * k, "file": 20 * k})


def gen(g, m=None, na=None):
    m = int(g.choice([0, 1, 2, 2, 3, 4, 5])) if m is None else m
    na = na or int(g.choice([3, 4, 5, 20, 40, 70]))
    full = g.rand() < .7
    lo, hi = (-180.0, 180.0) if full else (-g.uniform(30, 150), g.uniform(50, 150))
    a = np.linspace(lo, hi, na) if g.rand() < .6 else np.sort(np.r_[lo, hi, np.linspace(lo, hi, na)[1:-1] + g.uniform(-.3, .3, na - 2) * (hi - lo) / na])
    Re = np.round(10 ** g.uniform(4.5, 5.5) * np.cumprod(g.uniform(1.5, 5, max(m, 1))))[:m]
    ar = np.deg2rad(a)[:, None]
    R = np.log10(Re)[None, :] if m else np.full((1, 1), 6.0)
    k, c = g.uniform(.8, 1.6), g.uniform(-.3, .3)
    cl = k * np.sin(2 * ar + .1) * (1 + c * (R - 5)) + .5 * np.exp(-((ar - .15) / .12) ** 2) * (1 + .1 * R)
    cd = .01 + g.uniform(.8, 1.5) * np.sin(ar) ** 2 * (1 - .05 * (R - 5)) + .02 * (1 + c * (7 - R))
    cm = -.1 * np.sin(ar) * (1 + .1 * c * R)
    return a, Re, cl, cd, cm


def check(case):
    from ccblade.ccblade import CCAirfoil
    g = rng_of(case)
    f = Fails()
    k = case["kind"]
    a, Re, cl, cd, cm = gen(g, na=None if k == "slope" else int(g.choice([40, 70, 100] if k == "file" else [3, 4, 5, 7, 9, 12, 40, 70, 100])))
    if k == "lookup" and g.rand() < .5:      # cambered the other way, or the scan's largest ratio in magnitude negative
        cl = -cl if g.rand() < .5 else cl - g.uniform(.2, 1.2)
    keep = [x.copy() for x in (a, Re, cl, cd, cm)]
    usecm = bool(g.rand() < .5)
    ex = "alpha=%s Re=%r" % (np.array2string(a, threshold=8), Re.tolist())
    if k == "file":
        import os
        import tempfile
        from ccblade.airfoilprep import Airfoil, Polar
        if not len(Re):
            raise Skip
        fd, path = tempfile.mkstemp(dir=SCRATCH[0])
        os.close(fd)
        Airfoil([Polar(Re[j], a, cl[:, j], cd[:, j], cm[:, j]) for j in range(len(Re))]).writeToAerodynFile(path)
        A = CCAirfoil.initFromAerodynFile(path)
        os.unlink(path)
        r6 = lambda x: np.round(x, 6)
        Bf = CCAirfoil(r6(a), np.round(Re / 1e6, 6) * 1e6, r6(cl), r6(cd), cm=r6(cm))
        for _ in range(10):
            x, R = np.deg2rad(g.uniform(-170, 170)), 10 ** g.uniform(4, 7)
            f.eq("initFromAerodynFile post", np.ravel(A.evaluate(x, R, return_cm=True)), np.ravel(Bf.evaluate(x, R, return_cm=True)), 1e-3, 1e-3, ex)
        return True, f, dict(call=ex)
    from scipy.interpolate import RectBivariateSpline as RBS
    two = lambda M: np.c_[M, M] if len(Re) < 2 else M
    try:      # the data can be smoothed at all (FITPACK limits its iterations)
        for M, s in ((cl, .1), (cd, .001), (cm, .0001)):
            RBS(np.deg2rad(a), [10., 1e15] if len(Re) < 2 else Re, two(M), kx=min(len(a) - 1, 3), ky=min(max(len(Re), 2) - 1, 3), s=s)
    except ValueError:
        raise Skip
    A = CCAirfoil(a, Re, cl, cd, cm=cm) if usecm else CCAirfoil(a, Re, cl, cd)
    f.true("constructor frame", all(np.array_equal(x, y) for x, y in zip(keep, (a, Re, cl, cd, cm))), ex)
    ev = lambda x, R: np.array([float(np.ravel(v)[0]) for v in A.evaluate(x, R)])
    one = len(Re) < 2
    Rg = list(Re) if not one else [1e6]
    # the lookups reproduce the data to the documented small smoothing
    V = np.array([[ev(np.deg2rad(x), R) for R in Rg] for x in a])
    f.true("lift within the smoothing", np.sum((V[:, :, 0] - cl[:, :len(Rg)]) ** 2) <= .1 * 1.02 + 1e-9, "sum of squares %r %s" % (np.sum((V[:, :, 0] - cl) ** 2), ex))
    f.true("drag within the smoothing", np.sum((V[:, :, 1] - cd[:, :len(Rg)]) ** 2) <= .001 * 1.02 + 1e-9, "sum of squares %r %s" % (np.sum((V[:, :, 1] - cd) ** 2), ex))
    if usecm:
        C = np.array([[float(A.evaluate(np.deg2rad(x), R, return_cm=True)[2]) for R in Rg] for x in a])
        f.true("moment within the smoothing", np.sum((C - cm[:, :len(Rg)]) ** 2) <= .0001 * 1.02 + 1e-9, ex)
    f.true("number of coefficients", len(A.evaluate(.1, 1e6)) == 2 and len(A.evaluate(.1, 1e6, return_cm=True)) == (3 if usecm else 2), ex)
    if k == "slope":
        nt = False
        lo, hi = np.deg2rad(a[0]), np.deg2rad(a[-1])
        for _ in range(6):
            x = float(g.choice([g.uniform(lo, hi), g.uniform(-.3, .4), g.uniform(lo, hi), lo - g.uniform(.05, .5), hi + g.uniform(.05, .5)]))
            R = float(g.choice([10 ** g.uniform(np.log10(Rg[0]), np.log10(Rg[-1])), 10 ** g.uniform(4, 8), Rg[0] * g.uniform(.1, .8), Rg[-1] * g.uniform(1.2, 5)]))
            d = np.array([float(np.ravel(v)[0]) for v in A.derivatives(x, R)])
            e2 = ex + " at alpha=%r Re=%r" % (x, R)
            for nm, axis, ia, h in (("alpha", 0, (0, 2), 2e-4), ("Re", 1, (1, 3), R * 2e-3)):
                fn = (lambda t: ev(t, R)) if axis == 0 else (lambda t: ev(x, t))
                c = x if axis == 0 else R
                D = lambda h: (8 * (fn(c + h) - fn(c - h)) - (fn(c + 2 * h) - fn(c - 2 * h))) / 12 / h
                d1, d2, d3 = D(h), D(h / 2), D(h / 4)
                sc = 1e-12 * (1 + np.abs(fn(c))) / h * 4
                for q in range(2):
                    err = abs(d1[q] - d2[q]) + abs(d2[q] - d3[q])
                    if err > 1e-3 * abs(d3[q]) + sc[q] * 10:
                        continue        # a knot nearby
                    nt = True
                    f.true("slope of %s with respect to %s" % (("lift", "drag")[q], nm), abs(d[ia[q]] - d3[q]) <= 10 * err + sc[q] + 1e-6 * abs(d3[q]), "reported %r, differences %r (+-%r) %s" % (d[ia[q]], d3[q], err, e2))
            if one:
                f.true("no slope with one Reynolds number", d[1] == 0 and d[3] == 0, "%r %s" % (d, e2))
                f.eq("no dependence with one Reynolds number", ev(x, R), ev(x, 1e6), 1e-9, 1e-10, e2)
        return nt, f, dict(call=ex)
    R = float(10 ** g.uniform(4.5, 7.5))
    grid = np.deg2rad(np.linspace(-20, 40, 201))
    v = np.array([ev(x, R) for x in grid])
    E = v[:, 0] / v[:, 1]
    ex += " at Re=%r" % R
    if np.min(np.abs(v[:, 1])) < 1e-4:
        raise Skip
    s0, s1 = (min(range(len(a)), key=lambda q: (abs(np.deg2rad(a[q]) - np.deg2rad(e)), q)) for e in (-20.0, 40.0))
    if min(abs(np.diff(np.sort(np.abs(a - e)))[0]) for e in (-20.0, 40.0)) < 1e-6:
        raise Skip          # two rows at the same distance
    if s0 >= s1:
        mg = float(g.uniform(-5, 8))
        for nm, r in (("max_eff", A.max_eff(R)), ("awayfromstall", A.awayfromstall(R, mg))):
            r = [float(np.ravel(t)[0]) for t in r]
            c = ev(0.0, R)
            f.eq(nm + " of a table with one row near both ends of the scan", r, [c[0] / c[1], 0.0, c[0], c[1]], 1e-9, 1e-11, ex)
        return True, f, dict(call=ex)
    Em, al, c1, c2 = [float(np.ravel(t)[0]) for t in A.max_eff(R)]
    f.true("max_eff angle in the scanned range", grid[0] - 1e-9 <= al <= grid[-1] + 1e-9, "%r %s" % (al, ex))
    f.eq("max_eff coefficients at that angle", [c1, c2], ev(al, R), 1e-9, 1e-11, ex)
    f.eq("max_eff ratio", Em, c1 / c2, 1e-9, 1e-11, ex)
    f.true("max_eff largest", Em >= E.max() - 1e-9 * abs(E.max()), "%r < %r %s" % (Em, E.max(), ex))
    mg = float(g.choice([0.0, g.uniform(0, 8), g.uniform(0, 8), g.uniform(8, 50), g.uniform(-5, 0)]))
    Eo, ao, c1, c2 = [float(np.ravel(t)[0]) for t in A.awayfromstall(R, mg)]
    st = ao + np.deg2rad(mg)
    f.true("awayfromstall angle", grid[0] - 1e-9 <= st <= grid[-1] + 1e-9 and ev(st, R)[0] >= v[:, 0].max() - 1e-9, "angle %r margin %r lift there %r, largest %r %s" % (ao, mg, ev(st, R)[0], v[:, 0].max(), ex))
    f.eq("awayfromstall coefficients at that angle", [c1, c2], ev(ao, R), 1e-9, 1e-11, ex)
    f.eq("awayfromstall ratio", Eo, c1 / c2, 1e-9, 1e-11, ex)
    return True, f, dict(call=ex)
