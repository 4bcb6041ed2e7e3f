from common import *
import io
import contextlib
RULE = ("random rotors and conditions (also low and reversed wind), all flags, one and two Reynolds number iterations; wanted angles of attack per section and the lift and drag of the section's "
        "airfoil at that angle; twist, reported angle, root of the specified residual with the wanted coefficients inside the prescribed interval, and a direct analysis with the twist found; "
        "non-trivial when a section is solved")
BUDGET = {"quick": 90, "thorough": 1500}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"normal": 400 * k, "unusual": 300 * k, "parked": 40 * k, "inconsistent": 100 * k, "repeat": 100 * k})


def analyse(R, c):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        L, _ = R.distributedAeroLoads(*c)
    return L, any("check input" in str(x.message) for x in w)


def check(case):
    g = rng_of(case)
    f = Fails()
    n = int(g.choice([2, 3, 4, 6]))
    d = rotor(g, n)
    kind = case["kind"]
    d["iterRe"] = int(g.choice([1, 1, 2]))
    af = [smooth_af(g, re=False) for _ in range(n)]
    U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
    if kind == "unusual":
        U *= g.choice([0.1, 3, -1])
        pitch = g.uniform(-40, 60)
        d["chord"] *= g.choice([1, 4])
    if kind == "parked":
        Om = 0.0
    az = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
    want = np.radians(g.uniform(-2, 14, n))
    cc = [af[i].evaluate(want[i], 1e6) for i in range(n)]
    cl, cd = np.array([v[0] for v in cc]), np.array([v[1] for v in cc])
    if kind == "inconsistent":
        cl, cd = cl * g.uniform(.7, 1.3, n), cd * g.uniform(.7, 1.3, n)
    c = (U, Om, pitch, az)
    ex = "conditions=%r alpha=%r cl=%r cd=%r rotor=%r" % (c, want.tolist(), cl.tolist(), cd.tolist(), {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    R = build(d, af)
    R.inverse_analysis = True
    R.alpha, R.cl, R.cd = want.copy(), cl.copy(), cd.copy()
    L, warned = analyse(R, c)
    th = np.array(R.theta, float)
    f.true("wanted values unchanged", (R.alpha == want).all() and (R.cl == cl).all() and (R.cd == cd).all(), ex)
    f.true("one twist per section", th.shape == (n,), ex)
    p = math.radians(pitch)
    r, pc, ps, pct, pst = effective(d)
    Vx, Vy = wind(r, pc, ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(az), U, Om, d["hubHt"], d["shearExp"])
    nt, solved = False, True
    for i in range(n):
        e = "section %d %s" % (i, ex)
        phi = th[i] + want[i] + p
        if Om == 0:
            f.eq("parked inflow angle", phi, math.pi / 2, 1e-12, 1e-12, e)
            f.eq("section operates at the wanted angle of attack", math.radians(L["alpha"][i]), want[i], 1e-9, 1e-10, e)
            nt = True
            continue

        def res(x):
            try:
                return residual(d, af[i], i, x, Vx[i], Vy[i], p, r[i], 0.0, clcd=(cl[i], cd[i]))[0]
            except (ZeroDivisionError, ValueError, OverflowError):
                return float("nan")
        eps = 1e-6
        lo, hi = eps, math.pi / 2
        A, Bv, C, D_ = res(lo), res(hi), res(-math.pi / 4), res(-eps)
        if not all(math.isfinite(v) for v in (A, Bv)) or any(abs(v) < 1e-9 * (1 + abs(Vx[i] / Vy[i])) for v in (A, Bv, C, D_)):
            solved = False
            continue
        if A * Bv > 0:
            if C < 0 and D_ > 0:
                lo, hi = -math.pi / 4, -eps
            else:
                lo, hi = math.pi / 2, math.pi - eps
        E, G = res(lo), res(hi)
        if not (math.isfinite(E) and math.isfinite(G)) or E * G > 0:
            solved = False
            continue
        f.true("root inside its interval", lo - 1e-9 <= phi <= hi + 1e-9, "phi=%r interval [%r, %r] %s" % (phi, lo, hi, e))
        h = 2e-9
        v, v1, v2 = res(phi), res(phi - h), res(phi + h)
        okr = abs(v) < 1e-9 * (1 + abs(Vx[i] / Vy[i]) + abs(E) * 1e-6) or not (math.isfinite(v1) and math.isfinite(v2)) or v1 * v2 <= 0
        f.true("inflow angle is a root of the residual with the wanted coefficients", okr, "phi=%r residual %r (%r, %r) %s" % (phi, v, v1, v2, e))
        if L["Np"][i] == 0.0 and L["alpha"][i] == 0.0:
            continue
        f.eq("section operates at the wanted angle of attack", math.radians(L["alpha"][i]), want[i], 1e-9, 1e-10, e)
        if kind != "inconsistent":
            f.eq("section operates at the wanted coefficients", [L["Cl"][i], L["Cd"][i]], [cl[i], cd[i]], 1e-8, 1e-9, e)
            try:
                a, ap = residual(d, af[i], i, phi, Vx[i], Vy[i], p, r[i], 0.0, clcd=(cl[i], cd[i]))[1:3]
                if abs(a) < 50 and abs(ap) < 50:
                    f.eq("induction of the wanted coefficients", [L["a"][i], L["ap"][i]], [a, ap], 1e-6, 1e-6, e)
            except (ZeroDivisionError, ValueError):
                pass
        nt = True
    if kind == "repeat":
        c2 = (U * 1.3, Om * 1.1, pitch + 3, az + 40)
        analyse(R, c2)
        L3, _ = analyse(R, c)
        f.eq("repeated inverse analysis", R.theta, th, 0, 0, ex)
        for k in L:
            f.eq("repeated inverse analysis", L3[k], L[k], 0, 0, "%s %s" % (k, ex))
    if kind == "normal" and solved and not warned and nt and Om != 0:
        # the twist found, in a direct analysis: the same section is operating there, when that is the root found
        d2 = dict(d, theta=np.degrees(th))
        D, w2 = analyse(build(d2, af), c)
        same = not w2
        for i in range(n):
            phi = th[i] + want[i] + p

            def rd(x):
                try:
                    return residual(d, af[i], i, x, Vx[i], Vy[i], p, r[i], th[i])[0]
                except (ZeroDivisionError, ValueError, OverflowError):
                    return float("nan")
            xs = np.linspace(1e-6, math.pi / 2, 400)
            v = np.array([rd(x) for x in xs])
            one = np.isfinite(v).all() and (np.sign(v[1:]) != np.sign(v[:-1])).sum() == 1 and 1e-6 < phi < math.pi / 2
            if not one:
                continue
            k = int(np.argmax(np.sign(v[1:]) != np.sign(v[:-1])))
            if not (xs[k] - 1e-9 <= phi <= xs[k + 1] + 1e-9):
                f.append(dict(obligation="direct analysis with the twist found", msg="the wanted inflow angle %r is not a root of the direct residual (%r, %r) section %d %s" % (phi, xs[k], xs[k + 1], i, ex)))
                continue
            for key in L:
                f.eq("direct analysis with the twist found", D[key][i], L[key][i], 1e-6, 1e-6 * (1 + abs(L[key][i])), "%s section %d %s" % (key, i, ex))
    return nt, f, dict(conditions=c, theta=np.degrees(th).tolist())
