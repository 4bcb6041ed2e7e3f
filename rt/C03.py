from common import *
import gradients
RULE = ("random rotors and conditions (also low and reversed wind for the brake region, missing brackets, parked), all flags, analytic and spline airfoils, iterRe 1 and 2; the inflow angle is "
        "recovered from the reported angle of attack and must be a root of the specified residual inside the prescribed interval; non-trivial when a bracket exists")
BUDGET = {"quick": 90, "thorough": 1500}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"normal": 300 * k, "unusual": 500 * k, "parked": 60 * k, "independence": 80 * k})


def check(case):
    g = rng_of(case)
    f = Fails()
    n = int(g.choice([2, 3, 4, 6]))
    d = rotor(g, n)
    d["iterRe"] = int(g.choice([1, 1, 1, 2]))
    af = gradients.airfoils(g, n)
    U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
    kind = case["kind"]
    if kind == "unusual":
        U *= g.choice([0.02, 0.2, 1, 3, -1])
        pitch = g.uniform(-60, 90)
        Om *= g.choice([0.05, 1, 1, -1])
        d["chord"] *= g.choice([1, 3, 8])
    if kind == "parked":
        Om = 0.0
    az = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
    ex = "conditions=%r rotor=%r" % ([U, Om, pitch, az], {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    R = build(d, af)
    with warnings.catch_warnings(record=True) as wn:
        warnings.simplefilter("always")
        try:
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                L, _ = R.distributedAeroLoads(U, Om, pitch, az)
        except Exception as e:
            f.append(dict(obligation="a warning and not an exception", msg="%s: %s; %s" % (type(e).__name__, e, ex)))
            return True, f, None
    warned = any("check input" in str(x.message) for x in wn)
    r, pc, ps, pct, pst = effective(d)
    Vx, Vy = wind(r, pc, ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(az), U, Om, d["hubHt"], d["shearExp"])
    th = np.radians(d["theta"])
    p = math.radians(pitch)
    nt = False
    allok = True
    for i in range(n):
        if Vx[i] == 0 or Vy[i] == 0:
            continue
        phi = math.radians(L["alpha"][i]) + th[i] + p
        if Om == 0:
            f.eq("parked inflow angle", phi, math.pi / 2, 1e-12, 1e-12, ex)
            f.true("parked induction", L["a"][i] == 0 and L["ap"][i] == 0, "a=%r ap=%r %s" % (L["a"][i], L["ap"][i], ex))
            nt = True
            continue
        def res(x):
            try:
                return residual(d, af[i], i, x, Vx[i], Vy[i], p, r[i], th[i])[0]
            except (ZeroDivisionError, ValueError, OverflowError):
                return float("nan")
        e = 1e-6
        lo, hi = e, math.pi / 2
        A, Bv, C, D_ = res(lo), res(hi), res(-math.pi / 4), res(-e)
        if any(abs(v) < 1e-9 * (1 + abs(Vx[i] / Vy[i])) for v in (A, Bv, C, D_)):
            allok = False
            continue
        if A * Bv > 0:
            if C < 0 and D_ > 0:
                lo, hi = -math.pi / 4, -e
            else:
                lo, hi = math.pi / 2, math.pi - e
        E, G = res(lo), res(hi)
        if not (math.isfinite(E) and math.isfinite(G)):
            allok = False
            continue
        if E * G > 0:
            f.true("a section without a bracketed root raises a warning", warned, "section %d %s" % (i, ex))
            allok = False
            nt = True
            continue
        if L["Np"][i] == 0.0 and L["alpha"][i] == 0.0:
            allok = False
            f.append(dict(obligation="section with a bracket is solved", msg="section %d %s" % (i, ex)))
            continue
        f.true("root inside its interval", lo - 1e-9 <= phi <= hi + 1e-9, "section %d phi=%r interval [%r, %r] %s" % (i, phi, lo, hi, ex))
        h = 2e-9
        v, v1, v2 = res(phi), res(phi - h), res(phi + h)
        sc = 1e-9 * (1 + abs(Vx[i] / Vy[i]) + abs(E) * 1e-6)
        okr = abs(v) < sc or (math.isfinite(v1) and math.isfinite(v2) and v1 * v2 <= 0) or not (math.isfinite(v1) and math.isfinite(v2))
        f.true("inflow angle is a root of the residual", okr, "section %d phi=%r residual %r (%r, %r) %s" % (i, phi, v, v1, v2, ex))
        # induction reported is that of the same angle
        try:
            _, a, ap, cl, cd = residual(d, af[i], i, phi, Vx[i], Vy[i], p, r[i], th[i])
        except (ZeroDivisionError, ValueError):
            continue
        if math.isfinite(a) and abs(a) < 50 and abs(ap) < 50:
            c = 1e-6
            f.eq("reported axial induction", L["a"][i], a, c, c, "section %d phi=%r %s" % (i, phi, ex))
            f.eq("reported tangential induction", L["ap"][i], ap, c, c, "section %d phi=%r %s" % (i, phi, ex))
            f.eq("reported coefficients", [L["Cl"][i], L["Cd"][i]], [cl, cd], c, c, "section %d phi=%r %s" % (i, phi, ex))
        nt = True
    if allok and Om != 0:
        f.true("no warning when every section is solved", not warned, ex)
    if kind == "independence":
        j = g.randint(n)
        d2 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
        d2["chord"][j] *= 1.7
        d2["theta"][j] += 9.0
        af2 = list(af)
        af2[j] = smooth_af(g)
        R2 = build(d2, af2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            L2, _ = R2.distributedAeroLoads(U, Om, pitch, az)
        o = [i for i in range(n) if i != j]
        for k in L:
            f.true("section independent of the other sections", np.array_equal(np.asarray(L2[k], float)[o], np.asarray(L[k], float)[o], equal_nan=True),
                   "%s got %r, unperturbed %r, section %d changed; %s" % (k, L2[k], L[k], j, ex))
    return nt, f, dict(conditions=[U, Om, pitch, az], alpha=L["alpha"].tolist())
