from common import *
import gradients
RULE = ("random rotors and conditions, all flags, iterRe 1 and 2, rotating, parked and parked with one zero velocity component; every reported section quantity recomputed from the reported induction "
        "factors and the specified velocities; non-trivial when the section is loaded")
BUDGET = {"quick": 60, "thorough": 1000}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"rotating": 400 * k, "parked": 100 * k, "parked aligned": 60 * k})


def check(case):
    g = rng_of(case)
    f = Fails()
    n = int(g.choice([2, 3, 4, 6]))
    d = rotor(g, n)
    d["iterRe"] = int(g.choice([1, 1, 1, 2]))
    af = gradients.airfoils(g, n)
    U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
    az = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
    if case["kind"] != "rotating":
        Om = 0.0
    if case["kind"] == "parked aligned":
        d["yaw"] = d["tilt"] = 0.0
    if case["kind"] == "rotating" and g.rand() < .15:
        pitch = g.uniform(-40, 80)
    ex = "conditions=%r rotor=%r" % ([U, Om, pitch, az], {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    R = build(d, af)
    import io, contextlib
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        L, _ = R.distributedAeroLoads(U, Om, pitch, az)
    r, pc, ps, pct, pst = effective(d)
    Vx, Vy = wind(r, pc, ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(az), U, Om, d["hubHt"], d["shearExp"])
    f.true("documented keys", set(L) == {"Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re"}, "%r" % sorted(L))
    th, p = np.radians(d["theta"]), math.radians(pitch)
    nt = False
    for i in range(n):
        a, ap = L["a"][i], L["ap"][i]
        if Om != 0 and L["Np"][i] == 0 and L["alpha"][i] == 0:
            continue
        e = "section %d %s" % (i, ex)
        al = math.radians(L["alpha"][i])
        phi = al + th[i] + p
        if Om == 0:
            f.eq("parked angle of attack", al, math.pi / 2 - th[i] - p, 1e-12, 1e-12, e)
        if abs(a) > 9.99 or abs(ap) > 9.99:
            continue
        W = math.hypot(Vx[i] * (1 - a), Vy[i] * (1 + ap))
        f.eq("relative speed", L["W"][i], W, 1e-9, 1e-12, e)
        f.eq("Reynolds number", L["Re"][i], d["rho"] * W * d["chord"][i] / d["mu"], 1e-9, 1e-9, e)
        if Om == 0:
            cl, cd = [float(v) for v in af[i].evaluate(al, L["Re"][i])]
        else:
            _, _, _, cl, cd = residual(d, af[i], i, phi, Vx[i], Vy[i], p, r[i], th[i])
        f.eq("lift coefficient of the airfoil at the angle of attack", L["Cl"][i], cl, 1e-7, 1e-9, e)
        f.eq("drag coefficient of the airfoil at the angle of attack", L["Cd"][i], cd, 1e-7, 1e-9, e)
        cl, cd = L["Cl"][i], L["Cd"][i]
        cn = cl * math.cos(phi) + cd * math.sin(phi)
        ct = cl * math.sin(phi) - cd * math.cos(phi)
        f.eq("normal force coefficient", L["Cn"][i], cn, 1e-9, 1e-10, e)
        f.eq("tangential force coefficient", L["Ct"][i], ct, 1e-9, 1e-10, e)
        q = 0.5 * d["rho"] * W * W * d["chord"][i]
        f.eq("normal load", L["Np"][i], cn * q, 1e-8, 1e-9 * q, e)
        f.eq("tangential load", L["Tp"][i], ct * q, 1e-8, 1e-9 * q, e)
        nt = nt or q > 0
    return nt, f, dict(conditions=[U, Om, pitch, az], Np=L["Np"].tolist())
