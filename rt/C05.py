from common import *
RULE = "random blades (1..12 sections, curved and swept), attitudes, shear, rotation of both signs; oracle: rotation matrices of the documented frames (rt/common.py:wind); non-trivial always"


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"kernel": 800 * k, "transforms": 150 * k, "rotor": 150 * k, "velocities": 200 * k, "velocities unusual": 100 * k, "array wind": 10})


def geom(g, n):
    Rhub = g.uniform(0.5, 3)
    Rtip = Rhub + g.uniform(5, 70)
    r = np.sort(g.uniform(Rhub, Rtip, n))
    return Rhub, Rtip, r, g.uniform(-0.08, 0.1, n) * Rtip, g.uniform(-0.08, 0.1, n) * Rtip


def check(case):
    import ccblade.ccblade as M
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"].startswith("velocities"):
        import route
        return route.velocities(g, f, "unusual" if "unusual" in case["kind"] else "normal")
    n = int(g.choice([2, 3, 4, 5, 6, 12]))
    Rhub, Rtip, r, pc, ps = geom(g, n)
    if g.rand() < 0.2:
        pc = np.zeros(n)
    cone, tilt, yaw = [g.uniform(-0.25, 0.25) for _ in range(3)]
    az = g.uniform(-7, 7)
    U = g.uniform(3, 25)
    Om = g.uniform(-12, 30)
    hub = Rtip * g.uniform(1.6, 2.4)
    sh = g.choice([0.0, g.uniform(0.05, 0.4)])
    ex = "n=%d cone=%r tilt=%r yaw=%r az=%r U=%r Omega=%r hubHt=%r shear=%r" % (n, cone, tilt, yaw, az, U, Om, hub, sh)
    if case["kind"] == "kernel":
        got = _bem.windcomponents(r, pc, ps, cone, yaw, tilt, az, U, Om, hub, sh)
        want = wind(r, pc, ps, cone, yaw, tilt, az, U, Om, hub, sh)
        f.eq("windComponents post Vx", got[0], want[0], 1e-10, 1e-10, ex)
        f.eq("windComponents post Vy", got[1], want[1], 1e-10, 1e-10, ex)
    elif case["kind"] == "transforms":
        from ccblade.csystem import DirectionVector
        got = _bem.windcomponents(r, pc, ps, cone, yaw, tilt, az, U, Om, hub, sh)
        D = np.degrees
        pos = DirectionVector(pc, ps, r).bladeToAzimuth(D(cone))
        h = hub + pos.azimuthToHub(D(az)).hubToYaw(D(tilt)).z
        x, y, z, lc, s = curvature(r, pc, ps, cone)
        f.eq("section position", np.c_[pos.x, pos.y, pos.z], np.c_[x, y, z], 1e-10, 1e-10, ex)
        V = U * (h / hub) ** sh
        w = DirectionVector(V, 0 * V, 0 * V).windToYaw(D(yaw)).yawToHub(D(tilt)).hubToAzimuth(D(az))
        om = DirectionVector(Om * np.pi / 30, 0.0, 0.0)
        vr = pos.cross(om)
        tot = (w + vr).azimuthToBlade(D(lc))
        f.eq("velocity agrees with the public transformations", np.c_[got[0], got[1]], np.c_[tot.x, tot.y], 1e-9, 1e-9, ex)
    else:
        d = rotor(g)
        rr, pc, ps, pct, pst = effective(d)
        af = [smooth_af(g)] * len(rr)
        U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
        if case["kind"] == "array wind":
            # documented: an array of the velocity at each section may be given
            U = U * g.uniform(0.9, 1.1, len(rr))
        azd = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
        R = build(d, af)
        L, _ = R.distributedAeroLoads(U, Om, pitch, azd)
        Vx, Vy = wind(rr, pc, ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(azd), U, Om, d["hubHt"], d["shearExp"])
        W = np.hypot(Vx * (1 - L["a"]), Vy * (1 + L["ap"]))
        ok = (np.abs(L["a"]) < 10) & (np.abs(L["ap"]) < 10) & (L["Np"] != 0)
        if case["kind"] == "array wind":
            if not f.eq("wind speed per section", L["W"][ok], W[ok], 1e-9, 1e-9, ex) and close(L["W"][ok][0], W[ok][0]):
                w0 = wind(rr, pc, ps, math.radians(d["precone"]), math.radians(d["yaw"]), math.radians(d["tilt"]), math.radians(azd), U[0], Om, d["hubHt"], d["shearExp"])
                if close(L["W"][ok], np.hypot(w0[0] * (1 - L["a"]), w0[1] * (1 + L["ap"]))[ok], 1e-9, 1e-9):
                    f[-1]["finding"] = "array-Uinf"      # the first element used for all sections
            return True, f, dict(input=ex)
        f.eq("rotor velocities (through W)", L["W"][ok], W[ok], 1e-9, 1e-9, ex)
    return True, f, dict(input=ex)
