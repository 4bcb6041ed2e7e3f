from common import *
RULE = "random blades (1..12 sections, curved, swept, coned) and loads; oracle: trapezoidal sums of rt/common.py:thrust; linearity and independence tested; non-trivial always"


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"thrusttorque": 1500 * k, "definecurvature": 500 * k, "linear": 200 * k, "rotor": 150 * k})


def blade(g, n):
    Rhub = g.uniform(0.5, 3)
    Rtip = Rhub + g.uniform(5, 70)
    r = np.sort(g.uniform(Rhub, Rtip, n))
    return (r, g.uniform(-0.1, 0.1, n) * Rtip, g.uniform(-0.1, 0.1, n) * Rtip, g.uniform(-0.3, 0.3), Rhub, Rtip,
            g.uniform(-0.1, 0.1) * Rtip, g.uniform(-0.1, 0.1) * Rtip)


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"] == "rotor":
        import route
        return route.integrals(g, f, None)
    n = int(g.choice([1, 2, 3, 4, 6, 12]))
    b = blade(g, n)
    Np, Tp = g.uniform(-500, 5000, n), g.uniform(-500, 900, n)
    ex = "n=%d blade=%r Np=%r Tp=%r" % (n, [np.asarray(v).tolist() for v in b], Np.tolist(), Tp.tolist())
    ex = ex[:900]
    if case["kind"] == "definecurvature":
        if n < 2:
            raise Skip
        got = _bem.definecurvature(b[0], b[1], b[2], b[3])
        want = curvature(b[0], b[1], b[2], b[3])
        for k, nm in enumerate(("x_az", "y_az", "z_az", "cone", "s")):
            f.eq("defineCurvature post " + nm, got[k], want[k], 1e-11, 1e-10, ex)
        return True, f, dict(input=ex[:200])
    got = np.array(_bem.thrusttorque(Np, Tp, *b))
    if case["kind"] == "thrusttorque":
        want = thrust(Np, Tp, *b)
        sc = np.array(thrust(np.abs(Np), np.abs(Tp), *b))
        for k, nm in enumerate("TYZQM"):
            f.eq("thrustTorque post " + nm, got[k], want[k], 1e-11, 1e-11 * abs(sc).max(), ex)
        return True, f, dict(got=got.tolist())
    N2, T2 = g.uniform(-500, 5000, n), g.uniform(-500, 900, n)
    x, y = g.uniform(-2, 2, 2)
    g2 = np.array(_bem.thrusttorque(N2, T2, *b))
    g3 = np.array(_bem.thrusttorque(x * Np + y * N2, x * Tp + y * T2, *b))
    sc = abs(got).max() + abs(g2).max()
    f.eq("thrustTorque linear in the loads", g3, x * got + y * g2, 1e-10, 1e-10 * sc, ex)
    return True, f, dict(got=got.tolist())
