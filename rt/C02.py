from common import *
RULE = ("random sections strictly between hub and tip (down to 1e-6 of the span from either end) and inflow angles 1e-6..pi/2 of both signs; the loss factor is recovered from the "
        "returned induction factor or residual; joins tested by one-sided differences; non-trivial when the recovered factor is well conditioned")


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"loss": 3000 * k, "range": 3000 * k, "join": 1000 * k, "scan": 250 * k, "rotor": 300 * k, "rotor unusual": 200 * k})


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"].startswith("rotor"):
        import route
        return route.well_defined(g, f, "unusual" if "unusual" in case["kind"] else "normal")
    Rhub = g.uniform(0.3, 3)
    Rtip = Rhub + g.uniform(2, 60)
    t = g.choice([g.uniform(0.01, 0.99), 10 ** g.uniform(-6, -2), 1 - 10 ** g.uniform(-6, -2)])
    r = Rhub + (Rtip - Rhub) * t
    phi = g.choice([g.uniform(0.01, 1.56), 10 ** g.uniform(-6, -1)]) * g.choice([1, -1])
    hub, tip = [(True, False), (False, True), (True, True), (False, False)][g.randint(4)]
    B = int(g.choice([1, 2, 3, 4]))
    Vx, Vy = g.uniform(0.5, 25), g.uniform(0.5, 90)
    fl = dict(usecd=False, hubloss=hub, tiploss=tip, wakerotation=False)
    s, c = math.sin(phi), math.cos(phi)
    ex = "r=%r Rhub=%r Rtip=%r phi=%r B=%r Vx=%r Vy=%r %r" % (r, Rhub, Rtip, phi, B, Vx, Vy, fl)
    if case["kind"] == "loss":
        F = loss(r, Rhub, Rtip, phi, B, hub, tip)
        k = g.uniform(0.05, 0.3)
        cl = 1.0
        chord = k * 4 * F * s * s * 2 * math.pi * r / (B * cl * c)
        if F < 1e-12 or chord < 1e-300:
            raise Skip
        fz, a, ap = _bem.inductionfactors(r, chord, Rhub, Rtip, phi, cl, 0.01, B, Vx, Vy, **fl)
        if phi > 0:
            kk = a / (1 - a)
        else:
            kk = 1 - (fz + c * Vx / Vy) / s
            if abs(c * Vx / Vy / s) > 1e6:
                raise Skip
        Fg = B * chord / (2 * math.pi * r) * cl * c / (4 * kk * s * s)
        f.true("loss factor finite", math.isfinite(Fg), "%r %s" % (Fg, ex))
        tol = 1e-9 + (1e-14 * abs(c * Vx / Vy / s) if phi < 0 else 0)
        f.true("loss factor in (0,1]", 0 < Fg <= 1 + 1e3 * tol, "F=%r %s" % (Fg, ex))
        e1 = math.exp(-B / 2.0 * (Rtip - r) / (r * abs(s))) if tip else 0
        e2 = math.exp(-B / 2.0 * (r - Rhub) / (Rhub * abs(s))) if hub else 0
        tol += 1e-14 / max(1 - e1, 1e-13) + 1e-14 / max(1 - e2, 1e-13)
        f.eq("loss factor is Prandtl's", Fg, F, 1e3 * tol, 0, ex)
        return True, f, dict(F=Fg, input=ex)
    phi = abs(phi)
    s = abs(s)
    fl["usecd"] = bool(g.rand() < .5)
    fl["wakerotation"] = bool(g.rand() < .5)
    if case["kind"] == "range":
        cl, cd = 10 ** g.uniform(-3, 0.4), 10 ** g.uniform(-3, 0.3)
        chord = 10 ** g.uniform(-2, 0) * r
        cn = cl * c + (cd if fl["usecd"] else 0) * s
        fz, a, ap = _bem.inductionfactors(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, **fl)
        if B / 2.0 * (r - Rhub) / (Rhub * s) < 1e-13 or B / 2.0 * (Rtip - r) / (r * s) < 1e-13:
            raise Skip
        f.true("axial induction finite and in [0,1)", math.isfinite(a) and 0 <= a < 1, "a=%r cl=%r cd=%r chord=%r %s" % (a, cl, cd, chord, ex))
        return cn > 0, f, dict(a=a, input=ex)
    # join of the momentum and empirical branches at the switch
    F = loss(r, Rhub, Rtip, phi, B, hub, tip)
    if F < 1e-2 or abs(F * F - (5. / 3 - F) ** 2) < 1e-4:
        raise Skip
    cl = 1.0
    fl["usecd"] = fl["wakerotation"] = False

    def at(k):
        chord = k * 4 * F * s * s * 2 * math.pi * r / (B * cl * c)
        return np.array(_bem.inductionfactors(r, chord, Rhub, Rtip, phi, cl, 0.0, B, Vx, Vy, **fl)[:2])
    if case["kind"] == "scan":
        # wherever the switch is, no load up to k = 2 changes value or slope abruptly (below the regularised singularity of the empirical relation)
        lo, hi = 0.2, 2.0
        for level in range(5):
            ks = np.linspace(lo, hi, 200)
            v = np.array([at(q)[1] for q in ks])
            h = ks[1] - ks[0]
            g2 = 2 * F * ks - (4. / 3 - F) * F
            d2 = np.abs(np.diff(v, 2))
            d2[np.abs(np.sqrt(np.maximum(g2[1:-1], 0)) - (5. / 3 - F)) < 0.02 + 2 * h] = 0
            q = int(np.argmax(d2))
            kink = d2[q] / h
            if h < 1e-4:
                break
            lo, hi = ks[max(q - 1, 0)], ks[min(q + 3, len(ks) - 1)]
        f.true("branches meet in value and slope wherever the switch is", kink < 2e-3 / F + 1e-12 / h, "slope changes by %r within %r at k=%r F=%r %s" % (kink, h, ks[q + 1], F, ex))
        return True, f, dict(F=F, kink=float(kink), k=float(ks[q + 1]), input=ex)
    k0, h = 2. / 3, 1e-5
    lo, hi = at(k0 * (1 - 1e-10)), at(k0 * (1 + 1e-10))
    f.eq("branches meet in value", hi, lo, 1e-6, 1e-7 * (1 + Vx / Vy), ex)
    lo1, lo2 = at(k0 - h), at(k0 - 2 * h)
    hi1, hi2 = at(k0 + h), at(k0 + 2 * h)
    sl = (3 * lo - 4 * lo1 + lo2) / (2 * h)
    sh = (-3 * hi + 4 * hi1 - hi2) / (2 * h)
    f.eq("branches meet in slope", sh[1], sl[1], 2e-3 / F, 2e-3, ex)
    f.eq("residual branches meet in slope", sh[0], sl[0], 2e-3 / F, 2e-3 * (1 + Vx / Vy * 0.1), ex)
    return True, f, dict(F=F, slopes=[sl.tolist(), sh.tolist()], input=ex)
