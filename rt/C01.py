from common import *
RULE = ("random sections and inflow angles over (-pi,pi) away from 0, +-pi/2, flag combinations; non-trivial when the specified residual is finite. "
        "whole rotors through distributedAeroLoads: reported induction at the reported inflow angle; oracle: BEM theory re-derived in rt/common.py")


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"kernel": 4000 * k, "edge": 600 * k, "rotor": 250 * k, "rotor unusual": 250 * k})


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"].startswith("rotor"):
        import route
        return route.induction_at(g, f, "unusual" if "unusual" in case["kind"] else "normal")
    Rhub = g.uniform(0.3, 3)
    Rtip = Rhub + g.uniform(2, 60)
    r = Rhub + (Rtip - Rhub) * g.uniform(0.01, 0.99)
    chord = g.uniform(0.01, 0.6) * r
    phi = g.choice([g.uniform(1e-3, 1.55), g.uniform(1e-6, 0.2), -g.uniform(1e-6, 1.5), g.uniform(1.59, 3.14)])
    cl, cd = g.uniform(-1.5, 2.2), g.uniform(0.0, 1.4)
    B = int(g.choice([1, 2, 3, 4]))
    Vx, Vy = g.uniform(0.5, 25) * g.choice([1, 1, 1, -1]), g.uniform(0.5, 90) * g.choice([1, 1, 1, -1])
    fl = dict(usecd=bool(g.rand() < .6), hubloss=bool(g.rand() < .6), tiploss=bool(g.rand() < .6), wakerotation=bool(g.rand() < .6))
    if case["kind"] == "edge":
        # near the switch between momentum and empirical relation and near its removable singularity
        s, c = math.sin(phi), math.cos(phi)
        F = loss(r, Rhub, Rtip, phi, B, fl["hubloss"], fl["tiploss"])
        cn = cl * c + (cd if fl["usecd"] else 0) * s
        k = g.choice([2 / 3. * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-12, -3)), 1 + g.choice([-1, 1]) * 10 ** g.uniform(-9, -2), g.uniform(0.6, 3),
                      ((5. / 3 - F) ** 2 + (4. / 3 - F) * F) / (2 * F) * (1 + g.choice([-1, 1]) * 10 ** g.uniform(-6, -1))])
        if abs(cn) < 1e-3:
            raise Skip
        chord = k * 4 * F * s * s * 2 * math.pi * r / B / cn
    try:
        w = induction(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, **fl)
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Skip
    if abs(1 - w[4]) < 1e-6 or abs(1 - w[3]) < 1e-10 or abs(1 + w[3]) < 1e-6 or w[5] < 1e-9 or chord <= 0 or abs(w[1]) > 1e4 or abs(w[2]) > 1e4 or not all(map(math.isfinite, w)):
        raise Skip
    got = _bem.inductionfactors(r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, **fl)
    ex = "r=%r chord=%r Rhub=%r Rtip=%r phi=%r cl=%r cd=%r B=%r Vx=%r Vy=%r %r" % (r, chord, Rhub, Rtip, phi, cl, cd, B, Vx, Vy, fl)
    # the code may use the limit of the empirical relation within 1e-6 of its removable singularity
    k, F = w[3], w[5]
    tol = 1e-8
    at = 1e-11
    if phi > 0 and k > 2. / 3 * (1 - 1e-9):
        g2 = 2 * F * k - (4. / 3 - F) * F
        g3 = g2 - (5. / 3 - F) ** 2
        at = 3e-6 if abs(g3) < 1.01e-6 else 1e-11 + 1e-14 / abs(g3)
    cond = 1 / min(abs(1 - w[4]), 1) + 1 / min(abs(1 + k), 1) + 1 / min(abs(k - 1), 1)
    f.eq("inductionFactors post a", got[1], w[1], tol, at * cond, ex)
    f.eq("inductionFactors post ap", got[2], w[2], tol, 1e-11 * cond, ex)
    f.eq("inductionFactors post fzero", got[0], w[0], tol * cond, at * cond * 10 / max(1 - w[1], 1e-3) ** 2 * abs(math.sin(phi)) + 1e-10 * (abs(Vx / Vy) + 1) * cond, ex)
    return True, f, dict(input=ex, fzero=got[0], a=got[1], ap=got[2])
