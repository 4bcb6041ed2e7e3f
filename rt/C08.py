from common import *
RULE = ("random sections and one-hot and random directions; the tangents of the compiled kernels against 4th-order central differences of the compiled primal kernels "
        "and the values against the primal; non-trivial when the point is away from the switches between branches")
DIRS = ["r", "chord", "Rhub", "Rtip", "phi", "cl", "cd", "Vx", "Vy"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"inductionfactors_dv": 1500 * k, "relativewind_dv": 1000 * k, "singular": 200 * k, "rotor": 60 * k})


def fd(fun, x, d, h):
    return (8 * (fun(x + h * d) - fun(x - h * d)) - (fun(x + 2 * h * d) - fun(x - 2 * h * d))) / (12 * h)


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"] == "rotor":
        import gradients
        return gradients.distributed(g, f, only=("dchord", "dtheta", "dpitch", "dRhub", "dRtip", "dr", "dUinf", "dOmega"), prefix="loads gradient through the section model")
    if case["kind"] == "singular":
        return singular(g, f)
    if case["kind"] == "relativewind_dv":
        phi = g.choice([g.uniform(0.02, 1.5), -g.uniform(0.02, 1.5), g.uniform(1.6, 3.1)])
        a, ap = g.uniform(-1, 0.95), g.uniform(-.5, .8)
        m = g.rand()
        if m < .2:
            a = g.choice([-1, 1]) * g.uniform(11, 40)
        elif m < .4:
            ap = g.choice([-1, 1]) * g.uniform(11, 40)
        if abs(math.sin(phi)) < 0.02 or abs(math.cos(phi)) < 0.02:
            raise Skip
        rho, mu = g.uniform(1, 1.3), g.uniform(1e-5, 2e-5)
        x = np.array([phi, a, ap, g.uniform(1, 20), g.uniform(1, 90), g.uniform(-.2, .3), g.uniform(.2, 4), g.uniform(-.3, .5)])
        fun = lambda v: np.array(_bem.relativewind(*v, rho, mu))
        D = np.vstack([np.eye(8), g.uniform(-1, 1, (2, 8))])
        args = []
        for k in range(8):
            args += [x[k], D[:, k].copy()]
        out = _bem.relativewind_dv(*args, rho, mu)
        val, tan = np.array(out[0::2]), np.array(out[1::2])
        nm = "RELATIVEWIND_DV"
    else:
        Rhub = g.uniform(0.3, 3)
        Rtip = Rhub + g.uniform(2, 60)
        r = Rhub + (Rtip - Rhub) * g.uniform(0.03, 0.97)
        phi = g.choice([g.uniform(0.03, 1.5), g.uniform(0.03, 0.3), -g.uniform(0.03, 1.5), g.uniform(1.62, 3.1)])
        x = np.array([r, g.uniform(0.02, 0.5) * r, Rhub, Rtip, phi, g.uniform(-1.5, 2.2), g.uniform(0.003, 1.4), g.uniform(1, 25), g.uniform(1, 90)])
        B = int(g.choice([1, 2, 3, 4]))
        fl = dict(usecd=bool(g.rand() < .6), hubloss=bool(g.rand() < .6), tiploss=bool(g.rand() < .6), wakerotation=bool(g.rand() < .6))
        fun = lambda v: np.array(_bem.inductionfactors(*v[:7], B, *v[7:], **fl))
        try:
            w = induction(*x[:7], B, *x[7:], **fl)
        except (ZeroDivisionError, ValueError):
            raise Skip
        k = w[3]
        g2 = 2 * w[5] * k - (4. / 3 - w[5]) * w[5]
        if abs(k - 2. / 3) < 0.02 or abs(k - 1) < 0.05 or abs(w[4] - 1) < .05 or abs(g2 - (5. / 3 - w[5]) ** 2) < 1e-3 or abs(k + 1) < .05 or w[5] < 1e-3 or abs(k) > 200:
            raise Skip
        D = np.vstack([np.eye(9), g.uniform(-1, 1, (2, 9))])
        args = []
        for q in range(7):
            args += [x[q], D[:, q].copy()]
        args += [B, x[7], D[:, 7].copy(), x[8], D[:, 8].copy()]
        out = _bem.inductionfactors_dv(*args, **fl)
        val, tan = np.array(out[0::2], dtype=float), np.array(out[1::2])
        nm = "INDUCTIONFACTORS_DV"
    p = fun(x)
    f.eq(nm + " value", val, p, 1e-12, 1e-13, "at %r" % (x.tolist(),))
    for q in range(len(D)):
        sc = np.maximum(np.abs(x), 0.05)
        h = 1e-4
        d1, d2 = fd(fun, x, D[q] * sc, h), fd(fun, x, D[q] * sc, 2 * h)
        args2 = []
        # the tangent in the scaled direction
        want = d1
        err = np.abs(d1 - d2) + 1e-9 * (np.abs(p) + 1) / h * 1e-3
        if q < len(x):
            got = tan[:, q] * sc[q]
        else:
            got = tan[:, :len(x)] @ (D[q] * sc)
            lin = tan[:, q] - tan[:, :len(x)] @ D[q]
            f.true(nm + " linear in the direction", np.all(np.abs(lin) <= 1e-9 * (np.abs(tan[:, :len(x)]) @ np.abs(D[q]) + 1e-9)), "%r" % lin)
        bad = np.abs(got - want) > 20 * err + 1e-6 * np.abs(want)
        if np.any(bad):
            f.append(dict(obligation=nm + " derivative", msg="direction %d of %r: tangents %r, differences %r +- %r" % (q, x.tolist(), got.tolist(), want.tolist(), err.tolist())))
            break
    return True, f, dict(x=x.tolist(), value=val.tolist())


def singular(g, f):
    """the load at which the empirical relation is 0/0, where a separate formula is used within a window of 1e-6"""
    from ccblade import _bem
    Rhub = g.uniform(0.3, 3)
    Rtip = Rhub + g.uniform(2, 60)
    r = Rhub + (Rtip - Rhub) * g.uniform(0.6, 0.97)
    phi = g.uniform(0.05, 0.6)
    B = int(g.choice([1, 2, 3]))
    F = loss(r, Rhub, Rtip, phi, B, True, True)
    if not 0.2 < F < 0.82:
        raise Skip
    k = (25. / 9 - 2 * F) / (2 * F)
    chord = g.uniform(.02, .3) * r
    fl = dict(usecd=False, hubloss=True, tiploss=True, wakerotation=bool(g.rand() < .5))
    cl = k * 4 * F * math.sin(phi) ** 2 / (B * chord / (2 * math.pi * r)) / math.cos(phi)
    x = np.array([r, chord, Rhub, Rtip, phi, cl, 0.01, g.uniform(1, 25), g.uniform(1, 90)])
    fun = lambda v: np.array(_bem.inductionfactors(*v[:7], B, *v[7:], **fl))
    args = []
    for q in range(7):
        args += [x[q], np.eye(9)[:, q].copy()]
    args += [B, x[7], np.eye(9)[:, 7].copy(), x[8], np.eye(9)[:, 8].copy()]
    out = _bem.inductionfactors_dv(*args, **fl)
    val, tan = np.array(out[0::2], dtype=float), np.array(out[1::2])
    p = fun(x)
    f.eq("INDUCTIONFACTORS_DV value", val, p, 1e-12, 1e-13, "at the singular load, %r %r" % (x.tolist(), fl))
    for q in range(9):
        h = 1e-8 * max(abs(x[q]), .01)
        d = np.zeros(9)
        d[q] = h
        n = (fun(x + d) - fun(x - d)) / (2 * h)
        e = 1e-15 * (1 + np.abs(p)) / h * (1 + x[7] / x[8] + x[8] / x[7])
        bad = np.abs(tan[:, q] - n) > 1e-4 * np.abs(n) + 50 * e + 1e-6 * np.abs(tan).max()
        if np.any(bad):
            f.append(dict(obligation="INDUCTIONFACTORS_DV derivative", msg="at the singular load, input %d of %r %r: tangents %r, differences %r" % (q, x.tolist(), fl, tan[:, q].tolist(), n.tolist())))
            break
    return True, f, dict(x=x.tolist())
