from common import *
RULE = ("random vectors (scalars and arrays), angles in [-400,400] degrees incl. multiples of 90, chains of transformations, arithmetic on fresh vectors; non-trivial when the angle is not a multiple "
        "of 360 and the vector is nonzero; oracle: rotation matrices from the documented axes")
ASSUMPTIONS = ["in a chain each angle name is applied once when its carried derivative is compared (the derivative of a repeated angle is not defined by the interface)",
               "in-place arithmetic on float vectors of equal shape"]
# name: (axis, sense, derivative name) -- components in the new frame are R(axis, sense*angle)^T v
ROT = dict(inertialToWind=("z", 1, "beta"), windToInertial=("z", -1, "beta"), windToYaw=("z", 1, "yaw"), yawToWind=("z", -1, "yaw"), yawToHub=("y", 1, "tilt"), hubToYaw=("y", -1, "tilt"),
           hubToAzimuth=("x", 1, "azimuth"), azimuthToHub=("x", -1, "azimuth"), azimuthToBlade=("y", -1, "precone"), bladeToAzimuth=("y", 1, "precone"),
           airfoilToBlade=("z", 1, "theta"), bladeToAirfoil=("z", -1, "theta"))
INV = dict(inertialToWind="windToInertial", windToYaw="yawToWind", yawToHub="hubToYaw", hubToAzimuth="azimuthToHub", azimuthToBlade="bladeToAzimuth", airfoilToBlade="bladeToAirfoil")
INV.update({v: k for k, v in INV.items()})
CHAIN = ["inertialToWind", "windToYaw", "yawToHub", "hubToAzimuth", "azimuthToBlade", "bladeToAirfoil"]
BACK = ["airfoilToBlade", "bladeToAzimuth", "azimuthToHub", "hubToYaw", "yawToWind", "windToInertial"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"rotate": 1500 * k, "chain": 500 * k, "arith": 500 * k, "cross": 500 * k, "swap": 60})


def arr(v):
    return np.array([np.asarray(v.x, float).ravel(), np.asarray(v.y, float).ravel(), np.asarray(v.z, float).ravel()])


def angle(g):
    return float(g.choice([g.uniform(-180, 180), g.uniform(-400, 400), g.choice([0, 90, -90, 180, 270, 360, 30, 45]), g.uniform(-1e-3, 1e-3)]))


def mk(g):
    n = int(g.choice([0, 1, 2, 5]))
    c = [g.uniform(-5, 5) * g.choice([1, 1, 1, 0]) if n == 0 else g.uniform(-5, 5, n) for _ in range(3)]
    return n, c


def Rm(name, ang):
    ax, s, dn = ROT[name]
    return rot(ax, s * math.radians(ang)).T


def dRm(name, ang):
    ax, s, dn = ROT[name]
    K = {"x": np.array([[0, 0, 0], [0, 0, -1], [0, 1, 0.]]), "y": np.array([[0, 0, 1], [0, 0, 0], [-1, 0, 0.]]), "z": np.array([[0, -1, 0], [1, 0, 0], [0, 0, 0.]])}[ax]
    return (rot(ax, s * math.radians(ang)) @ K).T * s * math.pi / 180


def wide(x, m):
    return np.broadcast_to(np.asarray(x, float).ravel(), (m,))


def derivs(f, name, v, D, angs, ex, m):
    """D = accumulated matrix d(components)/d(original components); angs {name: (3,m) derivative}"""
    for i, c in enumerate("xyz"):
        dd = getattr(v, "d" + c)
        for j, o in enumerate("xyz"):
            f.eq("%s carried derivative d%s/d%s" % (name, c, o), wide(dd["d" + o], m), wide(D[i, j], m), 1e-10, 1e-11, ex)
        f.true("%s carried derivative names" % name, set(dd) == {"dx", "dy", "dz"} | {"d" + a for a in angs}, "%s %s" % (sorted(dd), ex))
        for a, w in angs.items():
            f.eq("%s carried derivative d%s/d%s" % (name, c, a), wide(dd["d" + a], m), w[i], 1e-10, 1e-10, ex)


def check(case):
    from ccblade.csystem import DirectionVector as V
    g = rng_of(case)
    f = Fails()
    n, c = mk(g)
    m = max(n, 1)
    k = case["kind"]
    src = [np.array(u, copy=True) for u in c]
    v = V(*c)
    V0 = np.array([np.asarray(u, float).ravel() for u in c])
    if n == 0 and g.rand() < .3:
        v = V.fromArray(np.array(c))
    if k == "rotate":
        name = sorted(ROT)[g.randint(len(ROT))]
        a = angle(g)
        if n and g.rand() < .3:
            a = np.array([angle(g) for _ in range(n)])
        al = [a] * m if np.isscalar(a) else list(a)
        ex = "%s(%r) of %r" % (name, a, V0.tolist())
        w = getattr(v, name)(a)
        want = np.stack([Rm(name, al[i]) @ V0[:, i] for i in range(m)], axis=1)
        f.eq("%s post" % name, arr(w), want, 1e-12, 1e-13, ex)
        f.eq("%s length preserved" % name, np.sum(arr(w) ** 2, axis=0), np.sum(V0 ** 2, axis=0), 1e-12, 1e-13, ex)
        D = np.stack([Rm(name, t) for t in al], axis=2)
        dA = np.stack([dRm(name, al[i]) @ V0[:, i] for i in range(m)], axis=1)
        derivs(f, name, w, D, {ROT[name][2]: dA}, ex, m)
        b = getattr(w, INV[name])(a)
        f.eq("%s undone by %s" % (name, INV[name]), arr(b), V0, 1e-12, 1e-13, ex)
        f.eq("%s frame" % name, arr(v), V0, 0, 0, ex)
        f.eq("toArray", w.toArray(), arr(w).T, 0, 0, ex)
        return bool(np.any(V0)) and np.any(np.asarray(al) % 360), f, dict(call=ex, result=arr(w).tolist())
    if k == "chain":
        names = CHAIN if g.rand() < .5 else BACK
        lo = g.randint(len(names) - 1)
        hi = g.randint(lo + 2, len(names) + 1)
        names = names[lo:hi]
        M = np.eye(3)
        w = v
        angs = {}
        ex = ""
        X = V0.copy()
        for q in names:
            a = angle(g)
            ex += "%s(%r) " % (q, a)
            angs = {t: Rm(q, a) @ d for t, d in angs.items()}
            angs[ROT[q][2]] = dRm(q, a) @ X
            X = Rm(q, a) @ X
            M = Rm(q, a) @ M
            w = getattr(w, q)(a)
        ex += "of %r" % V0.tolist()
        f.eq("chain post", arr(w), M @ V0, 1e-11, 1e-12, ex)
        derivs(f, "chain", w, np.stack([M] * m, axis=2), angs, ex, m)
        f.eq("chain frame", arr(v), V0, 0, 0, ex)
        return True, f, dict(call=ex)
    c2 = [g.uniform(-5, 5, n) if n else g.uniform(-5, 5) for _ in range(3)]
    o = V(*c2)
    O0 = np.array([np.asarray(u, float).ravel() for u in c2])
    ex = "of %r and %r" % (V0.tolist(), O0.tolist())
    if k == "arith":
        s = float(g.uniform(-4, 4))
        for nm, fn in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)):
            f.eq("vector %s vector" % nm, arr(fn(v, o)), fn(V0, O0), 1e-14, 0, ex)
            f.eq("vector %s scalar" % nm, arr(fn(v, s)), fn(V0, s), 1e-14, 0, ex)
        f.eq("-vector", arr(-v), -V0, 0, 0, ex)
        f.eq("arithmetic frame", np.c_[arr(v), arr(o)], np.c_[V0, O0], 0, 0, ex)
        import operator
        for nm, fn, gn in (("+=", operator.iadd, operator.add), ("-=", operator.isub, operator.sub), ("*=", operator.imul, operator.mul), ("/=", operator.itruediv, operator.truediv)):
            for rhs, w in ((o, O0), (s, s)):
                u = V(*[np.array(t, copy=True) for t in c])
                u = fn(u, rhs)
                f.eq("vector %s %s" % (nm, "scalar" if rhs is s else "vector"), arr(u), gn(V0, w), 1e-14, 0, ex)
                f.eq("arithmetic %s frame" % nm, arr(o), O0, 0, 0, ex)
        f.eq("caller's data unchanged", np.array([np.ravel(u) for u in c]), np.array([np.ravel(u) for u in src]), 0, 0, ex)
    elif k == "cross":
        w = v.cross(o)
        f.eq("cross post", arr(w), np.cross(V0.T, O0.T).T, 1e-12, 1e-12, ex)
        f.eq("cross frame", np.c_[arr(v), arr(o)], np.c_[V0, O0], 0, 0, ex)
        dd = v.cross_deriv_array(o, "p", "q")
        for i in range(3):
            for j, cc in enumerate("xyz"):
                e = np.eye(3)[j]
                f.eq("cross_deriv_array d%d/dp%s" % (i, cc), wide(dd[i]["dp" + cc], m), np.cross(np.tile(e, (m, 1)), O0.T)[:, i], 1e-13, 1e-14, ex)
                f.eq("cross_deriv_array d%d/dq%s" % (i, cc), wide(dd[i]["dq" + cc], m), np.cross(V0.T, np.tile(e, (m, 1)))[:, i], 1e-13, 1e-14, ex)
        if n == 0:
            dd = v.cross_deriv(o, "p", "q")
            for i in range(3):
                f.eq("cross_deriv d%d/dp" % i, np.ravel(dd[i]["p"]), [np.cross(e, O0[:, 0])[i] for e in np.eye(3)], 1e-13, 1e-14, ex)
                f.eq("cross_deriv d%d/dq" % i, np.ravel(dd[i]["q"]), [np.cross(V0[:, 0], e)[i] for e in np.eye(3)], 1e-13, 1e-14, ex)
    else:
        for q in ("airfoilToProfile", "profileToAirfoil"):
            w = getattr(v, q)()
            f.eq("%s post" % q, arr(w), V0[[1, 0, 2]], 0, 0, ex)
            P = np.eye(3)[[1, 0, 2]]
            derivs(f, q, w, np.stack([P] * m, axis=2), {}, ex, m)
            f.eq("swap frame", arr(v), V0, 0, 0, ex)
        f.eq("profile round trip", arr(v.airfoilToProfile().profileToAirfoil()), V0, 0, 0, ex)
    return True, f, dict(call=k + " " + ex)
