"""csystem.DirectionVector: every transformation, its inverse, its carried
derivatives, and the vector arithmetic, for scalars and arrays of any length."""
from pymods import *
F = "csystem.py:"
TRUSTED = ["the documented axes and senses of the frames as written in ROT (props/C06.py)"]
ASSUMPTIONS = ["numpy's array functions behave as documented (lib/npshim.py)", "real arithmetic instead of floating point",
               "in a chain each angle name is applied once", "arrays of one dimension, one or more elements"]
ROT = dict(inertialToWind=("z", 1, "beta"), windToInertial=("z", -1, "beta"), windToYaw=("z", 1, "yaw"), yawToWind=("z", -1, "yaw"), yawToHub=("y", 1, "tilt"), hubToYaw=("y", -1, "tilt"),
           hubToAzimuth=("x", 1, "azimuth"), azimuthToHub=("x", -1, "azimuth"), azimuthToBlade=("y", -1, "precone"), bladeToAzimuth=("y", 1, "precone"),
           airfoilToBlade=("z", 1, "theta"), bladeToAirfoil=("z", -1, "theta"))
INV = dict(inertialToWind="windToInertial", windToYaw="yawToWind", yawToHub="hubToYaw", hubToAzimuth="azimuthToHub", azimuthToBlade="bladeToAzimuth", airfoilToBlade="bladeToAirfoil")
INV.update({v: k for k, v in INV.items()})
n_, j_ = ivar("n"), ivar("j")


def mat(name, th):
    """components in the new frame = mat * components in the old one"""
    ax, sense, _ = ROT[name]
    t = th * PI / 180 * sense
    c, s = fn("cos", t), fn("sin", t)
    return {"z": [[c, s, ZERO], [-s, c, ZERO], [ZERO, ZERO, ONE]], "y": [[c, ZERO, -s], [ZERO, ONE, ZERO], [s, ZERO, c]],
            "x": [[ONE, ZERO, ZERO], [ZERO, c, s], [ZERO, -s, c]]}[ax]


def mul_(M, v):
    return [addn([a * b for a, b in zip(row, v)]) for row in M]


def the_ctx():
    c = base(lambda k: (-3, 3) if k in "xyz" else (-170, 170))
    c.assume(*cmp_("<=", 1, n_))
    c.assume(*cmp_("<=", 0, j_))
    c.assume(*cmp_("<", j_, n_))
    return c


def module():
    return load(src("csystem.py"), "ccblade.csystem", npshim.MODS)


def arg(nm, shape):
    return sc(nm) if shape == "scalar" else varr(nm, n_)


def state(V, shape, extra=("dq",)):
    """a vector that carries arbitrary derivatives"""
    v = V(*[arg(k, shape) for k in "xyz"])
    D = []
    for i in "xyz":
        D.append({d: arg("D%s_%s" % (i, d), shape) for d in ("dx", "dy", "dz") + extra})
    v.dx, v.dy, v.dz = D
    return v


def el(x):
    return gen(x, j_)


def vec(v):
    return [el(v.x), el(v.y), el(v.z)]


def tasks(tier):
    L = [("lemma", lemma)]
    for nm in ROT:
        L.append((nm, lambda R, nm=nm: rotation(R, nm)))
    L += [("profile", profile), ("arithmetic", arithmetic), ("cross", cross), ("construction", construction)]
    return L


def lemma(R):
    c = the_ctx()
    for nm in ROT:
        th = sym("th")
        M = mat(nm, th)
        for i in range(3):
            for k in range(3):
                R.eq("lemma: %s is orthogonal [%d,%d]" % (nm, i, k), addn([M[i][q] * M[k][q] for q in range(3)]), ONE if i == k else ZERO, c)
        det = addn([M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]), -(M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])), M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])])
        R.eq("lemma: %s is right-handed" % nm, det, ONE, c)


def rotation(R, nm):
    f = F + nm
    for vs, ts in (("scalar", "scalar"), ("array", "scalar"), ("array", "array"), ("scalar", "array")):
        def run():
            V = module()["DirectionVector"]
            v = state(V, vs)
            old = (v.x, v.y, v.z, dict(v.dx), dict(v.dy), dict(v.dz))
            th = arg("th", ts)
            w = getattr(v, nm)(th)
            u = getattr(w, INV[nm])(th)
            return v, old, th, w, u
        for c, (v, old, th, w, u), m in runs(run, the_ctx()):
            def post():
                activate(m)
                x0, t = [el(q) for q in old[:3]], el(th)
                M = mat(nm, t)
                want = mul_(M, x0)
                out = [("post %s" % k, g, q) for k, g, q in zip("xyz", vec(w), want)]
                out += [("undone by %s: %s" % (INV[nm], k), g, q) for k, g, q in zip("xyz", vec(u), x0)]
                nmd = "d" + ROT[nm][2]
                for i, k in enumerate("xyz"):
                    got = getattr(w, "d" + k)
                    out.append(("names carried by d%s" % k, ONE if set(got) == {"dx", "dy", "dz", "dq", nmd} else ZERO, ONE))
                    for d in ("dx", "dy", "dz", "dq"):
                        out.append(("carried d%s/%s" % (k, d), el(got[d]), addn([M[i][q] * el(old[3 + q][d]) for q in range(3)])))
                    a = sym("@th")
                    dM = [diff(e, lambda q: ONE if q is a else ZERO) for e in mat(nm, a)[i]]
                    out.append(("carried d%s/%s" % (k, nmd), el(got[nmd]), addn([nsubst(dM[q], {a: t}) * x0[q] for q in range(3)])))
                # frame: the vector itself and its derivatives are unchanged
                for k, a, b in zip("xyz", (v.x, v.y, v.z), old[:3]):
                    out.append(("frame %s" % k, el(a), x0["xyz".index(k)]))
                for k, q in zip("xyz", (v.dx, v.dy, v.dz)):
                    o = old[3 + "xyz".index(k)]
                    out.append(("frame d%s" % k, ONE if set(q) == set(o) and all(q[d] is o[d] for d in o) else ZERO, ONE))
                out.append(("frame caller", ONE if not m.foreign else ZERO, ONE))
                return out
            for name, got, want in under(R, c, post, "%s(%s, %s)" % (nm, vs, ts)):
                R.eq("%s [%s, %s angle]: %s" % (nm, vs, ts, name), got, want, c, f)


def under(R, c, f, name):
    """f() in context c (its splits are not expected)"""
    import ctx as cx
    old = cx.CTX[0]
    cx.CTX[0] = c
    try:
        return f()
    finally:
        cx.CTX[0] = old


def profile(R):
    for vs in ("scalar", "array"):
        for nm in ("airfoilToProfile", "profileToAirfoil"):
            def run():
                V = module()["DirectionVector"]
                v = state(V, vs)
                return v, getattr(v, nm)()
            for c, (v, w), m in runs(run, the_ctx()):
                def post():
                    activate(m)
                    out = list(zip(["post x", "post y", "post z"], vec(w), [el(v.y), el(v.x), el(v.z)]))
                    for k, q in zip("xyz", "yxz"):
                        for d in ("dx", "dy", "dz", "dq"):
                            out.append(("carried d%s/%s" % (k, d), el(getattr(w, "d" + k)[d]), el(getattr(v, "d" + q)[d])))
                    return out
                for name, got, want in under(R, c, post, nm):
                    R.eq("%s [%s]: %s" % (nm, vs, name), got, want, c, F + nm)


def construction(R):
    for vs in ("scalar", "array"):
        def run():
            V = module()["DirectionVector"]
            xs = [arg(k, vs) for k in "xyz"]
            return xs, V(*xs), V.fromArray(asarr(xs)), V(*xs).toArray()
        for c, (xs, v, w, t), m in runs(run, the_ctx()):
            def post():
                activate(m)
                out = []
                for i, k in enumerate("xyz"):
                    out.append(("__init__ %s" % k, el(getattr(v, k)), el(xs[i])))
                    out.append(("fromArray %s" % k, el(getattr(w, k)), el(xs[i])))
                    out.append(("toArray %s" % k, gen(t, j_, aff(i)), el(xs[i])))
                    for q, d in enumerate(("dx", "dy", "dz")):
                        out.append(("__init__ d%s/%s" % (k, d), el(getattr(v, "d" + k)[d]), ONE if q == i else ZERO))
                    out.append(("__init__ names", ONE if set(getattr(v, "d" + k)) == {"dx", "dy", "dz"} else ZERO, ONE))
                    out.append(("__init__ copies %s" % k, ONE if vs == "scalar" or getattr(v, k).root is not xs[i].root else ZERO, ONE))
                return out
            for name, got, want in under(R, c, post, "init"):
                R.eq("%s [%s]" % (name, vs), got, want, c, F + "__init__")


def arithmetic(R):
    import operator as op
    B_ = [("+", op.add), ("-", op.sub), ("*", op.mul), ("/", op.truediv)]
    IP = [("+=", op.iadd, op.add), ("-=", op.isub, op.sub), ("*=", op.imul, op.mul), ("/=", op.itruediv, op.truediv)]
    for vs in ("scalar", "array"):
        for rhs in ("vector", "number"):
            for sy, f, g in [(s, f, f) for s, f in B_] + IP:
                def run():
                    V = module()["DirectionVector"]
                    a = [arg(k, vs) for k in "xyz"]
                    b = [arg(k, vs) for k in ("u", "v", "w")] if rhs == "vector" else [sc("k")] * 3
                    va = V(*a)
                    vb = V(*b) if rhs == "vector" else b[0]
                    return a, b, va, vb, f(va, vb)
                for c, (a, b, va, vb, r), m in runs(run, the_ctx()):
                    def post():
                        activate(m)
                        out = []
                        for i, k in enumerate("xyz"):
                            out.append(("post %s" % k, el(getattr(r, k)), g(el(a[i]), el(b[i]))))
                            if sy in "+-*/":
                                out.append(("frame left %s" % k, el(getattr(va, k)), el(a[i])))
                            if rhs == "vector":
                                out.append(("frame right %s" % k, el(getattr(vb, k)), el(b[i])))
                        out.append(("frame caller", ONE if not m.foreign else ZERO, ONE))
                        return out
                    for name, got, want in under(R, c, post, sy):
                        R.eq("%s %s [%s]: %s" % (sy, rhs, vs, name), got, want, c, F + "arithmetic")

        def neg():
            V = module()["DirectionVector"]
            v = V(*[arg(k, vs) for k in "xyz"])
            return v, -v
        for c, (v, r), m in runs(neg, the_ctx()):
            def post():
                activate(m)
                return [("-vector %s" % k, el(getattr(r, k)), -el(getattr(v, k))) for k in "xyz"]
            for name, got, want in under(R, c, post, "neg"):
                R.eq("%s [%s]" % (name, vs), got, want, c, F + "arithmetic")


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def cross(R):
    E = [[ONE if i == k else ZERO for k in range(3)] for i in range(3)]
    for vs in ("scalar", "array"):
        def run():
            V = module()["DirectionVector"]
            a, b = V(*[arg(k, vs) for k in "xyz"]), V(*[arg(k, vs) for k in ("u", "v", "w")])
            return a, b, a.cross(b), a.cross_deriv_array(b, "p", "q"), (a.cross_deriv(b, "p", "q") if vs == "scalar" else None)
        for c, (a, b, r, da, ds), m in runs(run, the_ctx()):
            def post():
                activate(m)
                x, y = vec(a), vec(b)
                w = cross3(x, y)
                out = [("cross %s" % k, el(getattr(r, k)), w[i]) for i, k in enumerate("xyz")]
                for i in range(3):
                    for q, k in enumerate("xyz"):
                        wp, wq = cross3(E[q], y)[i], cross3(x, E[q])[i]
                        out.append(("cross_deriv_array d%d/dp%s" % (i, k), el(da[i]["dp" + k]), wp))
                        out.append(("cross_deriv_array d%d/dq%s" % (i, k), el(da[i]["dq" + k]), wq))
                        if ds is not None:
                            out.append(("cross_deriv d%d/dp%s" % (i, k), gen(ds[i]["p"], aff(q)), wp))
                            out.append(("cross_deriv d%d/dq%s" % (i, k), gen(ds[i]["q"], aff(q)), wq))
                return out
            for name, got, want in under(R, c, post, "cross"):
                R.eq("%s [%s]" % (name, vs), got, want, c, F + "cross")
