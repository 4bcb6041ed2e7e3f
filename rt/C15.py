from afp import *
RULE = ("random polars on different and shared angle grids, weights in [0,1] incl. both ends, airfoils of 1..5 Reynolds numbers given in any order, lookups below, at, between and above the stored ones; "
        "non-trivial when the two polars differ and overlap; oracle: piecewise linear interpolation re-derived in rt/afp.py")


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"blend": 600 * k, "lookup": 500 * k, "afblend": 200 * k, "grid": 300 * k})


def check(case):
    from ccblade.airfoilprep import Airfoil
    g = rng_of(case)
    f = Fails()
    k = case["kind"]
    if k == "blend":
        a = gen_polar(g)
        b = gen_polar(g)
        if g.rand() < .3:
            b["alpha"] = np.interp(np.linspace(0, 1, len(b["alpha"])), np.linspace(0, 1, len(a["alpha"])), a["alpha"])
        if g.rand() < .3:
            m = min(len(a["alpha"]), len(b["alpha"]))
            b = {q: (v if q == "Re" else v[:m]) for q, v in b.items()}
            b["alpha"] = a["alpha"][:m].copy()
        w = float(g.choice([0.0, 1.0, g.uniform(0, 1), g.uniform(0, 1)]))
        p, q = mk(a), mk(b)
        ex = "weight %r of %s and %s" % (w, show(a), show(b))
        want = blend(a, b, w)
        r = p.blend(q, w)
        same(f, "Polar.blend post", r, want, ex=ex)
        same(f, "Polar.blend frame (self)", p, a, 0, 0, ex)
        same(f, "Polar.blend frame (other)", q, b, 0, 0, ex)
        if w in (0.0, 1.0):
            src = a if w == 0 else b
            f.eq("Polar.blend weight %g" % w, r.cl, lerp(r.alpha, src["alpha"], src["cl"]), 1e-12, 1e-13, ex)
        return len(want["alpha"]) > 1, f, dict(weight=w, n=len(r.alpha))
    af = gen_airfoil(g)
    A = Airfoil([mk(p) for p in af])
    ps = sorted(af, key=lambda p: p["Re"])
    Re = [p["Re"] for p in ps]
    if k == "lookup":
        f.eq("Airfoil sorted by Re", [p.Re for p in A.polars], Re, 0, 0)
        R = float(g.choice([Re[0], Re[-1], Re[g.randint(len(Re))], Re[0] * g.uniform(.1, .99), Re[-1] * g.uniform(1.01, 9), g.uniform(Re[0], Re[-1]), g.uniform(Re[0], Re[-1]), g.uniform(Re[0], Re[-1])]))
        ex = "Re=%r of stored %r (%s)" % (R, Re, " / ".join(show(p) for p in ps))
        r = A.getPolar(R)
        same(f, "Airfoil.getPolar post", r, get(af, R), 1e-11, 1e-12, ex)
        if not Re[0] < R < Re[-1]:
            f.true("Airfoil.getPolar copy", not any(r is p or np.shares_memory(r.cl, p.cl) for p in A.polars), ex)
        r.cl[...] = 99
        r.alpha[...] = 7
        for p, d in zip(A.polars, ps):
            same(f, "Airfoil.getPolar frame", p, d, 0, 0, ex)
        return len(Re) > 1, f, dict(Re=R, stored=Re)
    if k == "afblend":
        bf = gen_airfoil(g)
        if g.rand() < .4:
            bf[0]["Re"] = af[0]["Re"]
        w = float(g.uniform(0.02, 0.98))    # at the ends several blended polars share a Reynolds number and their order is not specified
        Bf = Airfoil([mk(p) for p in bf])
        C = A.blend(Bf, w)
        allRe = sorted(set(p["Re"] for p in af + bf))
        want = sorted((blend(get(af, R), get(bf, R), w) for R in allRe), key=lambda d: d["Re"])
        ex = "weight %r of [%s] and [%s]" % (w, " / ".join(map(show, af)), " / ".join(map(show, bf)))
        if f.true("Airfoil.blend number of polars", len(C.polars) == len(want), ex):
            for p, d in zip(C.polars, want):
                same(f, "Airfoil.blend post", p, d, 1e-11, 1e-12, ex)
        for p, d in zip(A.polars, ps):
            same(f, "Airfoil.blend frame", p, d, 0, 0, ex)
        return True, f, dict(Re=allRe, weight=w)
    # grid
    alpha, R, cl, cd, cm = A.createDataGrid()
    ex = " / ".join(map(show, af))
    al = np.array(sorted(set(x for p in af for x in p["alpha"].tolist())))
    f.eq("createDataGrid alpha", alpha, al, 0, 0, ex)
    f.eq("createDataGrid Re", R, Re, 0, 0, ex)
    for nm, M in (("cl", cl), ("cd", cd), ("cm", cm)):
        f.eq("createDataGrid " + nm, M, np.stack([lerp(al, p["alpha"], p[nm]) for p in ps], axis=1), 1e-12, 1e-13, ex)
    x = np.sort(g.uniform(-50, 70, int(g.choice([1, 5, 30]))))
    C = A.interpToCommonAlpha(x.copy())
    for p, d in zip(C.polars, ps):
        same(f, "interpToCommonAlpha post", p, dict(Re=d["Re"], alpha=x, **{q: lerp(x, d["alpha"], d[q]) for q in KEYS[1:]}), ex=ex)
    for p, d in zip(A.polars, ps):
        same(f, "createDataGrid frame", p, d, 0, 0, ex)
    return len(Re) > 1, f, dict(Re=Re, n=len(al))
