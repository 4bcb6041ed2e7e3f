from common import *
import gradients
RULE = ("random rotors, 1..4 conditions per call, axisymmetric or not, all sector settings; totals recomputed from the distributed loads by the specified trapezoids and azimuth average; "
        "each condition evaluated alone must give the same; non-trivial always")
BUDGET = {"quick": 60, "thorough": 1000}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"totals": 120 * k, "axisymmetric": 60 * k, "one of the three": 40 * k})


def check(case):
    g = rng_of(case)
    f = Fails()
    n = int(g.choice([2, 3, 5]))
    d = rotor(g, n, axisym=case["kind"] != "totals", at_ends=g.rand() < .3)
    if case["kind"] == "one of the three":
        k = ["tilt", "yaw", "shearExp"][g.randint(3)]
        d[k] = g.uniform(0.05, 0.2) * (1 if k == "shearExp" else 50)
    af = gradients.airfoils(g, n)
    m = int(g.choice([1, 2, 3, 4]))
    U, Om, pitch = conditions(g, d, m)
    if g.rand() < .2:
        Om[g.randint(m)] = 0.0
    ex = "conditions=%r rotor=%r" % ([U.tolist(), Om.tolist(), pitch.tolist()], {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    import io, contextlib
    with warnings.catch_warnings(record=True) as wn, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        R = build(d, af)
        o, D = R.evaluate(U, Om, pitch, coefficients=True)
        o2, _ = build(d, af).evaluate(U, Om, pitch)
        sizes = {k: np.shape(v) for k, v in o.items()}
        axi = d["tilt"] == 0 and d["yaw"] == 0 and d["shearExp"] == 0
        ns = 1 if axi else max(4, d["nSector"])
        r, pc, ps, pct, pst = effective(d)
        Rr = d["Rtip"] * math.cos(math.radians(d["precone"])) + pct * math.sin(math.radians(d["precone"]))
        A = math.pi * Rr ** 2
        for c in range(m):
            tot = np.zeros(7)
            mag = 0
            for s in range(ns):
                psi = 2 * math.pi * s / ns
                L, _ = build(d, af).distributedAeroLoads(float(U[c]), float(Om[c]), float(pitch[c]), math.degrees(psi))
                t = thrust(L["Np"], L["Tp"], r, pc, ps, math.radians(d["precone"]), d["Rhub"], d["Rtip"], pct, pst)
                mag = max(mag, np.abs(t).max())
                ca, sa = math.cos(psi), math.sin(psi)
                # blade frame at azimuth psi carried into the hub frame, all blades
                tot += np.array([d["B"] * t[0], d["B"] * (t[1] * ca - t[2] * sa), d["B"] * (t[2] * ca + t[1] * sa), d["B"] * t[3],
                                 d["B"] * t[4] * ca, d["B"] * t[4] * sa, t[4]]) / ns
            w = dict(zip(["T", "Y", "Z", "Q", "My", "Mz", "Mb"], tot))
            w["P"] = w["Q"] * Om[c] * math.pi / 30
            q = 0.5 * d["rho"] * U[c] ** 2
            for k, v in w.items():
                at = 1e-9 * mag * (abs(Om[c]) + 1)
                f.eq("total " + k, o[k][c], v, 1e-8, at, "condition %d %s" % (c, ex))
                f.eq("totals do not depend on asking for coefficients", o2[k][c], o[k][c], 0, 0, k)
                den = q * A * (U[c] if k == "P" else 1) * (Rr if k in ("Q", "My", "Mz", "Mb") else 1)
                f.eq("coefficient C" + k, o["C" + k][c], v / den, 1e-8, at / den, "condition %d %s" % (c, ex))
            o1, _ = build(d, af).evaluate([U[c]], [Om[c]], [pitch[c]], coefficients=True)
            for k in o:
                if k != "W":
                    f.eq("condition independent of the others", o1[k][0], o[k][c], 0, 0, "%s condition %d %s" % (k, c, ex))
    for k, sh in sizes.items():
        if k != "W":
            f.true("one value per condition", sh == (m,), "%s %r" % (k, sh))
    return True, f, dict(T=o["T"].tolist(), sectors=ns)
