from common import *
import contextlib
import io
RULE = ("random rotors through the four OpenMDAO components (geometry, loads, twist in direct and inverse mode, evaluate), outputs and declared partials against the rotor object built directly from the same "
        "inputs; non-trivial always")
ASSUMPTIONS = ["OpenMDAO carries declared partials to totals", "gradients of the rotor object are right (C11, C12)"]
BUDGET = {"quick": 120, "thorough": 2000}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"geometry": 120 * k, "loads": 120 * k, "evaluate": 120 * k, "twist": 100 * k, "inverse": 80 * k})


PHYS = dict(r="m", chord="m", theta="deg", Rhub="m", Rtip="m", hub_height="m", precone="deg", tilt="deg", yaw="deg", precurve="m", precurveTip="m", presweep="m", presweepTip="m",
            rho="kg/m**3", mu="kg/(m*s)", shearExp=None, V_load="m/s", Omega_load="rpm", pitch_load="deg", azimuth_load="deg", airfoils_aoa="deg", airfoils_Re=None, airfoils_cl=None, airfoils_cd=None, airfoils_cm=None,
            Uhub="m/s", tsr=None, pitch="deg", theta_in="rad", aoa_op="rad", rthick=None, s_opt_theta=None)


def tables(g, n, nRe, ntab):
    a, _, _, _ = polar_data(g)
    Re = np.round(10 ** 5.5 * np.cumprod(g.uniform(1.5, 4, nRe)))
    cl, cd, cm = [np.zeros((n, len(a), nRe, ntab)) for _ in range(3)]
    for i in range(n):
        for t in range(ntab):
            _, l, dd, m = polar_data(g)
            for j in range(nRe):
                cl[i, :, j, t], cd[i, :, j, t], cm[i, :, j, t] = l * (1 + .05 * j), dd * (1 - .03 * j), m
    return a, Re, cl, cd, cm


def case_data(g, sweep=True):
    n = int(g.choice([3, 4, 5]))
    d = rotor(g, n)
    if d["precurve"] is None:
        d["precurve"], d["precurveTip"] = np.zeros(n), 0.3
    if d["presweep"] is None or not sweep:
        d["presweep"], d["presweepTip"] = np.zeros(n), 0.2 if sweep else 0.0
    d["B"] = int(g.choice([2, 3, 4]))
    return n, d


def options(n, T, ntab, inn=False):
    return {"WISDEM": {"RotorSE": dict(n_span=n, n_aoa=len(T[0]), n_Re=len(T[1]), n_tab=ntab, inn_af=inn)}}


def setup(comp, vals):
    import openmdao.api as om
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        p = om.Problem(reports=False)
        p.model.add_subsystem("comp", comp, promotes=["*"])
        p.setup()
        for k, v in vals.items():
            u = PHYS.get(k)
            if u:
                p.set_val(k, v, units=u)
            else:
                p.set_val(k, v)
        p.run_model()
    return p


def common_vals(d, T):
    v = dict(r=d["r"], chord=d["chord"], Rhub=d["Rhub"], Rtip=d["Rtip"], hub_height=d["hubHt"], precone=d["precone"], tilt=d["tilt"], yaw=d["yaw"], precurve=d["precurve"],
             precurveTip=d["precurveTip"], rho=d["rho"], mu=d["mu"], shearExp=d["shearExp"], nBlades=d["B"], nSector=d["nSector"], tiploss=d["tiploss"], hubloss=d["hubloss"],
             wakerotation=d["wakerotation"], usecd=d["usecd"], airfoils_aoa=T[0], airfoils_Re=T[1], airfoils_cl=T[2], airfoils_cd=T[3], airfoils_cm=T[4])
    return v


def direct_af(T, n, tab=0):
    from ccblade.ccblade import CCAirfoil
    return [CCAirfoil(T[0], T[1], T[2][i, :, :, tab], T[3][i, :, :, tab], T[4][i, :, :, tab]) for i in range(n)]


def get(p, k, units=None):
    return np.array(p.get_val(k, units=units))


GR = dict(r="dr", chord="dchord", theta="dtheta", Rhub="dRhub", Rtip="dRtip", hub_height="dhubHt", precone="dprecone", tilt="dtilt", yaw="dyaw", precurve="dprecurve", shearExp="dshear",
          V_load="dUinf", Omega_load="dOmega", pitch_load="dpitch", azimuth_load="dazimuth", presweep="dpresweep", precurveTip="dprecurveTip", presweepTip="dpresweepTip")


def check(case):
    from ccblade import ccblade_component as C
    g = rng_of(case)
    f = Fails()
    kind = case["kind"]
    if kind == "geometry":
        n = int(g.choice([1, 2, 5]))
        Rt, pc, ps, cone = g.uniform(5, 90), g.uniform(-3, 3, n), g.uniform(-3, 3, n), g.uniform(-15, 15)
        p = setup(C.CCBladeGeometry(n_span=n), {})
        for k, v, u in (("Rtip", Rt, "m"), ("precurve_in", pc, "m"), ("presweep_in", ps, "m"), ("precone", cone, "deg")):
            p.set_val(k, v, units=u)
        p.run_model()
        c, s = math.cos(math.radians(cone)), math.sin(math.radians(cone))
        ex = "Rtip=%r precurve=%r presweep=%r precone=%r" % (Rt, pc.tolist(), ps.tolist(), cone)
        R = Rt * c + pc[-1] * s
        for k, w in (("R", R), ("diameter", 2 * R), ("precurveTip", pc[-1]), ("presweepTip", ps[-1])):
            f.eq("CCBladeGeometry " + k, get(p, k, "m").ravel(), [w], 1e-12, 1e-13, ex)
        J = p.compute_totals(of=["R", "diameter", "precurveTip", "presweepTip"], wrt=["Rtip", "precurve_in", "presweep_in", "precone"])
        e = np.eye(n)[-1:]
        z = np.zeros((1, n))
        want = {("R", "Rtip"): [[c]], ("R", "precurve_in"): s * e, ("R", "presweep_in"): z, ("R", "precone"): [[(-Rt * s + pc[-1] * c) * math.pi / 180]], ("precurveTip", "precurve_in"): e,
                ("precurveTip", "Rtip"): [[0.]], ("precurveTip", "precone"): [[0.]], ("precurveTip", "presweep_in"): z, ("presweepTip", "presweep_in"): e, ("presweepTip", "precurve_in"): z,
                ("presweepTip", "Rtip"): [[0.]], ("presweepTip", "precone"): [[0.]]}
        for x in ("Rtip", "precurve_in", "presweep_in", "precone"):
            want["diameter", x] = 2 * np.asarray(want["R", x])
        for k, w in want.items():
            f.eq("CCBladeGeometry partial of %s with respect to %s" % k, J[k], w, 1e-12, 1e-13, ex)
        return True, f, dict(call=ex)
    n, d = case_data(g, sweep=kind != "loads")
    ntab = int(g.choice([1, 1, 2, 3]))
    T = tables(g, n, int(g.choice([1, 2, 3])), ntab)
    U, rpm, pitch = [float(v[0]) for v in conditions(g, d, 1)]
    rpm = max(abs(rpm), 1.0)
    V = common_vals(d, T)
    ex = "U=%r rpm=%r pitch=%r %r" % (U, rpm, pitch, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    import route
    if route.quiet(lambda: build(d, direct_af(T, n)).evaluate([U], [rpm], [pitch]))[1]:
        raise Skip      # a section without a solution: gradients are not defined
    if kind == "loads":
        az = float(g.uniform(-180, 180))
        V.update(theta=d["theta"], V_load=U, Omega_load=rpm, pitch_load=pitch, azimuth_load=az)
        p = setup(C.CCBladeLoads(modeling_options=options(n, T, ntab)), V)
        R = build(d, direct_af(T, n), derivatives=True)
        L, D = R.distributedAeroLoads(U, rpm, pitch, az)
        f.eq("CCBladeLoads loads_r", get(p, "loads_r", "m"), d["r"], 0, 0, ex)
        f.eq("CCBladeLoads loads_Px", get(p, "loads_Px", "N/m"), L["Np"], 1e-9, 1e-9, ex)
        f.eq("CCBladeLoads loads_Py", get(p, "loads_Py", "N/m"), -L["Tp"], 1e-9, 1e-9, ex)
        f.eq("CCBladeLoads loads_Pz", get(p, "loads_Pz", "N/m"), np.zeros(n), 0, 0, ex)
        wrt = ["r", "chord", "theta", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "shearExp", "V_load", "Omega_load", "pitch_load", "azimuth_load"]
        with contextlib.redirect_stdout(io.StringIO()):
            J = p.compute_totals(of=["loads_r", "loads_Px", "loads_Py", "loads_Pz"], wrt=wrt)
        for x in wrt:
            for o, w in (("loads_Px", D["dNp"][GR[x]]), ("loads_Py", -D["dTp"][GR[x]])):
                w = np.asarray(w).reshape(n, -1)
                f.eq("CCBladeLoads partial of %s with respect to %s" % (o, x), J[o, x], w, 1e-7, 1e-7 * (1 + np.abs(w).max()), ex)
            f.eq("CCBladeLoads partial of loads_r with respect to %s" % x, J["loads_r", x], np.eye(n) if x == "r" else np.zeros((n, n if x in ("chord", "theta", "precurve") else 1)), 0, 0, ex)
        return True, f, dict(call=ex[:300])
    V.update(presweep=d["presweep"], presweepTip=d["presweepTip"])
    if kind == "evaluate":
        V.update(theta=d["theta"], V_load=U, Omega_load=rpm, pitch_load=pitch)
        p = setup(C.CCBladeEvaluate(modeling_options=options(n, T, ntab)), V)
        af = direct_af(T, n)
        o, D = build(d, af, derivatives=True).evaluate([U], [rpm], [pitch], coefficients=True)
        units = dict(P="W", Mb="N*m", Fhub="N", Mhub="N*m", CP=None, CMb=None, CFhub=None, CMhub=None)
        mp = dict(P=["P"], Mb=["Mb"], Fhub=["T", "Y", "Z"], Mhub=["Q", "My", "Mz"], CP=["CP"], CMb=["CMb"], CFhub=["CT", "CY", "CZ"], CMhub=["CQ", "CMy", "CMz"])
        for k, u in units.items():
            f.eq("CCBladeEvaluate " + k, get(p, k, u).ravel(), np.ravel([o[q] for q in mp[k]]), 1e-9, 1e-9 * max(abs(np.ravel(o[q])[0]) for q in mp[k]), ex)
        wrt = [x for x in GR if x != "azimuth_load"]
        with contextlib.redirect_stdout(io.StringIO()):
            J = p.compute_totals(of=list(units), wrt=wrt + ["rho", "mu"])
        for k in units:
            for x in wrt:
                w = np.vstack([np.asarray(D["d" + q][GR[x]]).reshape(1, -1) for q in mp[k]])
                f.eq("CCBladeEvaluate partial of %s with respect to %s" % (k, x), J[k, x], w, 1e-7, 1e-8 * (1e-12 + np.abs(w).max()), ex)
        for x in ("rho", "mu"):
            def ev(q):
                dd = dict(d)
                dd[x] = d[x] * q
                r, _ = build(dd, af).evaluate([U], [rpm], [pitch], coefficients=True)
                return r
            a, b = ev(1 + 1e-3), ev(1 - 1e-3)
            a2, b2 = ev(1 + 1e-4), ev(1 - 1e-4)
            for k in units:
                w = np.array([(a[q][0] - b[q][0]) / (2e-3 * d[x]) for q in mp[k]]).reshape(-1, 1)
                w2 = np.array([(a2[q][0] - b2[q][0]) / (2e-4 * d[x]) for q in mp[k]]).reshape(-1, 1)
                # these partials are differences themselves: allow for the spread between two steps
                mag = max(abs(o[q][0]) for q in mp[k]) / d[x]
                f.eq("CCBladeEvaluate partial of %s with respect to %s" % (k, x), J[k, x], w2, 2e-2, 1e-3 * mag + 3 * float(np.abs(w - w2).max()), ex)
        return True, f, dict(call=ex[:300])
    # twist
    nopt = int(g.choice([2, 4, 6]))
    inv = kind == "inverse"
    opt = {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": 3}, "twist": {"n_opt": nopt, "inverse": inv, "flag": False}}}},
           "constraints": {"blade": {"stall": {"margin": 0.05}}}}
    tsr = float(g.uniform(4, 9))
    th = np.deg2rad(d["theta"])
    s_opt = np.sort(g.uniform(0, 1, nopt))
    V.update(Uhub=U, tsr=tsr, pitch=pitch, theta_in=th, s_opt_theta=s_opt)
    inn = bool(inv and nopt > 2 and g.uniform() < 0.3)
    if inn:
        s_opt = np.r_[0.0, np.sort(g.uniform(0.05, 0.95, nopt - 2)), 1.0]
        V.update(s_opt_theta=s_opt)
    if inv:
        al = np.deg2rad(g.uniform(2, 9, n))
        free = g.uniform(size=n) < 0.3          # no angle asked for: the stall angle less the margin
        root = int(g.randint(0, n))      # sections of the root thicker than 95 %
        thick = np.where(np.arange(n) < root, g.uniform(95, 100, n), g.uniform(15, 95, n))
        if root < n - 1 and g.uniform() < 0.3:
            thick[-1] = 97.0
        thick[root] = min(thick[root], 94.9)
        V.update(aoa_op=np.where(free, math.pi, al), rthick=thick)
        ex += " aoa_op=%r rthick=%r smoothed=%r" % (V["aoa_op"].tolist(), thick.tolist(), inn)
        # a polar of a thin airfoil may have no stall angle the scan can find: then none is asked for
        Ri = build(d, direct_af(T, n, ntab // 2 if ntab > 1 else 0))
        for i in range(n):
            if free[i]:
                try:
                    Ri.af[i].eval_unsteady(T[0], T[2][i, :, 0, 0], T[3][i, :, 0, 0], T[4][i, :, 0, 0])
                except Exception:
                    raise Skip
                al[i] = math.radians(Ri.af[i].unsteady["alpha1"]) - 0.05
    p = setup(C.CCBladeTwist(modeling_options=options(n, T, ntab, inn), opt_options=opt), V)
    rpm = tsr * U / d["r"][-1] * 30 / math.pi
    if inv:
        th = get(p, "theta", "rad")
        Ri.inverse_analysis = True
        Re = tsr * U / d["r"][-1] * d["r"] * d["chord"] * d["rho"] / d["mu"]
        cc = [a.evaluate(x, R) for a, x, R in zip(Ri.af, al, Re)]
        Ri.alpha = np.where(np.arange(n) < root, al[root], al)
        Ri.cl, Ri.cd = np.array([float(c[0]) for c in cc]), np.array([float(c[1]) for c in cc])
        Ri.theta = np.zeros(n)
        Ri.evaluate([U], [rpm], [pitch], coefficients=False)
        w = np.array(Ri.theta)
        big = [i for i in range(n) if w[i] > math.radians(20)]
        if big:
            w[:big[-1] + 1] = math.radians(20)
        if inn:
            from scipy.interpolate import PchipInterpolator as Spl
            s = (d["r"] - d["r"][0]) / (d["r"][-1] - d["r"][0])
            w = Spl(s_opt, Spl(s, w)(s_opt))(s)
        f.eq("CCBladeTwist inverse twist", th, w, 1e-7, 1e-8, ex)
        d = dict(d, theta=np.rad2deg(th))
    tab = ntab // 2 if ntab > 1 else 0
    R = build(d, direct_af(T, n, tab))
    L, _ = R.distributedAeroLoads(U, rpm, pitch, 0.0)
    o, _ = R.evaluate([U], [rpm], [pitch], coefficients=True)
    s = (d["r"] - d["r"][0]) / (d["r"][-1] - d["r"][0])
    itp = lambda q: np.array([np.interp(x, s, q) for x in s_opt])
    phi = th + np.deg2rad(L["alpha"] + pitch)
    lift, drag = L["Np"] * np.cos(phi) + L["Tp"] * np.sin(phi), L["Np"] * np.sin(phi) - L["Tp"] * np.cos(phi)
    want = dict(theta=("rad", th), CP=(None, o["CP"]), CM=(None, o["CMb"]), P=("W", o["P"]), T=("N", o["T"]), Q=("N*m", o["Q"]), M=("N*m", o["Mb"]), a=(None, L["a"]), ap=(None, L["ap"]), alpha=("deg", L["alpha"]),
                cl=(None, L["Cl"]), cd=(None, L["Cd"]), cl_n_opt=(None, itp(L["Cl"])), cd_n_opt=(None, itp(L["Cd"])), Px_b=("N/m", L["Np"]), Py_b=("N/m", -L["Tp"]), Pz_b=("N/m", np.zeros(n)),
                Px_af=("N/m", L["Np"] * np.cos(th) + L["Tp"] * np.sin(th)), Py_af=("N/m", L["Np"] * np.sin(th) - L["Tp"] * np.cos(th)), Pz_af=("N/m", np.zeros(n)), LiftF=("N/m", lift), DragF=("N/m", drag),
                L_n_opt=("N/m", itp(lift)), D_n_opt=("N/m", itp(drag)), local_airfoil_velocities=("m/s", np.nan_to_num(o["W"])))
    for k, (u, w) in want.items():
        f.eq("CCBladeTwist " + k, get(p, k, u).ravel(), np.ravel(w), 1e-8, 1e-9 * (1e-9 + np.max(np.abs(w))), ex)
    # dynamic pressure times chord times coefficients
    W = L["W"]
    f.eq("CCBladeTwist lift force", get(p, "LiftF").ravel(), .5 * d["rho"] * W ** 2 * d["chord"] * L["Cl"], 1e-7, 1e-6, ex)
    return True, f, dict(call=ex[:300])
