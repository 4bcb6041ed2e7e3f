"""Gradients of the rotor analysis against differences of the analysis itself."""
from common import *

VEC = {"dr": "r", "dchord": "chord", "dtheta": "theta", "dprecurve": "precurve", "dpresweep": "presweep"}
SCA = {"dRhub": "Rhub", "dRtip": "Rtip", "dprecone": "precone", "dtilt": "tilt", "dhubHt": "hubHt", "dyaw": "yaw", "dshear": "shearExp",
       "dprecurveTip": "precurveTip", "dpresweepTip": "presweepTip"}
CON = {"dUinf": 0, "dOmega": 1, "dpitch": 2, "dazimuth": 3}


def scale(d, name):
    n = len(d["r"])
    L = d["Rtip"] - d["Rhub"]
    return {"r": L / n / 30, "chord": 0.1, "theta": 1.0, "precurve": L / n / 30, "presweep": L / n / 30, "Rhub": 0.02 * d["Rhub"] * 0.5, "Rtip": L / n / 60,
            "precone": 1.0, "tilt": 1.0, "hubHt": d["hubHt"] / 20, "yaw": 1.0, "shearExp": 0.02, "precurveTip": L / n / 20, "presweepTip": L / n / 20,
            "Uinf": 0.3, "Omega": 0.3, "pitch": 0.5, "azimuth": 3.0}[name]


def full(d):
    d = dict(d)
    n = len(d["r"])
    if d["precurve"] is None:
        d["precurve"], d["precurveTip"] = np.zeros(n), 0.2       # a tip equal to the last section would be moved by the constructor
    if d["presweep"] is None:
        d["presweep"], d["presweepTip"] = np.zeros(n), -0.15
    return d


def pert(d, cond, key, j, h):
    d = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    cond = [np.array(c, float) for c in cond]
    if key in VEC:
        d[VEC[key]][j] += h * scale(d, VEC[key])
    elif key in SCA:
        d[SCA[key]] = d[SCA[key]] + h * scale(d, SCA[key])
    else:
        nm = ["Uinf", "Omega", "pitch", "azimuth"][CON[key]]
        if cond[CON[key]].ndim:
            cond[CON[key]][j] += h * scale(d, nm)
        else:
            cond[CON[key]] = cond[CON[key]] + h * scale(d, nm)
    return d, cond


def sc_of(d, key):
    if key in VEC:
        return scale(d, VEC[key])
    if key in SCA:
        return scale(d, SCA[key])
    return scale(d, ["Uinf", "Omega", "pitch", "azimuth"][CON[key]])


def diff4(fun, h=4e-3):
    p1, m1, p2, m2 = fun(h), fun(-h), fun(2 * h), fun(-2 * h)
    d = (8 * (p1 - m1) - (p2 - m2)) / (12 * h)
    d2 = (p1 - m1) / (2 * h)
    return d, np.abs(d - d2), np.max(np.abs(p1 - p2))


def near_jump(fun, got, bad, tol):
    """the stencil crosses a jump to another solution: with a smaller step the differences agree with the gradient"""
    for h in (4e-4, 4e-5, 4e-6):
        d = (fun(h) - fun(-h)) / (2 * h)
        if np.all((np.abs(got - d) <= tol + 1e-3 * np.abs(d))[bad]):
            return True
    return False


def airfoils(g, n, kind=None):
    kind = kind or g.choice(["smooth", "smooth", "spline"])
    if kind == "smooth":
        return [smooth_af(g) for _ in range(n)]
    import ccblade.ccblade as M
    Res = [] if g.rand() < .5 else [1e5, 1e6, 1e7, 1e8]
    a, cl, cd, cm = polar_data(g)
    if Res:
        cl = np.c_[cl, cl * 1.02, cl * 1.05, cl * 1.06]
        cd = np.c_[cd * 1.1, cd * 1.03, cd, cd * .98]
    af = M.CCAirfoil(a, Res, cl, cd)
    return [af] * n


def loads(d, af, cond, derivs=False):
    R = build(d, af, derivatives=derivs)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        L, D = R.distributedAeroLoads(float(cond[0]), float(cond[1]), float(cond[2]), float(cond[3]))
        if any("check input" in str(x.message) for x in w):
            raise Skip
    return L, D


def distributed(g, f, only=None, prefix="gradient", parked=False, nmax=6):
    n = int(g.choice([2, 3, 4, 5, nmax]))
    d = full(rotor(g, n, axisym=bool(g.rand() < .15)))
    af = airfoils(g, n)
    U, Om, pitch = [float(v[0]) for v in conditions(g, d)]
    if parked:
        Om = 0.0
    az = azimuth_of(g, d) if g.rand() < 0.85 else low_hub(g, d)
    cond = [U, Om, pitch, az]
    L, D = loads(d, af, cond, True)
    L0, D0 = loads(d, af, cond)
    for k in L0:
        f.eq("loads do not change when gradients are turned on", L[k], L0[k], 0, 0, k)
    f.true("no gradients unless asked for", not D0, "%r" % (list(D0),))
    base = max(np.abs(L0["Np"]).max(), np.abs(L0["Tp"]).max())
    if np.any(L0["Np"] == 0) or not np.all(np.isfinite(L0["Np"])):
        raise Skip
    ex = "n=%d conditions=%r rotor=%r" % (n, cond, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    keys = list(only) if only else list(VEC) + [k for k in SCA if k not in ("dprecurveTip", "dpresweepTip")] + list(CON)
    for key in keys:
        js = range(n) if key in VEC else [None]
        if key == "dOmega" and parked:
            continue
        for w in ("Np", "Tp"):
            if "d" + w not in D or key not in D["d" + w]:
                f.append(dict(obligation="%s d%s[%s] present" % (prefix, w, key), msg=ex))
                return True, f, {}
            J = np.asarray(D["d" + w][key])
            if not f.true("%s d%s[%s] shape" % (prefix, w, key), J.shape == ((n, n) if key in VEC else (n, 1)), "%r" % (J.shape,)):
                return True, f, {}
        for j in js:
            def fun(h):
                dd, cc = pert(d, cond, key, j, h)
                l, _ = loads(dd, af, cc)
                return np.r_[l["Np"], l["Tp"]]
            fd, err, step = diff4(fun)
            if step > 0.3 * base:
                continue        # crossed a kink or another root: not differentiable there
            got = np.r_[D["dNp"][key][:, j if j is not None else 0], D["dTp"][key][:, j if j is not None else 0]] * sc_of(d, key)
            bad = ~(np.abs(got - fd) <= 3 * err + 1e-5 * base + 1e-4 * np.abs(fd))
            if np.any(bad):
                # a kink inside the stencil shows in the one-sided slopes
                p, z, m = fun(1e-3), fun(0.0), fun(-1e-3)
                kink = np.abs((p - z) - (z - m)) / 1e-3
                if np.all(np.abs(got - fd)[bad] <= 2 * kink[bad]) or near_jump(fun, got, bad, 1e-4 * base):
                    continue
                i = int(np.argmax(np.where(bad, np.abs(got - fd), 0)))
                f.append(dict(obligation="%s d%s[%s]" % (prefix, "Np" if i < n else "Tp", key),
                              msg="element (%d, %s): returned %r, differences %r; %s" % (i % n, j, got[i] / sc_of(d, key), fd[i] / sc_of(d, key), ex[:1500])))
                break
    return True, f, dict(n=n, condition=cond)


TOT = ["P", "T", "Y", "Z", "Q", "My", "Mz", "Mb"]


def evaluate(d, af, cond, derivs=False, nsector=None):
    R = build(d, af, derivatives=derivs)
    if nsector:
        R.nSector = nsector
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o, D = R.evaluate(cond[0], cond[1], cond[2], coefficients=True)
        if any("check input" in str(x.message) for x in w):
            raise Skip
    return o, D


def totals(g, f, m=None, axisym=None, zero_rpm=False, keys=None, prefix="gradient"):
    n = int(g.choice([2, 3, 4]))
    axisym = bool(g.rand() < .4) if axisym is None else axisym
    d = full(rotor(g, n, axisym=axisym))
    axisym = d["tilt"] == 0 and d["yaw"] == 0 and d["shearExp"] == 0
    d["nSector"] = 4 if g.rand() < .6 else 5
    af = airfoils(g, n, "smooth")
    m = m or int(g.choice([1, 2, 3]))
    cond = [np.array(v) for v in conditions(g, d, m)]
    if zero_rpm:
        cond[1][g.randint(m)] = 0.0
    o, D = evaluate(d, af, cond, True)
    o0, D0 = evaluate(d, af, cond)
    names = TOT + ["C" + k for k in TOT]
    for k in names:
        f.eq("totals do not change when gradients are turned on", o[k], o0[k], 0, 0, k)
    f.true("no gradients unless asked for", not D0, "")
    ex = "n=%d conditions=%r rotor=%r" % (n, [v.tolist() for v in cond], {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items()})
    for k in names:
        for key in list(VEC) + list(SCA) + ["dUinf", "dOmega", "dpitch"]:
            if "d" + k not in D or key not in D["d" + k]:
                f.append(dict(obligation="%s d%s[%s] present" % (prefix, k, key), msg=""))
                return True, f, {}
            J = np.asarray(D["d" + k][key])
            sh = (m, n) if key in VEC else ((m, m) if key in CON else (m, 1))
            if not f.true("%s d%s[%s] shape" % (prefix, k, key), J.shape == sh, "%r, documented %r" % (J.shape, sh)):
                return True, f, {}
            f.true("%s d%s[%s] finite" % (prefix, k, key), np.all(np.isfinite(J)), "%r %s" % (J, ex[:1200]))
    for key in list(VEC) + list(SCA) + ["dUinf", "dOmega", "dpitch"]:
        dP, dQ = np.asarray(D["dP"][key]), np.asarray(D["dQ"][key])
        # power is torque times rotation speed, so its gradient follows from that of the torque
        want = dQ * (cond[1] * math.pi / 30)[:, None] + (np.diag(o0["Q"]) * math.pi / 30 if key == "dOmega" else 0.0)
        f.eq("%s dP[%s] from that of the torque" % (prefix, key), dP, want, 1e-9, 1e-9 * (np.abs(want).max() + np.abs(o0["Q"]).max() * 1e-3 * (key == "dOmega")), ex[:1200])
    if f:
        return True, f, {}
    base = np.array([np.abs(o0[k]) for k in names])           # per total and condition
    nf = {k: np.abs(o0["T"]).max() * (1 if k in "TYZ" else d["Rtip"]) for k in TOT}
    todo = [(k, j) for k in VEC for j in [int(g.randint(n))]] + [(k, 0) for k in SCA] + [(k, int(g.randint(m))) for k in ("dUinf", "dOmega", "dpitch")]
    if keys:
        todo = [t for t in todo if t[0] in keys]
    for key, j in todo:
        if key == "dOmega" and zero_rpm and cond[1][j] == 0:
            continue

        def fun(h):
            dd, cc = pert(d, cond, key, j, h)
            oo, _ = evaluate(dd, af, cc)
            return np.array([oo[k] for k in names])
        fd, err, step = diff4(fun)
        got = np.array([np.asarray(D["d" + k][key])[:, j] for k in names]) * sc_of(d, key)
        q = 0.5 * d["rho"] * cond[0] ** 2 * math.pi * d["Rtip"] ** 2
        ref = np.array([np.full(m, np.abs(o0["T"]).max() * (d["Rtip"] if k in ("Q", "My", "Mz", "Mb") else 1) * (np.abs(cond[1]).max() * .1 * d["Rtip"] if k == "P" else 1)) for k in TOT] +
                       [np.full(m, np.abs(o0["CT"]).max() * (1 if k != "P" else np.abs(o0["CP"]).max() / max(np.abs(o0["CT"]).max(), 1e-9) + .1)) for k in TOT])
        bad = ~(np.abs(got - fd) <= 3 * err + 2e-5 * ref + 1e-4 * np.abs(fd))
        if np.any(bad):
            p, z, mm = fun(1e-3), fun(0.0), fun(-1e-3)
            kink = np.abs((p - z) - (z - mm)) / 1e-3
            if np.all(np.abs(got - fd)[bad] <= 2 * kink[bad]) or near_jump(fun, got, bad, 1e-4 * ref):
                continue
            i, c = np.argwhere(bad)[0]
            if axisym and key in ("dtilt", "dyaw", "dshear"):
                # the azimuth average is needed once the perturbed inflow is not axisymmetric, but a single sector is differentiated
                def fun1(h):
                    dd, cc = pert(d, cond, key, j, h)
                    oo, _ = evaluate(dd, af, cc, nsector=1)
                    return np.array([oo[k] for k in names])
                fd1, err1, _ = diff4(fun1)
                if np.all(np.abs(got - fd1) <= 3 * err1 + 2e-5 * ref + 1e-4 * np.abs(fd1)):
                    f.append(dict(obligation="%s d*[%s] at an axisymmetric inflow" % (prefix, key), finding="axisymmetric-sector",
                                  msg="d%s: returned %r, differences %r" % (names[i], got[i, c] / sc_of(d, key), fd[i, c] / sc_of(d, key))))
                    continue
            f.append(dict(obligation="%s d%s[%s]" % (prefix, names[i], key), msg="row %d column %d: returned %r, differences %r; %s" % (
                c, j, got[i, c] / sc_of(d, key), fd[i, c] / sc_of(d, key), ex[:1500])))
    return True, f, dict(n=n, conditions=[v.tolist() for v in cond])
