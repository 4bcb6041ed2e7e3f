from sect import *
FC, FW = "bem.f90:DEFINECURVATURE_DV", "bem.f90:WINDCOMPONENTS_DV"
TRUSTED = ["symbolic differentiation (lib/ir.py:diff)"]
ASSUMPTIONS = ["two or more sections, no two successive sections at one point (the cone angle has no derivative there), sections above ground",
               "real arithmetic", "directions are processed independently (checked by the executor: no value of one direction reaches another)"]
VEC = ("r", "precurve", "presweep")


def tasks(tier):
    subs = load_fortran()
    out = [("DEFINECURVATURE_DV", lambda R: curv(R, subs)), ("WINDCOMPONENTS_DV", lambda R: wind(R, subs))]
    for part in ("scalars", "vectors"):
        for ld in ("Np", "Tp"):
            out.append(("call: %s %s" % (part, ld), lambda R, part=part, ld=ld: call(R, subs, part, ld)))
    return out


def call(R, subs, part, load):
    """the Python caller takes the right derivatives from the kernels: the loads of a
    parked rotor, explicit functions of the velocities, have their derivatives"""
    import C11
    C11.grads(R, subs, False, part, [load], only={"dr", "dprecurve", "dpresweep", "dprecone", "dtilt", "dhubHt", "dyaw", "dshear", "dazimuth", "dUinf", "dOmega"})


def dseed(k):
    return sym(k + "d")


def dtotal(e):
    """directional derivative of a term over sections"""
    return diff(e, lambda k: sym(k.a[0] + "d") if k.a[0] in G else ZERO, lambda k, i: elem(k + "d", i) if k in VEC else ZERO)


def darr(k):
    return Array(k + "d", n_, lambda i: elem(k + "d", i), lane=True)


def curv(R, subs):
    u = subs["definecurvature_dv"]

    def run():
        r = Exec(subs).call("definecurvature_dv", [n_, arr("r"), darr("r"), arr("precurve"), darr("precurve"), arr("presweep"), darr("presweep"), G["precone"], dseed("precone")]
                            + [None] * 9 + [ivar("nbdirs")], lane=u.args[-1])
        o = dict(zip(["x", "xd", "y", "yd", "z", "zd", "cone", "coned", "s"], [r[k] for k in u.args[-10:-1]]))
        p = call_curv(subs)
        out = []
        for k in ("x", "y", "z", "cone"):
            pv = p[k].get(j_)
            out += [("value " + k, o[k].get(j_), pv), ("derivative " + k, o[k + "d"].get(j_), dtotal(pv))]
        out.append(("value s", o["s"].get(j_), p["s"].get(j_)))
        return out
    for c, res in explore(run, sect_ctx()):
        for k, got, want in res:
            R.eq("DEFINECURVATURE_DV [%s]: %s" % (iname(c), k), got, want, c, FC, dict(kernel="definecurvature_dv", out=k))


def call_dv(subs, checks=None):
    u = subs["windcomponents_dv"]
    a = [n_]
    for k in VEC:
        a += [arr(k), darr(k)]
    for k in WIND_IN:
        a += [G[k], dseed(k)]
    r = Exec(subs, checks=checks).call("windcomponents_dv", a + [None] * 4 + [ivar("nbdirs")], lane=u.args[-1])
    return dict(zip(["vx", "vxd", "vy", "vyd"], [r[k] for k in u.args[-5:-1]]))


def wind(R, subs):
    def run():
        o = call_dv(subs)
        px, py = call_wind(subs)
        out = []
        for k, p in (("vx", px.get(j_)), ("vy", py.get(j_))):
            out += [("value " + k, o[k].get(j_), p), ("derivative " + k, o[k + "d"].get(j_), dtotal(p))]
        return out
    c0 = sect_ctx()
    az = spec_az(j_, blade_arrays(), G["precone"])
    h = hub_to_yaw(azimuth_to_hub(az, G["azimuth"]), G["tilt"])[2]
    c0.assume(*cmp_("<", ZERO, 1 + h / G["hubht"]))
    for c, res in explore(run, c0):
        for k, got, want in res:
            R.eq("WINDCOMPONENTS_DV [%s]: %s" % (iname(c), k), got, want, c, FW, dict(kernel="windcomponents_dv", out=k))
