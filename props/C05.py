from sect import *
FC, FW = "bem.f90:defineCurvature", "bem.f90:windComponents"
TRUSTED = ["the documented rotations and the wind profile as written in lib/sect.py"]
ASSUMPTIONS = ["two or more sections", "real arithmetic; x**y of a positive base", "f2py hands the arrays of equal length through unchanged (exercised by the runtime contracts)"]


def tasks(tier):
    subs = load_fortran()
    return [("defineCurvature", lambda R: curv(R, subs)), ("windComponents", lambda R: wind(R, subs)), ("public transformations", chain), ("call", lambda R: call(R, subs))]


def chain(R):
    """the specification's frame changes are those of the public DirectionVector, in degrees"""
    import C06
    import pymods
    deg = lambda nm: pymods.V(sym(nm) * 180 / PI)
    x = [sym(k) for k in "xyz"]
    f = "csystem.py:DirectionVector"

    def run():
        D = C06.module()["DirectionVector"]
        vs = lambda: D(*[pymods.V(q) for q in x])
        w = vs().windToYaw(deg("yaw")).yawToHub(deg("tilt")).hubToAzimuth(deg("azimuth")).azimuthToBlade(deg("cone"))
        h = vs().bladeToAzimuth(deg("precone")).azimuthToHub(deg("azimuth")).hubToYaw(deg("tilt"))
        b = vs().azimuthToBlade(deg("cone"))
        return [[pymods.gen(getattr(q, k)) for k in "xyz"] for q in (w, h, b)]
    s = {k: sym(k) for k in ("yaw", "tilt", "azimuth", "cone", "precone")}
    want = [azimuth_to_blade(hub_to_azimuth(yaw_to_hub(wind_to_yaw(x, s["yaw"]), s["tilt"]), s["azimuth"]), s["cone"]),
            hub_to_yaw(azimuth_to_hub(blade_to_azimuth(x, s["precone"]), s["azimuth"]), s["tilt"]), azimuth_to_blade(x, s["cone"])]
    for c, got, m in pymods.runs(run, pymods.base(lambda k: (-2, 2))):
        for nm, g, w in zip(("wind to blade", "blade to yaw", "azimuth to blade"), got, want):
            for k, a, b in zip("xyz", g, w):
                R.eq("public transformations: %s %s" % (nm, k), a, b, c, f)


def call(R, subs):
    """distributedAeroLoads hands windComponents the rotor's geometry and the angles in
    radians, and solves and loads every section with the velocities it returns"""
    import C04
    f = "ccblade.py:CCBlade.distributedAeroLoads"
    for rot in (True, False):
        for d in (False, True):
            C04.sections(R, subs, 1, d, rot, keys=("a", "alpha", "W"), func=f)


def curv(R, subs):
    A = blade_arrays()

    def run():
        o = call_curv(subs)
        az = spec_az(j_, A, G["precone"])
        return [("x_az", o["x"].get(j_), az[0]), ("y_az", o["y"].get(j_), az[1]), ("z_az", o["z"].get(j_), az[2]), ("cone", o["cone"].get(j_), spec_cone(j_, A, G["precone"], n_))]
    for c, res in explore(run, sect_ctx()):
        for k, got, want in res:
            R.eq("defineCurvature [%s]: post %s(j)" % (iname(c), k), got, want, c, FC, dict(kernel="definecurvature", out=k))

    def length():
        return call_curv(subs)["s"].get(j_), lsum(lambda i: spec_ds(i, A), aff(1), j_ - 1)
    for c, (got, want) in explore(length, sect_ctx()):
        SEEDS[0] = {"r"}
        R.eq("defineCurvature [%s]: post s(j) is the path length" % iname(c), got, want, c, FC)


def wind(R, subs):
    def run():
        vx, vy = call_wind(subs)
        return vx.get(j_), vy.get(j_), spec_wind(j_)
    for c, (gx, gy, (wx, wy)) in explore(run, sect_ctx()):
        R.eq("windComponents [%s]: post Vx(j)" % iname(c), gx, wx, c, FW, dict(kernel="windcomponents", out="vx"))
        R.eq("windComponents [%s]: post Vy(j)" % iname(c), gy, wy, c, FW, dict(kernel="windcomponents", out="vy"))
