from sect import *
FT = "bem.f90:thrustTorque"
TRUSTED = ["the trapezoidal integrals as written in lib/sect.py"]
ASSUMPTIONS = ["call obligations: assumptions of C13", "one or more sections between hub and tip (the blade handed to defineCurvature then has three or more)", "real arithmetic"]
EXPLANATION = "the path length, azimuth position and cone angle contract of defineCurvature is proved under C05; thrustTorque is proved with defineCurvature's body in place"


def tasks(tier):
    subs = load_fortran()
    out = [("thrustTorque " + k, lambda R, k=k: total(R, subs, k)) for k in "TYZQM"]
    for d in (False, True):
        for co in (False, True):
            out.append(("call: derivatives=%s coefficients=%s" % (d, co), lambda R, d=d, co=co: call(R, subs, d, co)))
    return out


def call(R, subs, derivatives, coefficients):
    """the Python caller integrates the section loads along the rotor's own geometry
    and sums what the kernel returns over azimuths"""
    import C13
    C13.totals(R, subs, derivatives, coefficients)


def total(R, subs, k):
    def run():
        return call_tt(subs)[k], spec_totals()[k]()
    for c, (got, want) in explore(run, sect_ctx(nmin=1, j=False)):
        SEEDS[0] = {"np", "tp"}
        R.eq("thrustTorque [%s]: post %s is the trapezoidal integral" % (iname(c), k), got, want, c, FT, dict(kernel="thrusttorque", out=k))
        # linear in the loads: homogeneous of degree one and additive is what
        # the closed form above shows; stated on the code's own term as well
        lin(R, "thrustTorque [%s]: %s linear in the loads" % (iname(c), k), got, c)


def lin(R, name, got, c):
    a, b = sym("lin_a"), sym("lin_b")
    sub = lambda f: emap(got, f)
    mix = emap(got, lambda nm, i: a * elem(nm + "_1", i) + b * elem(nm + "_2", i))
    one = emap(got, lambda nm, i: elem(nm + "_1", i))
    two = emap(got, lambda nm, i: elem(nm + "_2", i))
    SEEDS[0] = {"np_1", "np_2", "tp_1", "tp_2"}
    R.eq(name, mix, a * one + b * two, c, FT)


def emap(e, f, memo=None):
    """replace load elements"""
    return smap(e, lambda x: f(x.a[0], x.a[1]) if x.k == "elem" and x.a[0] in ("np", "tp") else None)
