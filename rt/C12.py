from common import *
import gradients
RULE = ("random rotors and 1..3 conditions, gradients of all totals and coefficients against 4th-order differences of evaluate for every scalar and one element of every vector input; "
        "cases with zero rotation speed; shapes and finiteness of all; non-trivial always")
BUDGET = {"quick": 150, "thorough": 2500}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"totals": 140 * k, "zero rpm": 16 * k, "zero load": 16 * k})


def check(case):
    g = rng_of(case)
    if case["kind"] == "zero load":
        return zero_load(g, Fails())
    return gradients.totals(g, Fails(), zero_rpm=case["kind"] == "zero rpm")


def zero_load(g, f):
    """side force, vertical force and hub moments of an axisymmetric case are exactly zero or the rotor does not turn: gradients stay finite"""
    d = gradients.full(rotor(g, 3, curve=bool(g.rand() < .5), axisym=True))
    d["nSector"] = 1
    if g.rand() < .5:
        d["presweep"] = np.zeros(3)
        d["presweepTip"] = 0.0
    af = gradients.airfoils(g, 3, "smooth")
    cond = [np.array(v) for v in conditions(g, d, 2)]
    cond[1][0] *= g.choice([0.0, 1.0])
    R = build(d, af, derivatives=True)
    o, D = R.evaluate(cond[0], cond[1], cond[2], coefficients=True)
    for k in D:
        for key in D[k]:
            f.true("gradients finite where a load or the rotation speed is zero", np.all(np.isfinite(D[k][key])), "%s %s %r" % (k, key, cond))
    return True, f, dict(conditions=[v.tolist() for v in cond])
