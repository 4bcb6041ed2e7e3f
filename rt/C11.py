from common import *
import gradients
RULE = ("random rotors (2..6 sections, analytic or spline airfoils, all flags, curved and swept), gradients of the distributed loads against 4th-order differences of the loads for every "
        "input element; parked rotors too; non-trivial when every section has load")
BUDGET = {"quick": 120, "thorough": 2000}


def cases(seed, tier):
    k = 1 if tier == "quick" else 25
    return seeds(seed, {"rotating": 240 * k, "parked": 40 * k})


def check(case):
    g = rng_of(case)
    return gradients.distributed(g, Fails(), parked=case["kind"] == "parked")
