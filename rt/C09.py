from common import *
from C05 import geom
RULE = ("WINDCOMPONENTS_DV and DEFINECURVATURE tangents for one-hot and random directions, 1..8 sections, against 4th-order differences of the primal kernel; non-trivial when "
        "the differences are converged")


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"windcomponents_dv": 400 * k, "rotor": 60 * k})


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"] == "rotor":
        import gradients
        return gradients.distributed(g, f, only=("dr", "dprecurve", "dpresweep", "dprecone", "dtilt", "dhubHt", "dyaw", "dshear", "dazimuth", "dUinf", "dOmega"), prefix="loads gradient through the velocities")
    n = int(g.choice([2, 3, 4, 5, 6, 8]))
    Rhub, Rtip, r, pc, ps = geom(g, n)
    r = Rhub + (Rtip - Rhub) * np.sort((np.arange(n) + g.uniform(0.1, 0.9, n)) / n)
    hub = Rtip * g.uniform(1.6, 2.4)
    x = np.r_[r, pc, ps, g.uniform(-.25, .25), g.uniform(-.3, .3), g.uniform(-.2, .2), g.uniform(-6, 6), g.uniform(4, 20), g.uniform(-10, 20), hub, g.choice([0.0, .2, g.uniform(.05, .4)])]
    m = len(x)
    un = lambda v: (v[:n], v[n:2 * n], v[2 * n:3 * n], *v[3 * n:3 * n + 4], np.full(n, v[3 * n + 4]), *v[3 * n + 5:])
    fun = lambda v: np.concatenate(_bem.windcomponents(*un(v)))
    sc = np.r_[np.full(3 * n, Rtip / 20 / n), 0.1, 0.1, 0.1, 0.1, 5, 5, hub / 5, .1]
    D = np.vstack([np.eye(m), g.uniform(-1, 1, (2, m))]) * sc
    dd = D
    args = [r, dd[:, :n], pc, dd[:, n:2 * n], ps, dd[:, 2 * n:3 * n], x[3 * n], dd[:, 3 * n], x[3 * n + 1], dd[:, 3 * n + 1], x[3 * n + 2], dd[:, 3 * n + 2],
            x[3 * n + 3], dd[:, 3 * n + 3], np.full(n, x[3 * n + 4]), dd[:, 3 * n + 4], x[3 * n + 5], dd[:, 3 * n + 5], x[3 * n + 6], dd[:, 3 * n + 6], x[3 * n + 7], dd[:, 3 * n + 7]]
    args[14] = x[3 * n + 4]
    vx, vxd, vy, vyd = _bem.windcomponents_dv(*args)
    p = fun(x)
    f.eq("WINDCOMPONENTS_DV value", np.r_[vx, vy], p, 1e-12, 1e-12)
    ex = "n=%d x=%r" % (n, x.tolist())
    h = 1e-3
    for q in range(len(D)):
        e = lambda h: (8 * (fun(x + h * D[q]) - fun(x - h * D[q])) - (fun(x + 2 * h * D[q]) - fun(x - 2 * h * D[q]))) / (12 * h)
        d1, d2 = e(h), e(2 * h)
        got = np.r_[vxd[q], vyd[q]]
        err = np.abs(d1 - d2) + 1e-11 * np.abs(p).max() / h * 0.1
        bad = np.abs(got - d1) > 20 * err + 1e-7 * np.abs(d1)
        if np.any(bad):
            f.append(dict(obligation="WINDCOMPONENTS_DV derivative", msg="direction %d: tangents %r, differences %r, %s" % (q, got.tolist(), d1.tolist(), ex)))
            break
    return True, f, dict(n=n, x=x.tolist())
