from common import *
from C07 import blade
RULE = ("THRUSTTORQUE_BV for unit and random weights of the outputs, 1..8 sections, against 4th-order differences of the compiled thrustTorque for every input element; non-trivial always")


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"thrusttorque_bv": 400 * k, "rotor": 24 * k})


def check(case):
    from ccblade import _bem
    g = rng_of(case)
    f = Fails()
    if case["kind"] == "rotor":
        import gradients
        return gradients.totals(g, f, m=int(g.choice([1, 2])), axisym=False, prefix="totals gradient")
    n = int(g.choice([1, 2, 3, 4, 5, 8]))
    b = list(blade(g, n))
    Rhub, Rtip = b[4], b[5]
    b[0] = Rhub + (Rtip - Rhub) * (np.arange(n) + g.uniform(0.1, 0.9, n)) / n
    Np, Tp = g.uniform(-500, 5000, n), g.uniform(-500, 900, n)
    Wt = np.vstack([np.eye(5), g.uniform(-1, 1, (int(g.choice([1, 3])), 5))])
    if g.rand() < 0.3:
        Wt = Wt[g.permutation(len(Wt))[:int(g.choice([1, 2, 4]))]]
    out = _bem.thrusttorque_bv(Np, Tp, *b, *[Wt[:, k].copy() for k in range(5)])
    # order of the outputs: Np, Tp, r, precurve, presweep, precone, Rhub, Rtip, precurvetip, presweeptip
    G = np.hstack([np.asarray(o).reshape(len(Wt), -1) for o in out])
    x = np.r_[Np, Tp, b[0], b[1], b[2], b[3:]]
    un = lambda v: (v[:n], v[n:2 * n], v[2 * n:3 * n], v[3 * n:4 * n], v[4 * n:5 * n], *v[5 * n:])
    fun = lambda v: np.array(_bem.thrusttorque(*un(v)))
    p = fun(x)
    sc = np.r_[np.full(2 * n, 500.0), np.full(3 * n, Rtip / 20 / n), 0.1, np.full(4, Rtip / 20 / n)]
    ex = "n=%d x=%r" % (n, x.tolist())
    h = 1e-3
    J = np.zeros((5, len(x)))
    E = np.zeros((5, len(x)))
    for q in range(len(x)):
        d = np.zeros(len(x))
        d[q] = sc[q]
        e = lambda h: (8 * (fun(x + h * d) - fun(x - h * d)) - (fun(x + 2 * h * d) - fun(x - 2 * h * d))) / (12 * h)
        J[:, q], d2 = e(h), e(2 * h)
        E[:, q] = np.abs(J[:, q] - d2) + 1e-12 * np.abs(p).max() / h
    if not f.true("THRUSTTORQUE_BV shapes", G.shape == (len(Wt), len(x)), "%r" % (G.shape,)):
        return True, f, {}
    want = Wt @ J
    got = G * sc
    bad = np.abs(got - want) > 20 * (np.abs(Wt) @ E) + 1e-7 * np.abs(want)
    if np.any(bad):
        w, q = np.argwhere(bad)[0]
        f.append(dict(obligation="THRUSTTORQUE_BV gradient", msg="weighting %d input element %d: %r, differences %r; %s" % (w, q, got[w, q], want[w, q], ex)))
    return True, f, dict(n=n, gradient=G[0, :6].tolist())
