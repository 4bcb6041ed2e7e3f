"""generators of polars and airfoils, and the specification of airfoilprep"""
from common import *


def gen_polar(g, Re=None, n=None, lo=None, hi=None, cm=True, cyl=False):
    n = n or int(g.choice([5, 8, 12, 25, 40]))
    lo = g.uniform(-40, -6) if lo is None else lo
    hi = g.uniform(8, 60) if hi is None else hi
    if g.rand() < .5:
        lo, hi = float(np.round(lo)), float(np.round(hi))
    a = np.sort(np.r_[lo, hi, g.uniform(lo, hi, n - 2)])
    while np.min(np.diff(a)) < 1e-3:
        a = np.sort(np.r_[lo, hi, g.uniform(lo, hi, n - 2)])
    if g.rand() < .3 and hi - lo > n:
        a = np.linspace(lo, hi, n)
    ar = np.deg2rad(a)
    k, a0 = g.uniform(.8, 1.3), g.uniform(-.04, .1)
    cl = k * np.sin(2 * (ar + a0)) * 2 + g.uniform(-.05, .05, len(a))
    cd = g.uniform(0.004, 0.02) + g.uniform(.6, 1.5) * np.sin(ar) ** 2 + g.uniform(0, .01, len(a))
    m = -g.uniform(.02, .15) - .1 * np.sin(ar) + g.uniform(-.02, .02, len(a)) if cm else np.zeros(len(a))
    if cyl:
        cl = np.zeros(len(a))
        cd = np.full(len(a), 0.5)
        m = np.zeros(len(a))
    Re = float(g.choice([10 ** g.uniform(4, 8), np.round(10 ** g.uniform(5, 7), -4)])) if Re is None else Re
    return dict(Re=Re, alpha=a, cl=cl, cd=cd, cm=m)


def mk(d):
    from ccblade.airfoilprep import Polar
    return Polar(d["Re"], d["alpha"].copy(), d["cl"].copy(), d["cd"].copy(), d["cm"].copy())


KEYS = ("alpha", "cl", "cd", "cm")


def same(f, name, p, d, rtol=1e-12, atol=1e-13, ex=""):
    f.eq(name + " Re", p.Re, d["Re"], rtol, 0, ex)
    for k in KEYS:
        f.eq(name + " " + k, getattr(p, k), d[k], rtol, atol, ex)


def lerp(x, xp, fp):
    """piecewise linear, held constant outside"""
    x = np.atleast_1d(np.asarray(x, float))
    out = np.empty(len(x))
    for i, v in enumerate(x):
        if v <= xp[0]:
            out[i] = fp[0]
        elif v >= xp[-1]:
            out[i] = fp[-1]
        else:
            j = max(q for q in range(len(xp)) if xp[q] <= v)
            out[i] = fp[j] + (fp[j + 1] - fp[j]) * (v - xp[j]) / (xp[j + 1] - xp[j])
    return out


def blend(p, q, w):
    lo, hi = max(p["alpha"][0], q["alpha"][0]), min(p["alpha"][-1], q["alpha"][-1])
    a = np.array(sorted(x for x in set(p["alpha"].tolist()) | set(q["alpha"].tolist()) if lo <= x <= hi))
    d = dict(Re=(1 - w) * p["Re"] + w * q["Re"], alpha=a)
    for k in KEYS[1:]:
        d[k] = (1 - w) * lerp(a, p["alpha"], p[k]) + w * lerp(a, q["alpha"], q[k])
    return d


def get(polars, Re):
    ps = sorted(polars, key=lambda p: p["Re"])
    if Re <= ps[0]["Re"]:
        return ps[0]
    if Re >= ps[-1]["Re"]:
        return ps[-1]
    i = max(k for k in range(len(ps)) if ps[k]["Re"] < Re)
    return blend(ps[i], ps[i + 1], (Re - ps[i]["Re"]) / (ps[i + 1]["Re"] - ps[i]["Re"]))


def gen_airfoil(g, m=None, **kw):
    m = m or int(g.choice([1, 2, 3, 4, 5]))
    base = 10 ** g.uniform(4.5, 6)
    Re = base * np.cumprod(g.uniform(1.3, 3, m))
    if kw.pop("roundRe", False):
        Re = np.unique(np.round(Re / 1e3) * 1e3)
    ps = [gen_polar(g, Re=float(x), **kw) for x in Re]
    if g.rand() < .5 and m > 1:
        for p in ps[1:]:
            n = len(ps[0]["alpha"])
            p.update({k: v for k, v in gen_polar(g, Re=p["Re"], **kw).items() if k == "Re"})
            p["alpha"] = ps[0]["alpha"].copy()
            for k in KEYS[1:]:
                p[k] = ps[0][k] * g.uniform(.9, 1.1) + g.uniform(-.01, .01) * (k != "cd")
    order = g.permutation(len(ps))
    return [ps[i] for i in order]


def show(d):
    return "Re=%r alpha=%r cl=%r cd=%r cm=%r" % (d["Re"], d["alpha"].tolist(), d["cl"].tolist(), d["cd"].tolist(), d["cm"].tolist())
