import os
import tempfile
from afp import *
RULE = ("random polars with 5..40 angles, cylinders, few distinct lift coefficients, varied linear ranges, and files written of 1..5 polars; non-trivial when the parameters are not the eight zeros; "
        "oracle: least-squares line of the normal force, its deviation from the piecewise linear curve at whole degrees, the row of least drag, derived here")
ASSUMPTIONS = ["stall is compared where the deviation from the line grows with the angle over the scan", "a nonzero fitted slope"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"polar": 1500 * k, "file": 200 * k})


def grows(x):
    return bool(np.all(np.diff(x) > 1e-9))


def spec(d, lo=-5.0, hi=5.0):
    """the eight parameters; None where not specified"""
    al = d["alpha"]
    if np.any((np.abs(al - lo) < 1e-9) & (al != lo)) or np.any((np.abs(al - hi) < 1e-9) & (al != hi)):
        raise Skip
    idx = (al >= lo) & (al <= hi)
    if len(al) < 10 or len(set(d["cl"].tolist())) < 10 or idx.sum() < 2:
        return [0.0] * 8
    a = np.array([math.radians(x) for x in al])
    cn = np.array([l * math.cos(t) + r * math.sin(t) for l, r, t in zip(d["cl"], d["cd"], a)])
    x, y = a[idx], cn[idx]
    m = float(np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2))
    if abs(m) < 1e-2 or np.ptp(x) < 1e-3:
        raise Skip
    a0 = x.mean() - y.mean() / m

    def stall(scan, sgn):
        t = np.array([math.radians(q) for q in scan])
        dev = sgn * (m * (t - a0) - lerp(t, a, cn))
        if not grows(dev):
            return None
        return float(lerp(0.05, dev, t)[0])
    up, low = stall(range(0, 40), 1), stall(range(5, -40, -1), -1)
    k = min(range(len(al)), key=lambda q: (d["cd"][q], q))
    return [0.0, None if up is None else math.degrees(up), math.degrees(a0), m, None if up is None else m * (up - a0), None if low is None else m * (low - a0), al[k], d["cd"][k]]


NM = ("control setting", "stall angle", "angle of zero normal force", "slope of the normal force", "normal force at upper stall", "normal force at lower stall", "angle of minimum drag", "minimum drag")


def check(case):
    from ccblade.airfoilprep import Airfoil
    g = rng_of(case)
    f = Fails()
    if case["kind"] == "polar":
        kw = {}
        u = g.rand()
        if u < .1:
            kw["cyl"] = True
        d = gen_polar(g, n=int(g.choice([5, 9, 10, 11, 25, 40])), **kw)
        if .1 < u < .2:
            d["cl"] = np.round(d["cl"], 1)
        if .2 < u < .5:       # deep linear range, so that stall is inside the scan
            a = np.linspace(-45, 60, int(g.randint(12, 60)))
            s = g.uniform(4.5, 7)
            z = g.uniform(-4, 2)
            t = np.deg2rad(a - z)
            st = math.radians(g.uniform(6, 16))
            over = np.maximum(np.abs(t) - st, 0)
            d.update(alpha=a, cl=(s * t - np.sign(t) * g.uniform(3, 7) * over), cd=0.01 + g.uniform(.1, 1) * np.sin(t) ** 2, cm=-0.05 + 0 * a)
        if g.rand() < .2:       # drag that a correction took below zero
            d["cd"] = d["cd"] - g.uniform(0, 1) * np.ptp(d["cd"])
        opt = []
        if g.rand() < .5:
            opt = [float(-g.uniform(1, 8)), float(g.uniform(1, 8))]
        w = spec(d, *opt)
        p = mk(d)
        r = p.unsteadyparam(*opt)
        if f.true("eight numbers", len(r) == 8, repr(r)):
            for q in range(8):
                if w[q] is not None:
                    f.eq(NM[q], float(r[q]), w[q], 1e-6, 1e-7, show(d))
        same(f, "polar unchanged", p, d, 0, 0, show(d))
        return any(x not in (0.0, None) for x in w), f, dict(rows=len(d["alpha"]))
    fd, path = tempfile.mkstemp(dir=SCRATCH[0], suffix=".dat")
    os.close(fd)
    try:
        af = gen_airfoil(g)
        Airfoil([mk(p) for p in af]).writeToAerodynFile(path)
        ps = sorted(af, key=lambda p: p["Re"])
        al = np.array(sorted(set(x for p in af for x in p["alpha"].tolist())))
        ln = open(path).read().split("\n")
        pos = 4
        for p in ps:
            t = dict(Re=p["Re"], alpha=al, **{q: lerp(al, p["alpha"], p[q]) for q in KEYS[1:]})
            w = spec(t)
            for q in range(8):
                if w[q] is not None:
                    f.eq("file: " + NM[q], float(ln[pos + 1 + q].split()[0]), w[q], 1e-6, 2e-6, show(t))
            pos += 10 + len(al)
        return True, f, dict(rows=len(al))
    finally:
        os.unlink(path)
