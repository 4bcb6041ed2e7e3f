import os
import tempfile
from afp import *
RULE = ("write and read back of random airfoils with 1..5 tables, 5..40 rows, shared and different angle grids, and reading of files made here with 1..6 tables of different lengths; non-trivial always; "
        "oracle: the data given, to six decimals, and a line parser written from the AeroDyn v13 layout")
ASSUMPTIONS = ["angles of attack differ by more than the six decimals of the format"]


def cases(seed, tier):
    k = 1 if tier == "quick" else 20
    return seeds(seed, {"roundtrip": 500 * k, "read": 300 * k, "twice": 60 * k})


def fname(g):
    fd, p = tempfile.mkstemp(dir=SCRATCH[0], suffix=".dat")
    os.close(fd)
    return p


def lines(path):
    t = open(path).read()
    return t.split("\n")


def common_alpha(ps):
    return np.array(sorted(set(x for p in ps for x in p["alpha"].tolist())))


def params(d):
    """control setting, stall angle, zero-cn angle, slope, cn at stall +/-, angle and value of minimum drag (AeroDyn v13), for the table written"""
    a = np.deg2rad(d["alpha"])
    idx = (d["alpha"] >= -5 - 1e-12) & (d["alpha"] <= 5 + 1e-12)
    if len(d["alpha"]) < 10 or len(np.unique(d["cl"])) < 10:
        return [0.0] * 8
    if idx.sum() < 2:
        return None
    cn = d["cl"] * np.cos(a) + d["cd"] * np.sin(a)
    M = np.c_[a[idx], np.ones(idx.sum())]
    (m, b), *_ = np.linalg.lstsq(M, cn[idx], rcond=None)
    k = int(np.argmin(d["cd"]))
    return [0.0, None, np.rad2deg(-b / m), m, None, None, d["alpha"][k], d["cd"][k]]


def check(case):
    from ccblade.airfoilprep import Airfoil, Polar
    g = rng_of(case)
    f = Fails()
    k = case["kind"]
    path = fname(g)
    try:
        if k in ("roundtrip", "twice"):
            af = gen_airfoil(g, cyl=bool(g.rand() < .1))
            ps = sorted(af, key=lambda p: p["Re"])
            al = common_alpha(af)
            ex = "airfoil [%s]" % " / ".join(map(show, af))
            A = Airfoil([mk(p) for p in af])
            A.writeToAerodynFile(path)
            ln = lines(path)
            f.true("file ends each line", ln[-1] == "", repr(ln[-1]) + ex)
            want = 4 + len(af) * (1 + 8 + len(al) + 1)
            f.true("number of lines written", len(ln) - 1 == want, "%d lines, specified %d %s" % (len(ln) - 1, want, ex))
            f.true("number of tables written", len(ln) > 3 and ln[3].split()[:1] == [str(len(af))], ex)
            pos = 4
            tabs = []
            for p in ps:
                tabs.append(dict(Re=p["Re"], alpha=al, **{q: lerp(al, p["alpha"], p[q]) for q in KEYS[1:]}))
            if len(ln) - 1 == want:
                for t in tabs:
                    f.true("Reynolds number line", abs(float(ln[pos].split()[0]) - t["Re"] / 1e6) <= 5.1e-7, ln[pos])
                    w = params(t)
                    if w is not None:
                        for j in range(8):
                            if w[j] is not None:
                                f.eq("AeroDyn parameter %d" % j, float(ln[pos + 1 + j].split()[0]), w[j], 1e-6, 2e-6, ex)
                    pos += 9
                    for i in range(len(al)):
                        row = [float(x) for x in ln[pos + i].split()]
                        f.eq("row written", row, [t[q][i] for q in KEYS], 0, 5.1e-7, ex)
                    pos += len(al)
                    f.true("end of table", ln[pos].strip() == "EOT", ln[pos])
                    pos += 1
            Bf = Airfoil.initFromAerodynFile(path)
            if k == "twice":
                A2 = Bf
                A2.writeToAerodynFile(path)
                Bf = Airfoil.initFromAerodynFile(path)
            if f.true("number of tables read back", len(Bf.polars) == len(af), "%d %s" % (len(Bf.polars), ex)):
                for p, t in zip(Bf.polars, tabs):
                    f.eq("Reynolds number read back", p.Re, t["Re"], 1e-9, 0.51 * (2 if k == "twice" else 1), ex)
                    for q in KEYS:
                        f.eq("read back " + q, getattr(p, q), t[q], 1e-9, 5.1e-7 * (3 if k == "twice" else 1), ex)
            for p, d in zip(A.polars, ps):
                same(f, "write frame", p, d, 0, 0, ex)
            return True, f, dict(tables=len(af), rows=len(al))
        m = int(g.randint(1, 7))
        tabs = [gen_polar(g, Re=float(x)) for x in g.permutation(np.round(1e5 * np.cumprod(g.uniform(1.2, 2.5, m)), 3))]
        if g.rand() < .2:
            tabs = [dict(t, **{q: np.atleast_1d(t[q][:1]) for q in KEYS}) for t in tabs]
        with open(path, "w") as fo:
            fo.write("AeroDyn airfoil file.\nanything 1 2 3 EOTx\nline three\n%d   Number of airfoil tables in this file\n" % m)
            for t in tabs:
                fo.write("%.9f   Reynolds number in millions\n" % (t["Re"] / 1e6))
                for j in range(8):
                    fo.write("%12.4f  parameter %d\n" % (g.uniform(-5, 5), j))
                for row in zip(*[t[q] for q in KEYS]):
                    fo.write("  ".join("%.12g" % x for x in row) + ("  " if g.rand() < .1 else "") + "\n")
                fo.write(g.choice(["EOT\n", "EOT \n", "  EOT\n"]))
        A = Airfoil.initFromAerodynFile(path)
        ex = " / ".join(map(show, tabs))
        tabs = sorted(tabs, key=lambda t: t["Re"])
        if f.true("number of tables read", len(A.polars) == m, "%d of %d" % (len(A.polars), m)):
            for p, t in zip(A.polars, tabs):
                f.eq("Reynolds number read", p.Re, t["Re"], 1e-12, 0.002, ex)
                for q in KEYS:
                    f.eq("rows read " + q, getattr(p, q), t[q], 1e-10, 1e-12, ex)
        return True, f, dict(tables=m)
    finally:
        os.unlink(path)
