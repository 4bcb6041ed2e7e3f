"""extrapolate: Viterna's extrapolation of a polar to all angles of attack."""
from afpstub import *
F = "airfoilprep.py:Polar.extrapolate"
FA = "airfoilprep.py:Airfoil.extrapolate"
TRUSTED = ["numpy by lib/npshim.py (linspace, floor, ceil, selection by a condition: elements at which it holds, in order; interp by its contract: the tabulated value at a tabulated point)"]
ASSUMPTIONS = ["angles increasing, -90 < first < last < 90 degrees, last > 0, floor >= 0, two or more points per segment", "real arithmetic",
               "moments outside the original range are compared by the runtime layer only (bounded)"]
N, k_ = ivar("N"), ivar("k")
ADJ = num(Fr(7, 10))
BLOCKS = ("7", "6", "5", "4", "data", "1", "2", "3")


def tasks(tier):
    out = [("block %s" % b, lambda R, b=b: block(R, b)) for b in BLOCKS]
    out += [("block %s with an aspect ratio" % b, lambda R, b=b: block(R, b, True)) for b in ("1", "5")]
    return out + [("order", order), ("moments", moments), ("moments: loop", effects), ("__CMCoeff", cmcoeff), ("__getCM", getcm), ("negative floor", floor_), ("Airfoil.extrapolate", airfoil_), ("defaults", defaults)]


p = P()


def a_(j):
    return p.at("alpha", j)


LO, HI = a_(aff(0)), a_(n_ - 1)


def hyps(j=None):
    h = [cmp_("<=", 2, n_), cmp_("<=", 2, N), cmp_("<", num(-90), LO), cmp_("<", LO, HI), cmp_("<", 0, HI), cmp_("<", HI, 90), cmp_("<=", 0, sym("cdmin"))]
    if j is not None:
        h += [cmp_("<=", 0, j), cmp_("<", j, n_), cmp_("<=", LO, a_(j)), cmp_("<=", a_(j), HI)]
    return h


def rad(x):
    return x * PI / 180


class Model:
    """the extrapolation as documented"""

    def __init__(self, M, o, ar):
        cdmax = num(Fr(111, 100)) + num(Fr(18, 1000)) * sym("AR") if ar else sym("cdmax")
        self.cdmax = node(pyex.larger(pyex.s_max(p.arr("cd")), V(cdmax))[1])
        self.given = cdmax
        H = rad(HI)
        s, c = fn("sin", H), fn("cos", H)
        self.A = (p.at("cl", n_ - 1) - self.cdmax * s * c) * s / c ** 2
        self.B = (p.at("cd", n_ - 1) - self.cdmax * s ** 2) / c
        self.wide = truth(cmp_("<=", LO, -HI))

    def viterna(self, x):
        x = pyex.node(npshim.NP.maximum(V(x), V(num(Fr(1, 10000)))))
        s, c = fn("sin", x), fn("cos", x)
        return self.cdmax / 2 * fn("sin", 2 * x) + self.A * c ** 2 / s, self.cdmax * s ** 2 + self.B * c

    def sizes(self):
        """points of each block"""
        n4 = 0 if self.wide or pyex.tr("<", N, 4) else N - 3
        return {"7": N, "6": N - 1, "5": N - 2 if self.wide else N - 1, "4": n4, "data": n_, "1": N - 1, "2": N - 1, "3": N - 1}

    def angle(self, b, i):
        """angle (degrees) of point i of block b"""
        lo, hi, first = {"7": (num(-180), HI - 180, 0), "6": (HI - 180, num(-90), 1), "5": (num(-90), LO if self.wide else -HI, 1), "4": (-HI, LO, 1),
                         "1": (HI, num(90), 1), "2": (num(90), 180 - HI, 1), "3": (180 - HI, num(180), 1)}[b] if b != "data" else (0, 0, 0)
        return a_(i) if b == "data" else lo + (hi - lo) * aff_node(i + first) / aff_node(N - 1)

    def coefs(self, b, x):
        """lift and drag at angle x (degrees) of block b"""
        clh, cdh = p.at("cl", n_ - 1), p.at("cd", n_ - 1)
        x = rad(x)
        H, L = rad(HI), rad(LO)
        if b == "1":
            return self.viterna(x)
        if b == "2":
            l, d = self.viterna(PI - x)
            return -ADJ * l, d
        if b == "3":
            return (x - PI) / H * clh * ADJ, self.viterna(PI - x)[1]
        if b == "4":
            return -clh * ADJ + (x + H) / (L + H) * (p.at("cl", 0) + clh * ADJ), p.at("cd", 0) + (x - L) / (-H - L) * (cdh - p.at("cd", 0))
        if b == "5":
            l, d = self.viterna(-x)
            return -ADJ * l, d
        if b == "6":
            l, d = self.viterna(x + PI)
            return ADJ * l, d
        return (x + PI) / H * clh * ADJ, self.viterna(x + PI)[1]


def call(o, ar, **k):
    k = dict(dict(nalpha=pyex.mki(N), cdmin=sc("cdmin")), **k)
    try:
        return o.extrapolate(sc("cdmax"), AR=sc("AR"), **k) if ar else o.extrapolate(sc("cdmax"), **k)
    except Exception as e:
        if not isinstance(e, (Split, Unsupported, Undefined)):
            possible()
        raise


class Interp:
    """interp calls as opaque values, their tables recorded"""

    def __init__(self):
        self.calls = []

    def __call__(self, x, xp, fp):
        for q, (a, b) in enumerate(self.calls):
            if a is xp and b is fp:
                break
        else:
            q = len(self.calls)
            self.calls.append((xp, fp))
        return fn("interp.%d" % q, x)


def over_table(hi):
    return any(v.startswith("sel") for v in hi.vars())


def prep(real=False, cm=False):
    """the module; the two helpers for moments by contract unless `real`; the
    loop over the table of moments left out unless `cm`: its effects are
    limited to that table (task "moments: loop")"""
    M = airfoilprep()
    npshim.INTERP[0] = rec = Interp()
    pyex.SKIP[0] = None if cm or real else over_table
    if not real:
        if hasattr(M["Polar"], CMC):
            setattr(M["Polar"], CMC, cmc)
        if hasattr(M["Polar"], GCM):
            setattr(M["Polar"], GCM, gcm)
    return M, rec


CMC, GCM = "_Polar__CMCoeff", "_Polar__getCM"


def cmc(self, cl_high, cd_high, cm_high):
    """contract of __CMCoeff: a number; nothing modified but cm0"""
    self.cm0 = V(fn("cm0", node(cl_high), node(cd_high), node(cm_high)))
    return V(fn("cmcoef", node(cl_high), node(cd_high), node(cm_high)))


def gcm(self, i, cmCoef, alpha, cl_ext, cd_ext, alpha_low_deg, alpha_high_deg):
    """contract of __getCM: nothing at angles of the data, else a number"""
    a = alpha[i]
    if a >= alpha_low_deg and a <= alpha_high_deg:
        return None
    return V(fn("cmnew", node(a), node(cl_ext[i]), node(cd_ext[i]), node(cmCoef)))


def frame(o):
    return num(int(unchanged(o) and not pyex.MACH.foreign))


def label_(c, base_):
    return "[%s]" % " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r")


def total(sz):
    t = aff(0)
    for b in BLOCKS:
        t = t + sz[b]
    return t


def block(R, b, ar=False):
    base_ = af_ctx(hyps(j_ if b == "data" else None) + [cmp_("<=", 0, j_)])

    def run():
        M, rec = prep()
        o = p.make(M)
        m = Model(M, o, ar)
        sz = m.sizes()
        if not pyex.tr("<", j_, sz[b]):
            return None
        x = m.angle(b, j_)
        l, d = m.coefs(b, x) if b != "data" else (p.at("cl", j_), p.at("cd", j_))
        d = node(npshim.NP.maximum(V(d), sc("cdmin")))
        r = call(o, ar)
        off = aff(0)
        for q in BLOCKS[:BLOCKS.index(b)]:
            off = off + sz[q]
        ok = type(r) is M["Polar"] and all(size1(getattr(r, q), total(sz)) for q in QS) and distinct(r, o)
        got = {q: gen(getattr(r, q), off + j_) for q in ("alpha", "cl", "cd")}
        possible()
        return ok, frame(o), got, dict(alpha=x, cl=l, cd=d), node(r.Re)
    for c, r, _ in runs(run, base_, 4000):
        if r is None:
            continue
        ok, fr, got, want, re_ = r
        t = "block %s AR=%s %s " % (b, ar, label_(c, base_))
        R.eq(t + "a polar, one value per angle", num(int(ok)), ONE, c, F)
        R.eq(t + "original unchanged", fr, ONE, c, F)
        R.eq(t + "Reynolds number", re_, p.Re, c, F)
        for q in got:
            R.eq(t + q + "(j)", got[q], want[q], c, F)


def order(R):
    """the specified angles increase strictly from -180 to 180"""
    base_ = af_ctx(hyps(j_) + [cmp_("<=", 0, j_), cmp_("<", j_ + 1, n_), cmp_("<", a_(j_), a_(j_ + 1))])
    base_.use_z3_real = True
    H, L = HI, LO

    def run():
        m = Model.__new__(Model)
        m.wide = truth(cmp_("<=", L, -H))
        sz = m.sizes()
        s7, s1, s5 = H, 90 - H, (L + 90 if m.wide else 90 - H)
        step = {"7": s7, "6": s1, "5": s5, "4": L + H, "1": s1, "2": s1, "3": s7}
        out = [(m.angle("7", aff(0)) + 180, None, "first angle is -180"), (m.angle("3", N - 2) - 180, None, "last angle is 180"), (m.angle("1", N - 2) - 90, None, "90 degrees is there")]
        prev = None
        for b in BLOCKS:
            if not pyex.tr("<", 0, sz[b]):
                continue
            if b != "data":
                out.append((m.angle(b, j_ + 1) - m.angle(b, j_), step[b] / aff_node(N - 1), "block %s increases" % b))
            if prev is not None:
                d = m.angle(b, aff(0)) - m.angle(prev, sz[prev] - 1)
                if b == "data":
                    e = {"6": L + 90, "5": s5 / aff_node(N - 1) if m.wide else L + H, "4": 2 * (L + H) / aff_node(N - 1)}[prev]
                else:
                    e = step[b] / aff_node(N - 1)
                out.append((d, e, "block %s follows %s" % (b, prev)))
            prev = b
        return m.wide, out
    for c, (wide, out), _ in runs(run, base_):
        t = "order %s " % [c.hyps[len(base_.hyps):]]
        for d, e, nm in out:
            if e is None:
                R.eq(t + nm, d, ZERO, c, F)
            else:
                R.eq(t + nm + ": distance", d, e, c, F)
                R.goal(t + nm + ": positive", *cmp_("<", 0, e * aff_node(N - 1)), c, F) if not (e * aff_node(N - 1)).k == "num" else None


def moments(R):
    """the moments of the data: where interp is asked for them, the table has
    the data's own angles and moments"""
    offs = []

    def parts(rec):
        for xp, fp in rec.calls:
            ps = getattr(xp.root, "cparts", None) if xp.whole() else None
            if ps is None:
                continue
            off = aff(0)
            for q, a in enumerate(ps):
                if same_dim(a.dims[0], n_) and a.at(ivar("@k")) is a_(ivar("@k")):
                    yield off, xp, fp, ps, q
                off = off + a.dims[0]
    base1 = af_ctx(hyps())

    def first():
        M, rec = prep()
        gen(call(p.make(M), False).cm, aff(0))
        possible()
        return [off for off, *_ in parts(rec)]
    for c, r, _ in runs(first, base1, 4000):
        for off in r:
            if off not in offs:
                offs.append(off)
    R.eq("the moments are looked up in a table that has the data's angles", num(int(bool(offs))), ONE, base1, F)
    for off in offs:
        J = k_ - off
        base_ = af_ctx(hyps(J))
        pyex.ALIGN[0] = (over_table, "k")

        def run():
            M, rec = prep(cm=True)
            o = p.make(M)
            m = Model(M, o, False)
            sz = m.sizes()
            r = call(o, False)
            o4 = aff(0)
            for b in BLOCKS[:BLOCKS.index("data")]:
                o4 = o4 + sz[b]
            got = gen(r.cm, o4 + J)
            w = [x for x in parts(rec) if x[0] == off]
            possible()
            if got.k != "fn" or not got.a[0].startswith("interp."):
                raise Unsupported("moments not looked up")
            xp, fp = rec.calls[int(got.a[0].split(".")[1])]
            x = got.a[1] if isinstance(got.a[1], Node) else got.a[1][0]
            w = [x_ for x_ in w if x_[1] is xp]
            if not w:
                return None
            ps, q = w[0][3], w[0][4]
            edge = []
            t = ivar("@t")
            for z, a in enumerate(ps):
                if z == q:
                    continue
                src = a.root.sel.src if getattr(a.root, "sel", None) is not None else a
                sel = lift(a.at(aff(0))) if pyex.tr("<", 0, a.dims[0]) else None
                edge.append((z < q, sel, lift(src.at(t + 1)) - lift(src.at(t))))
            return x, lift(xp.at(off + J)), lift(fp.at(off + J)), size1(fp, xp.dims[0]), edge, frame(o)
        for c, r, _ in runs(run, base_, 4000):
            if r is None:
                continue
            x, xq, f, ok, edge, fr = r
            t = "moments %s " % label_(c, base_)
            R.eq(t + "looked up at the data's angle", x, a_(J), c, F)
            R.eq(t + "which is in the table", xq, a_(J), c, F)
            R.eq(t + "with the data's moment", f, p.at("cm", J), c, F)
            R.eq(t + "tables of equal length", num(int(ok)), ONE, c, F)
            R.eq(t + "original unchanged", fr, ONE, c, F)
            for below, v, d in edge:
                R.eq(t + "grid of ten degrees", d, num(10), c, F)
                if v is not None:
                    R.goal(t + "grid angle outside the data", *(cmp_("<", v, LO) if below else cmp_("<", HI, v)), c, F)
    pyex.ALIGN[0] = None


def effects(R):
    """the loop over the table of moments modifies that table only"""
    base_ = af_ctx(hyps())

    def run():
        M, rec = prep(cm=True)
        o = p.make(M)
        r = call(o, False)
        gen(r.cm, aff(0))
        bad, seen = 0, 0
        for L in pyex.MACH.finished:
            if not over_table(L.hi):
                continue
            seen += 1
            bad += bool(set(L.roots[w] for w in L.writes) - {fp.root for xp, fp in rec.calls}) + bool(L.carried or L.names)
        q = tuple(getattr(r, q).root for q in QS)
        bad += any(fp.root in q for xp, fp in rec.calls)
        return bad, set(state(o)) <= {"A", "B", "cdmax", "cm0"}, frame(o)
    for c, (bad, st, fr), _ in runs(run, base_, 6000):
        t = "loop over the table %s " % label_(c, base_)
        R.eq(t + "modifies the table only", num(int(bad == 0)), ONE, c, F)
        R.eq(t + "sets the model's parameters only", num(int(st)), ONE, c, F)
        R.eq(t + "original unchanged", fr, ONE, c, F)


def state(o):
    return {k: v for k, v in o.__dict__.items() if k not in QS + ("Re", "_spec")}


def cmcoeff(R):
    """contract of __CMCoeff"""
    base_ = af_ctx(hyps())

    def run():
        M, rec = prep(True)
        if not hasattr(M["Polar"], CMC):
            return None
        o = p.make(M)
        r = getattr(o, CMC)(sc("cl_high"), sc("cd_high"), sc("cm_high"))
        return isinstance(r, V) and isinstance(o.cm0, V) and set(state(o)) <= {"cm0"}, frame(o)
    for c, r, _ in runs(run, base_):
        if r is None:
            continue
        t = "__CMCoeff %s " % label_(c, base_)
        R.eq(t + "a number, sets cm0 only", num(int(r[0])), ONE, c, F + "CMCoeff")
        R.eq(t + "data unchanged", r[1], ONE, c, F + "CMCoeff")


def getcm(R):
    """contract of __getCM"""
    G = "airfoilprep.py:Polar.__getCM"
    base_ = af_ctx(hyps() + [cmp_("<=", 0, j_), cmp_("<", j_, m_)])

    def run():
        M, rec = prep(True)
        if not hasattr(M["Polar"], GCM):
            return None
        o = p.make(M)
        o.cm0 = sc("cm0")
        al, cl, cd = (varr(x, m_) for x in ("al", "cx", "dx"))
        a = elem("al", j_)
        inside = truth(cmp_(">=", a, LO)) and truth(cmp_("<=", a, HI))
        r = getattr(o, GCM)(pyex.mki(j_), sc("coef"), al, cl, cd, V(LO), V(HI))
        possible()
        return (r is None) == inside and (r is None or isinstance(r, (V, int))), set(state(o)) == {"cm0"} and o.cm0.n is sym("cm0"), frame(o)
    for c, r, _ in runs(run, base_):
        if r is None:
            continue
        t = "__getCM %s " % label_(c, base_)
        R.eq(t + "nothing inside the data, a number outside", num(int(r[0])), ONE, c, G)
        R.eq(t + "modifies nothing", num(int(r[1])), ONE, c, G)
        R.eq(t + "data unchanged", r[2], ONE, c, G)


def floor_(R):
    """a negative floor is rejected"""
    base_ = af_ctx([h for h in hyps() if h[0].e is not cmp_("<=", 0, sym("cdmin"))[0].e] + [cmp_("<", sym("cdmin"), 0)])

    def run():
        M, rec = prep()
        try:
            p.make(M).extrapolate(sc("cdmax"), cdmin=sc("cdmin"))
        except (Split, Unsupported, Undefined):
            raise
        except Exception:
            return 1
        return 0
    for c, r, _ in runs(run, base_):
        R.eq("negative floor rejected", num(r), ONE, c, F)


def defaults(R):
    """the documented defaults: no aspect ratio, floor 0.001, 15 points"""
    import inspect
    c = af_ctx(hyps())
    M, rec = prep()
    sg = inspect.signature(M["Polar"].extrapolate).parameters
    val = {k: v.default for k, v in sg.items()}
    ok = [list(sg)[1:3] == ["cdmax", "AR"], val.get("AR", 0) is None, node(val.get("cdmin")) is num(Fr(1, 1000)), val.get("nalpha") == 15]
    R.eq("Polar.extrapolate: defaults", num(int(all(ok))), ONE, c, F)
    sg = inspect.signature(M["Airfoil"].extrapolate).parameters
    val = {k: v.default for k, v in sg.items()}
    ok = [list(sg)[1:4] == ["cdmax", "AR", "cdmin"], val.get("AR", 0) is None, node(val.get("cdmin")) is num(Fr(1, 1000))]
    R.eq("Airfoil.extrapolate: defaults", num(int(all(ok))), ONE, c, FA)


def airfoil_(R):
    """every polar is extrapolated with the arguments given (Polar.extrapolate by contract)"""
    pyex.ALIGN[0] = (m_, "i")
    base_ = af_ctx([cmp_("<=", 1, m_), cmp_("<=", 0, i_), cmp_("<", i_, m_)])
    pyex.SORTED[0] = sorted_re()

    def run():
        M, rec = prep()
        import inspect
        sg = inspect.signature(M["Polar"].extrapolate)

        def ext(self, *a, **k):
            b = sg.bind(self, *a, **k)
            b.apply_defaults()
            o = M["Polar"].__new__(M["Polar"])
            o.Re, o.src, o.args = self.Re, self, b.arguments
            return o
        M["Polar"].extrapolate = ext
        a = airfoil(M)
        r = a.extrapolate(sc("cdmax"), sc("AR"), sc("cdmin"))
        q = r.polars[pyex.mki(i_)]
        g = dict(q.args)
        ok = type(r) is M["Airfoil"] and same_dim(pyex.dim(pyex.s_len(r.polars)), m_) and q.src is a.polars[pyex.mki(i_)]
        ok = ok and all(isinstance(g[k], V) and g[k].n is sym(k) for k in ("cdmax", "AR", "cdmin")) and g["nalpha"] == 15
        fr = all(unchanged(x) for x in a.polars.made.values()) and type(a.polars) is Polars and not pyex.MACH.foreign
        return ok, fr
    for c, (ok, fr), _ in runs(run, base_):
        R.eq("every polar extrapolated with the arguments", num(int(ok)), ONE, c, FA)
        R.eq("original airfoil unchanged", num(int(fr)), ONE, c, FA)
    pyex.ALIGN[0] = None
