"""blend, getPolar, interpToCommonAlpha, createDataGrid: linear interpolation between polars."""
from afpstub import *
F = "airfoilprep.py:Polar.blend"
TRUSTED = ["numpy by lib/npshim.py: interp, union1d/unique and searchsorted by their documented contracts", "sorted and copy.deepcopy by their documented contracts"]
ASSUMPTIONS = ["Airfoil.blend: weight in [0,1] (blended Reynolds numbers then keep their order), getPolar and Polar.blend by their contracts (proved in the other tasks)", "real arithmetic"]


def tasks(tier):
    return [("Polar.blend", blend), ("Airfoil.getPolar", get_polar), ("Airfoil.__init__", constructor), ("Airfoil.blend", af_blend),
            ("interpToCommonAlpha given", lambda R: common(R, True)), ("interpToCommonAlpha union", lambda R: common(R, False)), ("createDataGrid", grid)]


q_, w = ivar("q"), sym("weight")


def lerp2(a, b):
    return (1 - w) * a + w * b


def blend(R):
    p1, p2 = P("1"), P("2")
    base_ = af_ctx([cmp_("<=", 2, p1.n), cmp_("<=", 2, p2.n), cmp_("<=", 0, q_)])

    def run():
        M = airfoilprep()
        a, b = p1.make(M), p2.make(M)
        U = union_of(p1.table("alpha"), p2.table("alpha"))
        n = U.dims[0]
        cd = cmp_("<", q_, n)
        ctx().assume(*cd)
        u = U.at(q_)
        ext = {k: [node(getattr(p.arr("alpha"), k)()) for p in (p1, p2)] for k in ("min", "max")}
        inside = all([truth(cmp_("<=", x, u)) for x in ext["min"]] + [truth(cmp_("<=", u, x)) for x in ext["max"]])
        r = a.blend(b, V(w))
        ok = type(r) is M["Polar"] and all(isinstance(getattr(r, k), pyex.Sel) and same_dim(getattr(r, k).src.dims[0], n) and getattr(r, k).src.ndim == 1 for k in QS)
        got = None
        if ok:
            ok = all(truth(getattr(r, k).mask.at(q_)) == inside for k in QS)
            got = {k: lift(getattr(r, k).src.at(q_)) for k in QS}
        possible()
        want = dict(alpha=u, **{k: lerp2(p1.interp(u, k), p2.interp(u, k)) for k in QS[1:]})
        return ok, inside, got, want, node(r.Re), unchanged(a) and unchanged(b) and not pyex.MACH.foreign
    for c, (ok, inside, got, want, Re, fr), m in runs(run, base_):
        t = label(c, base_) + " "
        R.eq(t + "the angles of the union inside the common range, and no other", num(int(ok)), ONE, c, F)
        R.eq(t + "originals unchanged", num(int(fr)), ONE, c, F)
        R.eq(t + "Reynolds number", Re, lerp2(p1.Re, p2.Re), c, F)
        if got and inside:
            for k in QS:
                R.eq(t + k + "(q)", got[k], want[k], c, F)


class Blended:
    def __init__(self, a, b, w):
        self.a, self.b, self.w = a, b, w


def get_polar(R):
    FG = "airfoilprep.py:Airfoil.getPolar"
    base_ = af_ctx([cmp_("<=", 1, m_), cmp_("<=", 0, j_)])
    x = sym("Re")

    def run():
        M = airfoilprep()
        M["Polar"].blend = lambda s, o, weight: Blended(s, o, weight)
        a = airfoil(M)
        P0, P1 = P("", aff(0)), P("", m_ - 1)
        if truth(cmp_("<=", x, P0.Re)):
            where = "low"
        elif truth(cmp_(">=", x, P1.Re)):
            where = "high"
        else:
            where = "between"
            if truth(cmp_("==", m_, 1)):
                return None
        r = a.getPolar(V(x))
        fr = all(unchanged(p) for p in a.polars.made.values()) and type(a.polars) is Polars and not pyex.MACH.foreign
        if where == "between":
            if not isinstance(r, Blended):
                return where, False, fr, None, None, None
            k, l = r.a._spec.k, r.b._spec.k
            lo, hi = P("", k).Re, P("", l).Re
            ok = l - k == aff(1) and truth(cmp_("<=", lo, x)) and truth(cmp_("<=", x, hi)) and r.a in a.polars.made.values() and r.b in a.polars.made.values()
            return where, ok, fr, [node(r.w) * (hi - lo)], [x - lo], None
        e = P0 if where == "low" else P1
        # (at a single stored number the two ends are the same polar)
        src = a.polars.made.get(e.k)
        ok = type(r) is M["Polar"] and all(isinstance(getattr(r, k), A) and r is not s and distinct(r, s) for k in QS for s in a.polars.made.values())
        nn = ivar("N[%r]" % (aff(e.k),))
        ok = ok and all(size1(getattr(r, k), nn) for k in QS)
        cd = cmp_("<", j_, nn)
        ctx().assume(*cd)
        got = [lift(getattr(r, k).at(j_)) for k in QS] + [node(r.Re)] if ok else []
        want = [e.at(k, j_) for k in QS] + [e.Re] if ok else []
        return where, ok, fr, got, want, e
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        where, ok, fr, got, want, e = res
        t = where + label(c, base_) + ": "
        R.eq(t + ("blend of the two neighbours" if where == "between" else "a copy of the end polar"), num(int(ok)), ONE, c, FG)
        R.eq(t + "stored polars unchanged", num(int(fr)), ONE, c, FG)
        for k, (g, s) in enumerate(zip(got or [], want or [])):
            R.eq(t + ("weight in proportion" if where == "between" else "field %d" % k), g, s, c, FG)


def constructor(R):
    base_ = af_ctx([cmp_("<=", 1, m_)])
    pyex.SORTED[0] = None

    def run():
        M = airfoilprep()
        ps = Polars(M)
        a = M["Airfoil"](ps)
        s = a.polars
        ok = isinstance(s, pyex.SortedSeq) and s.base is ps and s.key is P("", s.q).Re
        return ok, a.polar_type is M["Polar"]
    for c, (ok, ty), m in runs(run, base_):
        R.eq("polars in order of Reynolds number", num(int(ok)), ONE, c, "airfoilprep.py:Airfoil.__init__")
        R.eq("polar type kept", num(int(ty)), ONE, c, "airfoilprep.py:Airfoil.__init__")


def af_blend(R):
    """Airfoil.blend over the union of the Reynolds numbers, getPolar and Polar.blend by contract"""
    FB = "airfoilprep.py:Airfoil.blend"
    base_ = af_ctx([cmp_("<=", 1, ivar("m1")), cmp_("<=", 1, ivar("m2")), cmp_("<=", 0, i_), cmp_("<=", 0, w), cmp_("<=", w, 1)])

    def key(tag, n):
        t = tmpvar()
        return psum(t, fn("at", aff_node(ivar(t)), isubst(P(tag, ivar("%k")).Re, {"%k": ivar(t) - 1})), n)

    def run():
        M = airfoilprep()

        class Got(M["Polar"]):
            def __init__(self, owner, Re):
                self.owner, self.q = owner, node(Re)
                self.Re = V(fn("getpolar.Re" + owner, self.q))

            def blend(self, o, weight):
                return Mixed(self, o, node(weight))

        class Mixed(M["Polar"]):
            def __init__(self, x, y, wt):
                self.x, self.y, self.w = x, y, wt
                self.Re = V((1 - wt) * node(x.Re) + wt * node(y.Re))
        a, b = airfoil(M, "1", ivar("m1")), airfoil(M, "2", ivar("m2"))
        which = {id(a): "1", id(b): "2"}
        M["Airfoil"].getPolar = lambda s, Re: Got(which[id(s)], Re)
        U = pyex.union_array(frozenset([key("1", ivar("m1")), key("2", ivar("m2"))]))
        n = U.dims[0]
        if not truth(cmp_("<", i_, n)):
            return None
        pyex.MACH.align = (n, "i")
        u = U.at(i_)
        pyex.SORTED[0] = lambda e, q: ir_same(e, lerp2(fn("getpolar.Re1", U.at(q)), fn("getpolar.Re2", U.at(q))))
        r = a.blend(b, V(w))
        ok = type(r) is M["Airfoil"] and same_dim(pyex.dim(pyex.s_len(r.polars)), n)
        p = r.polars[pyex.mki(i_)]
        ok = ok and isinstance(p, Mixed) and (p.x.owner, p.y.owner) == ("1", "2")
        fr = all(unchanged(x) for o in (a, b) for x in o.polars.made.values()) and not pyex.MACH.foreign
        return ok, fr, [p.x.q, p.y.q, p.w] if ok else [], [u, u, w]
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        ok, fr, got, want = res
        t = label(c, base_) + " "
        R.eq(t + "one polar per Reynolds number of either, first of self then of other", num(int(ok)), ONE, c, FB)
        R.eq(t + "originals unchanged", num(int(fr)), ONE, c, FB)
        for k, (g, s) in enumerate(zip(got, want)):
            R.eq(t + ("looked up in self", "looked up in other", "weight")[k], g, s, c, FB)


def ir_same(a, b):
    from nf import is_zero
    return a is b or is_zero(a - b, Env({}, obl._AnyInt(), {}, 7), 20000, 5.0)


import obl


def setup(extra=()):
    pyex.ALIGN[0] = (m_, "i")
    pyex.SORTED[0] = sorted_re()
    return af_ctx([cmp_("<=", 1, m_), cmp_("<=", 0, i_), cmp_("<", i_, m_), cmp_("<=", 0, j_)] + list(extra))


def intact(a):
    return all(unchanged(x) for x in a.polars.made.values()) and type(a.polars) is Polars and not pyex.MACH.foreign


def common(R, given):
    FC = "airfoilprep.py:Airfoil.interpToCommonAlpha"
    base_ = setup([cmp_("<", j_, ivar("K")), cmp_("<=", 1, ivar("K"))] if given else [])
    p = P("", i_)

    def run():
        M = airfoilprep()
        a = airfoil(M)
        if given:
            x = varr("x", ivar("K"))
        else:
            x = union_of(over(p, i_, m_))
            if not truth(cmp_("<", j_, x.dims[0])):
                return None
        n = x.dims[0]
        r = a.interpToCommonAlpha(x) if given else a.interpToCommonAlpha()
        ok = type(r) is M["Airfoil"] and same_dim(pyex.dim(pyex.s_len(r.polars)), m_)
        s = r.polars[pyex.mki(i_)]
        ok = ok and type(s) is M["Polar"] and all(size1(getattr(s, k), n) for k in QS)
        u = x.at(j_)
        return ok, intact(a), [gen(getattr(s, k), j_) for k in QS] + [node(s.Re)], [u] + [p.interp(u, k) for k in QS[1:]] + [p.Re]
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        ok, fr, got, want = res
        t = label(c, base_) + " "
        R.eq(t + "every polar on the %s angles" % ("given" if given else "union of all"), num(int(ok)), ONE, c, FC)
        R.eq(t + "original unchanged", num(int(fr)), ONE, c, FC)
        for k, (g, s) in enumerate(zip(got, want)):
            R.eq(t + (QS + ("Re",))[k], g, s, c, FC)


def grid(R):
    FC = "airfoilprep.py:Airfoil.createDataGrid"
    base_ = setup()
    p = P("", i_)

    def run():
        M = airfoilprep()
        a = airfoil(M)
        x = union_of(over(p, i_, m_))
        n = x.dims[0]
        if not truth(cmp_("<", j_, n)):
            return None
        alpha, Re, cl, cd, cm = a.createDataGrid()
        u = x.at(j_)
        ok = size1(alpha, n) and same_dim(pyex.dim(pyex.s_len(Re)), m_) and all(isinstance(z, A) and z.ndim == 2 and same_dim(z.dims[0], n) and same_dim(z.dims[1], m_) for z in (cl, cd, cm))
        return ok, intact(a), [gen(alpha, j_), node(Re[pyex.mki(i_)])] + [lift(z.at(j_, i_)) for z in (cl, cd, cm)], [u, p.Re] + [p.interp(u, k) for k in QS[1:]]
    for c, res, m in runs(run, base_):
        if res is None:
            continue
        ok, fr, got, want = res
        t = label(c, base_) + " "
        R.eq(t + "shapes", num(int(ok)), ONE, c, FC)
        R.eq(t + "original unchanged", num(int(fr)), ONE, c, FC)
        for k, (g, s) in enumerate(zip(got, want)):
            R.eq(t + ("alpha", "Re", "cl", "cd", "cm")[k] + "(j,i)", g, s, c, FC)
