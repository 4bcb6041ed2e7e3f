"""Contexts and specifications of airfoilprep.py."""
from pymods import *
import kern

n_, m_, j_, i_ = ivar("n"), ivar("m"), ivar("j"), ivar("i")
QS = ("alpha", "cl", "cd", "cm")


def ranges(k):
    t = {"alpha": (-10, 40), "alpha_max_corr": (20, 40), "alpha_linear_min": (-8, -2), "alpha_linear_max": (5, 20), "r_over_R": (0.1, 1), "chord_over_r": (0.05, 0.5), "tsr": (1, 10)}
    return t.get(k, (0.2, 1.5))


def af_ctx(hyps=(), seed=1):
    c = base(ranges, seed)
    c.use_z3_real = False
    for h in hyps:
        if not isinstance(h, bool):
            c.assume(*h)
    return c


def airfoilprep():
    m = dict(npshim.MODS)
    npshim.INTERP[0] = npshim.interp_opaque
    return load(src("airfoilprep.py"), "ccblade.airfoilprep", m)


def _uf(lo, hi, tag):
    return lambda *a: mpf(random.Random("%s/%s" % (tag, [mpmath.nstr(x, 12) for x in a])).uniform(lo, hi))


for _q, _r in dict(alpha=(-10, 40), cl=(-.5, 1.5), cd=(.01, .2), cm=(-.1, .1), Re=(.2, 3)).items():
    for _t in ("", "1", "2"):
        ir.UF["polar." + _q + _t] = _uf(_r[0], _r[1], _q + _t)


class P:
    """the data of one polar; values are opaque functions of the indices"""

    def __init__(self, tag="", k=None, n=None, common=False):
        self.tag, self.k = tag, k
        self.n = n if n is not None else ivar("n" + tag)
        self.common = common

    def at(self, q, j):
        if self.k is None:
            return elem(q + self.tag, aff(j))
        if self.common and q == "alpha":
            return elem("alpha" + self.tag, aff(j))
        return fn("polar." + q + self.tag, aff_node(aff(self.k)), aff_node(aff(j)))

    @property
    def Re(self):
        return sym("Re" + self.tag) if self.k is None else fn("polar.Re" + self.tag, aff_node(aff(self.k)))

    def arr(self, q):
        a = new((self.n,), lambda idx: self.at(q, idx[0]))
        a.root.owner = q + self.tag
        a.root.tname = (self.table(q), a.root.g)
        npshim.NAMES[npshim.by_content(lambda j: self.at(q, j), aff(self.n))] = self.table(q)
        return a

    def __deepcopy__(self, memo):
        return self

    def table(self, q):
        return sym("tab.%s%s" % (q, self.tag)) if self.k is None else fn("tab.polar.%s%s" % (q, self.tag), aff_node(aff(self.k)))

    def interp(self, x, q):
        """specified piecewise linear interpolation of q over this polar's angles"""
        return fn("interp", x, self.table("alpha"), self.table(q))

    def make(self, M):
        o = M["Polar"].__new__(M["Polar"])
        o.Re = V(self.Re)
        for q in QS:
            setattr(o, q, self.arr(q))
        o.__dict__["_spec"] = self
        return o


def unchanged(p):
    """the polar object holds its original data (generic element)"""
    s = p._spec
    d = dict(p.__dict__)
    ok = [node(d.pop("Re")) is s.Re]
    d.pop("_spec")
    for q in QS:
        a = d.pop(q)
        ok.append(isinstance(a, A) and a.ndim == 1 and a.dims[0] == s.n and a.at(ivar("@k")) is s.at(q, ivar("@k")))
    return all(ok)


class Polars(SymSeq):
    """a list of m polars in nondecreasing order of Reynolds number, polar k having N(k) angles"""

    def __init__(self, M, tag="", m=m_):
        self.M, self.tag, self.made = M, tag, {}
        super().__init__(m, self.one)

    def one(self, k):
        k = aff(k)
        if k not in self.made:
            nm = "N%s[%r]" % (self.tag, k)
            self.made[k] = P(self.tag, k, ivar(nm)).make(self.M)
            cd = cmp_("<=", 2, ivar(nm))
            pyex.MACH.facts.add(cd[0])
            if cd[0] not in [h for h in ctx().hyps]:
                ctx().assume(*cd)
        return self.made[k]


def sorted_re(tag=""):
    def f(e, q):
        return e is P(tag, q).Re
    return f


def airfoil(M, tag="", m=m_):
    o = M["Airfoil"].__new__(M["Airfoil"])
    o.polars = Polars(M, tag, m)
    o.polar_type = M["Polar"]
    return o


def size1(a, n):
    return isinstance(a, A) and a.ndim == 1 and same_dim(a.dims[0], n)


def union_of(*parts):
    return pyex.union_array(frozenset(parts))


def over(p, k, m):
    """name of the union of p's angles over the polars k = 0..m-1"""
    t = tmpvar()
    return fn("union_over", psum(t, fn("part", isubst(P(p.tag, ivar("%k")).table("alpha"), {"%k": ivar(t) - 1})), m))


def label(c, base_):
    return "[%s]" % " ".join(("" if q else "!") + h.op for h, q in c.hyps[len(base_.hyps):] if h.kind == "r")


def distinct(new_, old):
    """no array of the new polar shares storage with one of the old"""
    return all(getattr(new_, q).root is not getattr(old, q).root for q in QS)


def possible():
    """drops a path whose real comparisons are contradictory (linear order)"""
    import z3
    c = ctx()
    s = z3.Solver()
    s.set("timeout", 3000)
    for h, p in c.hyps:
        if h.kind == "r":
            s.add(c._zc(h, p))
    if s.check() == z3.unsat:
        raise pyex.Vacuous()
